"""C18: results of renormalisation objects do not depend on when, in which order or how often they are asked for.

Space: all histories (up to a depth) of steps and queries on TWO objects of the same class with different tensors and
bond limits, interleaved.  Reference: the answers of an object of its own that is advanced straight to that step and
asked that single question.
"""
import functools
import os

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.models.Ising import plaquetteIsingTensor
from CTL.examples.TRG import SquareTRG, TriangleTRG
from CTL.examples.HOTRG import HOTRG
from CTL.examples.CTMRG import CTMRG
from CTL.examples.impurity import ImpurityTensorNetwork

from mc.histories import explore
from mc.model import generic, jkey
from mc.props.c17 import as_tensor, positive
from mc.props.c19 import well

PROPERTY = 'C18'
RULE = 'all interleaved step/query histories on two objects per class up to the depth bound'
ASSUMPTIONS = ['tolerance 1e-9 (relative)']
CASE_CPU_S = 120
TIER = os.environ.get('VERIF_TIER', 'quick')


def sides():
    return (1, 2, 3, 4, 5) if TIER == 'thorough' else (1, 2, 3, 4)


def bounds(tier):
    t = tier == 'thorough'
    return {'depth': {'ctmrg': 4 if t else 3, 'rg': 5 if t else 4, 'impurity': 6 if t else 4}, 'sides': list(sides())}


# ---- objects under test; every one built from fixed tensors
def make_object(cls, which):
    if cls == 'ctmrg':
        if which == 0:
            return CTMRG(plaquetteIsingTensor(0.4, diamondForm=True), chi=2)
        raw = positive((2, 2, 2, 2), 1)
        sym = raw + raw.transpose(2, 1, 0, 3)
        return CTMRG(as_tensor(sym + sym.transpose(0, 3, 2, 1), 'lrud'), chi=6)
    if cls == 'trg':
        return SquareTRG(as_tensor(well((2, 2, 2, 2), which), 'uldr'), chi=[2, 4][which])
    if cls == 'tri':
        return TriangleTRG(alpha=[0.5, 1.2][which], chi=[3, 4][which])
    if cls == 'hotrg':
        if which == 0:
            return HOTRG(as_tensor(well((2, 2, 2, 2), 0), 'uldr'), chiH=2)
        return HOTRG(as_tensor(well((1, 2, 1, 2), 1), 'rdlu', dof=2), chiH=3, chiV=2)
    raise AssertionError(cls)


def ask(obj, q):
    kind = q[0]
    if kind == 'Z':
        return [obj.getZ(q[1])]
    if kind == 'log':
        return [float(x) for x in obj.logZDensity()]
    if kind == 'norm':
        return [obj.getNorm(q[1])]
    if kind == 'trace':
        return [obj.pureTensorTrace(q[1])]
    raise AssertionError(q)


@functools.lru_cache(maxsize=None)
def fresh(cls, which, steps, q):
    obj = make_object(cls, which)
    for _ in range(steps):
        obj.iterate()
    return tuple(ask(obj, q))


def same(got, want):
    return len(got) == len(want) and all(abs(g - w) <= 1e-9 * max(1, abs(w)) for g, w in zip(got, want))


def queries(cls, steps):
    if cls == 'ctmrg':
        return [('Z', L) for L in sides()]
    qs = [('log',)]
    if cls == 'hotrg':
        qs += [('norm', i) for i in range(steps + 1)] + [('trace', i) for i in range(steps + 1)]
    return qs


def cases(tier):
    d = bounds(tier)['depth']
    for cls in ('trg', 'tri', 'hotrg'):
        for first in rg_ops(cls, [0, 0]):
            for second in rg_ops(cls, [0, 0]):
                yield {'cls': cls, 'depth': d['rg'], 'prefix': [first, second]}
    for first in rg_ops('ctmrg', [0, 0]):
        for second in rg_ops('ctmrg', [0, 0]):
            yield {'cls': 'ctmrg', 'depth': d['ctmrg'], 'prefix': [first, second]}
    for a in IMP_OPS:
        for b in IMP_OPS:
            yield {'cls': 'impurity', 'depth': d['impurity'], 'prefix': [a, b]}


def rg_ops(cls, steps):
    ops = []
    for which in (0, 1):
        ops.append([which, 'iterate'])
        if cls == 'ctmrg':
            ops += [[which, 'Z', L] for L in (sides() if TIER == 'thorough' else (1, 2, 3))]
        else:
            ops.append([which, 'log'])
            if cls == 'hotrg':
                ops += [[which, 'trace', 0], [which, 'badnorm']] if TIER == 'thorough' else [[which, 'trace', 0]]
    return ops


def run_rg(case, ctx):
    cls = case['cls']

    def make():
        return [make_object(cls, 0), make_object(cls, 1)], {'steps': [0, 0], 'hist': []}

    def ops(model):
        # a run of the same question asked three times adds nothing
        return [o for o in rg_ops(cls, model['steps']) if model['hist'][-2:] != [o, o] or o[1] == 'iterate']

    def apply(real, model, op, ctx):
        which = op[0]
        obj = real[which]
        steps = list(model['steps'])
        if op[1] == 'iterate':
            if steps[which] < 4:
                obj.iterate()
                steps[which] += 1
        elif op[1] == 'badnorm':
            try:
                obj.getNorm(steps[which] + 1)
            except (AssertionError, IndexError):
                pass
            else:
                ctx.fail('the norm of a step not yet made is not refused')
        else:
            compare(obj, cls, which, steps[which], tuple(op[1:]), ctx)
        return real, {'steps': steps, 'hist': model['hist'] + [op]}

    def observe(real, model, ctx):
        for which in (0, 1):
            for q in queries(cls, model['steps'][which]):
                compare(real[which], cls, which, model['steps'][which], q, ctx)
            for q in queries(cls, model['steps'][which])[::-1]:
                compare(real[which], cls, which, model['steps'][which], q, ctx)

    def key(real, model):
        return jkey(model['hist'])

    explore(make, ops, apply, observe, key, case['depth'], ctx, ['rg', cls], prefix=case['prefix'],
            case_of=lambda h: dict(case, prefix=h, depth=len(h)))


def compare(obj, cls, which, steps, q, ctx):
    want = fresh(cls, which, 0 if cls == 'ctmrg' else steps, q)
    got = ask(obj, q)
    ctx.step()
    ctx.check(same(got, want), lambda: '%s object %d after %d steps answers %r to %r, a fresh one %r' % (cls, which, steps, got, q, want))


# ---- impurity networks on a shared renormalisation object
IMP_OPS = [['rg'], ['log'], ['imp', 0], ['imp', 1], ['measure', 0], ['measure', 1]]


def imp_setup():
    shape = (2, 2, 2, 2)
    a = as_tensor(well(shape, 0), 'uldr', dof=1)
    rg = HOTRG(a, chiH=2)
    m = as_tensor(0.2 * generic(shape, 3), 'ldru', dof=1)
    m2 = as_tensor(0.1 * generic(shape, 4), 'uldr', dof=1)
    imps = [ImpurityTensorNetwork([a, m, m2]), ImpurityTensorNetwork([a, m2], 2)]
    for i in imps:
        i.setRG(rg)
    return rg, imps


@functools.lru_cache(maxsize=None)
def imp_fresh(which, rgsteps, steps):
    rg, imps = imp_setup()
    for _ in range(rgsteps):
        rg.iterate()
    for _ in range(steps):
        imps[which].iterate()
    return tuple(tuple(float(x) for x in row) for row in imps[which].measureObservables())


def run_imp(case, ctx):
    def make():
        rg, imps = imp_setup()
        return {'rg': rg, 'imps': imps}, {'rg': 0, 'imp': [0, 0], 'hist': []}

    def ops(model):
        return [o for o in IMP_OPS if model['hist'][-2:] != [o, o] or o[0] in ('rg', 'imp')]

    def apply(real, model, op, ctx):
        model = {'rg': model['rg'], 'imp': list(model['imp']), 'hist': model['hist'] + [op]}
        if op[0] == 'rg':
            if model['rg'] < 3:
                real['rg'].iterate()
                model['rg'] += 1
        elif op[0] == 'log':
            check_log(real, model, ctx)
        elif op[0] == 'imp':
            w = op[1]
            if model['imp'][w] < model['rg']:
                real['imps'][w].iterate()
                model['imp'][w] += 1
            else:
                try:
                    real['imps'][w].iterate()
                except (AssertionError, IndexError):
                    pass
                else:
                    ctx.fail('an impurity step without a step of the renormalisation object is not refused')
        else:
            check_measure(real, model, op[1], ctx)
        return real, model

    def check_measure(real, model, w, ctx):
        got = [[float(x) for x in row] for row in real['imps'][w].measureObservables()]
        want = imp_fresh(w, max(model['rg'], model['imp'][w]), model['imp'][w])
        ctx.step()
        if model['imp'][w] == 0:
            # before the first step there is nothing, or just the initial tensors
            ctx.check(len(got) <= 1, lambda: 'observables before the first step: %r' % (got,))
            return
        ctx.check(len(got) == len(want) and all(same(g, x) for g, x in zip(got, want)),
                  lambda: 'network %d after %d steps measures %r, a fresh one %r' % (w, model['imp'][w], got, want))

    def check_log(real, model, ctx):
        rg, _ = imp_setup()
        for _ in range(model['rg']):
            rg.iterate()
        ctx.check(same([float(x) for x in real['rg'].logZDensity()], [float(x) for x in rg.logZDensity()]),
                  'the densities of the renormalisation object changed')
        ctx.step()

    def observe(real, model, ctx):
        for w in (0, 1):
            check_measure(real, model, w, ctx)
            check_measure(real, model, w, ctx)
        check_log(real, model, ctx)

    def key(real, model):
        return jkey(model['hist'])

    explore(make, ops, apply, observe, key, case['depth'], ctx, ['imp'], prefix=case['prefix'],
            case_of=lambda h: dict(case, prefix=h, depth=len(h)))


def run_case(case, ctx):
    if case['cls'] == 'impurity':
        run_imp(case, ctx)
    else:
        run_rg(case, ctx)
    ctx.outcome(case['cls'])
