"""C12: an MPS keeps its state under every sequence of operations."""
import itertools
import sys

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.contract import contractTwoTensors
from CTL.examples.MPS import FreeBoundaryMPS, createMPSFromTensor, makeRandomMPS

from mc.core import Violated
from mc.histories import run_only
from mc.model import generic, close, show, consistent_legs, jkey, einsum

PROPERTY = 'C12'
RULE = ('breadth-first over all histories of canonicalising at every site, swapping, moving, making adjacent, merging neighbours, replacing a '
        'site and copying, on chains of 1..4 sites (generic, complex, product, rank-deficient, given in any leg order, with and without a '
        'binding bond limit); after every operation the state, the bond dimensions, the links and the reported centre are checked')
ASSUMPTIONS = ['floating-point comparison with relative tolerance 1e-8', 'with a binding bond limit only bonds, structure and centre are checked']

PHYS = (2, 3, 4, 5, 6, 3)
BONDS = {'list': (2, 3, 2, 4, 3), 'listcopy': (2, 3, 2), 'tight': (2, 2, 2, 2, 2), 'listnone': (60, 60), 'ones': (1, 2, 1, 1)}
#         name, number of sites, bond limit, dimensions of the sites (if not the standard ones)
INITS = [('tensor', 1, 50), ('tensor', 2, 50), ('tensor', 3, 50), ('cplx', 3, 50), ('tensor', 4, 200), ('cplx', 2, 50), ('product', 3, 50),
         ('ghz', 4, 20), ('list', 3, 50), ('listcopy', 3, 50), ('listnone', 3, None), ('listnone', 2, None), ('random', 3, 60), ('random', 2, 60), ('random', 4, 400),
         ('tight', 3, 2), ('tight', 4, 3), ('tight', 2, 1),
         # longer chains, equal and trivial sites, integer entries: shorter histories
         ('list', 5, 100), ('list', 6, 200), ('tensor', 5, 300), ('cplx', 5, 300, (2, 2, 2, 2, 2)), ('random', 6, 200), ('tight', 6, 2), ('ghz', 6, 9, (2,) * 6),
         ('tensor', 3, 50, (2, 2, 2)), ('list', 4, 200, (3, 3, 3, 3)), ('tensor', 3, 50, (1, 3, 1)), ('ones', 5, 50, (2, 1, 3, 2, 1)), ('int', 3, 50), ('int', 4, 200, (2, 2, 2, 2)),
         ('cplx', 4, 900, (7, 3, 8, 2))]


def depth(tier, i=0):
    d = 3 if tier == 'quick' else 4
    return d if i < LONG else d - 1 if INITS[i][1] < 5 else d - 1 - (tier == 'quick' and INITS[i][1] > 5)


LONG = 18


def bounds(tier):
    return {'sites': '1..6', 'depth': depth(tier), 'initial_chains': len(INITS)}


class Model:
    def __init__(self, state, sites):
        self.state = state      # axis k belongs to the site at position k
        self.sites = list(sites)
        self.centre = None
        self.exact = True


def site_list(n, bond, order, phys):
    """Chain given by the user: arbitrary leg names and orders."""
    ts = []
    for i in range(n):
        legs = [('phys%d' % i, phys[i])]
        if i > 0:
            legs.append(('left', bond[i - 1]))
        if i < n - 1:
            legs.append(('right', bond[i]))
        perm = list(itertools.permutations(range(len(legs))))[order[i] % (6 if len(legs) == 3 else 2)]
        legs = [legs[p] for p in perm]
        ts.append(Tensor(labels=[l for l, _ in legs], data=generic([d for _, d in legs], seed=i) / 3.0))
    for i in range(n - 1):
        if i % 2:
            makeLink('right', 'left', ts[i], ts[i + 1])
        else:
            makeLink('left', 'right', ts[i + 1], ts[i])
    return ts


def dense_list(ts, labels=('left', 'phys', 'right')):
    """Value of a chain by matrix products over its own links."""
    n = len(ts)
    terms = []
    ids = {}
    out = []
    for i, t in enumerate(ts):
        axes = []
        for leg in t.legs:
            o = leg.anotherSide()
            inside = [j for j in range(n) if o is not None and any(x is o for x in ts[j].legs)]
            if inside:
                key = frozenset((id(leg), id(o)))
                axes.append(ids.setdefault(key, len(ids)))
            else:
                x = len(ids)
                ids[('free', i, id(leg))] = x
                axes.append(x)
                out.append((i, x))
        terms.append((np.asarray(t.a), axes))
    return einsum(terms, [x for _, x in sorted(out)])


def maker(k):
    name, n, chi = INITS[k][:3]
    phys = INITS[k][3] if len(INITS[k]) > 3 else PHYS[:n]

    def make():
        if name in ('tensor', 'cplx'):
            a = generic(phys, seed=n, cplx=name == 'cplx') / 7.0
            mps = createMPSFromTensor(Tensor(labels=list('abcdef')[:n], data=a), chi=chi)
            state = a
        elif name == 'product':
            a = generic(phys[:1], 1)
            for d in phys[1:]:
                a = np.multiply.outer(a, generic((d,), d))
            mps = createMPSFromTensor(Tensor(data=a), chi=chi)
            state = a
        elif name == 'int':
            a = (np.arange(int(np.prod(phys))).reshape(phys) % 5 - 2)
            mps = createMPSFromTensor(Tensor(data=a), chi=chi)
            state = a * 1.0
        elif name == 'ghz':
            a = np.zeros(phys)
            for i in range(2):
                a[(i,) * n] = i + 1.0
            mps = createMPSFromTensor(Tensor(data=a), chi=chi)
            state = a
        elif name in ('list', 'listcopy', 'listnone', 'tight', 'ones'):
            ts = site_list(n, [min(chi or 99, b) for b in BONDS[name]] if name == 'tight' else BONDS[name], (3, 4, 1, 0, 5, 1), phys)
            state = dense_list(ts)
            if name == 'listcopy':
                keep = [[(l.name, l.dim, l.bond) for l in t.legs] for t in ts]
            mps = FreeBoundaryMPS(ts, chi=chi, inplace=name != 'listcopy')
            if name == 'listnone' and mps.chi == -1:
                raise Violated('FreeBoundaryMPS(chi = None) takes -1 as the bond limit of a chain with bonds of dimension 60', key='mps-chi-none')
            if name == 'listcopy':
                assert keep == [[(l.name, l.dim, l.bond) for l in t.legs] for t in ts], 'FreeBoundaryMPS(inplace = False) changed its argument'
        else:
            np.random.seed(7)
            mps = makeRandomMPS(n, [2, 3, 2, 4, 3][:n - 1] if n != 3 else 3, list(phys), chi=chi)
            state = dense_list([mps.getTensor(i) for i in range(n)])
        m = Model(state, range(n))
        m.exact = name != 'tight'
        return mps, m
    return make


def ops_for(m):
    n = len(m.sites)
    out = []
    for i in range(n):
        out.append(['canonicalize', i])
        for j in range(n):
            if abs(i - j) == 1:
                out.append(['swap', i, j])
            if i != j:
                out.append(['move', i, j])
                out.append(['adjacent', i, j])
        if i + 1 < n and m.state.shape[i] != m.state.shape[i + 1]:
            out.append(['merge', i])
    if n:
        out.append(['set', n - 1])
        out.append(['set', n // 2])
        out.append(['copy'])
    return out


def moved(order, i, j):
    order = list(order)
    x = order.pop(i)
    order.insert(j, x)
    return order


def apply(mps, m, op, ctx):
    k = op[0]
    n = len(m.sites)
    perm = list(range(n))
    centre = None
    if k == 'canonicalize':
        mps.canonicalize(op[1])
        centre = op[1]
    elif k == 'swap':
        mps.swap(op[1], op[2])
        perm = moved(perm, op[1], op[2])
    elif k == 'move':
        mps.moveTensor(op[1], op[2], warningFlag=False)
        perm = moved(perm, op[1], op[2])
    elif k == 'adjacent':
        i, j = sorted(op[1:])
        res = mps.makeAdjacent(op[1], op[2])
        perm = moved(perm, i, j - 1)
        ctx.check(tuple(res) == (j - 1, j), lambda: '%r returned %r' % (op, res))
        if i == j - 1:
            centre = m.centre
    elif k == 'merge':
        i = op[1]
        t = contractTwoTensors(mps.getTensor(i), mps.getTensor(i + 1))
        # the physical legs in the order of the sites: dimensions of different sites differ
        want = [m.state.shape[i], m.state.shape[i + 1]]
        outer = [l for l in t.legs if l.name == 'o']
        if want[0] != want[1]:
            outer.sort(key=lambda l: [l.dim != want[0]])
        t.outProduct(outer, 'o')
        mps.mergeTensor(i, t)
        if m.centre is not None and mps.activeIdx == m.centre:
            ctx.record(Violated('mergeTensor keeps the canonical centre %r of the chain it was before' % m.centre, key='mps-merge-keeps-centre'))
            mps.activeIdx = None
        shape = m.state.shape
        m.state = m.state.reshape(shape[:i] + (shape[i] * shape[i + 1],) + shape[i + 2:])
        m.sites[i:i + 2] = [[m.sites[i], m.sites[i + 1]]]
        perm = list(range(n - 1))
    elif k == 'set':
        t = mps.getTensor(op[1])
        new = Tensor(legs=list(t.legs), data=np.asarray(t.a) * -2.0)
        mps.setTensor(op[1], new)
        m.state = m.state * -2.0
    elif k == 'copy':
        ts = mps.copyOfTensors()
        ctx.check(not any(a is mps.getTensor(i) for a in ts for i in range(n)), 'copyOfTensors returns its own tensors')
        for t in ts:
            consistent_legs(t, 'copyOfTensors:')
        if m.exact:
            ctx.check(close(dense_list(ts), m.state, 1e-8), 'copyOfTensors has another value')
        mps = FreeBoundaryMPS(ts, chi=mps.chi)
    if perm != list(range(len(perm))):
        m.state = np.transpose(m.state, perm)
        m.sites = [m.sites[p] for p in perm]
    m.centre = centre
    verify(mps, m, op, ctx)
    return mps, m


def verify(mps, m, op, ctx):
    n = len(m.sites)
    where = 'after %r ' % (op,)
    ctx.check(mps.n == n, lambda: where + 'the MPS has %d sites' % mps.n)
    ts = [mps.getTensor(i) for i in range(n)]
    for i, t in enumerate(ts):
        consistent_legs(t, where)
        want = ['o'] + (['l'] if i else []) + (['r'] if i < n - 1 else [])
        ctx.check(sorted(t.labels) == sorted(want), lambda: where + 'site %d has legs %r' % (i, t.labels))
        ctx.check(t.shapeOfLabel('o') == m.state.shape[i], lambda: where + 'site %d has an outer leg of dimension %r, expected %r' % (i, t.shapeOfLabel('o'), m.state.shape[i]))
        if i:
            ctx.check(ts[i - 1].getLeg('r').anotherSide() is t.getLeg('l'), lambda: where + 'sites %d and %d are not linked' % (i - 1, i))
            ctx.check(t.shapeOfLabel('l') <= mps.chi, lambda: where + 'bond dimension %d above the limit %r' % (t.shapeOfLabel('l'), mps.chi))
    if m.exact:
        got = dense_list(ts)
        ctx.check(close(got, m.state, 1e-8), lambda: where + 'the state differs by %g (norm %g)' % (np.max(np.abs(got - m.state)), np.linalg.norm(m.state)))
    if hasattr(mps, 'activeIdx'):
        ctx.check(mps.activeIdx == m.centre, lambda: where + 'the canonical centre is %r, expected %r' % (mps.activeIdx, m.centre))


def isometric(t, labels):
    rest = [l for l in t.labels if l not in labels]
    arr = np.transpose(np.asarray(t.a), [t.labels.index(l) for l in rest + labels])
    mat = arr.reshape(int(np.prod([t.shapeOfLabel(l) for l in rest])) if rest else 1, -1)
    return close(mat @ np.conj(mat.T), np.eye(mat.shape[0]), 1e-9)


def observe(mps, m, ctx):
    verify(mps, m, 'the history', ctx)
    n = len(m.sites)
    ts = [mps.getTensor(i) for i in range(n)]
    for c in range(n):
        want = all(isometric(t, (['l', 'o'] if 0 < i else ['o'])) for i, t in enumerate(ts) if i < c) and \
            all(isometric(t, (['r', 'o'] if i < n - 1 else ['o'])) for i, t in enumerate(ts) if i > c)
        got = mps.checkCanonical(c)
        ctx.check(bool(got) == want, lambda: 'checkCanonical(%d) is %r' % (c, got))
        if m.centre == c:
            ctx.check(want, lambda: 'the reported centre %d is none' % c)
            ctx.check(bool(mps.checkCanonical()), 'checkCanonical() denies the centre it reports')
    if m.centre is None:
        try:
            mps.checkCanonical()
            ctx.fail('checkCanonical() answers without a centre')
        except AssertionError:
            pass
    # the whole tensor, axes identified by their (distinct) dimensions
    before = jkey([], *[t.a for t in ts])
    t = mps.toTensor()
    ctx.check(sorted(t.shape) == sorted(m.state.shape) and set(t.labels) <= {'o'}, lambda: 'toTensor has shape %r and labels %r' % (t.shape, t.labels))
    if len(set(t.shape)) == len(t.shape) and m.exact:
        arr = np.transpose(np.asarray(t.a), [t.shape.index(d) for d in m.state.shape]) if t.dim else np.asarray(t.a)
        ctx.check(close(arr, m.state, 1e-8), 'toTensor differs from the state')
    ctx.check(before == jkey([], *[x.a for x in ts]) and [mps.getTensor(i) for i in range(n)] == ts, 'toTensor changed the MPS')
    for bad in (lambda: mps.canonicalize(n), lambda: mps.canonicalize(-1), lambda: mps.swap(0, 2), lambda: mps.swap(n - 1, n), lambda: mps.moveTensor(0, n), lambda: mps.makeAdjacent(0, 0)):
        try:
            bad()
            ctx.fail('an invalid index was accepted')
        except AssertionError:
            pass
    verify(mps, m, 'refused requests', ctx)
    ctx.outcome('%d sites, centre %s' % (n, m.centre is not None))


def key(mps, m):
    arrs = [np.round(np.asarray(mps.getTensor(i).a), 7) + 0.0 for i in range(mps.n)]
    return jkey([m.sites, m.centre, [mps.getTensor(i).labels for i in range(mps.n)], [a.shape for a in arrs]], *arrs)


def systems(tier):
    return range(len(INITS))


def system(i, tier):
    return {'make': maker(i), 'ops': lambda r, m: ops_for(m), 'apply': apply, 'observe': observe, 'key': key,
            'depth': depth(tier, i)}


def run_case(case, ctx):
    run_only(sys.modules[__name__], case, ctx)
