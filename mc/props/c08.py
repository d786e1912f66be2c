"""C08: tensor construction accepts exactly the consistent specifications."""
import itertools

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.leg import Leg

from mc.model import generic, same, show, consistent_legs

PROPERTY = 'C08'
RULE = ('the full product of legs (absent or any dimensions), shape (absent, integer for diagonal, tuple, list), labels (absent, right, '
        'too few, too many, wrong names, list or tuple), data (absent or any shape, real or complex), dense/diagonal, real/shape-only, and '
        'listed shapes of up to 27 legs with other layouts of the data: accepted exactly when the decision table written from the documentation accepts it, and then with the content it demands')
ASSUMPTIONS = ['dimensions are positive; the values of data generated in the absence of data are free']

NAMES = 'pqrstuvwxyzabcdefghijklmnoABCD'
LARGE = [[2] * 6, [1] * 10, [3, 1, 2, 2, 1, 2], [2] * 8, [64], [8, 8], [4, 4, 4], [1] * 26, [2] * 26, [1] * 27, [12, 12], [5, 5, 5, 5]]


def shapes(tier):
    out = []
    for r in range(3):
        out += itertools.product((1, 2, 3), repeat=r)
    out += itertools.product((1, 2), repeat=3)
    out += [(3, 3, 3), (4,), (8,), (2, 4), (9,)]
    if tier == 'thorough':
        out += [(2, 2, 3), (3, 2, 1), (27,), (6,), (2, 2, 2, 2), (1, 1, 1, 1), (16,), (4, 4), (4, 2), (3, 2, 3), (2, 3, 3), (12,)]
    return [list(s) for s in out]


def bounds(tier):
    return {'shapes': len(shapes(tier)), 'rank': '%d, listed to 27' % (3 if tier == 'quick' else 4)}


def label_options(tier):
    out = [None]
    for r in range(4 if tier == 'quick' else 5):
        good = list(NAMES[:r])
        for conv in ('list', 'tuple'):
            out.append([conv, good])
            if r:
                out.append([conv, good[:-1] + ['z']])
        if r > 1:
            out.append(['list', good[::-1]])
            out.append(['list', ['p'] * r])
    return out


def cases(tier):
    for diag in (False, True):
        for like in (False, True):
            for legs in [None] + shapes(tier):
                for shape in [None] + shapes(tier) + ([1, 2, 3] if diag else []):
                    yield {'diag': diag, 'like': like, 'legs': legs, 'shape': shape, 'tier': tier}
            for legs in [None] + LARGE:
                for shape in [None] + LARGE + ([1, 2, 5] if diag else []):
                    if legs is None or shape is None or not isinstance(shape, list) or len(legs) == len(shape) or prod(legs) == prod(shape):
                        yield {'diag': diag, 'like': like, 'legs': legs, 'shape': shape, 'tier': tier, 'large': True}


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def equal(s):
    return len(set(s)) <= 1


def expected(diag, legs, shape, labels, dshape):
    """The decision table: the shape demanded, or None when the pieces contradict or do not suffice."""
    if legs is not None:
        want = legs
        if isinstance(shape, int):
            shape = [shape] * len(legs)
        if shape is not None and list(shape) != list(legs):
            return None
        if labels is not None and list(labels) != list(NAMES[:len(legs)]):
            return None
    elif shape is not None:
        want = shape
        if isinstance(shape, int):
            if labels is not None:
                want = [shape] * len(labels)
                if dshape is not None and len(dshape) != 1 and len(dshape) != len(labels):
                    return None
            elif dshape is not None:
                want = [shape] * len(dshape)
            else:
                return None
    elif dshape is not None:
        want = dshape
        if diag and len(dshape) == 1 and labels is not None and len(labels) > 1:
            want = dshape * len(labels)
    else:
        return None
    if labels is not None and len(labels) != len(want):
        return None
    if diag and not equal(want):
        return None
    if dshape is not None and prod(dshape) != prod(want):
        if not (diag and len(dshape) == 1 and len(want) >= 1 and dshape[0] == want[0]):
            return None
    return list(want)


def want_data(diag, data, want):
    if not diag:
        return data.reshape(want)
    if len(want) == 0:
        return data.reshape(())
    if data.ndim == 1 and data.shape[0] == want[0]:
        return data
    full = data.reshape(want)
    return np.array([full[(i,) * len(want)] for i in range(want[0])])


def run_case(case, ctx):
    if 'labels' in case:
        return one(case, ctx)
    if 'large' in case:
        return larger(case, ctx)
    for labels in label_options(case['tier']):
        for dshape in [None] + shapes(case['tier']):
            want = expected(case['diag'], case['legs'], case['shape'], labels and labels[1], dshape)
            for dtype in ('float64', 'complex128')[:1 if want is None else 2]:
                c = dict(case, labels=labels, data=dshape, dtype=dtype)
                ctx.guarded(lambda: one(c, ctx), c)


def larger(case, ctx):
    ranks = {len(x) for x in (case['legs'], case['shape']) if isinstance(x, list)}
    for dshape in [None, [2], [5], [1]] + [x for x in LARGE if len(x) < 26 or prod(x) == 1]:
        rs = ranks | ({len(dshape)} if dshape else set())
        for labels in [None] + [['list', list(NAMES[:r])] for r in sorted(rs)] + [['tuple', list(NAMES[:r - 1])] for r in sorted(rs)[:1]]:
            want = expected(case['diag'], case['legs'], case['shape'], labels and labels[1], dshape)
            if want is not None and not case['diag'] and not case['like'] and prod(want) > 10 ** 5:
                continue
            for layout in ('float64', 'int64', 'fortran', 'slice', 'readonly') if want is not None and dshape and not case['like'] else ('float64',):
                c = dict(case, labels=labels, data=dshape, dtype='int64' if layout == 'int64' else 'float64', layout=layout)
                ctx.guarded(lambda: one(c, ctx), c)


def one(case, ctx):
    diag, like = case['diag'], case['like']
    labels = case['labels']
    if labels is not None:
        labels = (list if labels[0] == 'list' else tuple)(labels[1])
    if case['legs'] is None and case['shape'] is None and case['data'] is None:
        if like and labels is not None:
            return  # unspecified: shape-only tensor of unknown dimensions
    want = expected(diag, case['legs'], case['shape'], labels, case['data'])
    cls = DiagonalTensor if diag else Tensor
    forms = [case['shape']]
    if isinstance(case['shape'], list):
        forms = [tuple(case['shape'])] + ([list(case['shape'])] if case['legs'] is not None or case['data'] is None else [])
    for shape in forms:
        legs = None
        old = object()
        if case['legs'] is not None:
            legs = [Leg(old, d, n) for d, n in zip(case['legs'], NAMES)]
        data = None
        if case['data'] is not None:
            data = generic(tuple(case['data']), seed=3, cplx=case['dtype'] == 'complex128')
            if case['dtype'] == 'float64' and sum(case['data']) % 2:
                data = data.astype(np.float32)
            layout = case.get('layout')
            if layout == 'int64':
                data = data.astype(np.int64)
            elif layout == 'fortran':
                data = np.asfortranarray(data)
            elif layout == 'slice' and data.ndim:
                data = np.repeat(data, 2, axis=0)[::2]
            elif layout == 'readonly':
                data.flags.writeable = False
        keep = None if data is None else data.copy()
        kw = dict(shape=shape, labels=labels, data=data, legs=legs, tensorLikeFlag=like)
        if data is None:
            kw['dtype'] = getattr(np, case['dtype'])
        where = '%s(%s)' % (cls.__name__, ', '.join('%s=%r' % (k, kw[k] if k not in ('data', 'legs') else case[k]) for k in kw))
        # names are made up for at most 26 legs
        unnamed = labels is None and legs is None and any(isinstance(x, list) and len(x) > 26 for x in (case['shape'], case['data']))
        try:
            t = cls(**kw)
        except ValueError:
            t = None
        except AssertionError:
            ctx.check(unnamed, lambda: where + ' failed')
            t = None
            if unnamed:
                continue
        if want is None:
            ctx.check(t is None, lambda: '%s is contradictory or insufficient but was accepted' % where)
            if legs is not None:
                ctx.check(all(l.tensor is old and l.bond is None for l in legs), lambda: where + ' was refused but took the legs over')
        else:
            ctx.check(t is not None, lambda: where + ' is consistent but was refused')
            verify(t, case, want, legs, labels, data, keep, where, ctx)
        ctx.step()
        ctx.state([diag, like, case['legs'], case['shape'], case['labels'], case['data'], case['dtype'], isinstance(shape, list)])
        ctx.outcome('refused' if want is None else 'accepted rank %d' % len(want))
    ctx.trace()


def verify(t, case, want, legs, labels, data, keep, where, ctx):
    consistent_legs(t, where)
    ctx.check(tuple(t.shape) == tuple(want), lambda: '%s has shape %r, expected %r' % (where, t.shape, want))
    ctx.check(t.diagonalFlag == case['diag'] and t.tensorLikeFlag == case['like'], lambda: where + ' has the wrong kind')
    if legs is not None:
        ctx.check(len(t.legs) == len(legs) and all(a is b for a, b in zip(t.legs, legs)), lambda: where + ' does not use the given legs')
        names = NAMES[:len(legs)]
    elif labels is not None:
        names = labels
    else:
        names = 'abcdefghijklmnopqrstuvwxyz'[:len(want)]
    ctx.check(list(t.labels) == list(names), lambda: '%s has labels %r, expected %r' % (where, t.labels, list(names)))
    if case['like']:
        return
    if data is None:
        ctx.check(np.asarray(t.a).dtype == np.dtype(case['dtype']), lambda: '%s generated data of type %s' % (where, t.a.dtype))
        ctx.check(np.all(np.isfinite(t.a)), lambda: where + ' generated non-finite data')
        return
    exp = want_data(case['diag'], keep, want)
    ctx.check(same(t.a, exp), lambda: '%s holds %s, expected %s' % (where, show(t.a), show(exp)))
    ctx.check(np.asarray(t.a).dtype == keep.dtype and t.dtype == keep.dtype, lambda: where + ' changed the data type')
    ctx.check(np.asarray(t.a).flags.writeable, lambda: where + ' holds an array that cannot be written to')
    # independent copy, in both directions
    ctx.check(same(data, keep), lambda: where + ' changed its argument')
    if not data.flags.writeable:
        return
    data[...] = 77
    ctx.check(same(t.a, exp), lambda: where + ' shares memory with its argument')
    t.a[...] = 55
    ctx.check(bool(np.all(data == 77)), lambda: where + ' shares memory with its argument')
