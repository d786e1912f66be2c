"""C01: contracting two tensors gives the mathematical contraction."""
import itertools

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.leg import Leg
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.contract import contractTwoTensors

from mc.model import generic, diag_dense, by_labels, einsum, same, show, matchings, consistent_legs, dense

PROPERTY = 'C01'
RULE = ('every pair of kinds (dense/diagonal), every rank up to the bound, every partial pairing of legs, every '
        'assignment of dimensions from the menu, both link orientations, every subset of the shared bonds passed '
        'explicitly, both operand orders, real/complex/integer/single precision data and their mixtures, legs of the two tensors with '
        'different or equal names; for ranks 4 to 7 a list of pairings with up to 5 bonds and dimensions up to 17; result compared '
        'exactly with numpy einsum over the dense arrays')
ASSUMPTIONS = ['numpy einsum/multiply are correct', 'integer-valued data below 2^53: float arithmetic is exact']


# data of the operands: 0 whole numbers stored as float, 1 complex, 'int' integers, 'half' halves, 'f32' single precision
TYPES = [(0, 0), (1, 0), (0, 1), (1, 1), ('int', 'half'), ('half', 'int'), ('int', 'int'), ('int', 1), (1, 'int'), ('f32', 'half')]


def data_of(shape, seed, kind):
    arr = generic(shape, seed, kind == 1)
    if kind == 'int':
        return arr.astype(np.int64)
    if kind == 'f32':
        return arr.astype(np.float32)
    return arr / 2 if kind == 'half' else arr


def bounds(tier):
    return {'max_rank': 3 if tier == 'quick' else 4, 'dims': [1, 2, 3], 'preset_third_tensor': True}


def cases(tier):
    maxr = 3 if tier == 'quick' else 4
    for ka, kb in itertools.product('DG', repeat=2):
        for na in range(maxr + 1):
            for nb in range(maxr + 1):
                for pairing in matchings(na, nb):
                    yield {'kinds': ka + kb, 'na': na, 'nb': nb, 'pairs': pairing, 'tier': tier}
        # many legs, bonds and large dimensions
        for na, nb in itertools.product((4, 5, 6), repeat=2) if tier == 'thorough' else ((4, 4), (5, 4), (3, 6), (6, 5), (2, 7)):
            for k in range(min(na, nb) + 1):
                for rot in range(min(nb, 3)):
                    for back in (False, True):
                        js = [(j + rot) % nb for j in range(nb)]
                        pairs = [[i, j] for i, j in zip(range(na)[::-1] if back else range(na), js)][:k]
                        yield {'kinds': ka + kb, 'na': na, 'nb': nb, 'pairs': pairs, 'tier': tier, 'many': True}


def many(case, ctx):
    na, nb, pairs = case['na'], case['nb'], case['pairs']
    k = len(pairs)
    for menu in ((2, 3, 2, 1, 3, 2, 2), (2, 2, 1, 5, 2, 1, 1), (1, 2, 17, 1, 2, 1, 1), (2,) * 7):
        da = [menu[i] for i in range(na)]
        db = [menu[(j + 3) % 7] for j in range(nb)]
        if case['kinds'][0] == 'G':
            da = [menu[1]] * na
        for i, j in pairs:
            db[j] = da[i]
        if case['kinds'][1] == 'G':
            if len({db[j] for i, j in pairs}) > 1:
                continue
            db = [da[pairs[0][0]] if pairs else menu[0]] * nb
        if np.prod(da) > 5000 or np.prod(db) > 5000:
            continue
        subsets = [None] if k < 2 else [None, list(range(k))[::-1], list(range(0, k, 2)), [k - 1, 0]]
        for sub in subsets:
            for orient in ([0] * k, [n % 2 for n in range(k)]):
                for swap in (0, 1):
                    for cplx in ((0, 0), (1, 'half')):
                        c = {'kinds': case['kinds'], 'na': na, 'nb': nb, 'pairs': pairs, 'dims': [da, db], 'explicit': sub, 'orient': orient, 'swap': swap, 'complex': list(cplx)}
                        ctx.guarded(lambda: one(c, ctx), c)


def dim_choices(case):
    """All dimension assignments from {1,2,3} compatible with the links and the diagonal tensors."""
    na, nb, pairs = case['na'], case['nb'], case['pairs']
    ids = list(range(na + nb))
    parent = ids[:]

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x

    for i, j in pairs:
        parent[find(na + j)] = find(i)
    if case['kinds'][0] == 'G':
        for i in range(1, na):
            parent[find(i)] = find(0)
    if case['kinds'][1] == 'G':
        for j in range(1, nb):
            parent[find(na + j)] = find(na)
    roots = sorted({find(x) for x in ids})
    big = len(roots) > 4
    menu = (2, 1, 3) if not big else (2, 3)
    if len(roots) > 6:
        menu = (2,)
    for choice in itertools.product(menu, repeat=len(roots)):
        d = dict(zip(roots, choice))
        if len(roots) > 6:
            # one assignment per choice of a single odd-one-out keeps the number finite and small
            for odd in range(len(roots)):
                dd = dict(d)
                dd[roots[odd]] = 3
                yield [dd[find(i)] for i in range(na)], [dd[find(na + j)] for j in range(nb)]
            continue
        yield [d[find(i)] for i in range(na)], [d[find(na + j)] for j in range(nb)]


def build(kind, dims, prefix, seed, cplx):
    labels = [prefix + str(i) for i in range(len(dims))]
    if kind == 'G':
        if len(dims) == 0:
            vec = data_of((), seed, cplx)
            return DiagonalTensor(data=np.array(vec)), np.array(vec)
        vec = data_of((dims[0],), seed, cplx)
        return DiagonalTensor(data=vec, labels=labels, shape=tuple(dims)), diag_dense(vec, len(dims))
    arr = data_of(dims, seed, cplx)
    return Tensor(data=arr, labels=labels, shape=tuple(dims)), arr


def run_case(case, ctx):
    kinds, na, nb, pairs = case['kinds'], case['na'], case['nb'], [tuple(p) for p in case['pairs']]
    if 'dims' in case:
        return one(case, ctx)
    if 'many' in case:
        return many(case, ctx)
    k = len(pairs)
    # explicit=None: contract all shared bonds; otherwise the subset of bonds to pass explicitly
    subsets = [None]
    for r in range(1, k + 1):
        subsets += [list(c) for c in itertools.permutations(range(k), r)] if k <= 2 else \
                   [list(c) for c in itertools.combinations(range(k), r)]
    for da, db in dim_choices(case):
        first = True
        for sub in subsets:
            for orient in itertools.product((0, 1), repeat=k):
                if k > 2 and 0 < sum(orient) < k and not first:
                    continue
                for swap in (0, 1):
                    for cplx in TYPES:
                        if cplx != (0, 0) and (sub is not None or sum(orient) > 0):
                            continue
                        c = {'kinds': kinds, 'na': na, 'nb': nb, 'pairs': pairs, 'dims': [da, db], 'explicit': sub,
                             'orient': list(orient), 'swap': swap, 'complex': list(cplx)}
                        ctx.guarded(lambda: one(c, ctx), c)
                        if sub is None and cplx == (0, 0) and kinds + str(na + nb) not in ('DD0', 'GG0') and (first or len(orient) < 2):
                            # legs of both tensors with the same names
                            for same_ in ('position', 'all'):
                                d = dict(c, same=same_)
                                ctx.guarded(lambda: one(d, ctx), d)
            first = False


def one(c, ctx):
    kinds, pairs = c['kinds'], [tuple(p) for p in c['pairs']]
    da, db = c['dims']
    a, arrA = build(kinds[0], da, 'p', 3, c['complex'][0])
    b, arrB = build(kinds[1], db, 'q', 8, c['complex'][1])
    bonds = []
    given = {}
    if 'same' in c:
        for t in (a, b):
            for i, leg in enumerate(t.legs):
                given[leg.name] = leg.name = 'v%d' % i if c['same'] == 'position' else 'v'
    for n, (i, j) in enumerate(pairs):
        if c['orient'][n] == 0:
            bonds += makeLink(a.legs[i], b.legs[j])
        else:
            bonds += makeLink(b.legs[j], a.legs[i])
    # every leg that is not contracted and not linked to the partner is linked to a third party, so that the
    # connections of the result can be observed too
    partner = {}
    for t, pre in ((a, 'p'), (b, 'q')):
        for i, leg in enumerate(t.legs):
            if leg.bond is None:
                other = Leg(None, leg.dim, 'x%s%d' % (pre, i))
                makeLink(leg, other)
                partner['%s%d' % (pre, i)] = other
    chosen = list(range(len(pairs))) if c['explicit'] is None else c['explicit']
    # reference
    idsA = [('a', i) for i in range(len(da))]
    idsB = [('b', j) for j in range(len(db))]
    num = {x: n for n, x in enumerate(idsA + idsB)}
    gone = set()
    for n in chosen:
        i, j = pairs[n]
        num[('b', j)] = num[('a', i)]
        gone.add(('a', i))
        gone.add(('b', j))
    outIds = [x for x in idsA + idsB if x not in gone]
    names = [('p' if x[0] == 'a' else 'q') + str(x[1]) for x in outIds]
    ref = einsum([(arrA, [num[x] for x in idsA]), (arrB, [num[x] for x in idsB])], [num[x] for x in outIds])

    args = {} if c['explicit'] is None else {'bonds': [bonds[n] for n in chosen]}
    x, y = (a, b) if not c['swap'] else (b, a)
    if c['explicit'] is None and len(pairs) > 0 and not any(c['complex']) and not any(c['orient']):
        res = x @ y
    else:
        res = contractTwoTensors(x, y, outProductWarning=False, **args)
    ctx.step()
    consistent_legs(res, 'result:')
    if 'same' in c:
        # which leg is which is told by its connection
        ctx.check(sorted(res.labels) == sorted(given[x] for x in names), lambda: 'free labels %r, expected those of %r' % (res.labels, names))
        where = []
        for x in names:
            at = [i for i, leg in enumerate(res.legs) if leg.bond is not None and leg.anotherSide() is partner[x]]
            ctx.check(len(at) == 1, lambda: 'the free leg %r lost its connection' % x)
            ctx.check(res.legs[at[0]].name == given[x], lambda: 'the free leg %r is called %r' % (x, res.legs[at[0]].name))
            where += at
        got = np.transpose(dense(res), where) if where else dense(res)
        ctx.check(same(got, ref), lambda: 'contraction gave %s, expected %s' % (show(got), show(ref)))
        ctx.trace()
        return
    ctx.check(sorted(res.labels) == sorted(names), lambda: 'free labels %r, expected %r' % (res.labels, names))
    got = by_labels(res, names)
    ctx.check(same(got, ref), lambda: 'contraction gave %s, expected %s (labels %r)' % (show(got), show(ref), names))
    if 1 in c['complex']:
        ctx.check(np.iscomplexobj(dense(res)), 'complex data became real')
    viaApi = res.toTensor(list(names))
    ctx.check(same(viaApi, ref), lambda: 'toTensor(%r) gave %s, expected %s' % (names, show(viaApi), show(ref)))
    if len(names) == 0:
        ctx.check(same(res.single(), ref), lambda: 'single() gave %s, expected %s' % (res.single(), ref))
    for leg in res.legs:
        if leg.name in partner:
            ctx.check(leg.anotherSide() is partner[leg.name], 'free leg %r lost its connection' % leg.name)
    ctx.trace()
    ctx.state([c['kinds'], c['dims'], c['pairs'], c['explicit'], c['orient'], c['swap'], c['complex']])
    ctx.outcome('%s rank%d' % (res.typeName(), len(names)))
