"""C13: contracting with the MPS machinery equals exact contraction."""
import itertools

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.contract import shareBonds
from CTL.examples.MPS import (FreeBoundaryMPS, createMPSFromTensor, contractWithMPS, contractMPS, mergeMPS, doubleMergeByBond,
                              commonBonds, commonLegs)

from CTL.tensor.contract.optimalContract import generateOptimalSequence

from mc.model import generic, close, show, consistent_legs, einsum
from mc.nets import Net, multigraphs, sequences

PROPERTY = 'C13'
RULE = ('every connected multigraph on up to 4 tensors (several bonds between two tensors, free legs), several leg orders, real and complex; '
        'conversion of each tensor, merging of every pair in either direction, then every contraction sequence along bonds, the automatic '
        'ones, and chains of direct pair contractions, compared with einsum; also every bond limit for the conversion of one tensor')
ASSUMPTIONS = ['free legs are identified by their (distinct) dimensions: the MPS machinery names every outer leg o',
               'floating-point comparison with relative tolerance 1e-8', 'the MPS functions consume their inputs']


def bounds(tier):
    return {'tensors': 4, 'bonds_per_pair': 3, 'sequences': 'all along bonds', 'bond_limit': 'not binding, and every limit for conversion'}


def distinct_free(n, edges, kinds):
    """Dimensions with pairwise different free legs, or None."""
    from mc.nets import dim_classes
    cls = dim_classes(n, edges, kinds)
    free = [k for k, e in enumerate(edges) if e[1] is None]
    if len({cls[k] for k in free}) < len(free):
        return None
    dims = {}
    for c, d in zip([cls[k] for k in free], (3, 2, 4, 5, 6)):
        dims[c] = d
    return [dims.get(c, 2 + (i % 3 == 1)) if c in dims else 2 + (c % 3 == 1) for i, c in enumerate(cls)]


def is_connected(n, edges):
    comp = list(range(n))
    for e in edges:
        if e[1] is not None:
            a, b = comp[e[0]], comp[e[1]]
            comp = [a if c == b else c for c in comp]
    return len(set(comp)) == 1


def cases(tier):
    for shape in [(2,), (5,), (2, 3), (3, 2), (1, 3), (2, 3, 2), (4, 2, 3), (2, 2, 2, 2), (3, 1, 2), (2, 3, 2, 2)] + ([(2, 2, 2, 2, 2), (3, 3, 3, 3)] if tier == 'thorough' else []):
        for data in ('full', 'cplx', 'low', 'ghz', 'zero', 'int'):
            yield {'kind': 'convert', 'shape': list(shape), 'data': data}
    spaces = [(1, 0, 3), (2, 3, 2), (3, 2, 1)]
    for n, mult, fmax in spaces:
        for edges in multigraphs(n, mult):
            if not is_connected(n, edges):
                continue
            for free in itertools.product(range(fmax + 1), repeat=n):
                if n == 1 and not free[0]:
                    continue
                for kinds in itertools.product('DG', repeat=n):
                    if n == 3 and tier == 'quick' and kinds.count('G') == 2 and len(edges) > 4:
                        continue
                    yield {'kind': 'net', 'n': n, 'e': edges, 'free': list(free), 'kinds': ''.join(kinds)}
    for edges in multigraphs(4, 1):
        if is_connected(4, edges):
            for free in itertools.product(range(2), repeat=4):
                for kinds in ('DDDD',) if tier == 'quick' and sum(free) != 1 else ('DDDD', 'GDDD', 'DGDG'):
                    yield {'kind': 'net', 'n': 4, 'e': edges, 'free': list(free), 'kinds': kinds, 'tier': tier}
    # five and more tensors, wide and trivial bonds, many free legs
    path = [[0, 1], [1, 2], [2, 3], [3, 4]]
    named = [(5, path), (5, path + [[0, 4]]), (5, [[0, i] for i in range(1, 5)]), (5, [[0, 2], [0, 3], [0, 4], [1, 2], [1, 3], [1, 4]]), (5, [[0, 1], [1, 2], [0, 2], [2, 3], [3, 4]]),
             (5, [[0, 1]] * 2 + [[1, 2], [2, 3], [2, 3], [3, 4]]), (6, path + [[4, 5], [0, 5]]), (6, [[0, 1], [1, 2], [3, 4], [4, 5], [0, 3], [1, 4], [2, 5]])]
    for n, edges in named:
        for free in ([0] * n, [1] + [0] * (n - 2) + [1], [0, 2, 1] + [0] * (n - 3)):
            for kinds in ('D' * n, 'G' + 'D' * (n - 1)):
                yield {'kind': 'net', 'n': n, 'e': edges, 'free': list(free), 'kinds': kinds, 'stride': 7 if n == 5 else 0}
    for n, edges, free, dims in ((2, [[0, 1]] * 4, [1, 1], [2, 1, 3, 2, 4, 5]), (2, [[0, 1]] * 2, [2, 2], [5, 7, 2, 3, 4, 6]), (2, [[0, 1]], [3, 3], [1, 2, 3, 4, 5, 6, 7]), (2, [[0, 1]], [1, 1], [1, 4, 3]),
                                 (3, [[0, 1], [1, 2], [0, 2]], [1, 1, 1], [6, 5, 4, 2, 3, 7]), (3, [[0, 1], [1, 2], [0, 2]], [1, 0, 1], [1, 1, 1, 2, 1]), (3, [[0, 1], [0, 1], [1, 2], [1, 2], [0, 2]], [1, 1, 0], [1, 3, 2, 1, 4, 2, 3]),
                                 (4, [[0, 1], [1, 2], [2, 3], [0, 3]], [1, 1, 1, 1], [4, 1, 5, 3, 2, 6, 3, 7]), (4, [[0, 1], [1, 2], [2, 3], [0, 3]], [0] * 4, [6, 7, 5, 8])):
        yield {'kind': 'net', 'n': n, 'e': edges, 'free': free, 'kinds': 'D' * n, 'd': dims}


def tier_of(case):
    return case.get('tier', 'quick')


def along_bonds(n, edges):
    for seq in sequences(n):
        comp = {v: {v} for v in range(n)}
        ok = True
        for a, b in seq:
            if not any((u in comp[a] and v in comp[b]) or (u in comp[b] and v in comp[a]) for u, v in edges):
                ok = False
                break
            comp[a] |= comp.pop(b)
        if ok:
            yield seq


def run_case(case, ctx):
    if case['kind'] == 'convert':
        if 'chi' in case:
            return convert(case, ctx)
        for chi in range(1, 10):
            for order in (0, 1):
                c = dict(case, chi=chi, order=order)
                ctx.guarded(lambda: convert(c, ctx), c)
        return
    if 'mode' in case:
        return one(case, ctx)
    n = case['n']
    edges = [tuple(e) for e in case['e']]
    for v, f in enumerate(case['free']):
        edges += [(v, None)] * f
    dims = case.get('d') or distinct_free(n, edges, case['kinds'])
    if dims is None:
        return
    net = Net(n, edges, case['kinds'], dims)
    base = dict(net.desc(), kind='net')
    modes = []
    inner = [e for e in edges if e[1] is not None]
    stride = case.get('stride', 1)
    for i, seq in enumerate(along_bonds(n, inner) if stride else []):
        if i % stride:
            continue
        for rev in ((False, True) if n < 4 else (bool(i % 2),)):
            modes.append({'mode': 'seq', 'seq': [list(p[::-1] if rev else p) for p in seq], 'cplx': bool(i % 2)})
        if n < 4:
            modes.append({'mode': 'steps', 'seq': [list(p) for p in seq], 'cplx': False})
    if n == 4:
        modes = modes[::2] if len(modes) > 8 and tier_of(case) == 'quick' else modes
    modes += [{'mode': 'greedy', 'cplx': False}, {'mode': 'optimal', 'cplx': True}]
    for i, m in enumerate(modes):
        for flip in ((0, 1) if n < 3 else (i % 2,)):
            c = dict(base, flip=flip, **m)
            ctx.guarded(lambda: one(c, ctx), c)


def fill(shape, data):
    if data == 'low':
        out = np.ones(())
        for i, d in enumerate(shape):
            out = np.multiply.outer(out, np.arange(1, d + 1) * (1.0 if i % 2 else -1.0))
        return out
    if data == 'ghz':
        a = np.zeros(shape)
        for i in range(min(shape)):
            a[(i,) * len(shape)] = i + 1.0
        return a
    if data == 'zero':
        return np.zeros(shape)
    if data == 'int':
        return np.arange(int(np.prod(shape))).reshape(shape) % 7 - 3
    return generic(shape, 5, cplx=data == 'cplx') / 3.0


def site_value(ts, keep=None):
    """Network value of a list of linked tensors; free legs in the order of the tensors."""
    ids, out, terms = {}, [], []
    own = {id(l): True for t in ts for l in t.legs}
    for t in ts:
        axes = []
        for leg in t.legs:
            o = leg.anotherSide()
            if o is not None and id(o) in own:
                axes.append(ids.setdefault(frozenset((id(leg), id(o))), len(ids)))
            else:
                axes.append(ids.setdefault(id(leg), len(ids)))
                out.append(axes[-1])
        terms.append((np.asarray(t.a), axes))
    ops = []
    for arr, ax in terms:
        ops += [arr, ax]
    return np.einsum(*ops, out, optimize='greedy')


def convert(case, ctx):
    shape = tuple(case['shape'])
    a = fill(shape, case['data'])
    t = Tensor(labels=list('wxyz')[:len(shape)] if len(shape) < 5 else list('vwxyz'), data=a)
    if case['order']:
        t.moveLegsToFront(list(t.legs)[::-1])
    shape = tuple(t.shape)
    arr = np.array(t.a)
    legs = list(t.legs)
    chi = case['chi']
    try:
        mps = createMPSFromTensor(t, chi=chi)
    except ValueError as e:
        # no singular value at all is left of a zero tensor, and the next cut of the empty remainder is refused by numpy
        ctx.fail('createMPSFromTensor(shape %r, %s): %s' % (shape, case['data'], e), key='mps-of-zero-tensor' if case['data'] == 'zero' and len(shape) > 2 else None)
    where = 'createMPSFromTensor(shape %r, chi=%d)' % (shape, chi)
    n = len(shape)
    ctx.check(mps.n == n and mps.chi == chi, lambda: '%s: %d sites, chi %r' % (where, mps.n, mps.chi))
    ts = [mps.getTensor(i) for i in range(n)]
    bound = 0.0
    exact = True
    for i in range(n):
        consistent_legs(ts[i], where)
        ctx.check(ts[i].getLeg('o') is legs[i], lambda: where + ': site %d does not carry leg %d of the tensor' % (i, i))
        if i:
            s = np.linalg.svd(arr.reshape(int(np.prod(shape[:i])), -1), compute_uv=False)
            bound += float(np.sum(s[chi:] ** 2))
            exact = exact and np.sum(s > 1e-10) <= chi
            ctx.check(ts[i].shapeOfLabel('l') <= chi, lambda: '%s: bond dimension %d' % (where, ts[i].shapeOfLabel('l')))
    got = site_value(ts)
    err = float(np.linalg.norm(got - arr))
    ctx.check(err <= np.sqrt(bound) + 1e-8 * np.linalg.norm(arr), lambda: '%s: error %g, the discarded weights allow %g' % (where, err, np.sqrt(bound)))
    if exact:
        ctx.check(close(got, arr, 1e-8), where + ': value differs though nothing has to be truncated')
    ctx.step()
    ctx.trace()
    ctx.state(['convert', shape, case['data'], chi])
    ctx.outcome('convert')


def result_value(res, net, ctx, where):
    want_dims = [net.dims[k] for k in net.free()]
    ctx.check(sorted(res.shape) == sorted(want_dims), lambda: '%s: result of shape %r, expected %r' % (where, res.shape, want_dims))
    arr = np.asarray(res.a)
    if res.diagonalFlag:
        from mc.model import dense
        arr = dense(res)
    return np.transpose(arr, [res.shape.index(d) for d in want_dims]) if want_dims else arr


def one(case, ctx):
    net = Net.of(case)
    order = None
    if case['flip']:
        order = [list(range(len(net.inc[v])))[::-1] for v in range(net.n)]
    ts, arrays, ids = net.build(cplx=case['cplx'], order=order, flip=bool(case['flip']))
    want = net.value(arrays, ids)
    where = 'network %r %s %s' % (net.edges, case['mode'], case.get('seq', ''))
    if any(t.dim == 0 for t in ts):
        return
    if case['mode'] == 'steps':
        res = steps(net, ts, arrays, case, want, ctx, where)
    elif case['mode'] == 'seq':
        res = contractWithMPS(ts, chi=500, seq=[tuple(p) for p in case['seq']])
    elif case['mode'] == 'greedy':
        res = contractWithMPS(ts, chi=500)
    else:
        seq = generateOptimalSequence(ts)
        inner = [e for e in net.edges if e[1] is not None]
        outer = [tuple(sorted(p)) for p in seq] not in [list(q) for q in along_bonds(net.n, inner)]
        try:
            res = contractWithMPS(ts, chi=500, greedyFlag=False)
        except AssertionError as e:
            # contractMPS refuses pairs without a common bond, which the optimal sequence may contain
            ctx.fail('%s: %s' % (where, e), key='optimal-sequence-with-outer-product' if outer else None)
    consistent_legs(res, where)
    got = result_value(res, net, ctx, where)
    ctx.check(close(got, want, 1e-8), lambda: '%s: %s, exact %s' % (where, show(got), show(want)))
    ctx.step()
    ctx.trace()
    ctx.state([case['n'], case['edges'], case['kinds'], case['mode'], case.get('seq'), case['flip']])
    ctx.outcome('%d tensors' % net.n)


def steps(net, ts, arrays, case, want, ctx, where):
    """Drive the public pieces one by one; the value of all sites together must never change."""
    mpses = [createMPSFromTensor(t, chi=500) for t in ts]
    ref = [np.linalg.norm(want)]

    def whole(what):
        sites = [m.getTensor(i) for m in mpses if m is not None for i in range(m.n)]
        for t in sites:
            consistent_legs(t, where + ' ' + what)
        val = site_value(sites)
        ctx.check(abs(np.linalg.norm(val) - ref[0]) <= 1e-8 * max(1, ref[0]), lambda: '%s: after %s the network has norm %r instead of %r' % (where, what, np.linalg.norm(val), ref[0]))
        ctx.step()

    whole('conversion')
    n = net.n
    for i in range(n):
        for j in range(i + 1, n):
            k = sum(1 for u, v in net.edges if v is not None and {u, v} == {i, j})
            a, b = (i, j) if case['flip'] == 0 else (j, i)
            ctx.check(len(commonBonds(mpses[a], mpses[b])) == k and [len(x) for x in commonLegs(mpses[a], mpses[b])] == [k, k],
                      lambda: where + ': commonBonds/commonLegs of %d and %d' % (a, b))
            mergeMPS(mpses[a], mpses[b], beginFlag=True)
            ctx.check(len(commonBonds(mpses[a], mpses[b])) == min(k, 1), lambda: where + ': several common bonds remain after merging')
            whole('merging %d %d' % (a, b))
    for s, t in case['seq']:
        loc = min(s, t)
        res = contractMPS(mpses[s], mpses[t])
        mpses[s + t - loc] = None
        if not isinstance(res, FreeBoundaryMPS):
            return res
        mpses[loc] = res
        whole('contracting %d %d' % (s, t))
        for i in range(n):
            if i != loc and mpses[i] is not None:
                mergeMPS(mpses[loc], mpses[i], beginFlag=False)
                whole('merging %d %d' % (loc, i))
    m = mpses[0]
    want_dims = sorted(net.dims[k] for k in net.free())
    ctx.check(sorted(m.getTensor(i).shapeOfLabel('o') for i in range(m.n)) == want_dims, where + ': the final chain has other outer legs')
    return m.toTensor()
