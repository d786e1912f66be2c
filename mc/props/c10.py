"""C10: merging parallel bonds keeps the value of the network and truncates optimally."""
import itertools

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.leg import Leg
from CTL.tensor.contract.link import makeLink, mergeLink
from CTL.tensor.contract.contract import merge, contractTwoTensors, shareBonds

from mc.model import generic, diag_dense, by_labels, same, close, show, consistent_legs

PROPERTY = 'C10'
RULE = ('every pair of dense tensors with 0..3 shared bonds and 0..2 outer legs each, every placement of the shared legs in '
        'the leg order of either tensor, dimensions from {1,2,3}, full-rank / rank-one / complex / very small / very large data; listed '
        'placements of up to 5 shared bonds, dimensions up to 20, whole-number, mixed and zero data, diagonal tensors with one shared bond; both merge entry points, every '
        'truncation size from 1 to beyond the full rank, all ways to name the new bond; refused merges (several bonds of a diagonal tensor; a real with a shape-only tensor) with 1..3 bonds')
ASSUMPTIONS = ['numpy.linalg.svd gives the Eckart-Young optimum for the reference']


def bounds(tier):
    return {'shared_bonds': '0..3, listed cases to 5', 'outer_legs': '0..2', 'dims': '1 to 3, listed cases to 20'}


def cases(tier):
    for k in range(4):
        for fa in range(3):
            for fb in range(3):
                yield {'k': k, 'fa': fa, 'fb': fb, 'tier': tier}
    # more bonds, larger dimensions, other types of data, diagonal operands
    for dims in ([2, 1, 2, 3], [3, 2, 2, 2], [2, 2, 1, 2, 2], [5], [8], [4, 5], [6, 1], [12]):
        for fdims in ([[3], [4]], [[2, 3], [3]], [[20], [20]], [[], [5]], [[2], []]):
            yield {'list': dims, 'fdims': fdims, 'tier': tier}
    for dims in ([1], [2], [3], [5]):
        for kinds in ('GD', 'DG', 'GG'):
            yield {'list': dims, 'kinds': kinds, 'tier': tier}
    # merges the tensors cannot take
    for k in range(1, 4):
        for kinds in ('GD', 'DG', 'GG'):
            for fn in ('link', 'merge'):
                if k > 1:
                    yield {'refuse': 'diagonal', 'k': k, 'kinds': kinds, 'fn': fn}
        for like in ('LR', 'RL'):
            for kinds in ('DD', 'GD', 'DG', 'GG'):
                yield {'refuse': 'mixed', 'k': k, 'kinds': kinds, 'like': like, 'fn': 'merge'}


def more(case, ctx):
    dims = case['list']
    k, full = len(dims), int(np.prod(dims))
    if 'kinds' in case:
        kinds = case['kinds']
        ranks = [(1, 2, 3) if x == 'G' else (1, 2) for x in kinds]
        todo = []
        for ra, rb in itertools.product(*ranks):
            fd = [[dims[0] if kinds[0] == 'G' else 3] * (ra - 1), [dims[0] if kinds[1] == 'G' else 2] * (rb - 1)]
            for pa, pb in itertools.product(range(ra), range(rb)):
                oa = ['f%d' % i for i in range(ra - 1)]
                ob = ['f%d' % i for i in range(rb - 1)]
                todo.append((fd, oa[:pa] + ['s0'] + oa[pa:], ob[:pb] + ['s0'] + ob[pb:], kinds))
    else:
        fa, fb = case['fdims']
        s, a, b = ['s%d' % i for i in range(k)], ['f%d' % i for i in range(len(fa))], ['f%d' % i for i in range(len(fb))]
        pairs = [(s + a, s + b), (a + s[::-1], s + b), (a[:1] + s[1:] + a[1:] + s[:1], s[2:] + b + s[:2]), (s[::-1] + a, s[k // 2:] + s[:k // 2] + b), (s + a, b + s[::-1])]
        todo = [(case['fdims'], oa, ob, 'DD') for oa, ob in pairs]
    for fd, oa, ob, kinds in todo:
        for data in ('full', 'int', 'cplxA', 'cplxB', 'zero', 'rank1'):
            for chi in [None] + sorted({1, 2, 3, max(1, full - 1), full, full + 1, 100}):
                name = [None, 'm', ['ma', 'mb']][(full + (chi or 0)) % 3]
                for fn in ('link', 'merge') if chi is None else ('merge',):
                    c = {'dims': dims, 'fdims': fd, 'oa': oa, 'ob': ob, 'chi': chi, 'data': data, 'fn': fn, 'name': name, 'kinds': kinds}
                    ctx.guarded(lambda: one(c, ctx), c)


def looks(t):
    """Everything that can be seen of a tensor: legs (as objects), names, dimensions, connections and data."""
    return ([(id(l), l.name, l.dim, id(l.tensor), id(l.bond)) for l in t.legs],
            [(l.anotherSide().tensor is not None, id(l.anotherSide()), l.anotherSide().name) if l.bond is not None else None for l in t.legs],
            tuple(t.shape), None if t.a is None else (str(t.a.dtype), t.a.tolist()))


def refuse(case, ctx):
    """A merge the tensors cannot take is refused, whatever the truncation and the name, and both stay as they were."""
    k, kinds, like = case['k'], case['kinds'], case.get('like', 'RR')
    for outer in itertools.product(range(3), repeat=2):
        for rev in (False, True):
            for chi in (None, 1, 2, 3, 100) if case['fn'] == 'merge' else (None,):
                for name in (None, 'm', ('ma', 'mb')):
                    ts = []
                    for x, kind, l, f in zip('ab', kinds, like, outer):
                        labels = ['%ss%d' % (x, i) for i in range(k)] + ['%sf%d' % (x, i) for i in range(f)]
                        labels = labels[::-1] if rev and x == 'a' else labels
                        shape = (2,) * (k + f)
                        kw = {'tensorLikeFlag': True} if l == 'L' else {'data': generic(shape[:1] if kind == 'G' else shape, 3)}
                        ts.append((DiagonalTensor if kind == 'G' else Tensor)(shape=shape, labels=labels, **kw))
                    a, b = ts
                    for i in range(k):
                        makeLink('as%d' % i, 'bs%d' % i, a, b)
                    before = looks(a), looks(b)
                    where = '%s of %s and %s (%s), %d bonds, chi=%r, bondName=%r' % ('mergeLink' if case['fn'] == 'link' else 'merge', kinds[0], kinds[1], like, k, chi, name)
                    try:
                        if case['fn'] == 'link':
                            mergeLink(a, b, bondName=name, renameWarning=False)
                        else:
                            merge(a, b, chi=chi, bondName=name, renameWarning=False)
                    except (AssertionError, TypeError, ValueError):
                        pass
                    else:
                        ctx.fail(where + ' was accepted')
                    ctx.check((looks(a), looks(b)) == before, lambda: where + ' was refused, but changed the tensors')
                    for t in ts:
                        consistent_legs(t, where)
                    ctx.step()
    ctx.trace()
    ctx.state(case)
    ctx.outcome('refused %s' % case['refuse'])


def placements(k, f, tier):
    """Orders of the legs: shared legs 's0..', free 'f0..' (shared ones in every relative order)."""
    base = ['s%d' % i for i in range(k)] + ['f%d' % i for i in range(f)]
    out = []
    for p in itertools.permutations(base):
        if [x for x in p if x[0] == 'f'] == ['f%d' % i for i in range(f)]:
            out.append(list(p))
    if tier == 'quick' and len(out) > 12:
        out = out[::len(out) // 12]
    return out


def run_case(case, ctx):
    if 'oa' in case:
        return one(case, ctx)
    if 'refuse' in case:
        return refuse(case, ctx)
    if 'list' in case:
        return more(case, ctx)
    k, fa, fb, tier = case['k'], case['fa'], case['fb'], case['tier']
    menu = (2, 3, 1) if k <= 2 else (2, 1)
    for dims in itertools.product(menu, repeat=k):
        for fdims in ([[2, 3][:fa], [3, 2][:fb]], [[1, 2][:fa], [2, 1][:fb]]):
            for oa in placements(k, fa, tier):
                for ob in placements(k, fb, tier):
                    if k > 1 and tier == 'quick' and (oa != placements(k, fa, tier)[0] and ob != placements(k, fb, tier)[0]) and (hash_of(oa) + hash_of(ob)) % 2:
                        continue
                    full = int(np.prod(dims))
                    for data in ('full', 'rank1', 'cplx', 'tiny', 'huge'):
                        if data != 'full' and fdims[0] and fdims[0][0] == 1 or data in ('tiny', 'huge') and (k > 2 or oa != placements(k, fa, tier)[0]):
                            continue
                        for chi in [None] + list(range(1, min(full, 6) + 2)):
                            name = [None, 'm', ['ma', 'mb'], ['right', 'left']][(full + (chi or 0) + len(oa) + hash_of(oa)) % 4]
                            for fn in (('link', 'merge') if chi is None else ('merge',)):
                                c = {'dims': list(dims), 'fdims': fdims, 'oa': oa, 'ob': ob, 'chi': chi, 'data': data, 'fn': fn, 'name': name}
                                ctx.guarded(lambda: one(c, ctx), c)


def hash_of(o):
    return sum((i + 1) * (ord(x[0]) + int(x[1])) for i, x in enumerate(o))


def build(order, dims, fdims, prefix, seed, data, kind='D'):
    if data == 'cplxA':
        data = 'cplx' if prefix == 'a' else 'full'
    elif data == 'cplxB':
        data = 'cplx' if prefix == 'b' else 'int'
    d = [dims[int(x[1])] if x[0] == 's' else fdims[int(x[1])] for x in order]
    if kind == 'G':
        vec = generic(d[:1], seed, data == 'cplx')
        if data == 'int':
            vec = vec.astype(np.int64)
        elif data == 'zero' and prefix == 'b':
            vec = vec * 0
        elif data == 'rank1':
            vec = vec * (np.arange(d[0]) == d[0] - 1)
        return DiagonalTensor(data=vec, shape=tuple(d), labels=[prefix + x for x in order]), diag_dense(vec, len(d))
    if data == 'rank1':
        arr = np.ones(d)
        for i, n in enumerate(d):
            arr = arr * (np.arange(1, n + 1) + seed + i).reshape([-1 if j == i else 1 for j in range(len(d))])
    else:
        # powers of two: exact in floating point
        arr = generic(d, seed, data == 'cplx') * {'tiny': 2.0 ** -28, 'huge': 2.0 ** 28, 'zero': 1.0 if prefix == 'a' else 0.0}.get(data, 1.0)
        if data == 'int':
            arr = arr.astype(np.int64)
    return Tensor(data=arr, labels=[prefix + x for x in order]), arr


def one(c, ctx):
    dims, (fda, fdb), oa, ob, chi = c['dims'], c['fdims'], c['oa'], c['ob'], c['chi']
    k = len(dims)
    kinds = c.get('kinds', 'DD')
    a, arrA = build(oa, dims, fda, 'a', 3, c['data'], kinds[0])
    b, arrB = build(ob, dims, fdb, 'b', 8, c['data'], kinds[1])
    for i in range(k):
        makeLink('as%d' % i, 'bs%d' % i, a, b) if i % 2 == 0 else makeLink('bs%d' % i, 'as%d' % i, b, a)
    outside = {}
    for t in (a, b):
        for leg in t.legs:
            if leg.bond is None:
                outside[leg.name] = Leg(None, leg.dim, 'o' + leg.name)
                makeLink(leg, outside[leg.name])
    num = {x: i for i, x in enumerate(['s0', 's1', 's2', 's3', 's4', 'af0', 'af1', 'bf0', 'bf1'])}
    ia = [num[x] if x[0] == 's' else num['a' + x] for x in oa]
    ib = [num[x] if x[0] == 's' else num['b' + x] for x in ob]
    names = ['af%d' % i for i in range(len(fda))] + ['bf%d' % i for i in range(len(fdb))]
    exact = np.einsum(arrA, ia, arrB, ib, [num[x] for x in names])
    name = tuple(c['name']) if isinstance(c['name'], list) else c['name']
    kw = {'bondName': name, 'renameWarning': False}
    ra, rb = mergeLink(a, b, **kw) if c['fn'] == 'link' else merge(a, b, chi=chi, **kw)
    ctx.step()
    for t, pre, nf in ((ra, 'a', len(fda)), (rb, 'b', len(fdb))):
        consistent_legs(t, 'merged:')
        outer = ['%sf%d' % (pre, i) for i in range(nf)]
        inner = [leg for leg in t.legs if leg.name not in outer]
        ctx.check(sorted(x for x in t.labels if x in outer) == outer, lambda: 'outer labels %r, expected %r' % (t.labels, outer))
        ctx.check(len(inner) == min(k, 1), lambda: '%d legs between the tensors, expected one: %r' % (len(inner), t.labels))
        for x in outer:
            ctx.check(t.getLeg(x).anotherSide() is outside[x], 'outer leg %r lost its connection' % x)
    sb = shareBonds(ra, rb)
    ctx.check(len(sb) == min(k, 1), lambda: '%d bonds between the tensors after merging %d' % (len(sb), k))
    if k:
        la, lb = sb[0].sideLeg(ra), sb[0].sideLeg(rb)
        if c['name'] is None:
            pa, pb = la.name.split('|'), lb.name.split('|')
            ctx.check(sorted(pa) == ['as%d' % i for i in range(k)] and pb == ['b' + x[1:] for x in pa],
                      lambda: 'merged bond is named %r / %r' % (la.name, lb.name))
        else:
            want = name if isinstance(name, tuple) else (name, name)
            ctx.check((la.name, lb.name) == want, lambda: 'merged bond is named %r / %r, expected %r' % (la.name, lb.name, want))
        full = int(np.prod(dims))
        if chi is None:
            ctx.check(la.dim == full, lambda: 'merged bond has dimension %d, expected %d' % (la.dim, full))
        else:
            ctx.check(la.dim <= chi and la.dim <= full, lambda: 'merged bond has dimension %d, limit %d' % (la.dim, chi))
    dim = sb[0].legs[0].dim if k else None
    res = contractTwoTensors(ra, rb, outProductWarning=False)
    got = by_labels(res, names)
    if chi is None:
        ctx.check(same(got, exact), lambda: 'value after merging %s, before %s' % (show(got), show(exact)))
    else:
        na = int(np.prod(fda)) if fda else 1
        s = np.linalg.svd(exact.reshape(na, -1), compute_uv=False)
        best = np.sqrt(np.sum(s[chi:] ** 2)) if k else 0.0
        err = np.linalg.norm(got - exact)
        scale = np.linalg.norm(exact)
        ctx.check(got.shape == exact.shape and np.all(np.isfinite(got)) and err <= best + 1e-9 * scale,
                  lambda: 'truncation to %d has error %g, the best rank-%d approximation has %g' % (chi, err, chi, best))
    ctx.trace()
    ctx.state(c)
    ctx.outcome('k=%d chi=%s dim=%s' % (k, chi, dim))
