"""C23: the ready-made contraction templates, for every assignment of dimensions and leg orders.

Space: template x dimension assignment of all its bonds and free legs x leg order of the inputs x kind of the inputs
(separate tensors, one tensor in every place that fits, shape-only, diagonal) x repeated use of one template object.
Reference: explicit einsum over a description of the diagram written here from its geometry.
"""
import itertools

import numpy as np

from CTL.tensor.tensor import Tensor, TensorLike
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract import contractExp as ce
from CTL.tensor.tensorFactory import makeTriangleTensor, makeSquareTensor, makeSquareOutTensor
from CTL.tensornetwork.tensordict import TensorDict

from mc.model import generic, dense, by_labels

PROPERTY = 'C23'
RULE = 'every template x every dimension assignment of the menu x every leg order x kind of inputs'
ASSUMPTIONS = []
CASE_CPU_S = 120.0

OPP = {'u': 'd', 'd': 'u', 'l': 'r', 'r': 'l'}


def square_block(horizontal_mirror=None, vertical_mirror=None):
    """A 2x2 block of four-leg tensors; positions are named row+column.  Returns tensors, links, outputs.

    Without a mirror: neighbouring legs meet, legs leaving on the same side are combined (first the upper / the left one).
    With horizontal_mirror=d the columns are mirror images: the tensor in the column on side d keeps its leg d outside, and the one in
    the other column is reflected, so that its leg d is outside as well; legs leaving up and down are traced.  Likewise vertical_mirror.
    """
    T = {r + c: ['u', 'l', 'd', 'r'] for r in 'ud' for c in 'lr'}
    links, out = [], {}
    if horizontal_mirror:
        d, o = horizontal_mirror, OPP[horizontal_mirror]
        for c in 'lr':
            links.append((('u' + c, 'd'), ('d' + c, 'u')))
        for r in 'ud':
            links.append(((r + 'l', o), (r + 'r', o)))
        for r in 'ud':
            links.append(((r + 'l', r), (r + 'r', r)))
        out[d] = [('u' + d, d), ('d' + d, d)]
        out[o] = [('u' + o, d), ('d' + o, d)]
    elif vertical_mirror:
        d, o = vertical_mirror, OPP[vertical_mirror]
        for r in 'ud':
            links.append(((r + 'l', 'r'), (r + 'r', 'l')))
        for c in 'lr':
            links.append((('u' + c, o), ('d' + c, o)))
        for c in 'lr':
            links.append((('u' + c, c), ('d' + c, c)))
        out[d] = [(d + 'l', d), (d + 'r', d)]
        out[o] = [(o + 'l', d), (o + 'r', d)]
    else:
        for c in 'lr':
            links.append((('u' + c, 'd'), ('d' + c, 'u')))
        for r in 'ud':
            links.append(((r + 'l', 'r'), (r + 'r', 'l')))
        for side in 'ud':
            out[side] = [(side + 'l', side), (side + 'r', side)]
        for side in 'lr':
            out[side] = [('u' + side, side), ('d' + side, side)]
    return T, links, out


def corner_block():
    """A 2x2 ring of three-leg tensors, each with one leg o sticking out: ul-u, ur-r, dr-d, dl-l."""
    T, links = {}, []
    for r in 'ud':
        for c in 'lr':
            T[r + c] = [OPP[r], OPP[c], 'o']
    for c in 'lr':
        links.append((('u' + c, 'd'), ('d' + c, 'u')))
    for r in 'ud':
        links.append(((r + 'l', 'r'), (r + 'r', 'l')))
    return T, links, {'u': [('ul', 'o')], 'r': [('ur', 'o')], 'd': [('dr', 'o')], 'l': [('dl', 'o')]}


def describe():
    D = {}
    D['triangleContractFTN'] = (
        {'u': ['1', '2', '3'], 'l': ['1', '2', '3'], 'r': ['1', '2', '3']},
        [(('u', '2'), ('l', '3')), (('l', '2'), ('r', '3')), (('r', '2'), ('u', '3'))],
        {'1': [('u', '1')], '2': [('l', '1')], '3': [('r', '1')]})
    D['squareContractFTN'] = square_block()
    D['squareContractOutFTN'] = corner_block()
    for d in 'lr':
        D['squareHorizontalContractFTN:' + d] = square_block(horizontal_mirror=d)
    for d in 'ud':
        D['squareVerticalContractFTN:' + d] = square_block(vertical_mirror=d)
    four, hor, ver = ['l', 'r', 'u', 'd'], ['l', 'r', 'u'], ['u', 'd', 'r']
    # horizontal edge p below the site w; vertical edge p to the left of the site w
    D['CTMRGHEdgeExtendFTN'] = ({'p': hor, 'w': four}, [(('p', 'u'), ('w', 'd'))],
                                {'l': [('p', 'l'), ('w', 'l')], 'r': [('p', 'r'), ('w', 'r')], 'u': [('w', 'u')]})
    D['CTMRGVEdgeExtendFTN'] = ({'p': ver, 'w': four}, [(('p', 'r'), ('w', 'l'))],
                                {'u': [('p', 'u'), ('w', 'u')], 'd': [('p', 'd'), ('w', 'd')], 'r': [('w', 'r')]})
    # corner c lower left, edges pv above it and ph right of it, the site w closing the square
    D['CTMRGCornerExtendFTN'] = ({'c': ['u', 'r'], 'ph': hor, 'pv': ver, 'w': four},
                                 [(('c', 'u'), ('pv', 'd')), (('c', 'r'), ('ph', 'l')), (('pv', 'r'), ('w', 'l')), (('ph', 'u'), ('w', 'd'))],
                                 {'u': [('pv', 'u'), ('w', 'u')], 'r': [('ph', 'r'), ('w', 'r')]})
    D['CTMRGHEdgeBuildFTN'] = ({'p': hor, 'al': ['l', 'r'], 'ar': ['l', 'r']}, [(('al', 'r'), ('p', 'l')), (('ar', 'r'), ('p', 'r'))],
                               {'l': [('al', 'l')], 'r': [('ar', 'l')], 'u': [('p', 'u')]})
    D['CTMRGVEdgeBuildFTN'] = ({'p': ver, 'au': ['u', 'd'], 'ad': ['u', 'd']}, [(('ad', 'u'), ('p', 'd')), (('au', 'u'), ('p', 'u'))],
                               {'d': [('ad', 'd')], 'u': [('au', 'd')], 'r': [('p', 'r')]})
    corner = {'a' + c + r: ['u', 'r'] for c in 'lr' for r in 'ud'}
    D['CTMRGEvenZFTN'] = (dict(corner), [(('a%su' % c, 'u'), ('a%sd' % c, 'u')) for c in 'lr'] + [(('al' + r, 'r'), ('ar' + r, 'r')) for r in 'ud'], {})
    links = []
    for r in 'ud':
        for c in 'lr':
            links.append((('p' + r, c), ('a' + c + r, 'r')))
            links.append((('p' + c, r), ('a' + c + r, 'u')))
    for side in 'udlr':
        links.append((('p' + side, 'u' if side in 'ud' else 'r'), ('w', side)))
    D['CTMRGOddFTN'] = (dict(corner, pu=hor, pd=hor, pl=ver, pr=ver, w=four), links, {})
    # four tensors in a rhombus, u above d, l left of r; HOTRG: projectors on two opposite sides with their leg o outside
    ring = [(('u', 'l'), ('l', 'u')), (('u', 'r'), ('r', 'u')), (('d', 'l'), ('l', 'd')), (('d', 'r'), ('r', 'd'))]
    D['HOTRGHorizontalContractFTN'] = ({'u': four, 'd': four, 'l': ['u', 'd', 'o'], 'r': ['u', 'd', 'o']}, ring + [(('u', 'd'), ('d', 'u'))],
                                       {'u': [('u', 'u')], 'd': [('d', 'd')], 'l': [('l', 'o')], 'r': [('r', 'o')]})
    D['HOTRGVerticalContractFTN'] = ({'l': four, 'r': four, 'u': ['l', 'r', 'o'], 'd': ['l', 'r', 'o']}, ring + [(('l', 'r'), ('r', 'l'))],
                                     {'l': [('l', 'l')], 'r': [('r', 'r')], 'u': [('u', 'o')], 'd': [('d', 'o')]})
    # environment of the upper left corner: two copies (upper uxx, lower dxx) of a 2x2 block, the second reflected
    T = {a + b + c: four for a in 'ud' for b in 'ud' for c in 'lr'}
    links = [(('udl', 'r'), ('dul', 'r')), (('udl', 'd'), ('dul', 'd')), (('udr', 'r'), ('dur', 'r')), (('udr', 'd'), ('dur', 'd')),
             (('udl', 'l'), ('udr', 'l')), (('dul', 'l'), ('dur', 'l')), (('uur', 'l'), ('ddr', 'l')), (('uur', 'u'), ('ddr', 'u')),
             (('udr', 'u'), ('uur', 'd')), (('dur', 'u'), ('ddr', 'd')), (('uul', 'r'), ('uur', 'r')), (('uul', 'd'), ('udl', 'u')),
             (('ddl', 'r'), ('ddr', 'r')), (('ddl', 'd'), ('dul', 'u'))]
    D['EvenblyTNRQEnvFTN'] = (T, links, {'1': [('uul', 'l'), ('uul', 'u')], '2': [('ddl', 'l'), ('ddl', 'u')]})
    return D


SPEC = describe()
BUILT = {}


def build(name):
    if name not in BUILT:
        f, _, arg = name.partition(':')
        BUILT[name] = getattr(ce, f)(*([arg] if arg else []))
    return BUILT[name]


def edges_of(name):
    T, links, out = SPEC[name]
    linked = {x for l in links for x in l}
    return [tuple(l) for l in links] + [((t, leg),) for t in T for leg in T[t] if (t, leg) not in linked]


def assignments(n, tier, full):
    """Dimension assignments for n edges, simplest first."""
    if n <= full:
        yield from itertools.product((2, 1), repeat=n)
    else:
        yield (2,) * n
        for i in range(n):
            yield tuple(1 if j == i else 2 for j in range(n))
    if n <= 8:
        yield tuple(2 + (j % 3) for j in range(n))
    for i in range(n):
        yield tuple(3 if j == i else 2 for j in range(n))
    if tier == 'thorough':
        for i, k in itertools.combinations(range(n), 2):
            yield tuple(3 if j in (i, k) else 2 for j in range(n))
            yield tuple(1 if j in (i, k) else 2 for j in range(n))


def bounds(tier):
    return {'templates': len(SPEC), 'dims': '1..4', 'full_product_up_to_edges': 12 if tier == 'thorough' else 8, 'orders': 'all single-tensor permutations, all reversed'}


def cases(tier):
    full = bounds(tier)['full_product_up_to_edges']
    for name in SPEC:
        E = edges_of(name)
        big = len(SPEC[name][0]) > 7
        dims = list(assignments(len(E), tier, full))
        if big and tier == 'quick':
            dims = [dims[0]] + dims[-len(E):][::2]
        if len(E) <= 14:
            # pairwise different and larger dimensions
            for k in range(3):
                dims.append([2 + (j * (k + 1) + k) % (7 if len(E) < 9 else 4) for j in range(len(E))])
            if len(E) <= 7:
                dims += [list(range(2, 2 + len(E))), list(range(2, 2 + len(E)))[::-1], [1 + j * j % 6 for j in range(len(E))]]
        for d in dims:
            yield {'t': name, 'dims': list(d), 'k': 'plain'}
        for kind in ('orders', 'shared', 'like', 'mixed', 'again', 'complex', 'twisted', 'types'):
            yield {'t': name, 'k': kind}
    for kind in ('factory', 'triangleTrace', 'squareTrace', 'selfTrace', 'dicts', 'refuse'):
        yield {'k': kind}


def make(name, dims, seed=0, cplx=False):
    T, links, out = SPEC[name]
    dim = {}
    for e, d in zip(edges_of(name), dims):
        for x in e:
            dim[x] = d
    return {t: generic([dim[(t, leg)] for leg in T[t]], seed + i, cplx) for i, t in enumerate(T)}


def expected(name, arrays):
    T, links, out = SPEC[name]
    idx = {}
    for k, e in enumerate(edges_of(name)):
        for x in e:
            idx[x] = k
    args = []
    for t in T:
        args += [arrays[t], [idx[(t, leg)] for leg in T[t]]]
    labels = sorted(out)
    order = [idx[x] for lab in labels for x in out[lab]]
    free = [k for k, e in enumerate(edges_of(name)) if len(e) == 1]
    assert sorted(order) == sorted(free), name
    res = np.einsum(*args, order, optimize='greedy')
    shape, pos = [], 0
    for lab in labels:
        n = len(out[lab])
        shape.append(int(np.prod(res.shape[pos:pos + n])))
        pos += n
    return labels, res.reshape(shape)


def compare(res, labels, want, ctx, what, tol=0.0):
    ctx.check(sorted(leg.name for leg in res.legs) == labels, lambda: '%s: legs %r, expected %r' % (what, [leg.name for leg in res.legs], labels))
    got = by_labels(res, labels)
    ctx.check(got.shape == want.shape, lambda: '%s: shape %r, expected %r' % (what, got.shape, want.shape))
    ctx.check(np.array_equal(got, want) if not tol else np.max(np.abs(got - want), initial=0) <= tol * max(1.0, np.max(np.abs(want), initial=0)), lambda: '%s: wrong value' % what)


def use(name, arrays, ctx, what, orders=None, wrap=dict, ftn=None):
    T, links, out = SPEC[name]
    tensors = {}
    for t in T:
        perm = (orders or {}).get(t, list(range(len(T[t]))))
        tensors[t] = Tensor(data=np.transpose(arrays[t], perm), labels=[T[t][i] for i in perm])
    res = (ftn or build(name)).contract(wrap(tensors))
    labels, want = expected(name, arrays)
    single = any(a.dtype in (np.float32, np.complex64) for a in arrays.values())
    compare(res, labels, want, ctx, what, 1e-4 if single else 0.0)
    for t in T:
        perm = (orders or {}).get(t, list(range(len(T[t]))))
        ctx.check([leg.name for leg in tensors[t].legs] == [T[t][i] for i in perm] and all(leg.bond is None for leg in tensors[t].legs)
                  and np.array_equal(dense(tensors[t]), np.transpose(arrays[t], perm)), lambda: '%s: the given tensor %s was changed' % (what, t))
    ctx.step()
    ctx.trace()
    ctx.state([name, [list(arrays[t].shape) for t in T], sorted((orders or {}).items())])
    ctx.outcome(name)


def run_case(case, ctx):
    kind = case['k']
    if 't' not in case:
        return OTHER[kind](ctx)
    name = case['t']
    T, links, out = SPEC[name]
    n = len(edges_of(name))
    mixed = [2 + (j % 2) for j in range(n)] if n <= 14 else [2] * n
    if kind == 'plain':
        use(name, make(name, case['dims']), ctx, '%s with dimensions %r' % (name, case['dims']))
    elif kind == 'complex':
        use(name, make(name, mixed, 3, True), ctx, '%s, complex' % name)
    elif kind == 'orders':
        arrays = make(name, mixed, 5)
        big = len(T) > 7
        for t in T:
            perms = list(itertools.permutations(range(len(T[t]))))
            for perm in (perms[1:] if not big else [perms[-1], perms[len(perms) // 2]]):
                use(name, arrays, ctx, '%s with legs of %s ordered %r' % (name, t, perm), {t: list(perm)})
        use(name, arrays, ctx, '%s with all legs reversed' % name, {t: list(range(len(T[t])))[::-1] for t in T}, wrap=TensorDict)
    elif kind == 'twisted':
        # the legs of all tensors in other orders at once
        arrays = make(name, mixed, 6)
        for k in range(1, 24 if len(T) < 8 else 4):
            orders = {}
            for i, t in enumerate(T):
                perms = list(itertools.permutations(range(len(T[t]))))
                orders[t] = list(perms[(k + i * 7 * (k % 3)) % len(perms)])
            use(name, arrays, ctx, '%s with legs ordered %r' % (name, orders), orders, wrap=TensorDict if k % 2 else dict)
    elif kind == 'types':
        for k, conv in enumerate((lambda a: a.astype(int), lambda a: a.astype(np.float32), np.asfortranarray, lambda a: np.repeat(a, 2, axis=0)[::2], lambda a: a * 0, lambda a: a.astype(np.complex64))):
            use(name, {t: conv(a) for t, a in make(name, mixed, 2).items()}, ctx, '%s with input arrays of kind %d' % (name, k))
    elif kind == 'shared':
        # one tensor object in every place with the same legs, all dimensions equal
        arrays = make(name, [2] * n, 7)
        kinds = {}
        for t in T:
            kinds.setdefault(tuple(T[t]), []).append(t)
        tensors, A = {}, {}
        for legs, names in kinds.items():
            a = Tensor(data=arrays[names[0]], labels=list(legs))
            for t in names:
                tensors[t] = a
                A[t] = arrays[names[0]]
        labels, want = expected(name, A)
        for again in range(2):
            compare(build(name).contract(TensorDict(dict(tensors))), labels, want, ctx, '%s with a shared tensor, use %d' % (name, again))
            ctx.step()
        for t in T:
            ctx.check(np.array_equal(dense(tensors[t]), A[t]) and [leg.name for leg in tensors[t].legs] == T[t], '%s: a shared tensor was changed' % name)
        ctx.trace()
    elif kind == 'like':
        arrays = make(name, mixed, 1)
        labels, want = expected(name, arrays)
        res = build(name).contract({t: Tensor(shape=arrays[t].shape, labels=list(T[t]), tensorLikeFlag=True) for t in T})
        ctx.check(sorted((leg.name, leg.dim) for leg in res.legs) == list(zip(labels, want.shape)) and res.tensorLikeFlag,
                  lambda: '%s of shape-only tensors has legs %r, expected %r' % (name, [(leg.name, leg.dim) for leg in res.legs], list(zip(labels, want.shape))))
        ctx.step()
        ctx.trace()
    elif kind == 'mixed':
        # each tensor in turn diagonal
        for k, t in enumerate(T):
            arrays = make(name, [2] * n, k)
            vec = generic([2], k + 3)
            arr = np.zeros((2,) * len(T[t]))
            for i in range(2):
                arr[(i,) * len(T[t])] = vec[i]
            arrays[t] = arr
            tensors = {s: Tensor(data=arrays[s], labels=list(T[s])) for s in T}
            tensors[t] = DiagonalTensor(data=vec, labels=list(T[t]))
            labels, want = expected(name, arrays)
            compare(build(name).contract(tensors), labels, want, ctx, '%s with %s diagonal' % (name, t))
            ctx.step()
        ctx.trace()
    elif kind == 'again':
        # one template object with changing dimensions, interleaved with a second object
        f, _, arg = name.partition(':')
        fresh = [getattr(ce, f)(*([arg] if arg else [])) for _ in range(2)]
        seqs = [[2] * n, mixed, [1] * n, [2] * n] if n > 14 else [[2] * n, [4] + [2] * (n - 1), mixed, [2] * (n - 1) + [4], [2] * n]
        for k, dims in enumerate(seqs):
            for f in fresh[:1 + k % 2]:
                use(name, make(name, dims, k), ctx, '%s, use %d with dimensions %r' % (name, k, dims), ftn=f)


def factory(ctx):
    for shape in itertools.product((1, 2, 3), repeat=3):
        a = generic(shape, 1)
        for labels in (None, ['2', '3', '1'], ['x', 'y', 'z']):
            t = makeTriangleTensor(a) if labels is None else makeTriangleTensor(a, labels=labels)
            ctx.check([l.name for l in t.legs] == (labels or ['1', '2', '3']) and np.array_equal(dense(t), a), lambda: 'makeTriangleTensor(shape %r, %r)' % (shape, labels))
            ctx.step()
        for loc, legs in (('ul', ['d', 'r', 'o']), ('ur', ['d', 'l', 'o']), ('dl', ['u', 'r', 'o']), ('dr', ['u', 'l', 'o'])):
            t = makeSquareOutTensor(a, loc)
            ctx.check(np.array_equal(by_labels(t, legs), a), lambda: 'makeSquareOutTensor(shape %r, %r)' % (shape, loc))
            ctx.step()
    for shape in itertools.product((1, 2, 3), repeat=4):
        a = generic(shape, 1)
        for labels in (None, ['d', 'r', 'u', 'l'], ['w', 'x', 'y', 'z']):
            t = makeSquareTensor(a) if labels is None else makeSquareTensor(a, labels=labels)
            ctx.check([l.name for l in t.legs] == (labels or ['u', 'l', 'd', 'r']) and np.array_equal(dense(t), a), lambda: 'makeSquareTensor(shape %r, %r)' % (shape, labels))
            ctx.step()
    for f, n in ((makeTriangleTensor, 3), (makeSquareTensor, 4)):
        for rank in range(7):
            if rank != n:  # the wrong number of dimensions, with the default labels and with one label for each of them
                refused(ctx, lambda: f(np.ones((2,) * rank)), '%s of %d dimensions' % (f.__name__, rank))
                refused(ctx, lambda: f(np.ones((2,) * rank), labels=list('abcdefg'[:rank])), '%s of %d dimensions and labels' % (f.__name__, rank))
    refused(ctx, lambda: makeSquareOutTensor(np.ones((2, 2, 2)), 'u'), 'makeSquareOutTensor at u')
    ctx.trace()


def refused(ctx, fn, what):
    try:
        got = fn()
    except (AssertionError, ValueError):
        ctx.step()
        return
    ctx.fail('%s was accepted: %r' % (what, got))


def triangle_trace(ctx):
    for shape in itertools.product((1, 2, 3), repeat=3):
        for perm in itertools.permutations(range(3)):
            for pb in ((0, 1, 2), (2, 0, 1), (1, 0, 2)):
                a, b = generic(shape, 1), generic(shape, 2)
                labels = ['1', '2', '3']
                A = Tensor(data=np.transpose(a, perm), labels=[labels[i] for i in perm])
                B = Tensor(data=np.transpose(b, pb), labels=[labels[i] for i in pb])
                r = ce.triangleTensorTrace(A, B)
                ctx.check(r.single() == float((a * b).sum()), lambda: 'triangleTensorTrace of shape %r orders %r %r gave %r' % (shape, perm, pb, r.single()))
                ctx.check(all(l.bond is None for t in (A, B) for l in t.legs) and np.array_equal(dense(A), np.transpose(a, perm)), 'triangleTensorTrace changed its arguments')
                ctx.step()
        # with one more leg each
        a, b = generic(shape + (2,), 1), generic((2,) + shape, 4)
        r = ce.triangleTensorTrace(Tensor(data=a, labels=['1', '2', '3', 'x']), Tensor(data=b, labels=['y', '1', '2', '3']))
        ctx.check(np.array_equal(by_labels(r, ['x', 'y']), np.einsum('abcx,yabc->xy', a, b)), lambda: 'triangleTensorTrace with outer legs, shape %r' % (shape,))
        r = ce.triangleTensorTrace(*[Tensor(data=generic(shape, 1), labels=['1', '2', '3'])] * 2)
        ctx.check(r.single() == float((generic(shape, 1) ** 2).sum()), 'triangleTensorTrace of a tensor with itself')
        ctx.step(2)
    ctx.trace()


def square_trace(ctx):
    for v, h in itertools.product((1, 2, 3), repeat=2):
        a = generic((v, h, v, h), 2)
        labels = ['u', 'l', 'd', 'r']
        for perm in itertools.permutations(range(4)):
            T = Tensor(data=np.transpose(a, perm), labels=[labels[i] for i in perm])
            r = ce.squareTrace(T)
            ctx.check(float(r) == float(np.einsum('abab->', a)), lambda: 'squareTrace of shape %r order %r gave %r' % ((v, h), perm, r))
            ctx.check(sorted(l.name for l in T.legs) == sorted(labels) and np.array_equal(by_labels(T, labels), a), 'squareTrace changed its argument')
            ctx.step()
    ctx.trace()


def self_trace(ctx):
    for n in range(1, 5):
        for shape in itertools.product((1, 2, 3), repeat=n):
            a = generic(shape, 3)
            T = Tensor(data=a, labels=['x%d' % i for i in range(n)])
            r = ce.selfTrace(T)
            ctx.check(r.single() == float((a * a).sum()), lambda: 'selfTrace of shape %r gave %r' % (shape, r.single()))
            ctx.check(all(l.bond is None for l in T.legs) and np.array_equal(dense(T), a), 'selfTrace changed its argument')
            ctx.step()
    D = DiagonalTensor(data=np.array([2.0, -3.0]), labels=['a', 'b', 'c'])
    ctx.check(ce.selfTrace(D).single() == 13.0, 'selfTrace of a diagonal tensor')
    ctx.trace()


def dicts(ctx):
    a, b = Tensor(data=generic((2, 2, 2), 1), labels=['1', '2', '3']), Tensor(data=generic((2, 2, 2, 2), 1), labels=['u', 'l', 'd', 'r'])
    c = Tensor(data=generic((2, 2, 2, 2), 2), labels=['u', 'l', 'd', 'r'])
    d = ce.makeTriangleTensorDict(a)
    ctx.check(d.tensorCount == 3 and all(d.getTensor(k) is a for k in 'ulr'), 'makeTriangleTensorDict')
    for second in (None, c):
        d = ce.makeSquareTensorDict(b) if second is None else ce.makeSquareTensorDict(b, second)
        o = b if second is None else c
        ctx.check(d.tensorCount == 4 and d.getTensor('ul') is b and d.getTensor('dr') is b and d.getTensor('ur') is o and d.getTensor('dl') is o, 'makeSquareTensorDict')
    ctx.step(3)
    ctx.trace()


def refuse(ctx):
    for f, bad in ((ce.squareHorizontalContractFTN, 'u'), (ce.squareHorizontalContractFTN, 'x'), (ce.squareVerticalContractFTN, 'l'), (ce.squareVerticalContractFTN, '')):
        refused(ctx, lambda: f(bad), '%s(%r)' % (f.__name__, bad))
    ctx.trace()


OTHER = {'factory': factory, 'triangleTrace': triangle_trace, 'squareTrace': square_trace, 'selfTrace': self_trace, 'dicts': dicts, 'refuse': refuse}
