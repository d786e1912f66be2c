"""C03: copies share nothing; contraction and copying leave their inputs untouched."""
import itertools

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.link import makeLink
from CTL.tensor.leg import Leg
from CTL.tensor.contract.optimalContract import (contractAndCostWithSequence, contractWithSequence, contractTensorList,
                                                 generateOptimalSequence, generateGreedySequence, makeTensorGraph,
                                                 copyTensorList, contractCost)
from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork

from mc.model import generic, same, show, dense, consistent_legs
from mc.nets import Net, multigraphs, sequences, larger
from mc.props.c02 import distinct_dims

PROPERTY = 'C03'
RULE = ('every multigraph on up to n tensors with every dense/diagonal assignment; every non-destructive operation on the '
        'whole network and every copy of every subset of it; inputs compared with a snapshot (data, leg objects, labels, '
        'bonds) afterwards (from 4 tensors on: listed kinds and subsets; every data type and layout of the source array), then each side is overwritten, renamed and relinked and the other compared again')
ASSUMPTIONS = ['identity of Leg objects and bond partners is how a user observes connections']


def bounds(tier):
    return {'tensors': 3 if tier == 'quick' else 4, 'bonds_per_pair': 2}


NETOPS = ['contract', 'contractSeq', 'contractCost', 'contractBf', 'greedy', 'list', 'genOpt', 'genGreedy', 'graph',
          'ftn', 'like']


def cases(tier):
    nets = [(1, 0, 3), (2, 2, 2), (3, 1, 1)]
    for n, mult, freemax in nets:
        for edges in multigraphs(n, mult):
            for free in itertools.product(range(freemax + 1), repeat=n):
                yield {'n': n, 'e': edges, 'free': list(free)}
    for edges in multigraphs(3, 2):
        if 2 in [edges.count(e) for e in edges]:
            for free in ([1, 0, 0], [0, 1, 1]) if tier == 'quick' else itertools.product(range(2), repeat=3):
                yield {'n': 3, 'e': edges, 'free': list(free)}
    if tier == 'thorough':
        for edges in multigraphs(4, 1):
            for free in ([1, 0, 0, 0], [0, 1, 1, 0], [0, 0, 0, 0]):
                yield {'n': 4, 'e': edges, 'free': list(free)}
    # four and more tensors, many legs and bonds
    for edges in multigraphs(4, 1):
        for free in ([1, 0, 0, 1], [0] * 4) if tier == 'thorough' else ([1, 0, 0, 1],):
            yield {'n': 4, 'e': edges, 'free': free, 'listed': True}
    for n, edges in larger(tier):
        yield {'n': n, 'e': edges, 'free': [1] + [0] * (n - 1), 'listed': True}
    for n, edges, free in ((1, [], [6]), (2, [[0, 1]] * 4, [0, 1]), (2, [[0, 1]] * 5, [1, 0]), (2, [[0, 1]], [4, 3]), (3, [[0, 1]] * 3 + [[1, 2]] * 2, [0, 2, 0])):
        yield {'n': n, 'e': edges, 'free': free, 'listed': True}
    for kind in 'DG':
        for rank in range(7):
            yield {'types': kind, 'rank': rank}


def types(case, ctx):
    for dtype in ('int64', 'int32', 'float32', 'float64', 'complex64', 'complex128', 'bool'):
        for layout in ('plain', 'fortran', 'slice', 'readonly'):
            c = dict(case, dtype=dtype, layout=layout)
            ctx.guarded(lambda: typed(c, ctx), c)


def typed(c, ctx):
    kind, rank = c['types'], c['rank']
    shape = (3,) * rank if kind == 'G' else (2, 3, 2, 1, 3, 2)[:rank]
    src = generic(shape[:1] if kind == 'G' else shape, 3, 'complex' in c['dtype'])
    src = np.asarray(src > 2 if c['dtype'] == 'bool' else src).astype(c['dtype'])
    if c['layout'] == 'fortran' and src.ndim:
        src = np.asfortranarray(src)
    elif c['layout'] == 'slice' and src.ndim:
        src = np.repeat(src, 2, axis=0)[::2]
    elif c['layout'] == 'readonly':
        src.flags.writeable = False
    keep = src.copy()
    names = ['l%d' % i for i in range(rank)]
    t = (DiagonalTensor if kind == 'G' else Tensor)(data=src, shape=shape, labels=names) if rank or kind == 'D' else DiagonalTensor(data=src)
    partners = [Leg(None, leg.dim, 'o') for leg in t.legs]
    for leg, other in zip(t.legs, partners):
        makeLink(leg, other)
    for op in ('copy', 'copyN', 'copyList', 'toTensorLike'):
        before = snap([t])
        if op == 'copy':
            out = [t.copy(), t.copy().copy()]
        elif op == 'copyN':
            out = list(t.copyN(4))
        elif op == 'copyList':
            out = copyTensorList([t])
        elif op == 'toTensorLike':
            out = [t.toTensorLike()]
            same_copies(ctx, [t], out, like=True)
            out = []
        ctx.step()
        untouched(ctx, before, [t], op)
        if out:
            same_copies(ctx, [t] * len(out), out, like=False)
            for k, u in enumerate(out):
                ctx.check(all(leg.bond is None for leg in u.legs), 'a copy of one tensor is linked')
                a = np.asarray(u.a)
                ctx.check(a.flags.writeable, 'a copy cannot be written to')
                a[...] = a + 1 if a.dtype != bool else ~a
                untouched(ctx, before, [t], 'a write to a copy')
                ctx.check(all(same(np.asarray(w.a), keep) for w in out[k + 1:]), 'copies made together share data')
    taken(c, ctx, t)
    ctx.check(same(src, keep), 'the array given to the constructor changed')
    ctx.trace()
    ctx.state(c)
    ctx.outcome('types')


def taken(c, ctx, t):
    """Vectors and matrices of a tensor are taken and written to; every way to divide the legs, in both orders."""
    names, rank = list(t.labels), len(t.labels)
    requests = [('toVector', {})] + [('toTensor', {}), ('toTensor', {'labels': names})] * (c['types'] == 'G' and rank > 0)
    for r in range(rank + 1):
        for rows in itertools.combinations(names, r):
            cols = [x for x in names if x not in rows]
            requests += [('toMatrix', {'rows': list(rows), 'cols': cols}), ('toMatrix', {'rows': list(rows)}), ('toMatrix', {'cols': cols[::-1]}),
                         ('toMatrix', {'rows': [t.getLeg(x) for x in rows], 'cols': [t.getLeg(x) for x in cols[::-1]]})]
    before = snap([t])
    for fn, kw in requests:
        if c['types'] == 'G' and rank == 0:
            continue
        out = getattr(t, fn)(**kw)
        ctx.step()
        if out.flags.writeable:
            out[...] = out + 1 if out.dtype != bool else ~out
        untouched(ctx, before, [t], '%s(%r), or a write to what it returned,' % (fn, kw))


def run_case(case, ctx):
    if 'op' in case:
        return one(case, ctx)
    if 'types' in case:
        return typed(case, ctx) if 'dtype' in case else types(case, ctx)
    n = case['n']
    edges = [tuple(e) for e in case['e']]
    for v, f in enumerate(case['free']):
        edges += [(v, None)] * f
    listed = 'listed' in case
    for kk in (['D' * n, ('DG' * n)[:n], 'G' + 'D' * (n - 1), 'G' * n] if listed else (''.join(k) for k in itertools.product('DG', repeat=n))):
        net = Net(n, edges, kk, distinct_dims(n, edges, kk))
        if listed and np.prod(net.dims) > 20000:
            net = Net(n, edges, kk, [1 + d % 2 for d in net.dims])
        for op in NETOPS:
            c = dict(net.desc(), op=op, labels='unique', cplx=False)
            ctx.guarded(lambda: one(c, ctx), c)
        for r in range(1, n + 1):
            for sub in [p[::o] for p in itertools.combinations(range(n), r) for o in (1, -1)[:r]] if listed else itertools.permutations(range(n), r):
                for op in ('copyList', 'copyListLike', 'relink'):
                    c = dict(net.desc(), op=op, sub=list(sub), labels='same', cplx=(r == 1))
                    ctx.guarded(lambda: one(c, ctx), c)
        for op in ('copy', 'toTensorLike', 'construct', 'constructLegs', 'copyLike'):
            c = dict(net.desc(), op=op, labels='same', cplx=(n == 2))
            ctx.guarded(lambda: one(c, ctx), c)


def snap(tensors):
    out = []
    for t in tensors:
        out.append({
            'a': None if t.a is None else np.array(t.a), 'dtype': None if t.a is None else np.asarray(t.a).dtype,
            'legs': list(t.legs), 'names': [l.name for l in t.legs], 'dims': [l.dim for l in t.legs],
            'owner': [l.tensor is t for l in t.legs], 'bond': [l.bond for l in t.legs],
            'other': [l.anotherSide() for l in t.legs], 'shape': tuple(t.shape), 'labels': list(t.labels),
            'flags': (t.diagonalFlag, t.tensorLikeFlag), 'tname': t.name, 'dof': t.degreeOfFreedom})
    return out


def diff(before, after):
    for i, (b, a) in enumerate(zip(before, after)):
        for k in b:
            if k == 'a':
                if (b[k] is None) != (a[k] is None) or (b[k] is not None and not same(b[k], a[k])):
                    return 'tensor %d: data %s became %s' % (i, show(b[k]), show(a[k]))
            elif k in ('legs', 'bond', 'other'):
                if len(b[k]) != len(a[k]) or any(x is not y for x, y in zip(b[k], a[k])):
                    return 'tensor %d: %s changed (labels before %r, after %r)' % (i, k, b['names'], a['names'])
            elif b[k] != a[k]:
                return 'tensor %d: %s was %r, now %r' % (i, k, b[k], a[k])
    return None


def scribble(ts):
    for t in ts:
        if t.a is not None:
            arr = np.asarray(t.a)
            if arr.size and arr.flags.writeable:
                arr[...] = arr * 2 + 31


def rename(ts):
    for t in ts:
        for i, leg in enumerate(t.legs):
            leg.name = 'renamed%d' % i


def untouched(ctx, before, tensors, what):
    d = diff(before, snap(tensors))
    ctx.check(d is None, lambda: '%s changed its input: %s' % (what, d))


def one(c, ctx):
    net = Net.of(c)
    op = c['op']
    tensors, arrays, ids = net.build(labels=c['labels'], cplx=c['cplx'], like=(op == 'copyLike'))
    for i, t in enumerate(tensors):
        t.degreeOfFreedom = i + 3
    before = snap(tensors)
    ctx.step()
    if op in NETOPS:
        network_op(op, net, tensors, arrays, ids, before, ctx)
    elif op in ('copyList', 'copyListLike'):
        sub = [tensors[v] for v in c['sub']]
        out = copyTensorList(sub, tensorLikeFlag=(op == 'copyListLike'))
        untouched(ctx, before, tensors, 'copyTensorList')
        same_copies(ctx, sub, out, like=(op == 'copyListLike'))
        for i, (t, u) in enumerate(zip(sub, out)):
            for p, leg in enumerate(t.legs):
                other = leg.anotherSide()
                got = u.legs[p].anotherSide()
                if other is not None and any(other.tensor is x for x in sub):
                    j = [x is other.tensor for x in sub].index(True)
                    q = [x is other for x in sub[j].legs].index(True)
                    ctx.check(got is out[j].legs[q], lambda: 'copy of leg %d of tensor %d is not linked to the copy of its partner' % (p, i))
                else:
                    ctx.check(got is None, lambda: 'copy of leg %d of tensor %d has a link although its partner was not copied' % (p, i))
        isolate(ctx, tensors, out, before, 'copyTensorList')
    elif op == 'relink':
        sub = [tensors[v] for v in c['sub']]
        inside = lambda leg: any(leg.tensor is x for x in sub)
        outgoing = [(i, p, leg.anotherSide()) for i, t in enumerate(sub) for p, leg in enumerate(t.legs)
                    if leg.anotherSide() is not None and not inside(leg.anotherSide())]
        out = copyTensorList(sub, linkOutgoingBonds=True)
        same_copies(ctx, sub, out, like=False)
        for i, p, other in outgoing:
            ctx.check(out[i].legs[p].anotherSide() is other, 'outgoing bond of the copy does not reach the old partner')
            ctx.check(other.anotherSide() is out[i].legs[p], 'the old partner is not linked to the copy')
            ctx.check(sub[i].legs[p].bond is None, 'the replaced bond is still on the original leg')
        for t in tensors + out:
            consistent_legs(t, 'after relinking:')
        for t, u, b in zip(sub, out, [before[v] for v in c['sub']]):
            ctx.check(same(np.asarray(t.a), b['a']) and list(t.labels) == b['labels'], 'original data or labels changed')
    elif op in ('copy', 'copyLike'):
        out = [t.copy() for t in tensors]
        untouched(ctx, before, tensors, 'copy')
        same_copies(ctx, tensors, out, like=(op == 'copyLike'))
        for u in out:
            ctx.check(all(leg.bond is None for leg in u.legs), 'a copy of one tensor is linked')
        isolate(ctx, tensors, out, before, 'copy')
        if op == 'copy':
            for t in tensors:
                many = t.copyN(3)
                same_copies(ctx, [t] * 3, many, like=False)
                scribble(many[:1])
                ctx.check(same(np.asarray(many[1].a), np.asarray(t.a)) and same(np.asarray(many[2].a), np.asarray(t.a)),
                          'copies made together share data')
    elif op == 'toTensorLike':
        out = [t.toTensorLike() for t in tensors]
        untouched(ctx, before, tensors, 'toTensorLike')
        same_copies(ctx, tensors, out, like=True)
        isolate(ctx, tensors, out, before, 'toTensorLike')
    else:
        construct(op, net, arrays, ids, ctx)
    ctx.trace()
    ctx.state([c['n'], c['edges'], c['kinds'], op, c.get('sub')])
    ctx.outcome(op)


def same_copies(ctx, tensors, out, like):
    ctx.check(len(tensors) == len(out), 'number of copies')
    for t, u in zip(tensors, out):
        ctx.check(u is not t, 'the copy is the original object')
        ctx.check(list(u.labels) == list(t.labels) and tuple(u.shape) == tuple(t.shape),
                  lambda: 'copy has labels %r shape %r, original %r %r' % (u.labels, u.shape, t.labels, t.shape))
        ctx.check(u.diagonalFlag == t.diagonalFlag, 'copy changed the dense/diagonal kind')
        ctx.check(u.name == t.name and u.degreeOfFreedom == t.degreeOfFreedom, 'copy lost its name or degree of freedom')
        ctx.check(not any(x is y for x in u.legs for y in t.legs), 'copy shares leg objects with the original')
        consistent_legs(u, 'copy:')
        if like:
            ctx.check(u.tensorLikeFlag and u.a is None, 'shape-only copy carries data')
        else:
            ctx.check(not u.tensorLikeFlag and same(np.asarray(u.a), np.asarray(t.a)), lambda: 'copy holds %s, original %s' % (show(u.a), show(t.a)))
            ctx.check(np.asarray(u.a).dtype == np.asarray(t.a).dtype, 'copy changed the data type')


def isolate(ctx, originals, out, before, what):
    """Writes on either side must not show on the other."""
    scribble(out)
    rename(out)
    for u in out:
        for leg in u.legs:
            makeLink(leg, Leg(None, leg.dim, 'elsewhere'))
    untouched(ctx, before, originals, 'a write to the result of %s' % what)
    mid = snap(out)
    scribble(originals)
    rename(originals)
    for t in originals:
        for leg in t.legs:
            makeLink(leg, Leg(None, leg.dim, 'elsewhere'))
    d = diff(mid, snap(out))
    ctx.check(d is None, lambda: 'a write to the original changed the result of %s: %s' % (what, d))


def network_op(op, net, tensors, arrays, ids, before, ctx):
    kw = {'outProductWarning': False}
    given = list(tensors)
    res = None
    if op == 'contract':
        res = contractWithSequence(tensors, **kw)
    elif op == 'contractSeq':
        for seq in itertools.islice(sequences(net.n), None if net.n < 5 else 12):
            res = contractWithSequence(tensors, seq=seq, **kw)
            untouched(ctx, before, tensors, 'contraction along %r' % (seq,))
    elif op == 'contractCost':
        res, _ = contractAndCostWithSequence(tensors, typicalDim=None, **kw)
    elif op == 'contractBf':
        res = contractWithSequence(tensors, bf=True, **kw)
    elif op == 'greedy':
        res, _ = contractAndCostWithSequence(tensors, greedy=True, **kw)
    elif op == 'list':
        res = contractTensorList(tensors, outProductWarning=False)
    elif op == 'genOpt':
        generateOptimalSequence(tensors)
        generateOptimalSequence(tensors, bf=True, typicalDim=None)
    elif op == 'genGreedy':
        generateGreedySequence(tensors)
    elif op == 'graph':
        makeTensorGraph(tensors).optimalContractSequence(typicalDim=None)
        for a, b in itertools.combinations(tensors, 2):
            contractCost(a, b)
    elif op == 'like':
        likes = copyTensorList(tensors, tensorLikeFlag=True)
        res = contractWithSequence(likes, **kw)
        untouched(ctx, before, tensors, 'shape-only contraction')
        return
    elif op == 'ftn':
        ftn = FiniteTensorNetwork(tensorNames=['T%d' % v for v in range(net.n)])
        for k, (u, v) in enumerate(net.edges):
            if v is not None:
                ftn.addLink('T%d' % u, 'e%da' % k, 'T%d' % v, 'e%db' % k)
        ftn.addPreNameChange('T0', net_first(net), 'other') if net_first(net) else None
        if len({x for e in net.edges for x in e} - {None}) < net.n and any(t.diagonalFlag for t in tensors):
            pass
        td = {'T%d' % v: t for v, t in enumerate(tensors)}
        res = ftn.contract(td)
        ctx.check(list(td) == ['T%d' % v for v in range(net.n)] and all(td['T%d' % v] is t for v, t in enumerate(tensors)), 'the given dictionary was changed')
    ctx.check(len(tensors) == len(given) and all(x is y for x, y in zip(given, tensors)), 'the given list was changed by %s' % op)
    untouched(ctx, before, tensors, op)
    if res is not None:
        isolate(ctx, tensors, [res], before, op)


def net_first(net):
    for k, (u, v) in enumerate(net.edges):
        if u == 0 and v is None:
            return 'e%da' % k
    return None


def construct(op, net, arrays, ids, ctx):
    """A tensor built from an array owns its data; flat and reshaped arrays included."""
    for v in range(net.n):
        shape = tuple(net.dims[k] for k in net.inc[v])
        labels = ['x%d' % i for i in range(len(shape))]
        kinds = [(Tensor, arrays[v]), (Tensor, np.asarray(arrays[v]).reshape(-1)), (Tensor, np.asfortranarray(arrays[v]))]
        if len(set(shape)) <= 1:
            vec = generic(shape[:1], 4)
            kinds += [(DiagonalTensor, vec), (DiagonalTensor, arrays[v])]
        for cls, src in kinds:
            src = np.array(src, order='K')
            keep = src.copy()
            kw = {'shape': shape}
            if op == 'constructLegs':
                kw = {'legs': [Leg(None, d, n) for d, n in zip(shape, labels)]}
            t = cls(data=src, **kw)
            val = dense(t).copy()
            ctx.check(same(src, keep), 'building a tensor changed the source array')
            src[...] = 77
            ctx.check(same(dense(t), val), lambda: '%s built from an array follows later writes to the array' % cls.__name__)
            src[...] = keep
            scribble([t])
            ctx.check(same(src, keep), lambda: 'a write to a %s shows up in the array it was built from' % cls.__name__)
            t2 = cls(data=t.a, **kw) if op != 'constructLegs' else t.copy()
            val = np.array(t.a)
            scribble([t2])
            ctx.check(same(np.asarray(t.a), val), 'tensor built from the data of another shares it')
            ctx.step()
