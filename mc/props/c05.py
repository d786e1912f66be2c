"""C05: a shape-only tensor predicts exactly what the real tensor does."""
import itertools
import sys

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.contract import contractTwoTensors, merge, shareBonds
from CTL.tensor.contract.link import mergeLink, makeLink
from CTL.tensor.contract.optimalContract import copyTensorList, contractCost, makeTensorGraph, contractAndCostWithSequence
from CTL.examples.Schimdt import SchimdtDecomposition

from mc.core import Violated
from mc.histories import run_only
from mc.model import jkey, consistent_legs
from mc.nets import Net, multigraphs, larger
from mc.props.c02 import distinct_dims
from mc.props.c06 import refused

PROPERTY = 'C05'
RULE = ('breadth-first over all histories of structural operations (contract, merge with/without truncation, split by Schmidt '
        'decomposition, combine legs, sum out, rename, tag, reorder, copy) applied in lock step to a real network and to its shape-only '
        'copy; labels, dimensions, connections, kinds and costs compared in every state, data requests and mixed contractions must be refused; every multigraph on up to 4 tensors and '
        'listed ones of 6 to 8 along listed sequences; every truncation size of listed pairs')
ASSUMPTIONS = ['before a truncating operation the real tensors are filled with generic numbers, so that the numerical rank is what the shapes allow']

#           n, edges, kinds, dims
NETS = []
for kinds in ('DD', 'DG', 'GD', 'GG'):
    NETS.append((2, [(0, 1), (0, 1), (0, None), (1, None)], kinds, [2, 3, 4, 5]))
    NETS.append((2, [(0, 1), (0, 1), (0, None), (1, None), (1, None)], kinds, [2, 2, 3, 2, 3]))
    NETS.append((2, [(0, None), (1, None), (1, None)], kinds, [2, 3, 4]))
NETS.append((2, [(0, 1), (0, 1), (0, 1), (0, None), (1, None)], 'DD', [2, 2, 3, 7, 5]))
for kinds in ('DDD', 'GDD', 'DGD', 'GGD', 'GGG', 'GDG'):
    NETS.append((3, [(0, 1), (1, 2), (0, 2), (0, None)], kinds, [2, 3, 4, 5]))
    NETS.append((3, [(0, 1), (0, 1), (1, 2), (2, None)], kinds, [2, 3, 4, 5]))
    NETS.append((3, [(0, 1), (0, None), (2, None)], kinds, [2, 3, 4]))


def bounds(tier):
    return {'networks': len(NETS), 'depth': 3 if tier == 'quick' else 4}


def fix_dims(n, edges, kinds, dims):
    from mc.nets import dim_classes
    return [dims[c] for c in dim_classes(n, edges, kinds)]


def maker(i):
    n, edges, kinds, dims = NETS[i]

    def make():
        net = Net(n, edges, kinds, fix_dims(n, edges, kinds, dims))
        reals = net.build()[0]
        # real-valued generic data: full rank for every matricisation
        rng = np.random.RandomState(12345)
        for t in reals:
            t.a = np.asarray(rng.random_sample(np.asarray(t.a).shape) + 0.1)
        return [reals, copyTensorList(reals, tensorLikeFlag=True)], None
    return make


def sig(world, blind=()):
    """Structure of a network; the dimension of the bond between the tensors of `blind` is left out."""
    out = []
    for k, t in enumerate(world):
        legs = []
        for leg in t.legs:
            o = leg.anotherSide()
            if o is not None:
                where = [j for j, u in enumerate(world) if any(x is o for x in u.legs)]
                o = [where, o.name]
            inner = k in blind and o is not None and any(j in blind for j in o[0])
            legs.append([str(leg.name), None if inner else leg.dim, o])
        out.append([bool(t.diagonalFlag), sorted(legs, key=str), None if k in blind else list(sorted(t.shape))])
    return out


def ops_for(world):
    reals = world[0]
    out = []
    n = len(reals)
    for i, j in itertools.permutations(range(n), 2):
        shared = len(shareBonds(reals[i], reals[j]))
        if i < j or (reals[i].diagonalFlag != reals[j].diagonalFlag):
            out.append(['contract', i, j])
        if i < j and shared and not reals[i].diagonalFlag and not reals[j].diagonalFlag:
            out += [['merge', i, j, None], ['merge', i, j, 2], ['merge', i, j, 50], ['mergeLink', i, j]]
            if reals[i].dim > shared and reals[j].dim > shared:
                out += [['schmidt', i, j, 3, False], ['schmidt', j, i, 50, True]]
                fr = [[l.name for l in reals[x].legs if l.anotherSide() is None or not any(l.anotherSide() is y for y in reals[i + j - x].legs)] for x in (i, j)]
                clear = all(len(set(reals[x].labels)) == reals[x].dim for x in (i, j))
                if clear:
                    out += [['schmidtSwap', i, j, 50, [[fr[0][0]], [fr[1][-1]]]]]
                if clear and len(fr[1]) > 1:
                    out += [['schmidtSwap', i, j, 50, [fr[0][:1] * 1, fr[1][:1]]]]
    for i, t in enumerate(reals):
        L = sorted(t.labels)
        if L:
            out.append(['rename', i, L[0], 'r' + L[0][:6]])
            out.append(['front', i, L[-1:]])
            out.append(['reArrange', i, L])
        if not any('-' in l for l in L):
            out.append(['tag', i])
        free = [leg.name for leg in t.legs if leg.bond is None]
        for l in free[:2]:
            out.append(['sum', i, l])
        for a, b in itertools.islice(itertools.permutations(L, 2), 4):
            if t.getLeg(a).bond is None and t.getLeg(b).bond is None:
                out.append(['outProduct', i, [a, b]])
        if t.diagonalFlag and len(L) >= 2:
            out.append(['outProduct', i, L[:2]])
    out.append(['copyAll'])
    out.append(['contractAll'])
    return out


def refill(t):
    # the numbers do not matter here, only that no rank deficiency truncates more than the shapes do
    rng = np.random.RandomState(12345 + t.dim)
    t.a = np.asarray(rng.random_sample(np.asarray(t.a).shape) + 0.1)


def perform(world, op, like):
    k = op[0]
    w = world
    if k in ('merge', 'schmidt', 'schmidtSwap') and not like:
        refill(w[op[1]])
        refill(w[op[2]])
    if k == 'contract':
        res = contractTwoTensors(w[op[1]], w[op[2]], outProductWarning=False)
        a, b = sorted(op[1:3])
        w[a] = res
        del w[b]
        return None
    if k == 'merge':
        w[op[1]], w[op[2]] = merge(w[op[1]], w[op[2]], chi=op[3], renameWarning=False)
    elif k == 'mergeLink':
        w[op[1]], w[op[2]] = mergeLink(w[op[1]], w[op[2]], bondName='m', renameWarning=False)
    elif k == 'schmidt':
        u, s, v = SchimdtDecomposition(w[op[1]], w[op[2]], chi=op[3], squareRootSeparation=op[4])
        w[op[1]], w[op[2]] = u, v
        if s is not None:
            w.append(s)
    elif k == 'schmidtSwap':
        w[op[1]], _, w[op[2]] = SchimdtDecomposition(w[op[1]], w[op[2]], chi=op[3], squareRootSeparation=True, swapLabels=op[4])
    elif k == 'rename':
        w[op[1]].renameLabel(op[2], op[3])
    elif k == 'front':
        w[op[1]].moveLabelsToFront(list(op[2]))
    elif k == 'reArrange':
        w[op[1]].reArrange(list(op[2]))
    elif k == 'tag':
        w[op[1]].addTensorTag('T')
    elif k == 'sum':
        w[op[1]].sumOutLegByLabel(op[2])
    elif k == 'outProduct':
        try:
            w[op[1]].outProduct(list(op[2]), 'P')
        except TypeError:
            return 'refused'
    elif k == 'copyAll':
        w[:] = copyTensorList(w)
    elif k == 'contractAll':
        res, cost = contractAndCostWithSequence(w, typicalDim=None, outProductWarning=False)
        w[:] = [res]
        return cost
    return None


def apply(world, model, op, ctx):
    reals, likes = world
    if op[0] in ('tag', 'schmidt', 'schmidtSwap') and any('-' in l for t in reals for l in t.labels):
        return world, model
    a = perform(reals, op, False)
    b = perform(likes, op, True)
    ctx.check(a == b, lambda: '%r returned %r on real tensors and %r on shape-only ones' % (op, a, b))
    sa, sb = sig(reals), sig(likes)
    if op[0] == 'schmidtSwap' and sa != sb and sig(reals, op[1:3]) == sig(likes, op[1:3]):
        ctx.record(Violated('the inner bond after %r has another dimension for shape-only tensors: %r, real: %r' % (op, sb, sa), key='schmidt-swap-like-dimension'))
        likes[:] = copyTensorList(reals, tensorLikeFlag=True)
        sb = sig(likes)
    ctx.check(sa == sb, lambda: 'after %r the real network is %r, the shape-only one %r' % (op, sa, sb))
    for t in reals:
        consistent_legs(t, 'real after %r:' % (op,))
        ctx.check(not t.tensorLikeFlag, 'real tensor became shape-only')
    for t in likes:
        consistent_legs(t, 'shape-only after %r:' % (op,))
        ctx.check(t.tensorLikeFlag and t.a is None, 'shape-only tensor became real')
    return world, model


def observe(world, model, ctx):
    reals, likes = world
    for i, j in itertools.permutations(range(len(reals)), 2):
        a, b = contractCost(reals[i], reals[j]), contractCost(likes[i], likes[j])
        ctx.check(a == b, lambda: 'contraction cost is %r for real and %r for shape-only tensors' % (a, b))
        for x, y in ((reals[i], likes[j]), (likes[i], reals[j])):
            try:
                contractTwoTensors(x, y, outProductWarning=False)
                ctx.fail('contracting a real with a shape-only tensor was not refused')
            except TypeError:
                pass
    for t, u in zip(reals, likes):
        for f in (u.toTensor, u.toVector, u.norm, u.single, u.trace, lambda: u.toMatrix(rows=list(u.labels)), lambda: u.toMatrix(cols=list(u.labels))):
            ctx.check(refused(f), 'an operation that needs data was accepted by a shape-only tensor')
        ctx.check(t.totalSize == u.totalSize if not t.diagonalFlag else True, 'totalSize')
        ctx.check(t.typeName() + 'Like' == u.typeName(), 'typeName')
        for l in set(t.labels):
            if t.labels.count(l) == 1:
                ctx.check(t.shapeOfLabel(l) == u.shapeOfLabel(l), 'shapeOfLabel')
    if len(reals) > 1:
        costs = []
        for ts in (reals, likes):
            g = makeTensorGraph(ts)
            g.optimalContractSequence(typicalDim=None)
            costs.append(g.optimalCostResult())
        ctx.check(costs[0] == costs[1], lambda: 'optimal cost %r for real, %r for shape-only tensors' % tuple(costs))
    ctx.outcome('%d tensors' % len(reals))


def key(world, model):
    return jkey([sig(world[0]), [list(t.labels) for t in world[0]], [list(t.labels) for t in world[1]]])


def systems(tier):
    return range(len(NETS))


def system(i, tier):
    return {'make': maker(i), 'ops': lambda w, m: ops_for(w), 'apply': apply, 'observe': observe, 'key': key,
            'depth': 3 if tier == 'quick' else 4}


# ---- larger networks along listed sequences; truncations of every size
def cases(tier):
    for n, mult in ((2, 3), (3, 1), (4, 1)):
        for edges in multigraphs(n, mult):
            yield {'n': n, 'e': edges, 'free': [1, 0, 2, 0][:n]}
    for n, edges in larger(tier):
        yield {'n': n, 'e': edges, 'free': [1] + [0] * (n - 2) + [1]}
    for n, edges, free in ((2, [[0, 1]], [5, 4]), (2, [[0, 1]] * 5, [1, 1]), (3, [[0, 1]] * 3 + [[1, 2]] * 2, [2, 0, 2])):
        yield {'n': n, 'e': edges, 'free': free}
    for dims in ([1], [2], [5], [9], [2, 2], [2, 3], [3, 3], [1, 4], [2, 2, 2], [1, 2, 3], [2, 1, 2, 2]):
        for fa, fb in itertools.product(([1], [2], [3], [2, 2], [6], [20], [1, 1, 2]), repeat=2):
            yield {'cut': dims, 'fa': fa, 'fb': fb}


def walk(c, ctx):
    n, edges, kinds = c['n'], [tuple(e) for e in c['edges']], c['kinds']
    net = Net(n, edges, kinds, c['dims'])
    reals = net.build()[0]
    likes = copyTensorList(reals, tensorLikeFlag=True)
    costs = []
    for ts in (reals, likes):
        g = makeTensorGraph(ts)
        seqs = [g.optimalContractSequence(typicalDim=None), g.optimalContractSequence(typicalDim=2), g.optimalContractSequence(greedy=True, typicalDim=None)]
        costs.append([net.cost_of(q, None) for q in seqs[:1]] + [g.greedyCost])
    ctx.check(costs[0] == costs[1], lambda: 'cost of the chosen orders is %r for real, %r for shape-only tensors' % tuple(costs))
    for seq in seqs + [[(0, i) for i in range(1, n)], [(i, i + 1) for i in range(n - 1)[::-1]], [(i, n - 1) for i in range(n - 1)[::-1]]]:
        worlds = [copyTensorList(reals), copyTensorList(likes)]
        if seq[-1:] and min(seq[-1]) != 0:
            continue
        for step in range(len(seq)):
            s, t = sorted(seq[step])
            if not all(w[s] is not None and w[t] is not None for w in worlds):
                break
            ctx.check(contractCost(worlds[0][s], worlds[0][t]) == contractCost(worlds[1][s], worlds[1][t]), 'contraction cost differs')
            for w in worlds:
                w[s] = contractTwoTensors(w[s], w[t], outProductWarning=False)
                w[t] = None
            a, b = ([u for u in w if u is not None] for w in worlds)
            ctx.step()
            ctx.check(sig(a) == sig(b), lambda: 'after the steps %r the real network is %r, the shape-only one %r' % (seq[:step + 1], sig(a), sig(b)))
            consistent_legs(worlds[1][s], 'shape-only:')
            ctx.check(worlds[1][s].tensorLikeFlag and not worlds[0][s].tensorLikeFlag, 'wrong kind of result')
    ctx.trace()
    ctx.state(c)
    ctx.outcome('network of %d' % n)


def cut(c, ctx):
    dims, fa, fb, chi = c['cut'], c['fa'], c['fb'], c['chi']
    k = len(dims)
    worlds = []
    for like in (False, True):
        rng = np.random.RandomState(5)
        pair = []
        for pre, fr in (('a', fa), ('b', fb)):
            shape = tuple(dims + fr)
            names = ['%ss%d' % (pre, i) for i in range(k)] + ['%sf%d' % (pre, i) for i in range(len(fr))]
            data = rng.random_sample(shape) + 0.1
            pair.append(Tensor(shape=shape, labels=names, tensorLikeFlag=True) if like else Tensor(data=data, labels=names))
        for i in range(k):
            makeLink('as%d' % i, 'bs%d' % i, *pair)
        worlds.append(pair)
    how = c['how']
    outs = []
    for w in worlds:
        if how == 'merge':
            outs.append(list(merge(w[0], w[1], chi=chi, renameWarning=False)))
        elif how == 'mergeLink':
            outs.append(list(mergeLink(w[0], w[1], renameWarning=False)))
        else:
            u, s_, v = SchimdtDecomposition(w[0], w[1], chi=chi, squareRootSeparation=how == 'root')
            outs.append([x for x in (u, s_, v) if x is not None])
    ctx.step()
    ctx.check(sig(outs[0]) == sig(outs[1]), lambda: '%s limited to %r: real %r, shape-only %r' % (how, chi, sig(outs[0]), sig(outs[1])))
    for t in outs[1]:
        consistent_legs(t, 'shape-only:')
        ctx.check(t.tensorLikeFlag, 'a shape-only tensor became real')
    ctx.trace()
    ctx.state(c)
    ctx.outcome(how)


def run_case(case, ctx):
    if 'how' in case:
        return cut(case, ctx)
    if 'cut' in case:
        full = int(np.prod(case['cut']))
        for chi in sorted(set(range(1, full + 2)) | {50}):
            for how in ('merge', 'schmidt', 'root') + (('mergeLink',) if chi == 1 else ()):
                c = dict(case, chi=chi, how=how)
                ctx.guarded(lambda: cut(c, ctx), c)
        return
    if 'e' in case:
        n = case['n']
        edges = [tuple(e) for e in case['e']]
        for v, f in enumerate(case['free']):
            edges += [(v, None)] * f
        for kk in [''.join(q) for q in itertools.product('DG', repeat=n)] if n < 4 else ['D' * n, ('DG' * n)[:n], 'G' + 'D' * (n - 1), 'GG' + 'D' * (n - 2), 'G' * n]:
            dims = distinct_dims(n, edges, kk)
            if np.prod(dims) > 20000:
                dims = [1 + d % 2 for d in dims]
            c = {'n': n, 'edges': edges, 'kinds': kk, 'dims': dims}
            ctx.guarded(lambda: walk(c, ctx), c)
        return
    if 'kinds' in case:
        return walk(case, ctx)
    run_only(sys.modules[__name__], case, ctx)
