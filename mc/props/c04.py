"""C04: the contraction order chosen is a cheapest one, and reported costs are the costs of what is executed."""
import itertools

from CTL.tensor.contract.optimalContract import (makeTensorGraph, generateOptimalSequence, contractCost,
                                                 contractAndCostWithSequence)

from CTL.tensor.contract.tensorGraph import TensorGraph

from mc.nets import Net, multigraphs, assignments, dim_classes, larger

PROPERTY = 'C04'
RULE = ('every multigraph on up to n tensors (0..m bonds per pair, 0/1 free legs per tensor, every dense/diagonal '
        'choice, dimension assignments from a menu); for each, every contraction tree is enumerated by the reference '
        'and its minimum compared with both searches of the implementation under three cost models; and every history of '
        'adding edges and free edges to a TensorGraph, listing its edges and searching, up to a depth')
ASSUMPTIONS = ['reference cost model = the documented one: product of all involved dimensions; output size if one '
               'operand is diagonal; the common dimension if both are diagonal and linked']


def bounds(tier):
    return {'tensors': 5 if tier == 'thorough' else 4, 'listed networks': '6 to 8 tensors' if tier == 'thorough' else '6 and 7 tensors', 'bonds_per_pair': 2, 'typicalDim': [None, 2, 10],
            'graph_history_depth': 5}


def cases(tier):
    for n, flags in ((2, [0, 0]), (3, [0, 0, 0]), (3, [0, 1, 0]), (3, [1, 1, 1])):
        for op in graph_ops(n):
            yield {'vertices': n, 'flags': flags, 'history': [op], 'depth': 4 + (tier == 'thorough') if n == 3 else 5}
    for n, mult, freemax in ((1, 0, 2), (2, 2, 2), (3, 1, 1)):
        for edges in multigraphs(n, mult):
            for free in itertools.product(range(freemax + 1), repeat=n):
                yield {'n': n, 'edges': edges, 'free': list(free), 'menu': [2, 1, 5], 'dev': None, 'kinds': 'all'}
    for edges in multigraphs(3, 2):
        if max([edges.count(e) for e in edges] or [0]) == 2:
            for free in itertools.product(range(2), repeat=3):
                yield {'n': 3, 'edges': edges, 'free': list(free), 'menu': [2, 5], 'dev': 2, 'kinds': 'all'}
    for edges in multigraphs(4, 1):
        for free in itertools.product(range(2), repeat=4):
            if tier == 'thorough':
                yield {'n': 4, 'edges': edges, 'free': list(free), 'menu': [2, 1, 5], 'dev': 2, 'kinds': 'all'}
            else:
                yield {'n': 4, 'edges': edges, 'free': list(free), 'menu': [2, 5], 'dev': 1, 'kinds': 'some'}
    # many and large dimensions: costs are whole numbers whatever the dimensions are
    for n, edges in ((2, [[0, 1]]), (2, [[0, 1], [0, 1]]), (3, [[0, 1], [1, 2]]), (3, [[0, 1], [0, 2], [1, 2]])):
        for free in ([1] * n, [1] + [0] * (n - 1)):
            yield {'n': n, 'edges': edges, 'free': free, 'menu': [3] + list(range(4, 48 if tier == 'quick' else 130)), 'dev': 2 if n == 2 and len(edges) + sum(free) == 2 else 1, 'kinds': 'some' if n > 2 else 'none'}
            yield {'n': n, 'edges': edges, 'free': free, 'menu': [1000003, 7, 99999], 'dev': None, 'kinds': 'some'}
    # five tensors: sparse connected-ish graphs
    for edges in multigraphs(5, 1):
        if tier != 'thorough' and not (4 <= len(edges) <= 5):
            continue
        yield {'n': 5, 'edges': edges, 'free': [1, 0, 0, 0, 1], 'menu': [2, 5], 'dev': 1, 'kinds': 'none'}
    for n, edges in larger(tier):
        for free in ([0] * n, [1] + [0] * (n - 2) + [1], [1] * n):
            yield {'n': n, 'edges': edges, 'free': free, 'larger': True}


MENUS = [[2], [3, 2, 5, 4, 7, 2, 6, 3], [2, 9, 1, 2, 3, 30, 2], [100, 2, 3, 2], [1, 1, 2]]


# ---- graphs of tensors built by hand: every history of adding (free) edges, asking for the edges and searching
QUERIES = [['edges'], ['search', None, False], ['search', 10, False], ['search', None, True], ['greedy'], ['cost']]


def graph_ops(n):
    return [['edge', i, j] for i, j in itertools.combinations(range(n), 2)] + [['free', i] for i in range(n)] + QUERIES


def graphs(case, ctx):
    n, flags, depth = case['vertices'], case['flags'], case['depth']

    def go(history):
        g = TensorGraph(n, diagonalFlags=list(flags)) if any(flags) else TensorGraph(n)
        edges, dims = [], []
        asked = 10                      # what the cost is asked for: the last search since the graph changed
        for op in history + [['cost'], ['edges'], ['search', None, False], ['search', 10, True], ['greedy']]:
            if op[0] == 'edge' or op[0] == 'free':
                asked = 10
                dims.append(2 if any(flags) else [2, 3, 5, 4, 7, 2][len(dims)])
                edges.append((op[1], op[2] if op[0] == 'edge' else None))
                if op[0] == 'edge':
                    g.addEdge(op[1], op[2], weight=dims[-1])
                else:
                    g.addFreeEdge(op[1], weight=dims[-1])
                continue
            ctx.step()
            net = Net(n, edges, ''.join('G' if f else 'D' for f in flags), dims)
            if op[0] == 'edges':
                got = sorted((sorted(-1 if v is None else v.index for v in e.vertices), e.weight) for e in g.getEdges())
                want = sorted((sorted(-1 if v is None else v for v in e), d) for e, d in zip(edges, dims))
                ctx.check(got == want, lambda: 'the graph has the edges %r, expected %r (history %r)' % (got, want, history))
                continue
            if op[0] == 'greedy':
                seq = g.optimalContractSequence(greedy=True, typicalDim=None)
                cost = net.cost_of(seq, None)
                ctx.check(cost is not None and g.greedyCost == cost, lambda: 'greedy sequence %r costs %r, reported %r (history %r)' % (seq, cost, g.greedyCost, history))
                continue
            if op[0] == 'cost':
                got, best = g.optimalCostResult(), net.minimum(asked)
                ctx.check(got == best, lambda: 'after %r: reported cost %r, the cheapest order costs %r' % (history, got, best))
                continue
            asked = op[1]
            seq = g.optimalContractSequence(typicalDim=op[1], bf=op[2])
            cost, best = net.cost_of(seq, op[1]), net.minimum(op[1])
            ctx.check(cost == best == g.optimalCostResult(), lambda: 'after %r: sequence %r costs %r, reported %r, the cheapest order costs %r' % (
                history, seq, cost, g.optimalCostResult(), best))
        ctx.trace()
        ctx.state([history, flags])

    todo = [case['history']]
    while todo:
        h = todo.pop()
        ctx.guarded(lambda: go(h), dict(case, history=h, depth=0))
        if len(h) < depth:
            todo += [h + [op] for op in graph_ops(n)]
    ctx.outcome('graph histories')


def run_case(case, ctx):
    if 'vertices' in case:
        return graphs(case, ctx)
    if 'dims' in case:
        return one(Net.of(case), ctx)
    n = case['n']
    edges = [tuple(e) for e in case['edges']]
    for v, f in enumerate(case['free']):
        edges += [(v, None)] * f
    if 'larger' in case:
        for kk in ('D' * n, 'D' * (n - 1) + 'G', 'G' + 'D' * (n - 2) + 'G', 'DDGGDDDD'[:n], ('DG' * n)[:n], 'G' * n):
            cls = dim_classes(n, edges, kk)
            roots = sorted(set(cls))
            for menu in MENUS:
                net = Net(n, edges, kk, [menu[roots.index(c) % len(menu)] for c in cls])
                ctx.guarded(lambda: one(net, ctx), net.desc())
        return
    if case['kinds'] == 'all':
        kinds = [''.join(k) for k in itertools.product('DG', repeat=n)]
    elif case['kinds'] == 'some':
        kinds = ['D' * n] + ['D' * i + 'G' + 'D' * (n - 1 - i) for i in range(n)] + ['GG' + 'D' * (n - 2), ('DG' * n)[:n], 'G' * n]
    else:
        kinds = ['D' * n, 'G' + 'D' * (n - 1), 'DGDGD'[:n]]
    for kk in kinds:
        for dims in assignments(n, edges, kk, case['menu'], case['dev']):
            net = Net(n, edges, kk, dims)
            ctx.guarded(lambda: one(net, ctx), net.desc())


def one(net, ctx):
    tensors, _, _ = net.build(like=True)
    full = net.n > 1
    for a, b in itertools.permutations(range(net.n), 2) if net.n < 6 else ():
        ea, eb = set(net.inc[a]), set(net.inc[b])
        if net.kinds[a] == net.kinds[b] == 'G' and ea & eb:
            level = 1
        else:
            level = len(ea ^ eb if 'G' in (net.kinds[a], net.kinds[b]) else ea | eb)
        want = (net.combine(net.leaf(a), net.leaf(b), None)[0], level)
        ctx.check(tuple(contractCost(tensors[a], tensors[b])) == want, lambda: 'contractCost of %d and %d is %r, expected %r' % (a, b, contractCost(tensors[a], tensors[b]), want))
    for typical in (10, 2, None):
        best = net.minimum(typical)
        for bf in (False, True):
            g = makeTensorGraph(tensors)
            seq = g.optimalContractSequence(bf=bf, typicalDim=typical)
            mode = 'bf=%s typicalDim=%s' % (bf, typical)
            ctx.step()
            ctx.check(len(seq) == net.n - 1, lambda: '%s: sequence %r for %d tensors' % (mode, seq, net.n))
            cost = net.cost_of(seq, typical)
            ctx.check(cost is not None, lambda: '%s: sequence %r is not a full contraction' % (mode, seq))
            ctx.check(cost == best, lambda: '%s: sequence %r costs %r, the cheapest order costs %r' % (mode, seq, cost, best))
            ctx.check(all(s != t for s, t in seq), 'pair of equal indices')
            ctx.check(g.optimalCostResult() == best, lambda: '%s: reported optimal cost %r, cheapest is %r' % (
                mode, g.optimalCostResult(), best))
            if full:
                res, reported = contractAndCostWithSequence(tensors, seq=seq, outProductWarning=False)
                real = net.cost_of(seq, None)
                ctx.check(reported == real, lambda: '%s: executing %r reported cost %r, expected %r' % (mode, seq, reported, real))
                dims = sorted(net.dims[k] for k in net.free())
                ctx.check(sorted(res.shape) == dims, lambda: 'result shape %r, free dimensions %r' % (res.shape, dims))
        ctx.check(len(generateOptimalSequence(tensors, typicalDim=typical)) == net.n - 1, 'generateOptimalSequence')
    # greedy: a valid full contraction whose reported cost is what it costs, locally smallest result each step
    g = makeTensorGraph(tensors)
    seq = g.optimalContractSequence(greedy=True, typicalDim=None)
    ctx.step()
    cost = net.cost_of(seq, None)
    ctx.check(cost is not None, lambda: 'greedy sequence %r is not a full contraction' % (seq,))
    ctx.check(g.greedyCost == cost, lambda: 'greedy sequence %r reports cost %r, costs %r' % (seq, g.greedyCost, cost))
    parts = {v: net.leaf(v) for v in range(net.n)}
    for s, t in seq:
        def size(a, b):
            out = parts[a][0] ^ parts[b][0]
            r = 1
            for k in out:
                r *= net.dims[k]
            return r
        live = sorted(parts)
        sharing = [(a, b) for a, b in itertools.combinations(live, 2) if parts[a][0] & parts[b][0]]
        cand = sharing or list(itertools.combinations(live, 2))
        a, b = min(s, t), max(s, t)
        ctx.check((a, b) in cand, lambda: 'greedy contracts unconnected tensors %r while %r are connected' % ((a, b), cand))
        if sharing:
            ctx.check(size(a, b) == min(size(x, y) for x, y in cand), lambda: 'greedy step %r of %r is not a smallest result' % ((a, b), seq))
        _, rep = net.combine(parts[a], parts[b], None)
        del parts[b]
        parts[a] = rep
    ctx.trace()
    ctx.state(net.desc())
    ctx.outcome('n=%d best=%s' % (net.n, best))
