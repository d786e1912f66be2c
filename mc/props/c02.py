"""C02: contracting a network gives its exact value, in whatever order it is done."""
import itertools

import numpy as np

from CTL.tensor.contract.optimalContract import (contractAndCostWithSequence, contractWithSequence, contractTensorList,
                                                 generateOptimalSequence, generateGreedySequence)

from mc.model import by_labels, einsum, same, show, consistent_legs, dense
from mc.nets import Net, multigraphs, dim_classes, sequences, larger

PROPERTY = 'C02'
RULE = ('every multigraph on up to n tensors (several bonds per pair, free legs, every dense/diagonal choice, several '
        'leg orders, unique or colliding labels), contracted along EVERY pairwise sequence and along every '
        'automatically generated one, in place and on copies; value compared exactly with numpy einsum; and every '
        'part (subset, in both orders) of such networks, along every sequence, in place and on copies, with the rest linked')
ASSUMPTIONS = ['numpy einsum is correct', 'integer-valued data below 2^53: float arithmetic is exact']


def bounds(tier):
    return {'tensors_all_sequences': '4; listed networks of 5', 'tensors': '5; listed networks of 6 and 7; long ones of 8 to 40', 'bonds_per_pair': 2 if tier == 'quick' else 3,
            'modes': 'all sequences; bf; pruned search with typicalDim 10/None; greedy; inplace/copy'}


def cases(tier):
    big = tier == 'thorough'
    for n, mult, freemax in ((1, 0, 3), (2, 3 if big else 2, 2), (3, 2 if big else 1, 1)):
        for edges in multigraphs(n, mult):
            for free in itertools.product(range(freemax + 1), repeat=n):
                yield {'n': n, 'e': edges, 'free': list(free), 'orders': 2, 'seqs': 'all', 'kinds': 'all'}
    for edges in multigraphs(3, 2):
        if 2 in [edges.count(e) for e in edges]:
            yield {'n': 3, 'e': edges, 'free': [1, 0, 1], 'orders': 1, 'seqs': 'all', 'kinds': 'all'}
    for edges in multigraphs(4, 1):
        frees = itertools.product(range(2), repeat=4) if big else [(0, 0, 0, 0), (1, 0, 0, 1), (0, 1, 0, 0), (1, 1, 1, 1)]
        for free in frees:
            yield {'n': 4, 'e': edges, 'free': list(free), 'orders': 1, 'seqs': 'all', 'kinds': 'all'}
    for edges in multigraphs(5, 1):
        if not big and not (len(edges) in (4, 5)):
            continue
        yield {'n': 5, 'e': edges, 'free': [1, 0, 1, 0, 0], 'orders': 1, 'seqs': 'auto', 'kinds': 'some'}
    # five tensors along all sequences, six and more along the automatic ones
    five = [[0, 1], [1, 2], [2, 3], [3, 4]], [[0, 4], [1, 4], [2, 4], [3, 4], [0, 1]], [[0, 1], [1, 2], [2, 3], [3, 4], [0, 4]], [[0, 3], [3, 0], [1, 2], [4, 2]]
    for edges in five:
        for free in ([0, 0, 1, 0, 1], [0] * 5):
            for kk in ('DDDDD', 'DGDDG') if not big else ('DDDDD', 'DGDDG', 'GGDGG', 'GDDDD', 'GGGGG'):
                yield {'n': 5, 'e': edges, 'free': free, 'orders': 1, 'seqs': 'all', 'kinds': [kk]}
    for n, edges in larger(tier):
        for free in ([0] * n, [1] + [0] * (n - 2) + [1]):
            yield {'n': n, 'e': edges, 'free': free, 'orders': 1, 'seqs': 'all' if big and n == 6 and len(edges) < 8 and sum(free) else 'auto',
                   'kinds': ['D' * n, 'D' * (n - 1) + 'G', 'DDGGDDDD'[:n], ('DG' * n)[:n], 'G' * n][:5 if len(edges) < 8 or not big else 2]}
    # long networks: listed sequences, the greedy order, the searched order up to ten tensors
    for i in range(len(LONG)):
        for kinds in ('D', 'DG', 'GD', 'DDDG', 'G'):
            for ends in range(3):
                yield {'long': i, 'kinds': kinds, 'ends': ends}
    # a part of a network: the bonds to the other tensors are outgoing ones
    for n, mult in ((2, 2), (3, 2 if big else 1), (4, 1)):
        for edges in multigraphs(n, mult):
            if not edges or (n == 4 and not big and len(edges) not in (3, 5)):
                continue
            yield {'n': n, 'e': edges, 'free': [1, 0, 1, 0][:n], 'part': True}


LONG = [(8, [(i, i + 1) for i in range(7)]), (10, [(i, (i + 1) % 10) for i in range(10)]), (12, [(i, i + 1) for i in range(11)]), (11, [(0, i) for i in range(1, 11)]),
        (12, [(i, i + 2) for i in range(10)] + [(2 * i, 2 * i + 1) for i in range(6)]), (24, [(i, (i + 1) % 24) for i in range(24)]), (40, [(i, i + 1) for i in range(39)]),
        (14, [(2 * i, 2 * i + 1) for i in range(7)]), (16, [((i - 1) // 2, i) for i in range(1, 16)]), (20, [(i, i + 1) for i in range(0, 20, 2)][:10] + [(i, 19) for i in range(1, 18, 2)])]


def long(case, ctx):
    n, edges = LONG[case['long']]
    edges = list(edges) + [[], [(0, None), (n - 1, None)], [(n // 2, None), (0, None), (0, None)]][case['ends']]
    kinds = (case['kinds'] * n)[:n]
    net = Net(n, edges, kinds, [[2, 3, 1, 2][c % 4] if 'G' not in kinds else 2 for c in range(len(edges))])
    free = net.free()
    ref = None
    odd, rest = [(i, i + 1) for i in range(0, n - 1, 2)], list(range(0, n, 2))
    halves = list(odd)
    while len(rest) > 1:
        halves += [(rest[i + 1], rest[i]) for i in range(0, len(rest) - 1, 2)]
        rest = rest[::2]
    modes = {'forwards': [(0, i) for i in range(1, n)], 'backwards': [(i, i - 1) for i in range(n - 1, 0, -1)], 'halves': halves, 'greedy': None, 'genGreedy': None}
    if n <= 10:
        modes.update({'list': None, 'gen': None})
    for mode, seq in modes.items():
        for ip in (False, True):
            if mode == 'list' and ip or mode == 'halves' and n > 20:
                continue
            where = '%d tensors %r, %s%s' % (n, edges[:12], mode, ', in place' if ip else '')
            tensors, arrays, ids = net.build()
            for t, a in zip(tensors, arrays):  # no cancellation
                if t.a is not None:
                    t.a = np.abs(t.a) / 8
            arrays = [np.abs(a) / 8 for a in arrays]
            if ref is None:
                ref = np.einsum(*[y for x in zip(arrays, ids) for y in x], free, optimize='greedy')
            kw = {'outProductWarning': False}
            if mode == 'list':
                res = contractTensorList(tensors, outProductWarning=False)
            elif mode == 'greedy':
                res, cost = contractAndCostWithSequence(tensors, greedy=True, inplace=ip, **kw)
            else:
                if mode == 'genGreedy':
                    seq = generateGreedySequence(tensors)
                elif mode == 'gen':
                    seq = generateOptimalSequence(tensors, typicalDim=None)
                res, cost = contractAndCostWithSequence(tensors, seq=seq, inplace=ip, **kw)
                parts, want = [net.leaf(v) for v in range(n)], 0
                for a, b in seq:
                    c, part_ = net.combine(parts[a], parts[b], None)
                    parts[min(a, b)] = part_
                    want += c
                ctx.check(cost == want, lambda: '%s: cost %r, expected %r' % (where, cost, want))
            names = ['e%da' % k for k in free]
            ctx.check(sorted(res.labels) == sorted(names), lambda: '%s: free legs %r, expected %r' % (where, res.labels, names))
            consistent_legs(res, where)
            got = by_labels(res, names)
            ctx.check(got.shape == ref.shape and np.allclose(got, ref, rtol=1e-9, atol=0), lambda: '%s gave %s, expected %s' % (where, show(got), show(ref)))
            ctx.step(n - 1)
            ctx.trace()
    ctx.state(case)
    ctx.outcome('long n=%d free=%d' % (n, len(free)))


def distinct_dims(n, edges, kinds):
    cls = dim_classes(n, edges, kinds)
    roots = sorted(set(cls))
    if len(roots) <= 5:
        menu = [2, 3, 4, 1, 2]
    else:
        menu = [2, 3, 2, 1, 2, 2, 3, 2, 2, 1, 2, 2]
    d = {r: menu[i % len(menu)] for i, r in enumerate(roots)}
    return [d[c] for c in cls]


def run_case(case, ctx):
    if 'edges' in case:
        return part(case, ctx) if 'part' in case else one(case, ctx)
    if 'long' in case:
        return long(case, ctx)
    n = case['n']
    edges = [tuple(e) for e in case['e']]
    for v, f in enumerate(case['free']):
        edges += [(v, None)] * f
    if 'part' in case:
        return parts(case, edges, ctx)
    if case['kinds'] == 'all':
        kinds = [''.join(k) for k in itertools.product('DG', repeat=n)]
    elif isinstance(case['kinds'], list):
        kinds = case['kinds']
    else:
        kinds = ['D' * n, 'G' * n, 'DGDGD'[:n], 'GDDGG'[:n]]
    for kk in kinds:
        net = Net(n, edges, kk, distinct_dims(n, edges, kk))
        if n > 5 and np.prod(net.dims) > 40000:
            net = Net(n, edges, kk, [1 + d % 2 for d in net.dims])
        variants = [(None, 'unique', False, False)]
        if case['orders'] > 1:
            rev = [list(range(len(i)))[::-1] for i in net.inc]
            variants += [(rev, 'same', False, True), ([r[1:] + r[:1] for r in rev], 'unique', True, False)]
        else:
            variants = [([list(range(len(i)))[::-1] if v % 2 else list(range(len(i))) for v, i in enumerate(net.inc)],
                         'same', n == 5, True)]
        for order, labels, cplx, flip in variants:
            d = net.desc()
            d.update({'order': order, 'labels': labels, 'cplx': cplx, 'flip': flip})
            seqs = list(sequences(n)) if case['seqs'] == 'all' else []
            for i, s in enumerate(seqs):
                c = dict(d, seq=[list(x) if i % 2 == 0 else [x[1], x[0]] for x in s], inplace=bool(i % 2), mode='seq')
                ctx.guarded(lambda: one(c, ctx), c)
            for mode in ('bf', 'bfReal', 'pruned', 'prunedReal', 'greedy', 'list', 'gen', 'genGreedy'):
                if n > 3 and order is None and mode in ('bfReal',):
                    continue
                c = dict(d, seq=None, inplace=mode in ('bf', 'greedy'), mode=mode)
                ctx.guarded(lambda: one(c, ctx), c)


def one(c, ctx):
    net = Net.of(c)
    tensors, arrays, ids = net.build(order=c['order'], labels=c['labels'], cplx=c['cplx'], flip=c['flip'])
    if net.n == 1 and not c['inplace'] and c['mode'] != 'seq':
        pass
    free = net.free()
    names = ['e%da' % k if c['labels'] == 'unique' else 'f%d' % k for k in free]
    ref = net.value(arrays, ids)
    kw = {'outProductWarning': False}
    mode, ip = c['mode'], c['inplace']
    if mode == 'seq':
        res = contractWithSequence(tensors, seq=[tuple(x) for x in c['seq']], inplace=ip, **kw)
    elif mode in ('bf', 'bfReal'):
        res = contractWithSequence(tensors, bf=True, typicalDim=10 if mode == 'bf' else None, inplace=ip, **kw)
    elif mode in ('pruned', 'prunedReal'):
        res = contractWithSequence(tensors, typicalDim=10 if mode == 'pruned' else None, inplace=ip, **kw)
    elif mode == 'greedy':
        res, _ = contractAndCostWithSequence(tensors, greedy=True, inplace=ip, **kw)
    elif mode == 'list':
        res = contractTensorList(tensors, outProductWarning=False)
    elif mode == 'gen':
        res = contractWithSequence(tensors, seq=generateOptimalSequence(tensors, typicalDim=None), inplace=ip, **kw)
    else:
        res = contractWithSequence(tensors, seq=generateGreedySequence(tensors), inplace=ip, **kw)
    ctx.step(max(1, net.n - 1))
    ctx.check(sorted(res.labels) == sorted(names), lambda: 'free legs %r, expected %r' % (res.labels, names))
    consistent_legs(res, 'result:')
    got = by_labels(res, names)
    ctx.check(same(got, ref), lambda: 'contraction gave %s, expected %s' % (show(got), show(ref)))
    ctx.check(same(res.toTensor(list(names)), ref), 'toTensor of the result differs from the value of the network')
    ctx.trace()
    ctx.state([c['n'], c['edges'], c['kinds'], c['labels'], c['mode'], c['seq']])
    ctx.outcome('%s n=%d free=%d' % (mode, net.n, len(free)))


def parts(case, edges, ctx):
    n = case['n']
    for kk in (''.join(k) for k in itertools.product('DG', repeat=n)) if n < 4 else ('DDDD', 'GGGG', 'DGDG', 'GDDD'):
        d = Net(n, edges, kk, distinct_dims(n, edges, kk)).desc()
        for size in range(1, n):
            for part_ in itertools.combinations(range(n), size):
                for order in (part_, part_[::-1])[:size]:
                    seqs = [[list(x) for x in q] for q in sequences(size)]
                    for i, q in enumerate(seqs + ['bf', 'pruned', 'greedy', 'list']):
                        for ip in (False, True):
                            if q == 'list' and ip:
                                continue
                            c = dict(d, part=list(order), seq=q, inplace=ip)
                            ctx.guarded(lambda: part(c, ctx), c)


def part(c, ctx):
    net = Net.of(c)
    tensors, arrays, ids = net.build()
    which = c['part']
    given = [tensors[v] for v in which]
    # the network of the given tensors alone: bonds leaving it are free
    edges = [(which.index(u) if u in which else None, None if v is None or v not in which else which.index(v)) for u, v in net.edges]
    edges = [(b, None) if a is None else (a, b) for a, b in edges]
    inner = [k for k, e in enumerate(edges) if e != (None, None)]
    value = Net(len(which), [e for e in edges], ''.join(net.kinds[v] for v in which), net.dims)
    free = [k for k in inner if edges[k][1] is None]
    names = ['e%d%s' % (k, 'a' if net.edges[k][0] in which else 'b') for k in free]
    outside = {nm: net.edges[k] for nm, k in zip(names, free) if net.edges[k][1] is not None}
    ref = einsum([(arrays[v], ids[v]) for v in which], free)
    partners = {}
    for v in which:
        for leg in tensors[v].legs:
            if leg.name in outside:
                partners[leg.name] = leg.anotherSide()
    q, ip = c['seq'], c['inplace']
    kw = {'outProductWarning': False}
    if q == 'list':
        res = contractTensorList(given, **kw)
    elif q == 'greedy':
        res, _ = contractAndCostWithSequence(given, greedy=True, inplace=ip, **kw)
    elif q in ('bf', 'pruned'):
        res, cost = contractAndCostWithSequence(given, bf=q == 'bf', typicalDim=None, inplace=ip, **kw)
        small = Net(len(which), [edges[k] for k in inner], value.kinds, [net.dims[k] for k in inner])
        ctx.check(cost == small.minimum(None), lambda: 'contracting the part costs %r, the cheapest order %r' % (cost, small.minimum(None)))
    else:
        res = contractWithSequence(given, seq=[tuple(x) for x in q], inplace=ip, **kw)
    ctx.step(max(1, len(which) - 1))
    ctx.check(sorted(res.labels) == sorted(names), lambda: 'free legs %r, expected %r' % (res.labels, names))
    consistent_legs(res, 'result:')
    ctx.check(same(by_labels(res, names), ref), lambda: 'contraction of the part %r gave %s, expected %s' % (which, show(by_labels(res, names)), show(ref)))
    for leg in res.legs:
        if leg.name not in outside:
            ctx.check(leg.bond is None, 'the free leg %r of the result is linked' % leg.name)
        elif ip:
            ctx.check(leg.bond is not None and leg.anotherSide() is partners[leg.name], 'leg %r lost its connection to the rest of the network' % leg.name)
        else:
            ctx.check(leg.bond is None, 'leg %r of a copy is linked to the rest of the network' % leg.name)
    if ip:
        rest = [t for v, t in enumerate(tensors) if v not in which]
    else:
        for v in range(net.n):
            for leg in tensors[v].legs:
                ctx.check((leg.bond is not None) == (net.edges[int(leg.name[1:-1])][1] is not None), 'contracting a copy of a part changed a link of the network')
        res, rest = tensors[0], tensors[1:]
    whole = contractTensorList([res] + rest, **kw)
    want = ['e%da' % k for k in net.free()]
    ctx.check(sorted(whole.labels) == sorted(want), lambda: 'the whole network has legs %r, expected %r' % (whole.labels, want))
    ctx.check(same(by_labels(whole, want), net.value(arrays, ids)), 'the value of the whole network is wrong after a part was contracted')
    ctx.trace()
    ctx.state([c['edges'], c['kinds'], which, q, ip])
    ctx.outcome('part of %d: %d tensors' % (net.n, len(which)))
