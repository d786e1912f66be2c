"""C16: graphs after every insertion/query history, lattice builders for every size.

Space: all histories over {add edge i-j with a fresh weight, ask for the edges, add an edge at an illegal index}
up to a depth, on 1..4 vertices (self loops and parallel edges included); every lattice size up to a bound x weight forms.
Reference: a list of (unordered pair, weight).
"""
import itertools

import numpy as np

from CTL.funcs.graph import UndirectedGraph, Graph, GraphEdge
from CTL.funcs.graphFuncs import squareLatticePBC, squareLatticeFBC, doubleSquareLatticeFBC, completeGraph

from mc.histories import explore
from mc.model import jkey

PROPERTY = 'C16'
RULE = 'all insertion/query histories up to the depth bound; all lattice sizes x weight forms up to the size bound'
ASSUMPTIONS = []


def bounds(tier):
    t = tier == 'thorough'
    return {'vertices': 4, 'depth': [6, 6, 6, 5] if t else [5, 5, 5, 4], 'lattice': 7 if t else 5, 'complete': 12 if t else 8}


def cases(tier):
    b = bounds(tier)
    for n in range(1, 5):
        for directed in (False, True):
            d = b['depth'][n - 1] - (1 if directed else 0)
            if n < 3:
                yield {'k': 'hist', 'n': n, 'directed': directed, 'depth': d, 'prefix': []}
            else:
                for op in all_ops(n, directed):
                    for op2 in all_ops(n, directed):
                        yield {'k': 'hist', 'n': n, 'directed': directed, 'depth': d, 'prefix': [op, op2]}
    for kind in ('pbc', 'fbc', 'double'):
        for a in range(1, b['lattice'] + 1):
            for bb in [None] + list(range(1, b['lattice'] + 1)):
                for w in ('none', 'float', 'int', 'zero', 'tuple', 'list', 'np'):
                    yield {'k': 'lattice', 'kind': kind, 'a': a, 'b': bb, 'w': w}
    for kind in ('pbc', 'fbc', 'double'):
        for a, bb in ((1, 11), (11, 1), (2, 9), (9, 2), (7, 10), (10, 7), (12, 12), (12, None), (3, 17)):
            for w in ('none', 'float', 'int', 'zero', 'tuple', 'list', 'np', 'npint', 'wide'):
                yield {'k': 'lattice', 'kind': kind, 'a': a, 'b': bb, 'w': w}
    for n in (11, 15, 20):
        for w in ('none', 'float', 'int', 'zero'):
            yield {'k': 'complete', 'n': n, 'w': w}
    for n, m in ((5, 30), (9, 40), (17, 60)):
        for step in (1, 2, 3, 5):
            yield {'k': 'many', 'n': n, 'm': m, 'step': step}
    for n in range(0, b['complete'] + 1):
        for w in ('none', 'float', 'int', 'zero'):
            yield {'k': 'complete', 'n': n, 'w': w}
    yield {'k': 'edge'}


def all_ops(n, directed):
    ops = [['add', i, j] for i in range(n) for j in range(n)]
    if not directed:
        ops.append(['ask'])
    ops += [['bad', -1, 0], ['bad', 0, n], ['bad', n, n]]
    return ops


def weight_of(k):
    return [None, 0.0, 1.5, -2.0, 3, 'w', 7][k % 7]


def graph_contents(g, edges, ctx, asked=True):
    """edges: list of (u, v, weight) inserted so far (undirected)."""
    n = len(g.v)
    if asked:
        got = g.getEdges()
        ctx.step()
        real = sorted((tuple(sorted((e.vertices[0].index, e.vertices[1].index))), repr(e.weight)) for e in got)
        want = sorted((tuple(sorted((u, v))), repr(w)) for u, v, w in edges)
        ctx.check(real == want, lambda: 'edges %r, expected %r' % (real, want))
        ctx.check(len({id(e) for e in got}) == len(got), 'an edge is reported twice')
    else:
        got = None
    for i in range(n):
        v = g.v[i]
        ctx.check(v.index == i, 'vertex %d has index %r' % (i, v.index))
        want = sorted([(b if a == i else a, repr(w)) for a, b, w in edges if i in (a, b) and a != b] +
                      [(i, repr(w)) for a, b, w in edges if a == b == i] * 2)
        real = sorted((e.anotherSide(v).index, repr(e.weight)) for e in v.edges)
        ctx.check(real == want, lambda: 'neighbours of %d are %r, expected %r' % (i, real, want))
        ctx.check(v.degree == len(want), 'degree of %d is %r, expected %d' % (i, v.degree, len(want)))
        for e in v.edges:
            ctx.check(e.vertices[0] is g.v[e.vertices[0].index] and e.vertices[1] is g.v[e.vertices[1].index], 'an edge of foreign vertices')
            if got is not None:
                ctx.check(any(x is e for x in got), 'an edge of a vertex is not among the edges of the graph')
    ctx.check(g.n == n, 'n is %r' % g.n)


def run_hist(case, ctx):
    n, directed = case['n'], case['directed']

    def make():
        return {'g': Graph(n) if directed else UndirectedGraph(n), 'last': None, 'seen': []}, []

    def ops(model):
        return all_ops(n, directed)

    def apply(real, model, op, ctx):
        g = real['g']
        if op[0] == 'add':
            w = weight_of(len(model))
            if w is None:
                e = g.addEdge(op[1], op[2])
            else:
                e = g.addEdge(op[1], op[2], weight=w)
            ctx.check(isinstance(e, GraphEdge) and {e.vertices[0], e.vertices[1]} == {g.v[op[1]], g.v[op[2]]},
                      'addEdge returned something else than the edge it added')
            ctx.check(e.weight == w, 'the edge added has weight %r, expected %r' % (e.weight, w))
            ctx.check(e.anotherSide(g.v[op[1]]) is g.v[op[2]] and e.anotherSide(g.v[op[2]]) is g.v[op[1]], 'anotherSide of the new edge is wrong')
            for x in range(n):
                if x not in op[1:]:
                    try:
                        e.anotherSide(g.v[x])
                    except ValueError:
                        pass
                    else:
                        ctx.fail('anotherSide of a vertex that is not on the edge is not refused')
            model = model + [(op[1], op[2], w)]
        elif op[0] == 'ask':
            got = g.getEdges()
            ctx.check(len(got) == len(model), '%d edges reported, expected %d' % (len(got), len(model)))
        else:
            try:
                g.addEdge(op[1], op[2])
            except AssertionError:
                pass
            else:
                ctx.fail('an edge at an illegal index is not refused')
        return real, model

    def observe(real, model, ctx):
        g = real['g']
        if directed:
            for i in range(n):
                got = sorted((e.vertices[0].index, e.anotherSide(g.v[i]).index, repr(e.weight)) for e in g.v[i].edges)
                want = sorted((u, v, repr(w)) for u, v, w in model if u == i)
                ctx.check(got == want, lambda: 'edges from %d are %r, expected %r' % (i, got, want))
                ctx.check(g.v[i].degree == len(want), 'degree')
            return
        graph_contents(g, model, ctx, asked=False)
        graph_contents(g, model, ctx)
        graph_contents(g, model, ctx)
        other = UndirectedGraph(n)
        ctx.check(len(other.getEdges()) == 0 and all(v.degree == 0 for v in other.v), 'a new graph is not empty')

    def apply2(real, model, op, ctx):
        real, model = apply(real, model, op, ctx)
        real.setdefault('hist', [])
        if op[0] == 'ask':
            real['hist'] = real['hist'] + [len(model)]
        if op[0] == 'bad' and (not real['hist'] or real['hist'][-1] != 'bad'):
            real['hist'] = real['hist'] + ['bad']
        return real, model

    def key(real, model):
        # whatever is cached is determined by the insertions and the points at which edges were asked for
        return jkey([model, real.get('hist', [])])

    explore(make, ops, apply2, observe, key, case['depth'], ctx, ['graph', n, directed],
            prefix=case['prefix'], case_of=lambda h: dict(case, prefix=h, depth=len(h)))


def run_case(case, ctx):
    k = case['k']
    if k == 'hist':
        run_hist(case, ctx)
        ctx.outcome('history %s n=%d' % ('directed' if case['directed'] else 'undirected', case['n']))
        return
    if k == 'many':
        # a long history on more vertices, with the edges asked for along the way
        n, edges = case['n'], []
        g = UndirectedGraph(n)
        for i in range(case['m']):
            u, v = i * case['step'] % n, (i * i + case['step']) % n
            g.addEdge(u, v, weight=weight_of(i))
            edges.append((u, v, weight_of(i)))
            if i % 7 == case['step'] or i == case['m'] - 1:
                graph_contents(g, edges, ctx)
        ctx.state(case)
        ctx.outcome('long history')
        ctx.trace()
        return
    if k == 'edge':
        e = GraphEdge('a', 'b', weight=3)
        ctx.check(e.anotherSide('a') == 'b' and e.anotherSide('b') == 'a' and e.weight == 3 and e.vertices == ('a', 'b'), 'edge')
        ctx.check(GraphEdge('a', 'b').weight is None, 'default weight')
        ctx.step()
    elif k == 'complete':
        n = case['n']
        w = {'none': 0.0, 'float': 0.5, 'int': 2, 'zero': 0}[case['w']]
        g = completeGraph(n) if case['w'] == 'none' else completeGraph(n, weight=w)
        ctx.step()
        ctx.check(len(g.v) == n, 'number of vertices')
        graph_contents(g, [(i, j, w) for i, j in itertools.combinations(range(n), 2)], ctx)
        ctx.state(case)
        ctx.outcome('complete')
    else:
        a, b, kind = case['a'], case['b'], case['kind']
        f = {'pbc': squareLatticePBC, 'fbc': squareLatticeFBC, 'double': doubleSquareLatticeFBC}[kind]
        w = {'none': 0.0, 'float': 0.5, 'int': 2, 'zero': 0, 'tuple': (0.25, -3.0), 'list': [1.5, 0], 'np': np.float64(0.75), 'npint': np.int64(3), 'wide': (7, 0.5)}[case['w']]
        kw = {} if case['w'] == 'none' else {'weight': w}
        g = f(a, **kw) if b is None else f(a, b, **kw)
        ctx.step()
        b = a if b is None else b
        w1, w2 = w if isinstance(w, (tuple, list)) else (w, w)
        edges = []
        if kind == 'double':
            n = a * (b + 1) + b * (a + 1)
            U = lambda x, y: x * b + y
            L = lambda x, y: (a + 1) * b + x * (b + 1) + y
            for x in range(a):
                for y in range(b):
                    # left-up to right-bottom edges carry the first weight
                    edges += [(L(x, y), U(x + 1, y), w1), (U(x, y), L(x, y + 1), w1)]
                    edges += [(L(x, y), U(x, y), w2), (U(x + 1, y), L(x, y + 1), w2)]
        else:
            n = a * b
            for x in range(a):
                for y in range(b):
                    if kind == 'pbc' or x + 1 < a:
                        edges.append((x * b + y, ((x + 1) % a) * b + y, w1))
                    if kind == 'pbc' or y + 1 < b:
                        edges.append((x * b + y, x * b + (y + 1) % b, w2))
        ctx.check(len(g.v) == n, '%d vertices, expected %d' % (len(g.v), n))
        graph_contents(g, edges, ctx)
        ctx.state(case)
        ctx.outcome(kind)
    ctx.trace()
