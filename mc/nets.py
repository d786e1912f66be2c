"""Enumeration of small tensor networks and a reference for their value, shape and contraction cost."""
import itertools

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.link import makeLink

from mc.model import generic, diag_dense, einsum


def multigraphs(n, maxmult):
    pairs = list(itertools.combinations(range(n), 2))
    for mult in itertools.product(range(maxmult + 1), repeat=len(pairs)):
        edges = []
        for p, m in zip(pairs, mult):
            edges += [list(p)] * m
        yield edges


class Net:
    """n tensors; edges: list of (u, v) or (u, None); kinds: string of 'D'/'G'; dims per edge."""

    def __init__(self, n, edges, kinds, dims):
        self.n, self.edges, self.kinds, self.dims = n, [tuple(e) for e in edges], kinds, list(dims)
        self.inc = [[k for k, e in enumerate(self.edges) if v in e] for v in range(n)]

    def free(self):
        return [k for k, e in enumerate(self.edges) if e[1] is None]

    def build(self, like=False, order=None, labels='unique', seed=0, cplx=False, flip=False):
        """Real CTL tensors.  order[v]: permutation of the legs of v.  Returns (tensors, arrays, ids)."""
        tensors, arrays, ids = [], [], []
        for v in range(self.n):
            inc = list(self.inc[v])
            if order is not None:
                inc = [inc[i] for i in order[v]]
            shape = tuple(self.dims[k] for k in inc)
            if labels == 'unique':
                names = ['e%d%s' % (k, 'ab'[self.edges[k].index(v)]) for k in inc]
            elif labels == 'same':
                names = ['x' if self.edges[k][1] is not None else 'f%d' % k for k in inc]
            kind = self.kinds[v]
            if kind == 'G':
                vec = None if like else generic((shape[0],) if shape else (), seed + v, cplx)
                arr = None if like else diag_dense(vec, len(shape))
                if like:
                    t = DiagonalTensor(shape=shape, labels=names if shape else None, tensorLikeFlag=True, name='T%d' % v)
                elif shape:
                    t = DiagonalTensor(data=vec, shape=shape, labels=names, name='T%d' % v)
                else:
                    t = DiagonalTensor(data=np.array(vec), name='T%d' % v)
            else:
                arr = None if like else generic(shape, seed + v, cplx)
                if like:
                    t = Tensor(shape=shape, labels=names, tensorLikeFlag=True, name='T%d' % v)
                else:
                    t = Tensor(data=arr, shape=shape, labels=names, name='T%d' % v)
            tensors.append(t)
            arrays.append(arr)
            ids.append(inc)
        for k, (u, v) in enumerate(self.edges):
            if v is None:
                continue
            lu = tensors[u].legs[ids[u].index(k)]
            lv = tensors[v].legs[ids[v].index(k)]
            if flip:
                makeLink(lv, lu)
            else:
                makeLink(lu, lv)
        return tensors, arrays, ids

    def value(self, arrays, ids):
        """Exact value of the network, axes ordered by free edge index."""
        return einsum(list(zip(arrays, ids)), self.free())

    def component(self):
        comp = list(range(self.n))
        for u, v in self.edges:
            if v is not None:
                cu, cv = comp[u], comp[v]
                comp = [cu if c == cv else c for c in comp]
        return comp

    # ---- reference cost model (documented in contractCost): a state is (set of edges, diagonal?)
    def leaf(self, v):
        return (frozenset(self.inc[v]), self.kinds[v] == 'G')

    def combine(self, a, b, typical):
        """Cost and result of contracting two parts; typical=None uses the real dimensions."""
        (ea, ga), (eb, gb) = a, b
        shared, out = ea & eb, ea ^ eb

        def size(es):
            r = 1
            for k in es:
                r *= self.dims[k] if typical is None else typical
            return r

        if ga and gb and shared:
            k = next(iter(ea))
            return size([k]), (out, True)
        if ga or gb:
            return size(out), (out, False)
        return size(ea | eb), (out, False)

    def banned(self, a, b, sa, sb, comp):
        return a[1] and b[1] and not (a[0] & b[0]) and comp[next(iter(sa))] == comp[next(iter(sb))]

    def minimum(self, typical):
        """Cheapest total cost over ALL contraction trees (explored exhaustively, memoised by subset)."""
        comp = self.component()
        memo = {}

        def results(s):
            """dict: representation -> least cost, over all trees with leaf set s"""
            if s in memo:
                return memo[s]
            if len(s) == 1:
                memo[s] = {self.leaf(next(iter(s))): 0}
                return memo[s]
            items = sorted(s)
            res = {}
            for r in range(len(items) - 1):
                for rest in itertools.combinations(items[1:], r):
                    sa = frozenset((items[0],) + rest)
                    sb = s - sa
                    for ra, ca in results(sa).items():
                        for rb, cb in results(sb).items():
                            if self.banned(ra, rb, sa, sb, comp):
                                continue
                            cost, rep = self.combine(ra, rb, typical)
                            tot = ca + cb + cost
                            if rep not in res or tot < res[rep]:
                                res[rep] = tot
            memo[s] = res
            return res

        return min(results(frozenset(range(self.n))).values())

    def cost_of(self, seq, typical):
        """Cost of an explicit sequence (result of (s, t) is stored at min(s, t)); None if not a valid one."""
        parts = {v: self.leaf(v) for v in range(self.n)}
        total = 0
        for s, t in seq:
            if s not in parts or t not in parts or s == t:
                return None
            cost, rep = self.combine(parts[s], parts[t], typical)
            total += cost
            del parts[max(s, t)]
            parts[min(s, t)] = rep
        if list(parts) != [0]:
            return None
        return total

    def desc(self):
        return {'n': self.n, 'edges': [list(e) for e in self.edges], 'kinds': self.kinds, 'dims': self.dims}

    @staticmethod
    def of(d):
        return Net(d['n'], d['edges'], d['kinds'], d['dims'])


def dim_classes(n, edges, kinds):
    """Edges that must have equal dimension (they touch the same diagonal tensor)."""
    cls = list(range(len(edges)))
    for v in range(n):
        if kinds[v] != 'G':
            continue
        inc = [k for k, e in enumerate(edges) if v in e]
        for k in inc[1:]:
            a, b = cls[inc[0]], cls[k]
            cls = [a if c == b else c for c in cls]
    return cls


def assignments(n, edges, kinds, menu, deviations=None):
    """Dimension assignments: all of menu^classes, or at most `deviations` classes off the default menu[0]."""
    cls = dim_classes(n, edges, kinds)
    roots = sorted(set(cls))
    if deviations is None:
        combos = itertools.product(menu, repeat=len(roots))
    else:
        def gen():
            for d in range(min(deviations, len(roots)) + 1):
                for which in itertools.combinations(range(len(roots)), d):
                    for vals in itertools.product(menu[1:], repeat=d):
                        c = [menu[0]] * len(roots)
                        for w, x in zip(which, vals):
                            c[w] = x
                        yield c
        combos = gen()
    for c in combos:
        m = dict(zip(roots, c))
        yield [m[x] for x in cls]


def sequences(n):
    """All pairwise contraction sequences of n tensors (pairs unordered, result at the smaller index)."""
    def rec(live):
        if len(live) == 1:
            yield []
            return
        for a, b in itertools.combinations(live, 2):
            for rest in rec([x for x in live if x != b]):
                yield [(a, b)] + rest
    return rec(list(range(n)))


def larger(tier):
    """(number of tensors, bonds) of networks of six and more tensors."""
    path = lambda n: [(i, i + 1) for i in range(n - 1)]
    ring = lambda n: path(n) + [(0, n - 1)]
    grid = [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)]
    named = [
        (6, path(6)), (6, ring(6)), (6, [(0, i) for i in range(1, 6)]), (6, grid), (6, [(i, j) for i in range(3) for j in range(3, 6)]),
        (6, [(0, 1), (2, 3), (4, 5)]), (6, ring(3) + [(3, 4), (4, 5), (3, 5)]), (6, [(0, 5), (5, 1), (1, 4), (4, 2), (2, 3)]),
        (6, path(6) + path(6)[::2]), (6, [(0, 1)] * 2 + [(2, 3)] * 2 + [(1, 2), (3, 4), (4, 5), (0, 5)]), (6, [(0, 3), (1, 4), (2, 5), (0, 4), (1, 5)]),
        (6, [(0, 1), (0, 2), (1, 3), (1, 4), (2, 5)]), (6, [(0, 5), (1, 5), (2, 5), (3, 5), (4, 5), (0, 1), (1, 2), (2, 3), (3, 4), (0, 4)]), (6, list(itertools.combinations(range(6), 2))),
        (7, path(7)), (7, [(i, 6) for i in range(6)]), (7, [(0, 1), (2, 3), (3, 4), (4, 2), (5, 6)])]
    if tier == 'thorough':
        named += [(7, ring(7)), (7, grid + [(2, 6), (5, 6)]), (7, [(0, 3), (1, 4), (2, 5), (6, 0), (6, 1), (6, 2)]), (8, path(8)), (8, ring(8)), (8, [(0, 1), (2, 3), (4, 5), (6, 7)]),
                  (8, [(0, 4), (1, 5), (2, 6), (3, 7), (4, 5), (5, 6), (6, 7)]), (8, [(0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (2, 6), (3, 7)])]
        seen = set()
        for m in (5, 6):
            for edges in itertools.combinations(list(itertools.combinations(range(6), 2)), m):
                deg = tuple(sorted(tuple(sorted(sum(w in e for e in edges) for w in range(6) if (min(v, w), max(v, w)) in edges)) for v in range(6)))
                if deg not in seen:
                    seen.add(deg)
                    named.append((6, list(edges)))
    return [(n, [list(e) for e in edges]) for n, edges in named]
