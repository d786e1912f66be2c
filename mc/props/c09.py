"""C09: legs, bonds and tensors stay mutually consistent in every history."""
import itertools
import sys

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.contract import contractTwoTensors, merge, shareBonds
from CTL.tensor.contract.link import mergeLink, makeLink
from CTL.tensor.contract.optimalContract import copyTensorList, contractAndCostWithSequence
from CTL.examples.Schimdt import SchimdtDecomposition

from mc.histories import run_only
from mc.model import generic, jkey, consistent_legs

PROPERTY = 'C09'
RULE = ('breadth-first over all histories of linking (one or two pairs of legs, of one or two tensors, equal or different dimensions), '
        'contracting (all or chosen bonds, also after some legs of a tensor were linked to each other), merging with and without truncation, '
        'splitting, reordering, renaming, tagging, summing out, combining, copying one or all tensors, on pools of dense, mixed and shape-only '
        'tensors; after every step the complete web of references is compared with a model matching')
ASSUMPTIONS = ['legs that are linked already are not linked again, summed out or combined (the code warns about that instead of maintaining the web)']

POOLS = [
    [('D', 'ab', (2, 3)), ('D', 'cd', (2, 3)), ('D', 'e', (2,))],
    [('D', 'abc', (2, 2, 3)), ('D', 'def', (2, 2, 3))],
    [('G', 'abc', (2, 2, 2)), ('D', 'def', (2, 3, 2))],
    [('G', 'ab', (2, 2)), ('G', 'cd', (2, 2)), ('D', 'ef', (2, 3))],
    [('l', 'abc', (2, 2, 3)), ('l', 'de', (2, 3))],
    [('m', 'ab', (2, 2)), ('l', 'cde', (2, 2, 3))],
]
# pools with links to start from, explored to a smaller depth
LINKS = {6: ['ad', 'cg', 'fj', 'ib'], 7: ['ae', 'fb', 'cg', 'hd'], 8: ['af', 'bg', 'ci', 'hj'], 9: ['ad', 'be', 'fi', 'gj'], 10: ['az', 'by', 'cx', 'dw', 'vf']}
POOLS += [
    [('D', 'abk', (2, 2, 3)), ('D', 'cde', (2, 2, 2)), ('D', 'fgh', (2, 2, 2)), ('D', 'ij', (2, 2))],
    [('D', 'abcdp', (2, 3, 2, 2, 2)), ('D', 'qefgh', (3, 2, 3, 2, 2))],
    [('G', 'abcd', (2, 2, 2, 2)), ('D', 'ef', (3, 2)), ('D', 'gh', (2, 2)), ('G', 'ijk', (2, 2, 2))],
    [('l', 'abc', (2, 3, 4)), ('l', 'defg', (2, 3, 2, 2)), ('l', 'hij', (3, 2, 2)), ('m', 'kl', (2, 2))],
    [('D', 'zv', (2, 2)), ('D', 'abcd', (2, 2, 2, 2)), ('D', 'y', (2,)), ('D', 'xf', (2, 2)), ('D', 'w', (2,))],
]


def depth(tier, i=0):
    return (4 if tier == 'quick' else 5) - (i in LINKS)


def bounds(tier):
    return {'pools': len(POOLS), 'depth': depth(tier), 'tensors': '2..5', 'pools_with_links': '%d, depth %d' % (len(LINKS), depth(tier, 6))}


class Model:
    """tensors: list of (diagonal?, {label: dim}); links: {(tensor token, label): partner}."""

    def __init__(self, pool):
        self.ts = [{'diag': k in 'Gm', 'dims': dict(zip(ls, ds)), 'in': {}} for k, ls, ds in pool]
        self.links = {}
        self.n = 0

    def who(self, i, l):
        return self.ts[i]['dims'][l]

    def free(self, i):
        return [l for l in self.ts[i]['dims'] if (i, l) not in self.links]

    def between(self, i, j):
        return [(a, b[1]) for (x, a), b in self.links.items() if x == i and b[0] == j]

    def link(self, p, q):
        self.links[p] = q
        self.links[q] = p

    def remap(self, f):
        self.links = {f(*p): f(*q) for p, q in self.links.items()}


def maker(i):
    def make():
        ts = []
        for k, (kind, ls, ds) in enumerate(POOLS[i]):
            if kind == 'D':
                ts.append(Tensor(labels=list(ls), data=generic(ds, seed=k)))
            elif kind == 'G':
                ts.append(DiagonalTensor(labels=list(ls), data=generic(ds[:1], seed=k)))
            elif kind == 'l':
                ts.append(Tensor(labels=list(ls), shape=ds, tensorLikeFlag=True))
            else:
                ts.append(DiagonalTensor(labels=list(ls), shape=ds, tensorLikeFlag=True))
        m = Model(POOLS[i])
        at = {l: k for k, (_, ls, _) in enumerate(POOLS[i]) for l in ls}
        for a, b in LINKS.get(i, []):
            makeLink(a, b, ts[at[a]], ts[at[b]])
            m.link((at[a], a), (at[b], b))
        return ts, m
    return make


def ops_for(m):
    out = []
    n = len(m.ts)
    for i in range(n):
        fi = m.free(i)
        for a, b in itertools.combinations(fi, 2):
            out.append(['link', i, a, i, b])
        for j in range(i + 1, n):
            fj = m.free(j)
            for a in fi:
                for b in fj:
                    out.append(['link', i, a, j, b])
            if len(fi) > 1 and len(fj) > 1:
                for b, d in itertools.permutations(fj, 2):
                    out.append(['link2', i, fi[:2], j, [b, d]])
            labels = [l for x, y in ((i, j), (j, i)) for l in m.ts[x]['dims'] if not ((x, l) in m.links and m.links[x, l][0] == y)]
            between = m.between(i, j)
            if len(labels) == len(set(labels)):
                out.append(['contract', i, j, None])
                out.append(['contract', j, i, None])
            if between:
                l = [x for t in (i, j) for x in m.ts[t]['dims'] if (t, x) not in ((i, between[-1][0]), (j, between[-1][1]))]
                if len(between) > 1 and len(l) == len(set(l)):
                    out.append(['contract', i, j, list(between[-1])])
                if not m.ts[i]['diag'] and not m.ts[j]['diag']:
                    out += [['merge', i, j, None], ['merge', i, j, 1], ['mergeLink', j, i]]
                    if len(m.ts[i]['dims']) > len(between) and len(m.ts[j]['dims']) > len(between) and not set(m.ts[i]['dims']) & set(m.ts[j]['dims']) and n < 4 and not any((t, x) in m.links and m.links[t, x][0] == t for t in (i, j) for x in m.ts[t]['dims']):
                        out += [['schmidt', i, j]]
                elif len(between) > 1:
                    out.append(['mergeLink', i, j])
        labels = list(m.ts[i]['dims'])
        if labels:
            out.append(['front', i, labels[-1]])
            out.append(['rename', i, labels[0]])
        if fi:
            out.append(['sum', i, fi[0]])
            out.append(['sum', i, fi[-1]])
        if len(fi) > 1:
            out.append(['out', i, [fi[1], fi[0]]])
        if n < 4:
            out.append(['copy', i])
    if not any(p[0] == q[0] for p, q in m.links.items()):
        out.append(['copyAll'])
    return out


def web(ts):
    """The real web: (tensor, label) -> partner; every leg of the pool must be linked inside the pool."""
    where = {id(leg): (i, leg.name) for i, t in enumerate(ts) for leg in t.legs}
    res = {}
    for i, t in enumerate(ts):
        for leg in t.legs:
            o = None if leg.bond is None else [x for x in leg.bond.legs if x is not leg]
            if o is not None:
                assert len(o) == 1, 'leg %r is linked to itself' % leg.name
                assert id(o[0]) in where, 'leg %r of tensor %d is linked to a leg of no tensor' % (leg.name, i)
                res[(i, leg.name)] = where[id(o[0])]
    return res


def apply(ts, m, op, ctx):
    k = op[0]
    if k in ('link', 'link2'):
        i, a, j, b = op[1:]
        al, bl = ([a], [b]) if k == 'link' else (a, b)
        ok = all(m.ts[i]['dims'][x] == m.ts[j]['dims'][y] for x, y in zip(al, bl))
        try:
            # legs as labels or as objects, singly or as lists
            if k == 'link2':
                res = makeLink(al, [ts[j].getLeg(y) for y in bl], ts[i], None)
            else:
                res = makeLink(a, ts[j].getLeg(b), tensorA=ts[i]) if (len(a) + i) % 2 else makeLink(ts[i].getLeg(a), b, tensorB=ts[j])
            ctx.check(ok, lambda: '%r: legs of different dimension were linked' % (op,))
            ctx.check(len(res) == len(al), 'makeLink returned %d bonds' % len(res))
            for x, y in zip(al, bl):
                m.link((i, x), (j, y))
        except AssertionError:
            ctx.check(not ok, lambda: '%r was refused' % (op,))
    elif k == 'contract':
        i, j, one = op[1:]
        pairs = m.between(i, j) if one is None else [tuple(one)]
        bonds = None if one is None else [ts[i].getLeg(one[0]).bond]
        res = contractTwoTensors(ts[i], ts[j], bonds=bonds, outProductWarning=False)
        dims = {l: d for l, d in m.ts[i]['dims'].items() if l not in [p[0] for p in pairs]}
        dims.update({l: d for l, d in m.ts[j]['dims'].items() if l not in [p[1] for p in pairs]})
        gone = {(i, a) for a, _ in pairs} | {(j, b) for _, b in pairs}
        m.links = {p: q for p, q in m.links.items() if p not in gone}
        lo, hi = min(i, j), max(i, j)
        m.remap(lambda x, l: (lo if x in (i, j) else x - (x > hi), l))
        diag = m.ts[i]['diag'] and m.ts[j]['diag'] and len(pairs) > 0
        m.ts[lo] = {'diag': diag, 'dims': dims}
        del m.ts[hi]
        ts[lo] = res
        del ts[hi]
    elif k in ('merge', 'mergeLink'):
        i, j = op[1:3]
        pairs = m.between(i, j)
        m.n += 1
        name = 'm%d' % m.n
        refused = False
        try:
            if k == 'merge':
                ts[i], ts[j] = merge(ts[i], ts[j], chi=op[3], bondName=(name + 'x', name + 'y'), renameWarning=False)
            else:
                ts[i], ts[j] = mergeLink(ts[i], ts[j], bondName=(name + 'x', name + 'y'), renameWarning=False)
        except TypeError:
            refused = True
        must = m.ts[i]['diag'] or m.ts[j]['diag']
        ctx.check(refused == must, lambda: '%r was %s' % (op, 'refused' if refused else 'accepted'))
        if not refused:
            d = int(np.prod([m.ts[i]['dims'][a] for a, _ in pairs]))
            if k == 'merge' and op[3] is not None:
                d = min(d, op[3])
            for t, side in ((i, 0), (j, 1)):
                for p in pairs:
                    del m.ts[t]['dims'][p[side]]
                    del m.links[t, p[side]]
            m.ts[i]['dims'][name + 'x'] = d
            m.ts[j]['dims'][name + 'y'] = d
            m.link((i, name + 'x'), (j, name + 'y'))
    elif k == 'schmidt':
        i, j = op[1:]
        m.n += 1
        pairs = m.between(i, j)
        u, s, v = SchimdtDecomposition(ts[i], ts[j], chi=2, swapLabels=(['s%dx' % m.n], ['s%dy' % m.n]), singularValueEps=0.0) if False else SchimdtDecomposition(ts[i], ts[j], chi=2)
        for t, side in ((i, 0), (j, 1)):
            for p in pairs:
                del m.ts[t]['dims'][p[side]]
                del m.links[t, p[side]]
        inner = [[l for l in x.labels if l not in m.ts[t]['dims']] for t, x in ((i, u), (j, v))]
        ctx.check(len(inner[0]) == 1 and len(inner[1]) == 1 and s is not None and s.dim == 2, lambda: 'unexpected factors %r %r %r' % (u, s, v))
        lu, lv = inner[0][0], inner[1][0]
        d = u.getLeg(lu).dim
        ctx.check(d <= 2, 'inner bond of dimension %d' % d)
        ts[i], ts[j] = u, v
        ts.append(s)
        m.ts[i]['dims'][lu] = d
        m.ts[j]['dims'][lv] = d
        ls = list(s.labels)
        m.ts.append({'diag': True, 'dims': {ls[0]: d, ls[1]: d}})
        ctx.check(ls[0] != ls[1], 'inner labels of the singular values coincide')
        partner = u.getLeg(lu).anotherSide()
        first = ls[0] if partner is s.legs[0] else ls[1]
        second = ls[1] if first == ls[0] else ls[0]
        m.link((i, lu), (len(ts) - 1, first))
        m.link((j, lv), (len(ts) - 1, second))
    elif k == 'front':
        ts[op[1]].moveLabelsToFront([op[2]])
    elif k == 'rename':
        i, l = op[1:]
        m.n += 1
        new = 'r%d' % m.n
        ts[i].renameLabel(l, new)
        m.ts[i]['dims'] = {(new if x == l else x): d for x, d in m.ts[i]['dims'].items()}
        m.remap(lambda x, y: (x, new if (x, y) == (i, l) else y))
    elif k == 'sum':
        i, l = op[1:]
        ts[i].sumOutLegByLabel(l)
        del m.ts[i]['dims'][l]
    elif k == 'out':
        i, ls = op[1:]
        m.n += 1
        new = 'o%d' % m.n
        try:
            ts[i].outProduct(list(ls), new)
            ctx.check(not m.ts[i]['diag'], 'legs of a diagonal tensor were combined')
            d = 1
            for l in ls:
                d *= m.ts[i]['dims'].pop(l)
            m.ts[i]['dims'][new] = d
        except TypeError:
            ctx.check(m.ts[i]['diag'], 'combining legs was refused')
    elif k == 'copy':
        i = op[1]
        ts.append(ts[i].copy())
        m.ts.append({'diag': m.ts[i]['diag'], 'dims': dict(m.ts[i]['dims'])})
    elif k == 'copyAll':
        old = list(ts)
        ts[:] = copyTensorList(ts)
        for t in old:
            consistent_legs(t, 'original after copyTensorList:')
        w = web(old)
        ctx.check(w == m.links, lambda: 'copyTensorList changed the links of the originals: %r' % w)
    for i, t in enumerate(ts):
        try:
            consistent_legs(t, 'after %r tensor %d:' % (op, i))
        except AssertionError as e:
            ctx.fail(str(e))
        ctx.check(sorted((l.name, l.dim) for l in t.legs) == sorted(m.ts[i]['dims'].items()),
                  lambda: 'after %r tensor %d has legs %r, expected %r' % (op, i, [(l.name, l.dim) for l in t.legs], m.ts[i]['dims']))
        ctx.check(bool(t.diagonalFlag) == m.ts[i]['diag'], lambda: 'after %r tensor %d has the wrong kind' % (op, i))
    try:
        w = web(ts)
    except AssertionError as e:
        ctx.fail('after %r %s' % (op, e))
    ctx.check(w == m.links, lambda: 'after %r the legs are linked as %r, expected %r' % (op, w, m.links))
    return ts, m


def observe(ts, m, ctx):
    for i, j in itertools.permutations(range(len(ts)), 2):
        got = shareBonds(ts[i], ts[j])
        ctx.check(sorted(b.sideLeg(ts[i]).name for b in got) == sorted(a for a, _ in m.between(i, j)), 'shareBonds is wrong')
        for b in got:
            ctx.check(b.legs[0].tensor is ts[i] and b.legs[1].tensor is ts[j], 'shareBonds orders the legs wrongly')
            for leg in b.legs:
                other = b.legs[1] if leg is b.legs[0] else b.legs[0]
                ctx.check(leg.anotherSide() is other and b.anotherSide(leg) is other, 'anotherSide is wrong')
    legs = [leg for t in ts for leg in t.legs]
    few = len(m.links) <= 2          # refusals write long messages: asked for where there is one bond
    for b in {id(leg.bond): leg.bond for leg in legs if leg.bond is not None}.values():
        for t in ts:
            mine = [leg for leg in b.legs if leg.tensor is t]
            if mine:
                ctx.check(b.sideLeg(t) is mine[0], 'sideLeg is not the first leg of the bond in the tensor')
            elif few:
                ctx.check(refuses(b.sideLeg, t), 'sideLeg accepts a tensor that the bond does not touch')
        for leg in legs if few else ():
            if leg is not b.legs[0] and leg is not b.legs[1]:
                ctx.check(refuses(b.anotherSide, leg), 'anotherSide accepts a leg that is not in the bond')
    for leg in legs:
        if leg.bond is None:
            ctx.check(leg.anotherSide() is None, 'a free leg has another side')
    ctx.outcome('%d tensors %d links' % (len(ts), len(m.links) // 2))


def refuses(f, *args):
    try:
        f(*args)
    except (AssertionError, ValueError):
        return True
    return False


def key(ts, m):
    return jkey([[[l.name for l in t.legs] for t in ts], [sorted(t['dims'].items()) for t in m.ts], sorted(map(str, m.links.items()))])


def systems(tier):
    return range(len(POOLS))


def system(i, tier):
    return {'make': maker(i), 'ops': lambda ts, m: ops_for(m), 'apply': apply, 'observe': observe, 'key': key,
            'depth': depth(tier, i)}


def run_case(case, ctx):
    run_only(sys.modules[__name__], case, ctx)
