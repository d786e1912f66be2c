"""C15: Ising networks against exhaustive summation over all spin configurations.

Space: every labelled multigraph (up to a bound) x every assignment of couplings from a menu x edge insertion
order/direction; every site tensor (degree, couplings, labels); every plaquette / square tensor entry.
Reference: the Boltzmann sum over all 2^n spin states, written with numpy only.
"""
import itertools

import numpy as np

from CTL.funcs.graph import UndirectedGraph
from CTL.funcs.graphFuncs import squareLatticePBC, squareLatticeFBC, doubleSquareLatticeFBC, completeGraph
from CTL.models.Ising import (IsingTNFromUndirectedGraph, IsingSiteTensor, IsingEdgeMatrix, exactZFromGraphIsing,
                              getIsingWeight, plaquetteIsingTensor, squareIsingTensor, squareTensorMeasure,
                              infiniteIsingExactM)
from CTL.tensor.contract.optimalContract import contractTensorList

from mc.model import by_labels, close, consistent_legs, dense
from mc.nets import larger, multigraphs

PROPERTY = 'C15'
RULE = ('every labelled multigraph x coupling assignment x insertion order; every site/plaquette/square tensor of the menus; '
        'compared with the sum over all spin states')
ASSUMPTIONS = ['graphs without self loops', 'couplings from the stated menus']

MENU = [0.3, -0.7, 1.1]


def bounds(tier):
    t = tier == 'thorough'
    return {'vertices': 5 if t else 4, 'multiplicity': 2, 'menu': MENU + [0.0], 'degree': 6 if t else 5,
            'lattices': '3x4' if t else '3x3'}


def weightings(m, full, menu):
    """All assignments of the menu to m edges, or (not full) all with at most two edges off the default."""
    if full:
        yield from itertools.product(menu, repeat=m)
        return
    for d in range(min(m, 2) + 1):
        for which in itertools.combinations(range(m), d):
            for vals in itertools.product(menu[1:], repeat=d):
                w = [menu[0]] * m
                for k, v in zip(which, vals):
                    w[k] = v
                yield tuple(w)


def cases(tier):
    t = tier == 'thorough'
    # site tensors
    for deg in range(0, 7 if t else 6):
        for b in MENU + [0.0]:
            yield {'k': 'site', 'deg': deg, 'beta': b, 'list': False}
        for bs in itertools.product([0.3, -0.7] if deg > 3 and not t else MENU + [0.0], repeat=deg):
            yield {'k': 'site', 'deg': deg, 'beta': list(bs), 'list': True}
    for a, b in itertools.product([0.0, 0.4, -0.9, 1.3], repeat=2):
        for dia in (False, True):
            yield {'k': 'plaq', 'w': [a, b], 'dia': dia}
            if a == b:
                yield {'k': 'plaq', 'w': a, 'dia': dia}
    for beta in (0.0, 0.2, 0.44, -0.6, 1.0):
        for obs in (None, 'M', 'E'):
            for h in (0.0, 0.1, -0.3):
                yield {'k': 'square', 'beta': beta, 'obs': obs, 'h': h}
    yield {'k': 'measure'}
    for T in (0.5, 1.0, 1.5, 2.0, 2.2, 2.26, 2.28, 2.5, 3.0, 5.0):
        for V in (1.0, 0.5, 2.0):
            yield {'k': 'exactM', 'T': T, 'V': V}
    # graphs
    for n in range(1, 4):
        for edges in multigraphs(n, 2):
            full = len(edges) <= (6 if t else 4)
            for w in weightings(len(edges), full, MENU):
                for order in ('fwd', 'back', 'flip'):
                    if order != 'fwd' and len(edges) < 1:
                        continue
                    yield {'k': 'graph', 'n': n, 'edges': edges, 'w': list(w), 'order': order}
    for n in ((4, 5) if t else (4,)):
        for edges in multigraphs(n, 1):
            full = len(edges) <= 3 and n == 4
            for w in weightings(len(edges), full, MENU if n == 4 else MENU[:2]):
                if n == 5 and sum(1 for x in w if x != MENU[0]) > 1:
                    continue
                for order in ('fwd', 'flip') if n == 4 and (t or full) else ('fwd',):
                    yield {'k': 'graph', 'n': n, 'edges': edges, 'w': list(w), 'order': order}
    for n in ((4,) if t else ()):
        for edges in multigraphs(n, 2):
            if len(edges) <= 6:
                yield {'k': 'graph', 'n': n, 'edges': edges, 'w': [MENU[k % 3] for k in range(len(edges))], 'order': 'back'}
    if not t:
        for edges in multigraphs(5, 1):
            if len(edges) <= 5:
                yield {'k': 'graph', 'n': 5, 'edges': edges, 'w': [MENU[k % 3] for k in range(len(edges))], 'order': 'fwd'}
    # larger graphs, many parallel edges, strong couplings, integer and numpy weights
    cyc = [[0.3, -0.7, 1.1], [0.5], [-0.4], [1, 2, 0], [2.5, -3.0, 0.01]]
    named = larger(tier) + [(2, [[0, 1]] * 6), (3, [[0, 1]] * 4 + [[1, 2]] * 3 + [[0, 2]] * 2), (8, [[0, i] for i in range(1, 8)]), (8, [[i, i + 1] for i in range(7)]),
                            (10, [[i, (i + 1) % 10] for i in range(10)] + [[i, i + 5] for i in range(5)]), (9, []), (7, [[0, 6], [6, 0], [2, 3]]), (12, [[i, (i * 5 + 1) % 12] for i in range(12) if i != (i * 5 + 1) % 12])]
    for n, edges in named:
        for c, menu in enumerate(cyc):
            for order in ('fwd', 'flip', 'back'):
                yield {'k': 'graph', 'n': n, 'edges': edges, 'w': [menu[i % len(menu)] for i in range(len(edges))], 'order': order, 'c': c}
    for deg in range(6, 11):
        for beta in (0.3, -0.3, 2, [0.2 * i - 0.5 for i in range(deg)], [1] * deg):
            yield {'k': 'site', 'deg': deg, 'beta': beta, 'list': isinstance(beta, list)}
    for w in (1, 0, -2, [1, 0], [2, -1], [0, 0.5], [3.0, -3]):
        for dia in (False, True):
            yield {'k': 'plaq', 'w': w, 'dia': dia}
    for beta in (1, 0, -2, 3.5):
        for obs in (None, 'M', 'E'):
            for h in (0, 1, -2.5, 1e-6):
                yield {'k': 'square', 'beta': beta, 'obs': obs, 'h': h}
    # lattices
    big = 12 if t else 9
    for kind in ('pbc', 'fbc', 'double', 'complete'):
        for a in range(1, 5):
            for b in range(1, 5):
                if kind == 'pbc' and (a < 2 or b < 2):
                    continue
                n = {'pbc': a * b, 'fbc': a * b, 'double': a * (b + 1) + b * (a + 1), 'complete': a}[kind]
                if n > (big if kind != 'double' else (12 if t else 7)) or (kind == 'complete' and b != 1):
                    continue
                for w in ([0.4, 0.4], [0.3, -0.5], [-0.2, 0.6]):
                    yield {'k': 'lattice', 'kind': kind, 'a': a, 'b': b, 'w': w}


def spins(n):
    """All 2^n spin states, state index bit i = spin i (0 -> -1, 1 -> +1)."""
    s = np.arange(1 << n)
    return np.stack([((s >> i) & 1) * 2 - 1 for i in range(n)], axis=1) if n else np.zeros((1, 0), dtype=int)


def weights_ref(n, edges, w):
    S = spins(n)
    E = np.zeros(1 << n)
    for (u, v), b in zip(edges, w):
        E = E + b * S[:, u] * S[:, v]
    return np.exp(E)


def network_value(tensors, ctx):
    """Value of a list of linked tensors without any free leg, read from legs, bonds and data only."""
    ids, terms = {}, []
    for t in tensors:
        consistent_legs(t)
        mine = []
        for leg in t.legs:
            ctx.check(leg.bond is not None, 'leg %r of an Ising network is not connected' % leg.name)
            mine.append(ids.setdefault(id(leg.bond), len(ids)))
        terms += [dense(t), mine]
    return np.einsum(*terms, [], optimize='greedy')


def check_graph(g, n, edges, w, ctx, contract=True):
    W = weights_ref(n, edges, w)
    Z = W.sum()
    tensors = IsingTNFromUndirectedGraph(g)
    ctx.step()
    ctx.check(len(tensors) == n, '%d tensors for %d vertices' % (len(tensors), n))
    val = network_value(tensors, ctx)
    ctx.check(close(val / Z, 1.0), lambda: 'the network is worth %r, the partition function is %r' % (val, Z))
    if contract:
        res = contractTensorList(tensors)
        ctx.step()
        got = res.single()
        ctx.check(close(got / Z, 1.0), lambda: 'the network contracts to %r, the partition function is %r' % (got, Z))
    ex = exactZFromGraphIsing(g)
    ctx.step()
    ctx.check(close(ex / Z, 1.0), lambda: 'exactZFromGraphIsing gives %r, expected %r' % (ex, Z))
    for s in range(1 << n) if n <= 5 else list(range(0, 1 << n, 7)):
        # the state with all spins of the bit mask flipped has the same weight, so no sign convention is assumed
        ctx.check(close(getIsingWeight(g, s) / W[s], 1.0), lambda: 'getIsingWeight of state %d is %r, expected %r' % (s, getIsingWeight(g, s), W[s]))
    ctx.step()
    # building the network again gives the same thing: the graph was not changed
    again = network_value(IsingTNFromUndirectedGraph(g), ctx)
    ctx.check(close(again / Z, 1.0), 'building the network a second time gives another value')
    ctx.state(['graph', n, edges, w])
    ctx.outcome('graph %d vertices' % n)


def run_case(case, ctx):
    k = case['k']
    if k == 'graph':
        g = UndirectedGraph(case['n'])
        items = list(zip(case['edges'], case['w']))
        if case['order'] == 'back':
            items = items[::-1]
        for (u, v), b in items:
            if case['order'] == 'flip':
                u, v = v, u
            g.addEdge(u, v, weight=b)
        check_graph(g, case['n'], case['edges'], case['w'], ctx, contract=case['n'] < 7)
    elif k == 'lattice':
        a, b, (wv, wh) = case['a'], case['b'], case['w']
        kind = case['kind']
        edges, w = [], []
        if kind == 'complete':
            n = a
            g = completeGraph(n, weight=wv)
            edges = list(itertools.combinations(range(n), 2))
            w = [wv] * len(edges)
        elif kind in ('pbc', 'fbc'):
            n = a * b
            g = (squareLatticePBC if kind == 'pbc' else squareLatticeFBC)(a, b, weight=tuple(case['w']) if wv != wh else wv)
            for x in range(a):
                for y in range(b):
                    if kind == 'pbc' or x + 1 < a:
                        edges.append((x * b + y, ((x + 1) % a) * b + y))
                        w.append(wv)
                    if kind == 'pbc' or y + 1 < b:
                        edges.append((x * b + y, x * b + (y + 1) % b))
                        w.append(wh)
        else:
            g = doubleSquareLatticeFBC(a, b, weight=tuple(case['w']) if wv != wh else wv)
            n = a * (b + 1) + b * (a + 1)
            U = lambda x, y: x * b + y
            L = lambda x, y: (a + 1) * b + x * (b + 1) + y
            for x in range(a):
                for y in range(b):
                    edges += [(L(x, y), U(x, y)), (L(x, y + 1), U(x + 1, y)), (L(x, y), U(x + 1, y)), (L(x, y + 1), U(x, y))]
                    w += [wh, wh, wv, wv]
        check_graph(g, n, edges, w, ctx, contract=n <= 6)
        if kind == 'double':
            # the same lattice out of plaquette tensors: bonds are the spins inside, boundary spins are summed
            check_plaquettes(a, b, case['w'], weights_ref(n, edges, w).sum(), ctx)
        ctx.outcome('lattice ' + kind)
    elif k == 'site':
        deg, beta = case['deg'], case['beta']
        labels = ['x%d' % ((i * 3 + 1) % (7 if deg < 7 else 11)) for i in range(deg)]
        bs = beta if case['list'] else [beta] * deg
        for lab, default in [(labels, False), (None, False)] + ([(labels, True), (None, True)] if deg == 4 else []):
            t = IsingSiteTensor(beta, labels=lab) if default else IsingSiteTensor(betaJ=beta, dim=deg, labels=lab)
            ctx.step()
            consistent_legs(t)
            ctx.check(t.dim == deg and not t.diagonalFlag or deg == 0, 'site tensor of %d legs, expected %d' % (t.dim, deg))
            ctx.check(min(bs + [0.0]) < 0 or not np.iscomplexobj(t.a), 'the site tensor of ferromagnetic couplings is complex')
            ctx.check(all(leg.dim == 2 for leg in t.legs), 'site tensor with a leg that is no spin')
            arr = by_labels(t, labels) if lab is not None else dense(t)
            # absorb the other half of every edge: sum_s prod_i exp(beta_i s s_i)
            for b in bs:
                arr = np.tensordot(arr, np.asarray(IsingEdgeMatrix(b)), (0, 1))
            want = np.zeros((2,) * deg)
            for s in (-1, 1):
                for idx in itertools.product(range(2), repeat=deg):
                    want[idx] += np.exp(sum(b * s * (2 * i - 1) for b, i in zip(bs, idx)))
            ctx.check(close(arr, want), lambda: 'site tensor with its edges has weights %r, expected %r' % (arr, want))
        for b in set(bs):
            m = np.asarray(IsingEdgeMatrix(b))
            ctx.check(close(m @ m.T, np.array([[np.exp(b), np.exp(-b)], [np.exp(-b), np.exp(b)]])),
                      lambda: 'edge matrix of %r does not square to the Boltzmann weight' % b)
        for bad in ({'betaJ': [0.1] * (deg + 1), 'dim': deg}, {'betaJ': 0.2, 'dim': deg, 'labels': ['l'] * (deg + 1)}):
            try:
                IsingSiteTensor(**bad)
            except (AssertionError, ValueError):
                pass
            else:
                ctx.fail('a site tensor with contradicting dimension is not refused')
        ctx.outcome('site')
        ctx.state(['site', beta, deg])
    elif k == 'plaq':
        w = case['w'] if isinstance(case['w'], list) else [case['w']] * 2
        given = tuple(case['w']) if isinstance(case['w'], list) else case['w']
        t = plaquetteIsingTensor(given, diamondForm=case['dia'])
        ctx.step()
        consistent_legs(t)
        names = ['u', 'r', 'd', 'l'] if case['dia'] else ['lu', 'ru', 'rd', 'ld']
        arr = by_labels(t, names)
        want = plaq_ref(w)
        ctx.check(close(arr, want), lambda: 'plaquette tensor %r, expected %r' % (arr, want))
        ctx.check(t.degreeOfFreedom == 2, 'degree of freedom of a plaquette is %r' % t.degreeOfFreedom)
        ctx.outcome('plaquette')
        ctx.state(['plaq', case])
    elif k == 'square':
        t = squareIsingTensor(case['beta'], obs=case['obs'], symmetryBroken=case['h'])
        if case['h'] == 0.0:
            d = squareIsingTensor(case['beta'], obs=case['obs']) if case['obs'] else squareIsingTensor(case['beta'])
            ctx.check(d.labels == t.labels and close(dense(d), dense(t)), 'the default symmetry breaking is none')
        ctx.step()
        consistent_legs(t)
        arr = by_labels(t, ['u', 'l', 'd', 'r'])
        want = np.zeros((2,) * 4)
        for idx in itertools.product(range(2), repeat=4):
            s = [2 * i - 1 for i in idx]
            nn = sum(s[i] * s[(i + 1) % 4] for i in range(4))
            m = sum(s) * 0.5
            f = {None: 1.0, 'M': m, 'E': -nn}[case['obs']]
            want[idx] = f * np.exp(case['beta'] * nn + case['h'] * m)
        ctx.check(close(arr, want), lambda: 'square tensor %r, expected %r' % (arr, want))
        ctx.check(t.degreeOfFreedom == 2, 'degree of freedom of a square is %r' % t.degreeOfFreedom)
        ctx.outcome('square')
        ctx.state(['square', case])
    elif k == 'measure':
        for idx in itertools.product(range(2), repeat=4):
            s = [2 * i - 1 for i in idx]
            nn = sum(s[i] * s[(i + 1) % 4] for i in range(4))
            for obs, want in ((None, 1.0), ('M', sum(s) * 0.5), ('E', -float(nn))):
                got = squareTensorMeasure(idx, obs)
                ctx.check(got == want, lambda: 'measure %r of %r is %r, expected %r' % (obs, idx, got, want))
                ctx.step()
                ctx.state(['measure', idx, obs])
        try:
            squareTensorMeasure((0, 0, 0, 0), 'Q')
        except AssertionError:
            pass
        else:
            ctx.fail('an unknown observable is not refused')
        ctx.outcome('measure')
    elif k == 'exactM':
        T, V = case['T'], case['V']
        got = infiniteIsingExactM(T, V)
        x = V / T
        want = (1 - np.sinh(2 * x) ** -4.0) ** 0.125 if x > np.log(1 + np.sqrt(2)) / 2 else 0.0
        ctx.check(close(got, want), lambda: 'exact magnetisation %r, expected %r' % (got, want))
        if V == 1.0:
            ctx.check(close(infiniteIsingExactM(T), want), 'default interaction')
        ctx.step()
        ctx.state(['exactM', T, V])
        ctx.outcome('exactM')
    ctx.trace()


def plaq_ref(w):
    """Axes lu, ru, rd, ld; w = (vertical, horizontal)."""
    want = np.zeros((2,) * 4)
    for idx in itertools.product(range(2), repeat=4):
        lu, ru, rd, ld = [2 * i - 1 for i in idx]
        want[idx] = np.exp(w[0] * (lu * ld + ru * rd) + w[1] * (lu * ru + ld * rd))
    return want


def check_plaquettes(a, b, w, Z, ctx):
    """Double square lattice of a x b diamonds: weight[0] left-up to right-bottom edges, weight[1] the others.
    In diamond form the vertical weight of the plaquette sits on left-bottom to right-top edges."""
    t = plaquetteIsingTensor((w[1], w[0]), diamondForm=True)
    arr = by_labels(t, ['u', 'r', 'd', 'l'])
    U = lambda x, y: x * b + y
    L = lambda x, y: (a + 1) * b + x * (b + 1) + y
    terms = []
    for x in range(a):
        for y in range(b):
            terms += [arr, [U(x, y), L(x, y + 1), U(x + 1, y), L(x, y)]]
    val = np.einsum(*terms, [], optimize='greedy')
    ctx.step()
    ctx.check(close(val / Z, 1.0), lambda: 'the plaquettes give %r, the lattice %r' % (val, Z))
