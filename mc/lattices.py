"""Exact partition functions of small finite lattices, written with numpy only."""
import numpy as np


def torus(T, ly, lx):
    """Z of the ly x lx torus of T[u, l, d, r] (row transfer matrix, exact)."""
    du, dl = T.shape[0], T.shape[1]
    # row: axes (l, U, D, r)
    row = np.transpose(T, (1, 0, 2, 3)).reshape(dl, du, du, dl)
    cur = row
    for _ in range(lx - 1):
        m = np.tensordot(cur, row, (3, 0))            # l U D U' D' r
        m = np.transpose(m, (0, 1, 3, 2, 4, 5))
        cur = m.reshape(dl, m.shape[1] * m.shape[2], m.shape[3] * m.shape[4], dl)
    M = np.einsum('aUDa->UD', cur)
    return np.trace(np.linalg.matrix_power(M, ly)) if ly > 1 else np.trace(M)


def open_square(T, ly, lx):
    """Z of the ly x lx lattice of T[u, l, d, r] whose boundary legs are summed out."""
    du, dl = T.shape[0], T.shape[1]
    state = np.ones((du,) * lx)
    for _ in range(ly):
        # axes of state: u legs of the remaining columns first, d legs of the finished ones behind; carry = horizontal leg
        cur = state[..., None] * np.ones(dl)
        for _ in range(lx):
            # first axis: u of this column, last axis: l
            cur = np.tensordot(cur, T, ([0, cur.ndim - 1], [0, 1]))     # ..., d, r
        state = cur.sum(axis=-1)
    return state.sum()


def trg_square_sites(steps):
    """Connectivity of the 2^steps sites that one coarse tensor with its own legs joined stands for.

    Levin-Nave geometry: an A site sits on every vertical link X.d - Y.u of the coarse lattice (its u, l legs in
    plaquette X, its d, r legs in plaquette Y), a B site on every horizontal link X.r - Y.l (its d, l legs in X, its
    u, r legs in Y).  Within a plaquette: ul.d - dl.u, ul.r - ur.l, ur.d - dr.u, dl.r - dr.l.
    Returns the list of sites as (kind, {leg: bond id}); kinds alternate over the checkerboard.
    """
    sites = [('A', {'u': 0, 'd': 0, 'l': 1, 'r': 1})]
    for _ in range(steps):
        # bonds of the coarse lattice -> where they end
        ends = {}
        for n, (_k, legs) in enumerate(sites):
            for name, b in legs.items():
                ends.setdefault(b, {})[name] = n
        bonds = {}
        new = []

        def bond(plaq, which):
            return bonds.setdefault((plaq, which), len(bonds))

        for b, e in ends.items():
            if 'd' in e:
                x, y = e['d'], e['u']
                # dr corner of x: u -> ur, l -> dl; ul corner of y: d -> dl, r -> ur
                new.append(('A', {'u': bond(x, 'ur-dr'), 'l': bond(x, 'dl-dr'), 'd': bond(y, 'ul-dl'), 'r': bond(y, 'ul-ur')}))
            else:
                x, y = e['r'], e['l']
                # ur corner of x: d -> dr, l -> ul; dl corner of y: u -> ul, r -> dr
                new.append(('B', {'d': bond(x, 'ur-dr'), 'l': bond(x, 'ul-ur'), 'u': bond(y, 'ul-dl'), 'r': bond(y, 'dl-dr')}))
        sites = new
    return sites


def trg_square(T, steps, T2=None):
    """Exact value of the 2^steps sites; T[u, l, d, r]; T2 on the B sublattice of the finest lattice."""
    terms = []
    for kind, legs in trg_square_sites(steps):
        arr = T if (T2 is None or kind == 'A') else T2
        terms.append((arr, [legs[x] for x in 'uldr']))
    return contract(terms)


def honeycomb_pairs(steps):
    """Bonds a-k - b-k of the 3^steps pairs that one coarse pair of triangle tensors with joined legs stands for.
    Returns link[k][i] = j: leg k of a_i is joined to leg k of b_j."""
    link = {k: {0: 0} for k in (1, 2, 3)}
    n = 1
    for _ in range(steps):
        ids = {}
        for k in (1, 2, 3):
            for i, j in link[k].items():
                ids[(k, i)] = len(ids)
        new = {1: {}, 2: {}, 3: {}}
        for p in ids.values():
            new[1][p] = p
        for k in (2, 3):
            # corners of the coarse a (k = 2) or b (k = 3) triangles
            for tri in range(n):
                corner = {}
                for c in (1, 2, 3):
                    i = tri if k == 2 else [x for x, y in link[c].items() if y == tri][0]
                    corner[c] = ids[(c, i)]
                new[k][corner[1]] = corner[2]
                new[k][corner[3]] = corner[1]
                new[k][corner[2]] = corner[3]
        link, n = new, len(ids)
    return link, n


def honeycomb(A, B, steps):
    link, n = honeycomb_pairs(steps)
    bid = {}
    for k in (1, 2, 3):
        for i, j in link[k].items():
            bid[('a', i, k)] = bid[('b', j, k)] = len(bid)
    names = {}
    terms = []
    for side, T in (('a', A), ('b', B)):
        for i in range(n):
            terms.append((T, [names.setdefault(bid[(side, i, k)], len(names)) for k in (1, 2, 3)]))
    return contract(terms)


def contract(terms):
    """Value of a closed network of small tensors: contract greedily, tracing joined legs."""
    terms = [(np.asarray(a), list(i)) for a, i in terms]

    def trace(a, ids):
        while len(set(ids)) < len(ids):
            x = next(i for i in ids if ids.count(i) > 1)
            p = ids.index(x)
            q = ids.index(x, p + 1)
            a = np.trace(a, axis1=p, axis2=q)
            ids = [i for k, i in enumerate(ids) if k not in (p, q)]
        return a, ids

    terms = [trace(*t) for t in terms]
    while len(terms) > 1:
        best = None
        for p in range(len(terms)):
            for q in range(p + 1, len(terms)):
                s = set(terms[p][1]) ^ set(terms[q][1])
                shared = set(terms[p][1]) & set(terms[q][1])
                score = (not shared, len(s) - max(len(terms[p][1]), len(terms[q][1])), len(s))
                if best is None or score < best[0]:
                    best = (score, p, q)
        _, p, q = best
        (a, i), (b, j) = terms[p], terms[q]
        sh = [x for x in i if x in j]
        c = np.tensordot(a, b, ([i.index(x) for x in sh], [j.index(x) for x in sh]))
        terms = [t for k, t in enumerate(terms) if k not in (p, q)] + [(c, [x for x in i + j if x not in sh])]
    return terms[0][0][()]
