"""C17: coarse graining is exact while nothing is truncated.

Space: every initial tensor of a family (all dimension pairs, dense entry patterns, low-rank patterns) x bond limit x
number of steps, for SquareTRG (one or two initial tensors), TriangleTRG, HOTRG and CTMRG.
Reference: the partition function of the finite lattice the coarse tensor stands for, summed exactly
(mc/lattices.py; numpy only, transfer matrices or direct contraction).
"""
import itertools

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.tensorFactory import makeSquareTensor
from CTL.models.Ising import plaquetteIsingTensor, squareIsingTensor
from CTL.examples.TRG import SquareTRG, TriangleTRG
from CTL.examples.HOTRG import HOTRG
from CTL.examples.CTMRG import CTMRG
from CTL.examples.TNR import doTNR

from mc.lattices import torus, open_square, trg_square, honeycomb, honeycomb_pairs, contract
from mc.core import Violated
from mc.model import generic, by_labels, close

PROPERTY = 'C17'
RULE = ('every initial tensor of the family x bond limit x number of steps before the limit binds; log Z after every step '
        'against the exact sum over the finite lattice')
ASSUMPTIONS = ['real tensors with a positive partition function; CTMRG: tensors symmetric under both reflections (as its '
               'documentation restricts it to) and of equal dimension in both directions; TNR: symmetric tensors, coarse neighbours are mirror images', 'tolerance 1e-7 on log Z (1e-4 for HOTRG, which discards amplitudes below 1e-5)']
TOL = 1e-7
HTOL = 1e-4         # solveEnv discards eigenvalues below 1e-10, i.e. amplitudes below 1e-5
CASE_CPU_S = 200


def bounds(tier):
    return {'SquareTRG sites': 4, 'TriangleTRG pairs': 9, 'HOTRG sites': 16, 'CTMRG side': 9, 'entry patterns': 12 if tier == 'thorough' else 4}


def positive(shape, seed):
    """Positive, generic, well conditioned entries: 1 + small multiples of distinct integers."""
    return 1.0 + 0.09 * generic(shape, seed) + 0.0


def initial(case):
    """Initial tensor with axes u, l, d, r."""
    fam, dv, dh, seed = case['fam'], case['dv'], case['dh'], case.get('seed', 0)
    if fam == 'generic':
        return positive((dv, dh, dv, dh), seed)
    if fam == 'product':
        v, w = 1.0 + np.arange(dv), 2.0 + np.arange(dh) * 0.5
        x, y = 1.5 + np.arange(dv) * 0.3, 0.7 + np.arange(dh)
        return np.einsum('a,b,c,d->abcd', v, w, x, y) * 0.3
    if fam == 'ghz':
        a = np.zeros((dv,) * 4)
        for i in range(dv):
            a[i, i, i, i] = 1.0 + 0.2 * i
        return a
    if fam == 'lines':
        # independent vertical and horizontal spin lines: delta on both, generic weight
        w = 1.0 + 0.3 * generic((dv, dh), seed) / 10.0
        a = np.zeros((dv, dh, dv, dh))
        for i in range(dv):
            for j in range(dh):
                a[i, j, i, j] = w[i, j]
        return a
    if fam == 'ising':
        return by_labels(squareIsingTensor(case['beta'], symmetryBroken=case.get('h', 0.0)), ['u', 'l', 'd', 'r'])
    raise AssertionError(fam)


def cases(tier):
    t, more = True, tier == 'thorough'
    orders = ['uldr', 'ldru', 'rdlu', 'udlr']
    dims = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)]
    for dv, dh in dims:
        for fam in ('generic', 'product', 'lines', 'ghz'):
            if fam == 'ghz' and dv != dh:
                continue
            for seed in (tuple(range(12)) if more else (0, 1, 2, 3)) if fam in ('generic', 'lines') else (0,):
                for order in (orders if dv * dh <= 6 or t else orders[:2]):
                    D = dv * dh
                    base = {'fam': fam, 'dv': dv, 'dh': dh, 'seed': seed, 'order': order}
                    # square TRG: the first step needs chi >= dv * dh, the second the square of that
                    if fam in ('product', 'ghz'):
                        r = 1 if fam == 'product' else dv
                        yield dict(base, k='trg', chi=r, steps=6 if t else 4)
                        yield dict(base, k='trg', chi=r + 3, steps=3)
                        yield dict(base, k='hotrg', chi=[r, None], steps=6 if t else 4)
                        yield dict(base, k='hotrg', chi=[r + 1, r + 2], steps=3)
                    else:
                        yield dict(base, k='trg', chi=D, steps=1)
                        if D * D <= (16 if order == orders[0] and dv == dh else 4):
                            yield dict(base, k='trg', chi=D * D, steps=2)
                        if fam == 'generic' and D <= 6:
                            yield dict(base, k='trg2', chi=D, steps=1)
                            if D * D <= 4:
                                yield dict(base, k='trg2', chi=D * D, steps=2)
                        yield dict(base, k='hotrg', chi=[dh * dh, dv * dv], steps=2)
                        yield dict(base, k='hotrg', chi=[1 if dh == 1 else dh, dv ** 2], steps=1)
                        yield dict(base, k='hotrg', chi=[max(dh, dv) ** 2 + 1, None], steps=2)
                        if D <= 2:
                            yield dict(base, k='hotrg', chi=[dh ** 4, dv ** 4], steps=4 if D == 1 or t else 3)
                            if D == 1:
                                yield dict(base, k='trg', chi=1, steps=4)
                        if D == 4 and dv == dh and order == orders[0] and (t or seed == 0):
                            yield dict(base, k='hotrg', chi=[16, None], steps=4 if t else 3)
    for beta in (0.0, 0.3, 0.6, 1.0):
        for h in (0.0, 0.2):
            base = {'fam': 'ising', 'dv': 2, 'dh': 2, 'beta': beta, 'h': h}
            yield dict(base, k='trg', chi=16, steps=2, order='own')
            yield dict(base, k='hotrg', chi=[16, None], steps=3, order='own')
    for alpha in (0.0, 0.25, 0.5, 1.0, 1.7, 3.0):
        yield {'k': 'tri', 'alpha': alpha, 'chi': 4, 'steps': 1}
        yield {'k': 'tri', 'alpha': alpha, 'chi': 16, 'steps': 2}
        yield {'k': 'tri', 'alpha': alpha, 'chi': None, 'steps': 1}
    # CTMRG: symmetric tensors
    for dv, dh in [(1, 1), (2, 2), (3, 3)]:
        for seed in range(20 if more else 6):
            for signed in (False, True):
                m = max(dv, dh)
                top = (9 if t else 7) if m <= 2 else 5
                for chi in sorted({m ** (top // 2), m ** (top // 2) + 3, 64}):
                    yield {'k': 'ctmrg', 'dv': dv, 'dh': dh, 'seed': seed, 'signed': signed, 'chi': chi, 'top': top,
                           'order': ['uldr', 'lrud', 'drul'][seed % 3]}
    for w in (0.0, 0.3, -0.4, 0.8):
        yield {'k': 'plaq', 'w': w, 'chi': 16, 'top': 8 if t else 7}
    # TNR: tensors symmetric under both reflections, one step
    for dv, dh in [(1, 1), (2, 2), (2, 3), (3, 2), (1, 2), (2, 1)] + ([(3, 3)] if more else []):
        for seed in range(10 if more else 4):
            for signed in (False, True):
                for chi in ([99] * 5, [dv * dh, dv * dh, dv, dh * dh, dv * dv]):
                    for iters in (0, 53):
                        yield {'k': 'tnr', 'dv': dv, 'dh': dh, 'seed': seed, 'signed': signed, 'chi': chi, 'iters': iters}
    for dv, dh in [(2, 2), (2, 3), (3, 2)]:
        for seed in range(4 if more else 2):
            for chi in itertools.product((1, 2, 3), (1, 2, 3), (1, 2), (1, 3), (1, 3)):
                yield {'k': 'tnr', 'dv': dv, 'dh': dh, 'seed': seed, 'signed': False, 'chi': list(chi), 'iters': 2}
    # truncating steps, judged one at a time
    for dv, dh in [(2, 2), (2, 3), (3, 2), (3, 3), (1, 3)] + ([(3, 4), (4, 4)] if t else []):
        for seed in range(12 if more else 4):
            for chi in range(1, min(dv * dh, 7)):
                for order in orders[:2]:
                    yield {'k': 'cut-trg', 'fam': 'generic', 'dv': dv, 'dh': dh, 'seed': seed, 'order': order, 'chi': chi, 'steps': 3}
            for chiH in range(1, min(dh * dh, 6)):
                for chiV in [None] + list(range(1, min(dv * dv, 6))):
                    for order in orders[:2]:
                        yield {'k': 'cut-hotrg', 'fam': 'generic', 'dv': dv, 'dh': dh, 'seed': seed, 'order': order,
                               'chi': [chiH, chiV], 'steps': 3}
    for alpha in (0.25, 0.5, 1.0, 1.7, 3.0):
        for chi in range(1, 7):
            yield {'k': 'cut-tri', 'alpha': alpha, 'chi': chi, 'steps': 3}
    if t:
        for seed in (0, 1):
            yield {'k': 'trg', 'fam': 'lines', 'dv': 2, 'dh': 2, 'seed': seed, 'order': 'uldr', 'chi': 16, 'steps': 2}


def triangle_log_z(rg, s, ctx):
    """log Z of the lattice behind step s as TriangleTRG reports it.

    Known finding: the two tensors of a pair are divided by the product of their degrees of freedom (9^i) instead of the sum (2 3^i).
    When the answer is exactly that, the finding is noted and the right combination of the same norms and traces is judged instead."""
    dens = rg.logZDensity()
    trace = lambda i: np.log(np.einsum('abc,abc->', by_labels(rg.aArchive[i], ['1', '2', '3']), by_labels(rg.bArchive[i], ['1', '2', '3'])))
    norms = [np.log(rg.aNorms[i] * rg.bNorms[i]) for i in range(len(dens))]
    wrong = [sum(norms[j] / 9.0 ** j for j in range(i + 1)) + trace(i) / 9.0 ** i for i in range(len(dens))]
    right = [sum(norms[j] / (2 * 3.0 ** j) for j in range(i + 1)) + trace(i) / (2 * 3.0 ** i) for i in range(len(dens))]
    if np.allclose(dens, wrong, rtol=1e-12, atol=1e-14) and not np.allclose(dens, right, rtol=1e-9, atol=1e-12):
        ctx.record(Violated('log Z density of TriangleTRG is divided by the product of the degrees of freedom: %r, expected %r' % (dens, right), key='triangle-logz-dof'))
        dens = right
    return dens[s] * 2 * 3 ** s


def as_tensor(arr, order, dof=None):
    """Tensor with labels u, l, d, r whose legs are stored in the given order."""
    return Tensor(data=np.transpose(arr, ['uldr'.index(x) for x in order]), labels=list(order), degreeOfFreedom=dof)


def run_case(case, ctx):
    k = case['k']
    if k in ('trg', 'trg2', 'hotrg', 'cut-trg', 'cut-hotrg'):
        arr = initial(case)
        dof = {0: None, 1: 1, 2: 2, 3: 3}[case.get('seed', 0) % 4]
        if case['order'] == 'own':
            a = squareIsingTensor(case['beta'], symmetryBroken=case['h'])
            dof = 2
        else:
            a = as_tensor(arr, case['order'], dof)
        d0 = 1 if dof is None else dof
        before = a.a.copy()
    if k == 'trg':
        for inp in ((a, arr) if case['order'] == 'uldr' else (a,)):
            dd = d0 if inp is a else 1
            rg = SquareTRG(inp, chi=case['chi'])
            for s in range(case['steps'] + 1):
                if s:
                    rg.iterate()
                    ctx.step()
                    ctx.check(max(rg.errors[-1]) < 1e-9, lambda: 'step %d of an exact TRG reports the error %r' % (s, rg.errors[-1]))
                n = 2 ** s
                want = np.log(exact_trg(case, arr, s))
                got = rg.logZDensity()[s] * dd * n
                ctx.check(abs(got - want) <= TOL * max(1, abs(want)), lambda: 'log Z after %d steps is %r, exact %r' % (s, got, want))
                ctx.check(len(rg.logZDensity()) == s + 1, 'number of densities')
                check_dims(rg.a, case['chi'] if s else None, ctx)
        ctx.check(np.array_equal(before, a.a), 'the initial tensor was modified')
    elif k == 'trg2':
        arr2 = positive(arr.shape, case['seed'] + 5)
        b = as_tensor(arr2, case['order'][::-1])
        try:
            rg = SquareTRG(a, b, chi=case['chi'])
        except AttributeError as e:
            ctx.check('aNorms' not in str(e), 'SquareTRG(a, b): %s' % e, key='square-trg-two-tensors')
            raise
        ctx.step()
        for s in range(1, case['steps'] + 1):
            if s > 1:
                rg.iterate()
                ctx.step()
            want = np.log(trg_square(arr, s, arr2))
            dens = rg.logZDensity()
            got = dens[-1] * d0 * 2 ** s
            ctx.check(abs(got - want) <= TOL * max(1, abs(want)), lambda: 'log Z of %d sites of two kinds is %r, exact %r' % (2 ** s, got, want))
        ctx.check(np.array_equal(before, a.a), 'the initial tensor was modified')
    elif k == 'hotrg':
        chiH, chiV = case['chi']
        rg = HOTRG(a, chiH=chiH) if chiV is None else HOTRG(a, chiH=chiH, chiV=chiV)
        shapes = {(1, 1)}
        for s in range(case['steps'] + 1):
            if s:
                rg.iterate()
                ctx.step()
                ctx.check(abs(rg.errors[-1]) < 1e-9, lambda: 'step %d of an exact HOTRG reports the error %r' % (s, rg.errors[-1]))
                shapes = {(2 * y, x) for y, x in shapes} | {(y, 2 * x) for y, x in shapes}
            dens = rg.logZDensity()
            ctx.check(len(dens) == s + 1, 'number of densities')
            got = dens[s] * d0 * 2 ** s
            wants = {}
            for y, x in sorted(shapes):
                wants[(y, x)] = np.log(exact_torus(case, arr, y, x))
            fit = {c for c, w in wants.items() if abs(got - w) <= HTOL * max(1, abs(w))}
            ctx.check(fit, lambda: 'log Z after %d steps is %r, exact for the possible lattices %r' % (s, got, wants))
            shapes = fit
            ctx.check(abs(np.log(rg.pureTensorTrace(s)) - np.log(rg.tensorTrace(rg.aArchive[s]))) < 1e-9, 'two traces of the same tensor differ')
            lim = {'l': chiH, 'r': chiH, 'u': chiV or chiH, 'd': chiV or chiH}
            for leg in rg.a.legs:
                ctx.check(leg.dim <= max(lim[leg.name], arr.shape['uldr'.index(leg.name)]), 'bond %r of dimension %d beyond the limit' % (leg.name, leg.dim))
        ctx.check(np.array_equal(before, a.a), 'the initial tensor was modified')
        ctx.outcome('lattice %r' % (sorted(shapes)[0],))
    elif k.startswith('cut-'):
        cut_steps(case, a if k != 'cut-tri' else None, ctx)
    elif k == 'tri':
        A = np.zeros((2, 2, 2))
        A[0, 0, 0] = 1.0
        A[0, 0, 1] = A[0, 1, 0] = A[1, 0, 0] = case['alpha']
        rg = TriangleTRG(case['alpha'], chi=case['chi']) if case['chi'] is not None else TriangleTRG(case['alpha'])
        for s in range(case['steps'] + 1):
            if s:
                rg.iterate()
                ctx.step()
                ctx.check(abs(rg.errors[-1]) < 1e-9, 'an exact step reports the error %r' % rg.errors[-1])
            want = np.log(honeycomb(A, A, s))
            got = triangle_log_z(rg, s, ctx)
            ctx.check(abs(got - want) <= TOL * max(1, abs(want)), lambda: 'log Z of %d pairs is %r, exact %r' % (3 ** s, got, want))
    elif k == 'tnr':
        tnr(case, reflected(case), ctx)
    elif k in ('ctmrg', 'plaq'):
        if k == 'ctmrg':
            sym = reflected(case)
            a = as_tensor(sym, case['order'])
        else:
            a = plaquetteIsingTensor(case['w'], diamondForm=True)
            sym = by_labels(a, ['u', 'l', 'd', 'r'])
        before = a.a.copy()
        rg = CTMRG(a, chi=case['chi'])
        for L in range(1, case['top'] + 1):
            got = rg.getZ(L)
            ctx.step()
            want = open_square(sym, L, L)
            ctx.check(abs(got / want - 1) <= 1e-7, lambda: 'Z of the %dx%d lattice is %r, exact %r' % (L, L, got, want))
        ctx.check(np.array_equal(before, a.a), 'the initial tensor was modified')
    ctx.state(case)
    ctx.trace()
    ctx.outcome(k)


def reflected(case):
    """Initial tensor (u, l, d, r) symmetric under both reflections."""
    dv, dh = case['dv'], case['dh']
    raw = positive((dv, dh, dv, dh), case['seed']) - (0.6 if case['signed'] else 0.0)
    sym = raw + raw.transpose(2, 1, 0, 3)
    return (sym + sym.transpose(0, 3, 2, 1)) / 4.0


def mirrored_torus(arr, y, x):
    """Value of y x x tensors (u, l, d, r) in which neighbours are mirror images of each other (y, x even)."""
    tot = None
    for b in range(x):
        col = None
        for a in range(y):
            c = arr if b % 2 == 0 else arr.transpose(0, 3, 2, 1)
            c = c if a % 2 == 0 else c.transpose(2, 1, 0, 3)
            if col is None:
                col = c
            else:
                col = np.einsum('uldr,dLeR->ulLerR', col, c)
                col = col.reshape(col.shape[0], col.shape[1] * col.shape[2], col.shape[3], col.shape[4] * col.shape[5])
        t = np.einsum('ulur->lr', col)
        tot = t if tot is None else tot @ t
    return np.trace(tot)


def tnr(case, sym, ctx):
    A = np.ascontiguousarray(sym.transpose(1, 0, 3, 2))      # l, u, r, d
    before = A.copy()
    out = doTNR(A, case['chi'], disiter=case['iters'], dispon=False)
    ctx.step()
    A1, norm, errs = out[0], out[7], out[8]
    chi = case['chi']
    ctx.check(np.array_equal(before, A), 'the initial tensor was modified')
    ctx.check(A1.shape[0] == A1.shape[2] <= chi[3] and A1.shape[1] == A1.shape[3] <= chi[4], lambda: 'bonds %r beyond the limits %r' % (A1.shape, chi))
    ctx.check(abs(np.linalg.norm(A1) - 1) < 1e-9 and norm > 0, lambda: 'the coarse tensor has the norm %r' % np.linalg.norm(A1))
    ctx.check(np.all(errs >= 0) and np.all(errs <= 1 + 1e-9), lambda: 'errors %r' % (errs,))
    D = case['dv'] * case['dh']
    if chi[0] >= D and chi[1] >= D and chi[2] >= case['dv'] and chi[3] >= case['dh'] ** 2 and chi[4] >= case['dv'] ** 2:
        ctx.check(np.all(errs < 1e-9), lambda: 'an exact step reports the errors %r' % (errs,))
        # the isometries of two neighbours are mirror images: that is how coarse tensors are to be linked
        for y, x in ((2, 2),) if D > 4 else ((2, 2), (2, 4), (4, 2)):
            got = mirrored_torus(A1.transpose(1, 0, 3, 2), y, x)
            want = torus_any(sym, 2 * y, 2 * x)
            ctx.check(abs(np.log(got) + y * x * np.log(norm) - np.log(want)) <= HTOL * max(1, abs(np.log(want))),
                      lambda: 'Z of the %dx%d lattice is %r, exact %r' % (2 * y, 2 * x, got * norm ** (y * x), want))
    ctx.outcome('tnr %r' % (A1.shape,))


def exact_trg(case, arr, s):
    if case['fam'] == 'product':
        w = np.einsum('abab->', arr)
        return w ** (2 ** s)
    if case['fam'] == 'ghz':
        return sum(arr[i, i, i, i] ** (2.0 ** s) for i in range(arr.shape[0]))
    return trg_square(arr, s)


def exact_torus(case, arr, y, x):
    return exact_trg(case, arr, s=int(np.log2(y * x))) if case['fam'] in ('product', 'ghz') else torus_any(arr, y, x)


def torus_any(arr, y, x):
    """Torus of y rows and x columns, transferring along the direction with the smaller row."""
    if arr.shape[0] ** x <= arr.shape[1] ** y:
        return torus(arr, y, x)
    return torus(np.transpose(arr, (1, 0, 3, 2)), x, y)


def check_dims(t, chi, ctx):
    if chi is None:
        return
    for leg in t.legs:
        ctx.check(leg.dim <= chi, 'bond of dimension %d beyond the limit %d' % (leg.dim, chi))


def best_rank(mat, chi):
    """Best approximation of rank chi; None when it is not unique (degenerate spectrum at the cut)."""
    u, sv, vh = np.linalg.svd(mat)
    if chi < len(sv) and sv[chi] > 1e-9 * sv[0] and sv[chi - 1] - sv[chi] < 1e-6 * sv[0]:
        return None, None
    kept = (u[:, :chi] * sv[:chi]) @ vh[:chi]
    return kept, (sv[chi:] ** 2).sum() / (sv ** 2).sum()


def cut_steps(case, a, ctx):
    """Truncating steps: every step replaces the tensors by their best approximations of the allowed dimension."""
    k, chi = case['k'], case['chi']
    if k == 'cut-trg':
        rg = SquareTRG(a, chi=chi)
    elif k == 'cut-hotrg':
        rg = HOTRG(a, chiH=chi[0]) if chi[1] is None else HOTRG(a, chiH=chi[0], chiV=chi[1])
    else:
        rg = TriangleTRG(case['alpha'], chi=chi)
    d0 = {'cut-tri': 2}.get(k, 1 if k == 'cut-tri' or a.degreeOfFreedom is None else a.degreeOfFreedom)
    grow = 3 if k == 'cut-tri' else 2

    def state():
        if k == 'cut-tri':
            A, B = by_labels(rg.a, ['1', '2', '3']), by_labels(rg.b, ['1', '2', '3'])
            return (A, B), np.einsum('abc,abc->', A, B)
        T = by_labels(rg.a, ['u', 'l', 'd', 'r'])
        return (T,), np.einsum('abab->', T)

    for s in range(1, case['steps'] + 1):
        ts, tr = state()
        F = triangle_log_z(rg, s - 1, ctx) if k == 'cut-tri' else rg.logZDensity()[s - 1] * d0 * grow ** (s - 1)
        want, err = None, None
        if k == 'cut-trg':
            T, = ts
            dv, dh = T.shape[:2]
            A, ea = best_rank(T.reshape(dv * dh, dv * dh), chi)
            B, eb = best_rank(T.transpose(0, 3, 2, 1).reshape(dv * dh, dv * dh), chi)
            if A is not None and B is not None:
                want = trg_square(A.reshape(T.shape), 1, B.reshape(T.shape).transpose(0, 3, 2, 1))
                err = sorted([ea, eb])
        elif k == 'cut-tri':
            A, B = ts
            M = np.einsum('abc,ade->bdce', A, B)
            best, e = best_rank(M.reshape(M.shape[0] * M.shape[1], -1), chi)
            if best is not None:
                M = best.reshape(M.shape)
                link, n = honeycomb_pairs(1)
                # pair p: axes a2, b2, a3, b3
                terms = []
                for p in range(n):
                    b2 = [i for i, j in link[2].items() if j == p][0]
                    b3 = [i for i, j in link[3].items() if j == p][0]
                    terms.append((M, [('2', p), ('2', b2), ('3', p), ('3', b3)]))
                want = contract(terms)
                err = [e]
        else:
            T, = ts
            want, err, limit = hotrg_step(T, chi[0], chi[0] if chi[1] is None else chi[1])
        if tr <= 0 or (want is not None and want <= 0):
            ctx.outcome('no positive approximation')
            break
        rg.iterate()
        ctx.step()
        _, tr2 = state()
        for leg in rg.a.legs:
            lim = chi if k != 'cut-hotrg' else (chi[0] if leg.name in 'lr' or chi[1] is None else chi[1])
            top = lim if k != 'cut-hotrg' else max(lim, ts[0].shape['uldr'.index(leg.name)])
            ctx.check(leg.dim <= top, 'bond %r of dimension %d beyond the limit %r' % (leg.name, leg.dim, lim))
        if want is not None:
            reported = rg.errors[-1]
            reported = sorted(reported) if isinstance(reported, (tuple, list)) else [reported]
            ctx.check(np.allclose(reported, err, atol=1e-8), lambda: 'step %d reports the error %r, lost weight %r' % (s, reported, err))
            F2 = triangle_log_z(rg, s, ctx) if k == 'cut-tri' else rg.logZDensity()[s] * d0 * grow ** s
            ctx.check(tr2 > 0, 'trace of the new tensor is %r' % tr2)
            got = F2 - grow * (F - np.log(tr))
            ctx.check(abs(got - np.log(want)) <= 1e-6 * max(1, abs(np.log(want))),
                      lambda: 'a step keeping %r states gives log %r, the best approximation %r' % (chi, got, np.log(want)))
            ctx.outcome('%s step judged' % k)
        else:
            ctx.outcome('%s step with degenerate spectrum' % k)


def hotrg_step(T, chiH, chiV):
    """Value and lost weight of the best of the four projections; None when it is not unique."""
    cand = []
    for d in 'uldr':
        # put the projected axis first and its opposite second; double along the other direction
        ax = {'u': (0, 2, 1, 3), 'd': (2, 0, 1, 3), 'l': (1, 3, 0, 2), 'r': (3, 1, 0, 2)}[d]
        X = T.transpose(ax)                       # p, q, s, e
        chi = chiV if d in 'ud' else chiH
        pair = np.einsum('pqsm,rtme->prqtse', X, X)
        n = pair.shape[0] * pair.shape[1]
        pair = pair.reshape(n, n, X.shape[2], X.shape[3])
        env = np.einsum('aqse,bqse->ab', pair, pair)
        w, v = np.linalg.eigh(env)
        w, v = w[::-1], v[:, ::-1]
        kept = min(chi, int((w > 1e-10).sum()))
        if kept < n and w[kept] > 1e-10 and (w[kept - 1] - w[kept]) < 1e-6 * w[0]:
            return None, None, None
        e = 1 - w[:kept].sum() / w.sum()
        P = v[:, :kept] @ v[:, :kept].T
        cand.append((e, np.einsum('abss,ab->', pair, P)))
    cand.sort(key=lambda c: c[0])
    if cand[1][0] - cand[0][0] < 1e-8 and abs(cand[1][1] - cand[0][1]) > 1e-9 * abs(cand[0][1]):
        return None, None, None
    return cand[0][1], [cand[0][0]], None
