"""C19: impurity networks measure the exact moments of the finite system.

Space: every family of (pure tensor, impurity tensors of order 1..K) x leg orders x number of orders asked x steps of
the renormalisation, as long as nothing is truncated.
Reference: moment k = k! [x^k] Z(x) / (N^k Z(0)), where Z(x) is the exact partition function of the N-site lattice of
T(x) = sum_k x^k/k! T_k, its Taylor coefficients taken on a circle (every placement of impurities exactly once).
"""
import itertools
import math

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.models.Ising import squareIsingTensor
from CTL.examples.HOTRG import HOTRG
from CTL.examples.impurity import ImpurityTensorNetwork

from mc.lattices import torus
from mc.model import generic, by_labels
from mc.props.c17 import as_tensor, positive, torus_any

PROPERTY = 'C19'
RULE = 'every (pure, impurity) family x leg order x number of orders x steps; all measured moments against the exact ones'
ASSUMPTIONS = ['bond limit large enough not to truncate', 'impurity tensors given for every order asked', 'tolerance 1e-6 (5e-3 for badly conditioned tensors)']
TOL, LOOSE = 1e-6, 5e-3    # HOTRG discards amplitudes below 1e-5: the loose one for badly conditioned tensors
CASE_CPU_S = 200


def bounds(tier):
    t = tier == 'thorough'
    return {'orders': 5, 'sites': 16 if t else 8, 'entry patterns': 6 if t else 2}


def cases(tier):
    t = tier == 'thorough'
    orders = ['uldr', 'rdlu', 'ludr', 'druL'.lower()]
    for dv, dh, steps in [(1, 1, 4), (1, 2, 3), (2, 1, 3), (2, 2, 2), (1, 3, 2), (3, 1, 2), (2, 3, 1), (3, 2, 1), (3, 3, 1), (2, 2, 3)]:
        for seed in range(6 if t else 2):
            for K in range(1, 5 if dv * dh > 2 else 6):
                for mix in (False, True):
                    for dof in (None, 2):
                        chi = [dh ** 4, dv ** 4] if dv * dh <= 2 else ([max(dv, dh) ** 2, None] if steps < 3 else [16, None])
                        if steps == 3 and dv * dh == 4 and (K > 3 or (seed and not t)):
                            continue
                        yield {'fam': 'generic', 'dv': dv, 'dh': dh, 'seed': seed, 'K': K, 'mix': mix, 'dof': dof,
                               'chi': chi, 'steps': steps}
    for d in (2, 3):
        for K in range(1, 6):
            for seed in range(3 if t else 1):
                yield {'fam': 'ghz', 'dv': d, 'dh': d, 'seed': seed, 'K': K, 'mix': bool(seed), 'dof': None, 'chi': [d + 2, None], 'steps': 5 if t else 4}
    for beta in (0.1, 0.3, 0.5):
        for h in (0.0, 0.1):
            for obs in ('M', 'E'):
                for asked in (None, 1, 2):
                    yield {'fam': 'ising', 'beta': beta, 'h': h, 'obs': obs, 'K': 2, 'asked': asked, 'chi': [16, None], 'steps': 2,
                           'dv': 2, 'dh': 2, 'dof': 2, 'mix': False}
    # fewer orders asked than given
    for K in range(2, 6):
        for asked in range(1, K + 1):
            yield {'fam': 'generic', 'dv': 2, 'dh': 2, 'seed': 1, 'K': K, 'mix': True, 'dof': 1, 'chi': [4, None], 'steps': 2, 'asked': asked}


def well(shape, seed):
    """Positive tensor without symmetry all of whose environments are well conditioned."""
    lines = np.einsum('ac,bd->abcd', np.eye(shape[0]), np.eye(shape[1]))
    return lines * (1.0 + 0.02 * generic(shape, seed + 3)) + 0.1 * positive(shape, seed)


def tensors_of(case):
    fam, dv, dh = case['fam'], case['dv'], case['dh']
    if fam == 'ising':
        a = squareIsingTensor(case['beta'], symmetryBroken=case['h'])
        o = squareIsingTensor(case['beta'], obs=case['obs'], symmetryBroken=case['h'])
        arrs = [by_labels(x, ['u', 'l', 'd', 'r']) for x in (a, o)]
        return arrs, [a, o]
    arrs = []
    for k in range(case['K']):
        if fam == 'generic':
            arr = well((dv, dh, dv, dh), case['seed']) if k == 0 else 0.5 * generic((dv, dh, dv, dh), case['seed'] * 7 + k) / 3.0
        else:
            arr = np.zeros((dv,) * 4)
            for i in range(dv):
                arr[i, i, i, i] = 1.0 + 0.2 * i if k == 0 else 0.3 * ((i * 3 + k * 2 + case['seed']) % 5 - 2)
        arrs.append(arr)
    orders = ['uldr', 'rdlu', 'ludr', 'drul', 'lrud']
    ts = [as_tensor(arr, orders[k % 5] if case['mix'] else 'uldr', case['dof']) for k, arr in enumerate(arrs)]
    return arrs, ts


def exact_moments(case, arrs, y, x):
    """All moments of order < len(arrs) of the y x x torus."""
    K = len(arrs)
    N = y * x
    # Taylor coefficients from values on a circle whose radius makes all of them of order one
    m = max([1.0] + [(np.abs(arrs[k]).max() / np.abs(arrs[0][arrs[0] != 0]).mean()) ** (1.0 / k) for k in range(1, K)])
    n, r = 48, 1.0 / (N * m)
    zs = r * np.exp(2j * np.pi * np.arange(n) / n)
    vals = []
    for z in zs:
        T = sum(z ** k / math.factorial(k) * arr for k, arr in enumerate(arrs))
        if case['fam'] == 'ghz':
            vals.append(sum(T[i, i, i, i] ** N for i in range(T.shape[0])))
        else:
            vals.append(torus_any(T, y, x))
    coef = np.fft.fft(np.array(vals)) / n
    Z0 = coef[0]
    return [float((math.factorial(k) * coef[k] / r ** k / N ** k / Z0).real) for k in range(K)]


def run_case(case, ctx):
    arrs, ts = tensors_of(case)
    before = [t.a.copy() for t in ts]
    chiH, chiV = case['chi']
    rg = HOTRG(ts[0], chiH=chiH) if chiV is None else HOTRG(ts[0], chiH=chiH, chiV=chiV)
    asked = case.get('asked')
    imp = ImpurityTensorNetwork(ts, asked) if asked is not None else ImpurityTensorNetwork(ts)
    imp.setRG(rg)
    K = len(ts) if asked is None else asked
    use = arrs[:K]
    steps = case['steps']
    tol = LOOSE if case['fam'] == 'ising' else TOL
    for s in range(steps):
        rg.iterate()
        ctx.step()
    for s in range(steps):
        try:
            imp.iterate()
        except TypeError as e:
            ctx.check(ts[0].degreeOfFreedom is not None, 'impurity tensors without degree of freedom: %s' % e, key='impurity-dof-none')
            raise
        ctx.step()
    res = imp.measureObservables()
    ctx.check(len(res) == steps + 1, '%d rows of observables after %d steps' % (len(res), steps))
    shapes = {(1, 1)}
    for s in range(steps + 1):
        if s:
            shapes = {(2 * y, x) for y, x in shapes} | {(y, 2 * x) for y, x in shapes}
        ctx.check(len(res[s]) == K, '%d moments, expected %d' % (len(res[s]), K))
        wants = {sh: exact_moments(case, use, *sh) for sh in sorted(shapes)}
        got = [float(np.real(v)) for v in res[s]]
        scale = [max(1.0, max(abs(np.array(w)[k]) for w in wants.values())) for k in range(K)]
        fit = {sh for sh, w in wants.items() if all(abs(g - v) <= tol * sc for g, v, sc in zip(got, w, scale))}
        ctx.check(fit, lambda: 'moments after %d steps are %r, exact for the possible lattices %r' % (s, got, wants))
        shapes = fit
        ctx.outcome('%d sites' % 2 ** s)
        ctx.state([case, s])
    for b, t in zip(before, ts):
        ctx.check(np.array_equal(b, t.a), 'a given tensor was modified')
    ctx.trace()
