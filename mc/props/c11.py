"""C11: tensor decompositions reproduce the tensor and truncate optimally."""
import itertools

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.contract import contractTwoTensors
from CTL.funcs.decompose import SVDDecomposition
from CTL.funcs.linalg import solveEnv
from CTL.tensor.tensorFunc import tensorSVDDecomposition, isIsometry
from CTL.examples.Schimdt import SchimdtDecomposition, matrixSchimdtDecomposition

from mc.model import generic, by_labels, close, show, consistent_legs, einsum, dense

PROPERTY = 'C11'
RULE = ('every matrix up to 3x3 over a small entry alphabet (all ranks, degenerate spectra) and every bond limit for the matrix '
        'functions; every tensor of rank 2..4 over a menu of dimensions, every ordered row/column split and bond limit for the tensor '
        'one; every pair of dense/diagonal tensors with 1..2 bonds, 0..2 outer legs, leg orders, swaps, bond limits for the pair one; '
        'compared with the Eckart-Young optimum of an independent singular value computation')
ASSUMPTIONS = ['numpy.linalg.svd(compute_uv=False) of the reference matrix gives its singular values',
               'a zero matrix has no relative error and is excluded where one would be reported for a truncation',
               'the right factor SVDDecomposition returns by default is conjugate-transposed, as its callers expect']


def bounds(tier):
    return {'matrix': '3x3', 'tensor_rank': 4, 'bond_limits': 'all'}


def cases(tier):
    big = [0, 1] if tier == 'quick' else [0, 1, -1]
    mats = [(1, 1, [0, 1, -2, 3]), (1, 3, [0, 1, -2]), (3, 1, [0, 1, -2]), (2, 2, [0, 1, -1, 2]), (2, 3, [0, 1, -1]), (3, 2, [0, 1, -1]),
            (3, 3, big), (2, 2, [0, 1, 1j]), (2, 3, [0, 1j, 1]), (3, 2, [1j, 0, 2])]
    for n, m, alpha in mats:
        al = [str(x) for x in alpha]
        if n * m > 4:
            for first in itertools.product(al, repeat=2):
                yield {'kind': 'matrix', 'n': n, 'm': m, 'alpha': al, 'first': list(first)}
        else:
            yield {'kind': 'matrix', 'n': n, 'm': m, 'alpha': al, 'first': []}
    # larger matrices: spectra over many orders of magnitude, exactly repeated values, low rank, integer entries, other layouts
    for n, m in ((5, 4), (4, 6), (6, 6), (8, 3), (3, 9), (12, 10), (1, 7), (7, 1), (20, 20), (16, 33)):
        for spec in ('wide', 'repeat', 'low', 'ident', 'one', 'gen'):
            for form in ('real', 'cplx', 'fortran', 'view'):
                yield {'kind': 'matrix', 'n': n, 'm': m, 'spec': spec, 'form': form, 'entries': [], 'first': []}
        for form in ('int', 'int32'):
            yield {'kind': 'matrix', 'n': n, 'm': m, 'spec': 'gen', 'form': form, 'entries': [], 'first': []}
    for s in ((2, 3, 2, 2, 3), (2, 1, 2, 3, 2), (2, 2, 2, 2, 2, 2)):
        for cut in range(len(s) + 1):
            for shift in range(len(s)):
                for mode in ('both', 'rows', 'cols'):
                    for rev in (False, True):
                        for data in ('full', 'cplx', 'low'):
                            labels = list('abcdef'[:len(s)])
                            perm = labels[shift:] + labels[:shift]
                            if mode != 'both':
                                perm = perm[:cut] + sorted(perm[cut:]) if mode == 'rows' else sorted(perm[:cut]) + perm[cut:]
                            order = list(range(len(s)))
                            yield {'kind': 'tensor', 'shape': list(s), 'tier': tier, 'rows': perm[:cut], 'cols': perm[cut:], 'mode': mode, 'order': order[::-1] if rev else order, 'data': data}
    shapes = [s for r in (2, 3, 4) for s in itertools.product((2, 3) if r < 4 else (2,), repeat=r)] + [(1, 3), (3, 1, 2), (4, 2), (2, 2, 2, 3)]
    for s in shapes:
        yield {'kind': 'tensor', 'shape': list(s), 'tier': tier}
    for kinds in ('DD', 'DG', 'GD', 'GG'):
        for k in (1, 2):
            for fa in range(3):
                for fb in range(3):
                    yield {'kind': 'pair', 'kinds': kinds, 'k': k, 'fa': fa, 'fb': fb, 'tier': tier}
    for shape in ((2, 2), (3, 2), (2, 3, 2), (4,), (2, 2, 2, 2), (1, 3)):
        for cut in range(1, len(shape) + 1):
            for rev in (False, True):
                yield {'kind': 'predicate', 'shape': list(shape), 'cut': cut, 'rev': rev}
    for l in range(1, 9):
        yield {'kind': 'mschmidt', 'l': l}
    # the documented default limit is 16; errors of other orders
    for shape in ((15, 19), (16, 16), (17, 17), (18, 17), (4, 5, 17), (3, 6, 2, 9), (5, 40)):
        for cut in range(1, len(shape)):
            for power in (None, 1, 2, 3, 4):
                for data in ('full', 'cplx', 'low'):
                    yield {'kind': 'default', 'shape': list(shape), 'cut': cut, 'power': power, 'data': data}


def run_case(case, ctx):
    k = case['kind']
    if k == 'matrix':
        if 'entries' in case:
            return one_matrix(case, ctx)
        n = case['n'] * case['m'] - len(case['first'])
        for rest in itertools.product(case['alpha'], repeat=n):
            c = {'kind': 'matrix', 'n': case['n'], 'm': case['m'], 'entries': case['first'] + list(rest)}
            ctx.guarded(lambda: one_matrix(c, ctx), c)
    elif k == 'tensor':
        if 'rows' in case:
            return one_tensor(case, ctx)
        r = len(case['shape'])
        labels = 'abcd'[:r]
        for perm in itertools.permutations(labels):
            for cut in range(0, r + 1):
                for mode in ('both', 'rows', 'cols'):
                    if mode == 'rows' and list(perm[cut:]) != sorted(perm[cut:]) or mode == 'cols' and list(perm[:cut]) != sorted(perm[:cut]):
                        continue
                    for order in (range(r), range(r)[::-1]):
                        for data in ('full', 'cplx', 'low'):
                            c = dict(case, rows=list(perm[:cut]), cols=list(perm[cut:]), mode=mode, order=list(order), data=data)
                            ctx.guarded(lambda: one_tensor(c, ctx), c)
    elif k == 'predicate':
        predicate(case, ctx)
    elif k == 'default':
        default_limit(case, ctx)
    elif k == 'pair':
        if 'oa' in case:
            return one_pair(case, ctx)
        sh = ['s%d' % i for i in range(case['k'])]
        A = sh + ['f%d' % i for i in range(case['fa'])]
        B = sh + ['f%d' % i for i in range(case['fb'])]
        for ia, oa in enumerate(itertools.permutations(A)):
            for ib, ob in enumerate(itertools.permutations(B)):
                if case['tier'] == 'quick' and len(A) + len(B) > 6 and (ia + ib) % 4:
                    continue
                for dims in ((2, 2, 3, 2, 3, 2), (3, 2, 2, 2, 2, 2), (4, 1, 2, 1, 2, 3)):
                    if 'G' in case['kinds'] and dims != (3, 2, 2, 2, 2, 2):
                        continue
                    for sq in (False, True):
                        for swap in ((False, True) if case['fa'] and case['fb'] else (False,)):
                            for data in ('full', 'cplx', 'low'):
                                for chi in (1, 2, 3, 50):
                                    c = dict(case, oa=list(oa), ob=list(ob), dims=list(dims), sq=sq, swap=swap, data=data, chi=chi)
                                    ctx.guarded(lambda: one_pair(c, ctx), c)
    else:
        if 'dim' in case:
            return one_mschmidt(case, ctx)
        l = case['l']
        for rows in (None, 1, 2, 3):
            for dim in range(1, l + 1):
                if l % dim == 0:
                    for chi in [None] + list(range(1, 8)):
                        for data in ('full', 'cplx', 'low'):
                            c = dict(case, rows=rows, dim=dim, chi=chi, data=data)
                            ctx.guarded(lambda: one_mschmidt(c, ctx), c)


def listed_matrix(n, m, spec, form):
    if spec == 'gen':
        a = generic((n, m), 3, cplx=form == 'cplx')
        if form in ('int', 'int32'):
            a = np.round(a * 7).astype(form)
    elif spec == 'ident':
        a = np.eye(n, m) * (2j if form == 'cplx' else 1.0)
    else:
        k = min(n, m)
        u, _ = np.linalg.qr(generic((n, k), 1, cplx=form == 'cplx'))
        v, _ = np.linalg.qr(generic((m, k), 2, cplx=form == 'cplx'))
        s = {'wide': 10.0 ** (3 - np.arange(k)), 'repeat': 1.0 + (np.arange(k) // 2 % 2 == 0), 'low': (np.arange(k) < (k + 1) // 2) * 1.5, 'one': (np.arange(k) == 0) * 1.0}[spec]
        a = (u * s) @ np.conj(v.T)
    if form == 'fortran':
        a = np.asfortranarray(a)
    elif form == 'view':
        b = np.zeros((2 * n, m + 1), dtype=a.dtype)
        b[::2, 1:] = a
        a = b[::2, 1:]
    return a


def iso_cols(m):
    return close(np.conj(m.T) @ m, np.eye(m.shape[1]), 1e-10)


def residual(s, chi):
    return float(np.sqrt(np.sum(s[chi:] ** 2)))


def check_res(ctx, a, approx, s, chi, where):
    got = float(np.linalg.norm(a - approx))
    want = residual(s, chi)
    ctx.check(got <= want + 1e-9 * max(1.0, s[0] if len(s) else 0), lambda: '%s: residual %.12g, the best possible with %d values is %.12g' % (where, got, chi, want))


def one_matrix(case, ctx):
    n, m = case['n'], case['m']
    vals = [complex(x) for x in case['entries']]
    cplx = any(v.imag for v in vals)
    if not case.get('spec'):
        a = np.array(vals).reshape(n, m)
        if not cplx:
            a = a.real.copy()
    else:
        a = listed_matrix(n, m, case['spec'], case['form'])
    keep = a.copy()
    s0 = np.linalg.svd(a, compute_uv=False)
    top = min(n, m) + 2
    for chi in range(1, top) if top < 9 else [1, 2, 3, top // 2, top - 3, top - 2, top - 1, top + 5]:
        for order in (2, 4, 1):
            where = 'SVDDecomposition(%s, chi=%d, errorOrder=%d)' % (show(a), chi, order)
            u, s, vh, err = SVDDecomposition(a, chi, returnSV=True, errorOrder=order)
            c = min(chi, n, m)
            ctx.check(u.shape == (n, c) and s.shape == (c,) and vh.shape == (c, m), lambda: '%s: shapes %r %r %r' % (where, u.shape, s.shape, vh.shape))
            ctx.check(iso_cols(u) and iso_cols(np.conj(vh.T)), lambda: where + ': factors are not isometric')
            ctx.check(close(s, s0[:c]), lambda: '%s: singular values %s' % (where, show(s)))
            check_res(ctx, a, u @ np.diag(s) @ vh, s0, c, where)
            x, y, err2 = SVDDecomposition(a, chi, errorOrder=order)
            ctx.check(x.shape == (n, c) and y.shape == (m, c), lambda: '%s: shapes %r %r' % (where, x.shape, y.shape))
            check_res(ctx, a, x @ np.conj(y.T), s0, c, where + ' (balanced)')
            if s0[0] > 1e-12:
                want = float(np.sum(s0[c:] ** order) / np.sum(s0 ** order))
                ctx.check(abs(err - want) < 1e-9 and abs(err2 - want) < 1e-9, lambda: '%s: error %r and %r, expected %r' % (where, err, err2, want))
            ctx.step()
    ctx.check(np.array_equal(a, keep), 'SVDDecomposition changed its argument')
    # isometry predicate on the rows and the columns
    t = Tensor(labels=['r', 'c'], data=a)
    for labels, prod in ((['c'], a @ np.conj(a.T)), (['r'], np.conj(a.T @ np.conj(a)))):
        want = close(prod, np.eye(prod.shape[0]), 1e-10)
        ctx.check(bool(isIsometry(t, labels)) == want, lambda: 'isIsometry(%s, %r) is %r' % (show(a), labels, not want))
    # environment of the rows
    env = a @ np.conj(a.T)
    lam = np.sort(s0 ** 2)[::-1]
    lam = np.concatenate([lam, np.zeros(n)])[:n]
    # the threshold is absolute (1e-10); eigenvalues within rounding of it may or may not be kept
    slack = 1e-13 * n * max(1.0, lam[0])
    low, rank = int(np.sum(lam > 1e-10 + slack)), int(np.sum(lam > 1e-10 - slack))
    for chi in range(1, n + 2) if n < 8 else [1, 2, n // 2, n - 1, n, n + 4]:
        where = 'solveEnv(%s, %d)' % (show(env), chi)
        p, err = solveEnv(env, chi)
        c = p.shape[1]
        ctx.check(p.shape == (n, c) and min(chi, low) <= c <= min(chi, rank), lambda: '%s: projector of shape %r, expected %r' % (where, p.shape, (n, min(chi, rank))))
        ctx.check(iso_cols(p), lambda: where + ': projector is not isometric')
        ev = np.real(np.diag(np.conj(p.T) @ env @ p))
        ctx.check(close(ev, lam[:c], 1e-9), lambda: '%s keeps eigenvalues %s of %s' % (where, show(ev), show(lam)))
        if low:
            want = 1 - lam[:c].sum() / lam.sum()
            ctx.check(abs(err - want) < 1e-9, lambda: '%s: error %r, expected %r' % (where, err, want))
        ctx.step()
    ctx.state(['m', case['n'], case['m'], case['entries']])
    ctx.trace()
    ctx.outcome('matrix rank %d' % rank)


def fill(shape, data, seed):
    if data == 'low':
        # rank one across every cut
        out = np.ones(())
        for i, d in enumerate(shape):
            out = np.multiply.outer(out, np.arange(1, d + 1) * (1.0 if i % 2 else -1.0) + seed)
        return out.astype(float)
    return generic(shape, seed, cplx=data == 'cplx')


def one_tensor(case, ctx):
    r = len(case['shape'])
    labels = 'abcdef'[:r]
    full = fill(case['shape'], case['data'], 2)
    order = case['order']
    rows, cols = case['rows'], case['cols']
    perm = [labels.index(x) for x in rows + cols]
    nr = int(np.prod([case['shape'][p] for p in perm[:len(rows)]]))
    mat = np.transpose(full, perm).reshape(nr, -1)
    s0 = np.linalg.svd(mat, compute_uv=False)
    for chi in range(1, min(mat.shape) + 2):
        for inner in (None, ('il', 'ir')):
            t = Tensor(labels=[labels[i] for i in order], data=np.transpose(full, order))
            kw = {}
            if case['mode'] != 'cols':
                kw['rows'] = list(rows)
            if case['mode'] != 'rows':
                kw['cols'] = list(cols)
            where = 'tensorSVDDecomposition(%r, rows=%r, cols=%r, chi=%d)' % (t.labels, kw.get('rows'), kw.get('cols'), chi)
            d = tensorSVDDecomposition(t, chi=chi, innerLabels=inner, **kw)
            # with deduced columns the order of the deduced side follows the tensor
            rr, cc = list(rows), list(cols)
            if case['mode'] == 'rows':
                cc = [x for x in t.labels if x not in rows]
            if case['mode'] == 'cols':
                rr = [x for x in t.labels if x not in cols]
            rn, cn = '|'.join(rr), '|'.join(cc)
            li, ri = inner or ('inner:' + rn, 'inner:' + cn)
            c = min(chi, min(mat.shape))
            u, s, v = d['u'], d['s'], d['v']
            ctx.check(u.labels == [rn, li] and v.labels == [ri, cn] and s.labels == [rn, cn], lambda: '%s: labels %r %r %r' % (where, u.labels, s.labels, v.labels))
            ctx.check(u.shape == (nr, c) and s.shape == (c, c) and v.shape == (c, mat.shape[1]), lambda: '%s: shapes %r %r %r' % (where, u.shape, s.shape, v.shape))
            ctx.check(s.diagonalFlag, where + ': the middle tensor is not diagonal')
            for x in (u, s, v):
                consistent_legs(x, where)
            ctx.check(iso_cols(u.a) and iso_cols(np.conj(v.a.T)), lambda: where + ': factors are not isometric')
            ctx.check(close(s.a, s0[:c]), lambda: '%s: singular values %s' % (where, show(s.a)))
            p2 = [labels.index(x) for x in rr + cc]
            m2 = np.transpose(full, p2).reshape(nr, -1)
            check_res(ctx, m2, u.a @ dense(s) @ v.a, s0, c, where)
            want = float(np.sum(s0[c:] ** 2) / np.sum(s0 ** 2))
            ctx.check(abs(d['error'] - want) < 1e-9, lambda: '%s: error %r, expected %r' % (where, d['error'], want))
            ctx.check(close(by_labels(t, list(labels)), full, 0), lambda: where + ' changed the tensor')
            # the outer factors are isometries by the library's own predicate, too
            ctx.check(bool(isIsometry(u, [rn])) and bool(isIsometry(v, [cn])), lambda: where + ': isIsometry denies the outer factors')
            ctx.step()
    ctx.state(['t', case['shape'], rows, cols, case['mode'], order, case['data']])
    ctx.trace()
    ctx.outcome('tensor %dx%d' % mat.shape)


def predicate(case, ctx):
    """isIsometry near its threshold, and refused labels of it and of the decomposition."""
    shape, cut = case['shape'], case['cut']
    labels = list('abcd'[:len(shape)])
    rows, cols = labels[cut:], labels[:cut]
    nr, nc = int(np.prod(shape[cut:])), int(np.prod(shape[:cut]))
    k = min(nr, nc)
    q, _ = np.linalg.qr(generic((nc, k), 2, cplx=True))
    base = np.zeros((nr, nc), dtype=complex)
    base[:k] = np.conj(q.T)
    for scale in (0.0, 1e-13, 1e-8, 1e-5, 1e-2, 0.5):
        mat = base * (1 + scale)
        data = np.moveaxis(mat.reshape([shape[i] for i in range(cut, len(shape))] + shape[:cut]), range(len(rows)), range(cut, len(shape)))
        t = Tensor(labels=labels, data=np.ascontiguousarray(data))
        err = float(np.linalg.norm(mat @ np.conj(mat.T) - np.eye(nr)))
        for eps in (None, 1e-10, 1e-6, 1e-3, 1.0, 50.0):
            bound = 1e-10 if eps is None else eps
            if bound / 3 < err < bound * 3:
                continue
            got = isIsometry(t, cols[::-1] if case['rev'] else cols, **({} if eps is None else {'eps': eps}))
            ctx.check(bool(got) == (err < bound), lambda: 'isIsometry(shape %r, %r, eps=%r) is %r, the distance from the identity is %g' % (shape, cols, eps, bool(got), err))
            ctx.step()
        ctx.check(close(by_labels(t, labels), data, 0), 'isIsometry changed the tensor')
    for bad in (lambda: isIsometry(t, ['z']), lambda: isIsometry(t, cols + ['z']), lambda: tensorSVDDecomposition(t, rows=['z'], cols=cols), lambda: tensorSVDDecomposition(t, rows=rows, cols=cols, innerLabels=['x', 'y']),
                lambda: tensorSVDDecomposition(t, rows=rows, cols=cols, innerLabels=('x', 'y', 'z'))):
        try:
            bad()
            ok = False
        except (AssertionError, ValueError):
            ok = True
        ctx.check(ok, 'unknown labels or a wrong pair of inner labels accepted')
    like = Tensor(labels=labels, shape=tuple(shape), tensorLikeFlag=True)
    ctx.check(isIsometry(like, cols) is True, 'isIsometry of a shape-only tensor cannot deny')
    ctx.trace()
    ctx.state(['predicate', shape, cut, case['rev']])
    ctx.outcome('isometry predicate')


def default_limit(case, ctx):
    shape, cut, power = case['shape'], case['cut'], case['power']
    labels = list('abcd'[:len(shape)])
    full = fill(shape, case['data'], 3)
    t = Tensor(labels=labels, data=full)
    d = tensorSVDDecomposition(t, rows=labels[:cut], cols=labels[cut:], **({} if power is None else {'errorOrder': power}))
    mat = full.reshape(int(np.prod(shape[:cut])), -1)
    s0 = np.linalg.svd(mat, compute_uv=False)
    c = min(16, min(mat.shape))
    ctx.check(d['s'].shape == (c, c), lambda: 'the default limit keeps %r of %r' % (d['s'].shape, mat.shape))
    check_res(ctx, mat, d['u'].a @ dense(d['s']) @ d['v'].a, s0, c, 'default limit')
    q = power or 2
    want = float(np.sum(s0[c:] ** q) / np.sum(s0 ** q))
    ctx.check(abs(d['error'] - want) < 1e-9, lambda: 'errorOrder %r: error %r, expected %r' % (power, d['error'], want))
    ctx.step()
    ctx.trace()
    ctx.state(['default', shape, cut, power, case['data']])
    ctx.outcome('default limit')


def one_pair(case, ctx):
    k, fa, fb = case['k'], case['fa'], case['fb']
    dims = {'s%d' % i: case['dims'][i] for i in range(k)}
    da = dict(dims, **{'f%d' % i: case['dims'][2 + i] for i in range(fa)})
    db = dict(dims, **{'f%d' % i: case['dims'][4 + i] for i in range(fb)})
    kinds = case['kinds']
    if kinds[0] == 'G':
        da = {x: 3 for x in da}
        for i in range(k):
            db['s%d' % i] = 3
    if kinds[1] == 'G':
        db = {x: 3 for x in db}
        for i in range(k):
            da['s%d' % i] = 3
        if kinds[0] == 'G':
            da = {x: 3 for x in da}
    swap = case['swap']
    # outer label 'o' on both sides when they are to be swapped, otherwise also colliding names 'f*'
    name = lambda side, x: x if x[0] == 's' and side == 'a' else ('S' + x[1:] if x[0] == 's' else ('o' if swap and x == 'f0' else x))
    arrs, ts = [], []
    for side, oo, dd, kind, seed in (('a', case['oa'], da, kinds[0], 1), ('b', case['ob'], db, kinds[1], 4)):
        shape = [dd[x] for x in oo]
        labels = [name(side, x) for x in oo]
        if kind == 'G':
            vec = fill(shape[:1], case['data'], seed)
            ts.append(DiagonalTensor(labels=labels, data=vec))
            full = np.zeros(shape, dtype=vec.dtype)
            for i in range(shape[0]):
                full[(i,) * len(shape)] = vec[i]
            arrs.append(full)
        else:
            arrs.append(fill(shape, case['data'], seed))
            ts.append(Tensor(labels=labels, data=arrs[-1]))
    ta, tb = ts
    for x in da:
        if x[0] == 's':
            makeLink(ta.getLeg(x), tb.getLeg('S' + x[1:]))
    # a third tensor attached to the last outer leg of a
    third = None
    if fa:
        l = name('a', 'f%d' % (fa - 1))
        third = Tensor(labels=['z'], data=generic((da['f%d' % (fa - 1)],), 7))
        makeLink(third.getLeg('z'), ta.getLeg(l))
    first_a = [x for x in case['oa'] if x[0] == 's'][0]
    ids = {}
    for x in dims:
        ids[x] = len(ids)
    ia = [ids.setdefault(x if x[0] == 's' else 'a' + x, len(ids)) for x in case['oa']]
    ib = [ids.setdefault(x if x[0] == 's' else 'b' + x, len(ids)) for x in case['ob']]
    outA = ['f%d' % i for i in range(fa)]
    outB = ['f%d' % i for i in range(fb)]
    # which outer legs end up on which side
    left = [('a', x) for x in outA]
    right = [('b', x) for x in outB]
    if swap:
        left[0], right[0] = right[0], left[0]
    want = einsum([(arrs[0], ia), (arrs[1], ib)], [ids[s + x] for s, x in left + right])
    nl = int(np.prod([da[x] if s == 'a' else db[x] for s, x in left])) if left else 1
    mat = want.reshape(nl, -1)
    s0 = np.linalg.svd(mat, compute_uv=False)
    rank = int(np.sum(s0 > 1e-10))
    kw = {}
    if swap:
        kw['swapLabels'] = (['o'], ['o'])
    where = 'SchimdtDecomposition(%r, %r, chi=%d, squareRootSeparation=%r%s)' % (ta, tb, case['chi'], case['sq'], ', swapped' if swap else '')
    u, s, v = SchimdtDecomposition(ta, tb, case['chi'], squareRootSeparation=case['sq'], **kw)
    c = min(case['chi'], rank)
    la, lb = first_a, 'S' + first_a[1:]
    for t in [u, v] + ([] if s is None else [s]) + ([third] if third is not None else []):
        consistent_legs(t, where)
    wantl = [name(x[0], x[1]) for x in left]
    wantr = [name(x[0], x[1]) for x in right]
    ctx.check(sorted(u.labels) == sorted(wantl + [la]) and sorted(v.labels) == sorted(wantr + [lb]), lambda: '%s: labels %r and %r' % (where, u.labels, v.labels))
    uu = by_labels(u, wantl + [la])
    uu = uu.reshape(nl, uu.shape[-1])
    vv = by_labels(v, [lb] + wantr)
    vv = vv.reshape(vv.shape[0], mat.shape[1])
    ctx.check(uu.shape[1] == c and vv.shape[0] == c, lambda: '%s: inner bonds %d and %d, expected %d' % (where, uu.shape[1], vv.shape[0], c))
    if case['sq']:
        ctx.check(s is None, where + ': singular values returned')
        ctx.check(u.getLeg(la).anotherSide() is v.getLeg(lb), lambda: where + ': the factors are not linked')
        prod = uu @ vv
    else:
        ctx.check(s is not None and s.diagonalFlag and s.shape == (c, c), lambda: '%s: middle tensor %r' % (where, s))
        ctx.check(sorted(s.labels) == sorted([la, lb]), lambda: '%s: middle labels %r' % (where, s.labels))
        ctx.check(u.getLeg(la).anotherSide() is s.getLeg(lb) and v.getLeg(lb).anotherSide() is s.getLeg(la), lambda: where + ': the factors are not linked')
        ctx.check(close(s.a, s0[:c]), lambda: '%s: singular values %s, expected %s' % (where, show(s.a), show(s0[:c])))
        ctx.check(iso_cols(uu) and iso_cols(np.conj(vv.T)), lambda: where + ': outer factors are not isometric')
        prod = uu @ np.diag(s.a) @ vv
    check_res(ctx, mat, prod, s0, c, where)
    if third is not None:
        host = v if swap and fa == 1 else u
        lab = name('a', 'f%d' % (fa - 1))
        ctx.check(third.getLeg('z').anotherSide() is host.getLeg(lab), lambda: where + ': an outer leg lost its connection')
    ctx.step()
    ctx.state(['p', kinds, case['oa'], case['ob'], case['dims'], case['sq'], swap, case['data'], case['chi'], fa, fb])
    ctx.trace()
    ctx.outcome('pair rank %d' % min(c, 5))


def one_mschmidt(case, ctx):
    l, dim, chi, rows = case['l'], case['dim'], case['chi'], case['rows']
    shape = (l,) if rows is None else (rows, l)
    a = fill(shape, case['data'], 1)
    keep = a.copy()
    u, v = matrixSchimdtDecomposition(a, dim, chi=chi)
    where = 'matrixSchimdtDecomposition(%r, dim=%d, chi=%r)' % (shape, dim, chi)
    s0n = 1 if rows is None else rows
    mat = keep.reshape(s0n * dim, -1)
    s0 = np.linalg.svd(mat, compute_uv=False)
    c = int(np.sum(s0 > 1e-10))
    if chi is not None:
        c = min(c, chi)
    ctx.check(u.shape == ((dim, c) if rows is None else (rows, dim, c)) and v.shape == (c, l // dim), lambda: '%s: shapes %r %r' % (where, u.shape, v.shape))
    uu = u.reshape(s0n * dim, c)
    ctx.check(iso_cols(uu), where + ': left factor is not isometric')
    check_res(ctx, mat, uu @ v, s0, c, where)
    ctx.check(np.array_equal(a, keep), where + ' changed its argument')
    ctx.step()
    ctx.state(['s', shape, dim, chi, case['data']])
    ctx.trace()
    ctx.outcome('split')
