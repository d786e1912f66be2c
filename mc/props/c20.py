"""C20: the index, list, tuple, diagonal and number helpers on every input of a bounded domain.

Space: for every documented helper, every list/tuple up to a length over a small alphabet, every small integer, every small array.
Reference: the definition in the helper's documentation, written independently (brute force where possible).
"""
import itertools
import math
import os
import tempfile

import numpy as np

import CTL.funcs.funcs as funcs
from CTL.funcs.linalg import solveEnv

PROPERTY = 'C20'
RULE = 'every input of the bounded domain of every documented helper'
ASSUMPTIONS = ['inputs outside the documented domain (repeated elements for the symmetric difference, negative numbers for digit lists) are not judged']


def bounds(tier):
    t = tier == 'thorough'
    return {'alphabet': 3, 'length': 5 if t else 4, 'numbers': 40 if t else 16}


def lists(length, alphabet=('a', 'b', 'c')):
    for n in range(length + 1):
        yield from itertools.product(alphabet, repeat=n)


HELPERS = {}


def helper(f):
    HELPERS[f.__name__] = f
    return f


def cases(tier):
    b = bounds(tier)
    for name in HELPERS:
        for arg in itertools.chain(domain(name, b), wide(name)):
            yield {'h': name, 'a': arg}


def wide(name):
    """Listed inputs far above the bounds."""
    seq = lambda n, step, mod: [(i * step + i * i) % mod for i in range(n)]
    if name == 'two_lists':
        words = ['l', 'ab', 'a', 'x1', 'x10', 'x', '', 'l-1', 'é', 'A']
        for n, step, mod in ((9, 1, 10), (12, 3, 10), (30, 7, 10), (10, 0, 10), (8, 1, 3)):
            x = [words[i] for i in seq(n, step, mod)]
            for y in (x, x[::-1], x[::2], x[1::3], x[n // 2:], list(dict.fromkeys(x)), words, words[4:], ['absent'], x + ['absent'], [], x[:-1], sorted(x)):
                yield [x, y]
                yield [list(dict.fromkeys(x)), y]
                yield [list(dict.fromkeys(x)), list(dict.fromkeys(y))]
    elif name == 'one_list':
        for n in (5, 6, 11, 25):
            yield ['w%d' % i for i in range(n)]
            yield ['w%d' % (i % 4) for i in range(n)]
            yield ['w'] * n
            yield ['w'] * (n - 1) + ['v']
            yield ['v'] + ['w'] * (n - 1)
    elif name == 'remove_by_index':
        for n in (6, 9, 13, 30):
            for idx in ([], [0], [n - 1], [n - 1, 0], list(range(n)), list(range(n))[::-1], list(range(0, n, 2)), list(range(n - 1, 0, -3)), [n // 2, n // 2]):
                yield [n, idx]
    elif name == 'numbers':
        for n in (5, 6, 8, 12, 40, 70):
            yield [2] * n
            yield [(-1) ** (i // 2) for i in range(n)]
            yield [(i * 7 + 3) % 11 - 5 for i in range(n)]
            yield [3, 2] * (n // 2) + [0]
    elif name == 'digits':
        for D in (2, 3, 7, 10, 16):
            for dim in (5, 6, 8, 12, 20):
                for x in (0, 1, D - 1, D, D ** 2 - 1, D ** (dim - 1), D ** (dim - 1) - 1, D ** dim - 1, D ** dim // 2, D ** dim // 3, D ** dim * 5 // 7):
                    yield [x, dim, D]
    elif name == 'modulo':
        for m in (17, 64, 100, 1000003):
            for x in (-10 ** 12, -m * 3 - 1, -m - 1, -m, -m + 1, -1, 0, 1, m - 1, m, m + 1, 5 * m, 10 ** 12 + 1):
                yield [x, m]
    elif name == 'index_dict':
        for shape in ((4, 5, 6), (7, 2, 3, 2), (1, 9, 1, 4), (2,) * 7, (11, 3), (3, 11), (1,) * 5, (30,), (2, 3, 4, 5)):
            yield list(shape)
    elif name == 'divisions':
        for n, k in ((7, 5), (10, 4), (3, 7), (12, 3), (20, 2), (1, 9), (0, 8), (30, 1), (2, 6)):
            yield [n, k]
    elif name == 'binomial':
        for n in (40, 41, 55, 70, 100):
            for p in (0, 1, 2, 3, n // 3, n // 2, n - 2, n - 1, n, n + 1, n + 5):
                yield [n, p]
    elif name == 'division_times':
        for x in ([5, 5, 5], [10, 0, 3], [0] * 7, [1] * 9, [12, 1, 1], [20, 20], [3, 4, 5, 6, 7], [0, 0, 30]):
            yield x
            yield x[::-1]
    elif name == 'cutoff':
        for n in (6, 10, 25):
            for thr in (1e-12, 1e-3, 0.1, 1.0, 3.0, 100.0):
                yield [[2.0 ** (4 - i) for i in range(n)], thr]
                yield [[3.0] * (n // 2) + [0.01] * (n // 2), thr]
    elif name == 'directions':
        for x in ('lrudlrud', 'llllll', 'udrlx', 'L', 'lrudo', 'rudl' * 5):
            yield x
    elif name == 'diagonal':
        for dim, l in ((5, 2), (6, 3), (7, 2), (2, 30), (3, 11), (4, 6), (1, 50), (10, 1), (5, 5)):
            for kind in ('int', 'float', 'complex'):
                yield [dim, l, kind]
    elif name == 'index_string':
        for x in (list(range(26)), list(range(26))[::-1], [0] * 30, [25] * 4 + [26], [3, 1, 4, 1, 5, 9, 2, 6], [26, 0], [0, 100]):
            yield x
    elif name == 'indices':
        for n, step, mod in ((9, 1, 4), (15, 2, 5), (30, 3, 11), (12, 5, 12)):
            x = seq(n, step, mod)
            for y in (x, x[::-1], x + x, sorted(x), x[::2] + [99] + x[1::2], [x[-1]] * n, list(range(mod))):
                yield [x, y]
    elif name == 'matrices':
        for h, w in ((4, 4), (5, 3), (3, 5), (8, 8), (1, 9), (9, 1), (7, 6)):
            for k in range(4):
                yield [h, w, [[float((i * i + 3 * i + k) % 7 - 3), float(k % 2 * ((i * 5 + k) % 3 - 1))] for i in range(h * w)]]
            yield [h, w, [[float(i % (w + 1) == 0 and i // (w + 1) < h), 0.0] for i in range(h * w)]]
    elif name == 'environment':
        for spec in ((5.0, 2.0, 2.0, 1.0, 0.0, 0.0), (1.0,) * 7, (0.0,) * 5 + (3.0,), tuple(2.0 ** -i for i in range(9))):
            for chi in range(1, len(spec) + 2):
                yield [list(spec), chi]
    elif name == 'load_data':
        for h, w in ((1, 9), (9, 1), (7, 8), (12, 12), (100, 3)):
            yield [h, w]
    elif name == 'binary_search':
        for left, width in ((-1e6, 2e6), (1e3, 1.0), (0.0, 1e-3), (-50.0, 49.0)):
            for frac in (0.0, 0.3, 0.999, 1.0):
                yield [left, width, frac, 1e-5]


def domain(name, b):
    L, N = b['length'], b['numbers']
    if name in ('two_lists',):
        for x in lists(L):
            for y in lists(L - 1):
                yield [list(x), list(y)]
    elif name == 'one_list':
        for x in lists(L):
            yield list(x)
    elif name == 'remove_by_index':
        for n in range(L + 1):
            for idx in lists(min(n, 3), tuple(range(n))):
                yield [n, list(idx)]
    elif name == 'numbers':
        for x in itertools.product((-1, 0, 2, 3), repeat=0):
            yield list(x)
        for n in range(1, L + 1):
            for x in itertools.product((-1, 0, 2, 3), repeat=n):
                yield list(x)
    elif name == 'digits':
        for D in range(2, 5):
            for dim in range(0, 5):
                for x in range(D ** dim):
                    yield [x, dim, D]
    elif name == 'modulo':
        for m in range(1, N):
            for x in range(-2 * N, 2 * N + 1):
                yield [x, m]
    elif name == 'index_dict':
        for n in range(0, 4):
            for shape in itertools.product((1, 2, 3), repeat=n):
                yield list(shape)
    elif name == 'divisions':
        for n in range(0, 7):
            for k in range(1, 5):
                yield [n, k]
    elif name == 'binomial':
        for n in range(0, N):
            for p in range(0, n + 2):
                yield [n, p]
    elif name == 'division_times':
        for k in range(1, 5):
            for x in itertools.product(range(4), repeat=k):
                yield list(x)
    elif name == 'binary_search':
        for left in (-2.0, 0.0, 1.0):
            for width in (0.5, 1.0, 3.0):
                for frac in (0.0, 0.1, 0.5, 0.77, 1.0):
                    for eps in (1.0, 1e-2, 1e-6):
                        yield [left, width, frac, eps]
    elif name == 'cutoff':
        for n in range(0, L + 1):
            for s in itertools.combinations_with_replacement((4.0, 2.0, 1.0, 0.5, 0.0), n):
                for thr in (0.0, 0.4, 0.5, 1.5, 5.0):
                    yield [list(s), thr]
    elif name == 'directions':
        for x in lists(L, ('l', 'r', 'u', 'd')):
            yield ''.join(x)
        yield 'x'
        yield 'lx'
    elif name == 'close':
        vals = (-1e10 - 1, -1e10, -3.0, -1.0 - 1e-3, -1.0 - 1e-9, -1.0, -1e-9, 0.0, 1e-9, 1.0, 1.0 + 1e-9, 1.0 + 1e-3, 3.0, 1e10)
        for a in vals:
            for x in vals:
                yield [a, x]
    elif name == 'diagonal':
        for dim in range(0, 5):
            for l in range(1, 4):
                for kind in ('int', 'float', 'complex'):
                    yield [dim, l, kind]
    elif name == 'index_string':
        for x in lists(3, (0, 1, 2, 25, 26, 30)):
            yield list(x)
    elif name == 'indices':
        for x in lists(L, (1, 2, 3)):
            for y in lists(L - 1, (1, 2, 4)):
                yield [list(x), list(y)]
    elif name == 'sum_axis':
        for n in range(22, 26):
            for axis in (0, 1, 11, n - 2, n - 1):
                for w in (None, 'int', 'float', 'complex'):
                    yield [[3 if i == axis else 2 if i in (0, n - 1) else 1 for i in range(n)], axis, w]
        for n in range(1, 5):
            for shape in itertools.product((1, 2, 3), repeat=n):
                for axis in range(n):
                    for w in (None, 'int', 'float', 'complex'):
                        yield [list(shape), axis, w]
    elif name == 'matrices':
        for h in range(1, 4):
            for w in range(1, 4):
                for alphabet in ((0, 1), (1, -1), (0, 1j)):
                    if h * w > 6:
                        continue
                    for entries in itertools.product(range(2), repeat=h * w):
                        yield [h, w, [[alphabet[e].real, complex(alphabet[e]).imag] for e in entries]]
    elif name == 'dtypes':
        names = ['float16', 'float32', 'float64', 'float128', 'complex64', 'complex128', 'complex256']
        for a in names:
            for x in names:
                yield [a, x]
    elif name == 'environment':
        for n in range(1, 4):
            for spec in itertools.product((0.0, 1.0, 2.0, 5.0), repeat=n):
                for chi in range(1, n + 2):
                    yield [list(spec), chi]
    elif name == 'fresh_string':
        for n in (1, 2, 10):
            for k in range(4):
                yield [n, k]
    elif name == 'triangle':
        for sm in range(4):
            for J in (0.0, 0.3, -1.5, 2):
                yield [sm, J]
    elif name == 'load_data':
        for h in range(1, 4):
            for w in range(1, 4):
                yield [h, w]
    elif name == 'real_number':
        for k in range(len(REAL)):
            yield k
    else:
        raise KeyError(name)


def same(ctx, got, want, what):
    ctx.check(type(got) is type(want) and got == want, lambda: '%s gave %r, expected %r' % (what, got, want))


def run_case(case, ctx):
    HELPERS[case['h']](case['a'], ctx)
    ctx.state([case['h'], case['a']])
    ctx.step()
    ctx.trace()
    ctx.outcome(case['h'])


@helper
def two_lists(a, ctx):
    x, y = a
    x0, y0 = list(x), list(y)
    # difference as multisets, each occurrence removed once, order of the rest kept
    rest = list(x)
    possible = True
    for e in y:
        if e in rest:
            rest.remove(e)
        else:
            possible = False
    if possible:
        same(ctx, sorted(funcs.listDifference(x, y)), sorted(rest), 'listDifference(%r, %r)' % (x, y))
        same(ctx, funcs.listDifference(tuple(x), tuple(y)), funcs.listDifference(x, y), 'listDifference of tuples')
        if len(set(x)) == len(x):
            same(ctx, funcs.listDifference(x, y), [e for e in x if e not in y], 'listDifference(%r, %r)' % (x, y))
    else:
        try:
            got = funcs.listDifference(x, y)
        except ValueError:
            pass
        else:
            ctx.fail('listDifference(%r, %r) gave %r although an element is absent' % (x, y, got))
    same(ctx, funcs.deleteAllInUsed(x, y), [e for e in x if e not in y], 'deleteAllInUsed(%r, %r)' % (x, y))
    same(ctx, bool(funcs.compareLists(x, y)), sorted(x) == sorted(y), 'compareLists(%r, %r)' % (x, y))
    ctx.check(sorted(funcs.commonElements(x, y)) == sorted(set(x) & set(y)),
              lambda: 'commonElements(%r, %r) gave %r' % (x, y, funcs.commonElements(x, y)))
    if len(set(x)) == len(x) and len(set(y)) == len(y):
        got = funcs.listSymmetricDifference(x, y)
        ctx.check(sorted(got) == sorted(e for e in set(x) | set(y) if (e in x) != (e in y)), lambda: 'listSymmetricDifference(%r, %r) gave %r' % (x, y, got))
    if len(set(x)) == len(x) == len(y):
        same(ctx, funcs.mapToDict(x, y), dict(zip(x, y)), 'mapToDict(%r, %r)' % (x, y))
    for e in ['a', 'b', 'd', 'absent', ''] + x[-1:]:
        try:
            funcs.assertInSet(e, list(x), 'letter')
            ok = True
        except AssertionError:
            ok = False
        same(ctx, ok, e in x, 'assertInSet(%r, %r)' % (e, x))
    same(ctx, funcs.getCombineSet({'p': list(x), 'q': list(y), 'r': ['z']}, ['p', 'q']), set(x) | set(y), 'getCombineSet')
    same(ctx, (x, y), (x0, y0), 'the arguments after the calls')


@helper
def one_list(x, ctx):
    pairs = list(funcs.pairIterator(x))
    ctx.check([tuple(p) for p in pairs] == list(itertools.combinations(x, 2)), lambda: 'pairIterator(%r) gave %r' % (x, pairs))
    same(ctx, bool(funcs.checkAllEqual(tuple(x))), len(set(x)) <= 1, 'checkAllEqual(%r)' % (x,))
    d = funcs.identicalTensorDict('T', x)
    same(ctx, d, {e: 'T' for e in x}, 'identicalTensorDict(%r)' % (x,))
    same(ctx, funcs.combineName(list(x), 'given'), 'given', 'combineName with a name')
    if len(set(x)) == len(x) and x:
        same(ctx, set(funcs.combineName(list(x)).split('|')), set(x), 'combineName(%r)' % (x,))
    if len(x) == 2:
        same(ctx, funcs.tupleSwap(tuple(x)), (x[1], x[0]), 'tupleSwap')


@helper
def remove_by_index(a, ctx):
    n, idx = a
    t = tuple('v%d' % i for i in range(n))
    same(ctx, funcs.tupleRemoveByIndex(t, idx), tuple(e for i, e in enumerate(t) if i not in idx), 'tupleRemoveByIndex(%r, %r)' % (t, idx))


@helper
def numbers(x, ctx):
    p = 1
    for e in x:
        p = p * e
    same(ctx, funcs.tupleProduct(tuple(x)), p, 'tupleProduct(%r)' % (x,))
    same(ctx, funcs.tupleProduct(list(x)), p, 'tupleProduct(%r)' % (x,))
    if len(x) > 0:
        s = sum(x[i] * x[(i + 1) % len(x)] for i in range(len(x)))
        ctx.check(abs(funcs.spinChainProductSum(list(x)) - s) < 1e-12, lambda: 'spinChainProductSum(%r) gave %r' % (x, funcs.spinChainProductSum(list(x))))
    for thr in (1, 2.5, 10):
        ix, iy = funcs.getValidValues(x, thr)
        ctx.check(list(ix) == [i for i, e in enumerate(x) if abs(e) < thr] and list(iy) == [e for e in x if abs(e) < thr],
                  lambda: 'getValidValues(%r, %r) gave %r %r' % (x, thr, ix, iy))
    a = np.array(x, dtype=float)
    for eps in (0.5, 1.0, 2.5):
        ctx.check(funcs.nonZeroElementN(a, eps) == sum(1 for e in x if abs(e) > eps), lambda: 'nonZeroElementN(%r, %r)' % (x, eps))
    if any(x):
        r = funcs.normalizeInfinity(a)
        m = max(abs(e) for e in x)
        ctx.check(r.shape == a.shape and np.allclose(r * m, a) and a.tolist() == [float(e) for e in x], lambda: 'normalizeInfinity(%r) gave %r' % (x, r))
    if len(x) in (2, 4):
        mat = np.array(x, dtype=float).reshape(2, -1)
        dl, dr = np.array([2.0, -3.0]), np.array([2.0, -3.0])[:mat.shape[1]]
        ctx.check(np.array_equal(funcs.leftDiagonalProduct(mat, dl), np.diag(dl) @ mat), lambda: 'leftDiagonalProduct(%r)' % (mat,))
        ctx.check(np.array_equal(funcs.rightDiagonalProduct(mat, dr), mat @ np.diag(dr)), lambda: 'rightDiagonalProduct(%r)' % (mat,))
    if len(x) == 2:
        f = funcs.getInRangeFunc(x[0], x[1])
        for v in (-2, -1, -0.5, 0, 1, 2, 2.5, 3, 4):
            same(ctx, bool(f(v)), x[0] < v < x[1], 'getInRangeFunc(%r)(%r)' % (x, v))


@helper
def digits(a, ctx):
    x, dim, D = a
    got = funcs.intToDBaseTuple(x, dim, D)
    ctx.check(isinstance(got, tuple) and len(got) == dim and all(0 <= g < D for g in got) and sum(g * D ** i for i, g in enumerate(got)) == x,
              lambda: 'intToDBaseTuple(%r, %r, %r) gave %r' % (x, dim, D, got))
    if D == 2:
        bits = funcs.intToBitList(x, dim)
        ctx.check(isinstance(bits, list) and tuple(bits) == got, lambda: 'intToBitList(%r, %r) gave %r' % (x, dim, bits))
        same(ctx, funcs.intToBitTuple(x, dim), got, 'intToBitTuple(%r, %r)' % (x, dim))


@helper
def modulo(a, ctx):
    x, m = a
    got = funcs.safeMod(x, m)
    ctx.check(0 <= got < m and (got - x) % m == 0, lambda: 'safeMod(%r, %r) gave %r' % (x, m, got))


@helper
def index_dict(shape, ctx):
    labels = ['x%d' % i for i in range(len(shape))]
    for i, idx in enumerate(itertools.product(*[range(d) for d in shape])):
        same(ctx, funcs.getIndexDict(i, labels, tuple(shape)), dict(zip(labels, idx)), 'getIndexDict(%d, %r)' % (i, shape))


@helper
def divisions(a, ctx):
    n, k = a
    got = [list(d) for d in funcs.divideIntoKParts(n, k)]
    want = [list(d) for d in itertools.product(range(n + 1), repeat=k) if sum(d) == n]
    ctx.check(sorted(got) == sorted(want), lambda: 'divideIntoKParts(%d, %d) gave %r' % (n, k, got))
    ctx.check(sum(funcs.calculateDivisionTimes(d) for d in want) == k ** n, lambda: 'the divisions of %d into %d do not cover all %d assignments' % (n, k, k ** n))


@helper
def binomial(a, ctx):
    n, p = a
    same(ctx, funcs.myComb(n, p), math.comb(n, p), 'myComb(%d, %d)' % (n, p))


@helper
def division_times(x, ctx):
    want = math.factorial(sum(x))
    for e in x:
        want //= math.factorial(e)
    same(ctx, funcs.calculateDivisionTimes(list(x)), want, 'calculateDivisionTimes(%r)' % (x,))


@helper
def binary_search(a, ctx):
    left, width, frac, eps = a
    point = left + frac * width
    got = funcs.binarySearch(left, left + width, lambda v: v >= point, eps)
    ctx.check(abs(got - point) <= eps and left <= got <= left + width, lambda: 'binarySearch over [%r, %r] for %r gave %r' % (left, left + width, point, got))


@helper
def cutoff(a, ctx):
    s, thr = a
    want = sum(1 for e in s if e >= thr)      # s is sorted from large to small
    same(ctx, funcs.getCutoff(s, thr), want, 'getCutoff(%r, %r)' % (s, thr))
    if thr > 0:
        got = funcs.partialInverse(s, want)
        ctx.check(len(got) == len(s) and np.allclose(got, [1.0 / e if e >= thr else 0.0 for e in s]), lambda: 'partialInverse(%r, %r) gave %r' % (s, want, got))


@helper
def directions(x, ctx):
    opp = {'l': 'r', 'r': 'l', 'u': 'd', 'd': 'u'}
    if all(c in opp for c in x):
        same(ctx, funcs.oppositeDirection(x), ''.join(opp[c] for c in x), 'oppositeDirection(%r)' % x)
        if len(x) == 1:
            same(ctx, funcs.oppositeSingleDirection(x), opp[x], 'oppositeSingleDirection(%r)' % x)
    else:
        try:
            got = funcs.oppositeDirection(x)
        except AssertionError:
            return
        ctx.fail('oppositeDirection(%r) gave %r' % (x, got))


@helper
def close(p, ctx):
    a, b = p
    d = abs(a - b)
    for eps in (1e-7, 1e-2):
        same(ctx, bool(funcs.floatEqual(a, b, eps)), d < eps, 'floatEqual(%r, %r, %r)' % (a, b, eps))
        mean = 0.5 * (abs(a) + abs(b))
        if a == b:
            want = True
        elif 0.5 * eps < d / mean < 2 * eps:
            continue
        else:
            want = d < eps * mean
        same(ctx, bool(funcs.floatRelativeEqual(a, b, eps)), want, 'floatRelativeEqual(%r, %r, %r)' % (a, b, eps))
    for shape in ((1,), (2,), (2, 2), ()):
        A = np.full(shape, a)
        B = np.full(shape, a)
        B[(-1,) * len(shape)] = b
        same(ctx, bool(funcs.floatArrayEqual(A, B)), d < 1e-7, 'floatArrayEqual of %r and %r' % (A, B))
    same(ctx, bool(funcs.floatArrayEqual(np.full((2,), a), np.full((2, 1), a))), False, 'floatArrayEqual of different shapes')


@helper
def diagonal(a, ctx):
    dim, l, kind = a
    if dim == 0:
        v = np.array({'int': 7, 'float': 2.5, 'complex': 1 + 2j}[kind])
        got = funcs.diagonalNDTensor(v, 0)
        ctx.check(got.shape == () and got == v and got.dtype == v.dtype and not np.shares_memory(got, v), lambda: 'diagonalNDTensor(%r, 0) gave %r' % (v, got))
        return
    v = np.array(({'int': [3, -2, 5], 'float': [0.5, 1.5, -2.5], 'complex': [1j, 2.0, 1 - 1j]}[kind] * 20)[:l]) * (1 + np.arange(l) // 3)
    got = funcs.diagonalNDTensor(v, dim)
    eye = funcs.ndEye(dim, l)
    ctx.check(got.shape == (l,) * dim and got.dtype == v.dtype and not np.shares_memory(got, v), lambda: 'diagonalNDTensor(%r, %d) gave shape %r dtype %r' % (v, dim, got.shape, got.dtype))
    ctx.check(eye.shape == (l,) * dim, lambda: 'ndEye(%d, %d) has shape %r' % (dim, l, eye.shape))
    for idx in itertools.product(range(l), repeat=dim):
        on = len(set(idx)) == 1
        ctx.check(got[idx] == (v[idx[0]] if on else 0), lambda: 'diagonalNDTensor(%r, %d) is %r at %r' % (v, dim, got[idx], idx))
        ctx.check(eye[idx] == (1 if on else 0), lambda: 'ndEye(%d, %d) is %r at %r' % (dim, l, eye[idx], idx))


@helper
def index_string(x, ctx):
    t = tuple(x)
    if any(e >= 26 for e in t):
        try:
            got = funcs.indexTupleToStr(t)
        except ValueError:
            return
        ctx.fail('indexTupleToStr(%r) gave %r' % (t, got))
    got = funcs.indexTupleToStr(t)
    letters = [funcs.indexTupleToStr((i,)) for i in range(26)]
    ctx.check(sorted(letters) == list('abcdefghijklmnopqrstuvwxyz'), lambda: 'the letters are %r' % (letters,))
    same(ctx, got, ''.join(letters[e] for e in t), 'indexTupleToStr(%r)' % (t,))
    try:
        got = funcs.indexTupleToStr(list(t))
    except ValueError:
        return
    ctx.fail('indexTupleToStr accepts a list')


@helper
def indices(a, ctx):
    x, y = a
    used = {}
    want = []
    for e in y:
        places = [i for i, v in enumerate(x) if v == e]
        k = used.get(e, 0)
        want.append(places[k] if k < len(places) else None)
        used[e] = k + 1
    same(ctx, funcs.generateIndices(x, y), want, 'generateIndices(%r, %r)' % (x, y))


@helper
def sum_axis(a, ctx):
    shape, axis, w = a
    n = int(np.prod(shape))
    A = np.arange(1, n + 1).reshape(shape) ** 2
    W = None if w is None else {'int': np.array([2, -1, 3]), 'float': np.array([0.5, -1.25, 2.0]), 'complex': np.array([1j, 2 - 1j, 0.5])}[w][:shape[axis]]
    A0, W0 = A.copy(), None if W is None else W.copy()
    for B in (A, A.astype(float), A * (1 + 2j)):
        got = funcs.sumOnAxis(B, axis, W)
        neg = funcs.sumOnAxis(B, axis - len(shape), W)
        want = np.tensordot(B, np.ones(shape[axis], dtype=int) if W is None else W, axes=([axis], [0]))
        ctx.check(np.shape(got) == want.shape and np.allclose(got, want), lambda: 'sumOnAxis(shape %r, %d, %r) gave %r, expected %r' % (shape, axis, W, got, want))
        ctx.check(np.shape(neg) == want.shape and np.allclose(neg, want), lambda: 'sumOnAxis(shape %r, %d, %r) gave %r' % (shape, axis - len(shape), W, neg))
        ctx.step(2)
    ctx.check(np.array_equal(A, A0) and (W is None or np.array_equal(W, W0)), 'sumOnAxis changed its arguments')


@helper
def matrices(a, ctx):
    h, w, entries = a
    A = np.array([complex(r, i) for r, i in entries]).reshape(h, w)
    if not A.imag.any():
        A = A.real
    if A.size % 2:
        A = np.asfortranarray(A)
    A0 = A.copy()
    H = A.conj().T
    B = np.roll(A, 1) * 2 - 1
    ctx.check(abs(funcs.getDiffError(A, B) - np.sum(np.abs(A - B) ** 2)) <= 1e-9 * (1 + np.sum(np.abs(B) ** 2)), lambda: 'getDiffError(%r, %r) gave %r, expected %r' % (A, B, funcs.getDiffError(A, B), np.sum(np.abs(A - B) ** 2)))
    near = lambda got, want: np.shape(got) == np.shape(want) and np.allclose(got, want)
    ctx.check(near(funcs.transposeConjugate(A), H), lambda: 'transposeConjugate(%r)' % (A,))
    ctx.check(near(funcs.aDaggerAProduct(A), H @ A), lambda: 'aDaggerAProduct(%r) gave %r' % (A, funcs.aDaggerAProduct(A)))
    ctx.check(near(funcs.aADaggerProduct(A), A @ H), lambda: 'aADaggerProduct(%r) gave %r' % (A, funcs.aADaggerProduct(A)))
    ctx.check(near(funcs.identityError(A), np.linalg.norm(A - np.eye(h, w))), lambda: 'identityError(%r)' % (A,))
    ctx.check(near(funcs.projectorError(A), np.linalg.norm(H @ A - np.eye(w))), lambda: 'projectorError(%r)' % (A,))
    same(ctx, bool(funcs.checkIdentity(A)), np.array_equal(A, np.eye(h, w)), 'checkIdentity(%r)' % (A,))
    if A.any():
        n = np.linalg.norm(A)
        ctx.check(near(funcs.matDiffError(A, np.ones((h, w))), np.linalg.norm(A - 1) / n), lambda: 'matDiffError(%r)' % (A,))
        if h == w:
            ctx.check(near(funcs.diagError(A), np.linalg.norm(A - np.diag(np.diag(A))) / n), lambda: 'diagError(%r)' % (A,))
            ctx.check(near(funcs.symmetricError(A), np.linalg.norm(A - A.T) / n), lambda: 'symmetricError(%r)' % (A,))
    ctx.check(np.array_equal(A, A0), 'a matrix helper changed its argument')


@helper
def dtypes(a, ctx):
    x, y = np.dtype(a[0]), np.dtype(a[1])
    got = np.dtype(funcs.priorDataType(x, y))
    isc = 'complex' in a[0] or 'complex' in a[1]
    acc = max(int(s.replace('complex', '').replace('float', '')) // (2 if 'complex' in s else 1) for s in a)
    acc = max(acc, 32) if isc else acc
    if isc and 'float16' in a and acc == 32:
        pass
    want = np.dtype(('complex%d' % (2 * acc)) if isc else ('float%d' % acc))
    ctx.check(got == want, lambda: 'priorDataType(%s, %s) gave %s, expected %s' % (x, y, got, want))


@helper
def environment(a, ctx):
    spec, chi = a
    n = len(spec)
    k = np.arange(n * n).reshape(n, n)
    U, _ = np.linalg.qr(np.cos(1.0 + 1.7 * k))
    M = (U * np.array(spec)) @ U.T
    M = 0.5 * (M + M.T)
    M0 = M.copy()
    P, error = funcs_solve(M, chi)
    pos = sorted([s for s in spec if s > 0], reverse=True)
    keep = min(chi, len(pos))
    ctx.check(P.shape == (n, keep), lambda: 'solveEnv of spectrum %r with chi=%d keeps %r' % (spec, chi, P.shape))
    ctx.check(np.allclose(P.T @ P, np.eye(keep), atol=1e-9), lambda: 'the projector of spectrum %r is not isometric' % (spec,))
    if keep:
        ctx.check(np.allclose(np.diag(P.T @ M @ P), pos[:keep], atol=1e-9), lambda: 'the projector of spectrum %r keeps %r' % (spec, np.diag(P.T @ M @ P)))
    if pos:
        want = 1.0 - sum(pos[:keep]) / sum(pos)
        ctx.check(abs(error - want) < 1e-9, lambda: 'solveEnv of spectrum %r with chi=%d reports error %r, expected %r' % (spec, chi, error, want))
    ctx.check(np.array_equal(M, M0), 'solveEnv changed its argument')


def funcs_solve(M, chi):
    return solveEnv(M, chi)


@helper
def fresh_string(a, ctx):
    n, k = a
    s = funcs.randomString(n)
    ctx.check(isinstance(s, str) and len(s) == n and s.isascii() and s.isalpha(), lambda: 'randomString(%d) gave %r' % (n, s))
    letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    if n == 1:
        known = set(letters) - set('aZ'[:k] if k else 'q')
        got = funcs.getNewString(known, 1)
        ctx.check(got not in known and len(got) == 1, lambda: 'getNewString gave the known string %r' % got)


@helper
def triangle(a, ctx):
    sm, J = a
    got = funcs.triangleWeight(sm, J)
    if sm % 2:
        ctx.check(got == 0, lambda: 'triangleWeight(%d, %r) of an odd number gave %r' % (sm, J, got))
    # from no equal pair to two of them
    ctx.check(abs(funcs.triangleWeight(2, J) / funcs.triangleWeight(0, J) - math.exp(J)) < 1e-9, 'the weights of a triangle')


@helper
def load_data(a, ctx):
    h, w = a
    A = np.array([[0.5 * i - 1.25 * j for j in range(w)] for i in range(h)])
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'data.txt')
    try:
        with open(p, 'w') as f:
            f.write('\n'.join(' '.join(repr(float(x)) for x in row) for row in A) + '\n')
        got = funcs.loadData(p)
        ctx.check(np.shape(got) == A.shape and np.array_equal(got, A), lambda: 'loadData gave %r, expected %r' % (got, A))
    finally:
        os.remove(p)
        os.rmdir(d)


REAL = [(1, True), (1.5, True), (-2, True), (np.float64(1.5), True), (np.float32(1.5), True), (np.int64(3), True), (0, True),
        (True, False), (False, False), (1j, False), ('1', False), (None, False), ([1], False), (np.array([1.0]), False), (np.complex128(1j), False)]


@helper
def real_number(k, ctx):
    v, want = REAL[k]
    same(ctx, bool(funcs.isRealNumber(v)), want, 'isRealNumber(%r)' % (v,))
