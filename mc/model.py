"""Reference models and small builders shared by the property modules.

The reference for a tensor is a *labelled array*: a list of index identities plus a dense numpy array.
All data are small integers stored as floats / complex numbers, so every multilinear operation is exact
and results are compared with ==, not with a tolerance.
"""
import hashlib
import itertools
import json

import numpy as np

_PERIODS = [7, 11, 5, 13]


def generic(shape, seed=0, cplx=False, dtype=None):
    """Deterministic integer-valued data; all entries non-zero, no symmetry between axes."""
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(n, dtype=np.int64)
    v = (i * 5 + i * i * 3 + (i // 3) * 7 + seed * 17 + (seed * seed) % 13) % 19 - 9
    v = np.where(v == 0, 10 + (seed % 3), v).astype(np.float64)
    if cplx:
        w = (i * 3 + i * i * 2 + seed * 5 + 1) % 7 - 3
        v = v + 1j * np.where(w == 0, 4, w)
    v = v.reshape(tuple(shape))
    if dtype is not None:
        v = v.astype(dtype)
    return v


def diag_dense(vec, rank):
    """Dense array of a diagonal tensor of the given rank (reference, written independently)."""
    vec = np.asarray(vec)
    if rank == 0:
        return vec.reshape(())
    n = vec.shape[0]
    out = np.zeros((n,) * rank, dtype=vec.dtype)
    for i in range(n):
        out[(i,) * rank] = vec[i]
    return out


def dense(t):
    """Mathematical value of a CTL tensor in the order of its own legs (reads .a and .legs only)."""
    if t.diagonalFlag:
        return diag_dense(np.asarray(t.a), len(t.legs))
    return np.asarray(t.a)


def by_labels(t, labels):
    """Value of a CTL tensor with its axes put in the order `labels` (labels must be unique)."""
    own = [leg.name for leg in t.legs]
    arr = dense(t)
    if arr.ndim != len(own):
        raise AssertionError('data of %d dimensions on %d legs' % (arr.ndim, len(own)))
    if sorted(own) != sorted(labels):
        raise AssertionError('labels %r, expected %r' % (own, labels))
    return np.transpose(arr, [own.index(x) for x in labels]) if len(own) else arr


def einsum(terms, out):
    """terms: list of (array, index ids); out: ids. Exact integer arithmetic through np.einsum."""
    ops = []
    for arr, ids in terms:
        ops += [arr, list(ids)]
    return np.einsum(*ops, list(out), optimize=False)


def same(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def close(a, b, tol=1e-9):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    scale = max(1.0, float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= tol * scale)


def jkey(meta, *arrays):
    """Canonical key of a state: JSON-able part plus the bytes of arrays."""
    h = hashlib.blake2b(json.dumps(meta, default=str).encode(), digest_size=8)
    for a in arrays:
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def show(a):
    return np.array2string(np.asarray(a), threshold=40, precision=6).replace('\n', ' ')


def matchings(na, nb):
    """All partial injective pairings between range(na) and range(nb), fewest pairs first."""
    for k in range(min(na, nb) + 1):
        for left in itertools.combinations(range(na), k):
            for right in itertools.permutations(range(nb), k):
                yield list(zip(left, right))


def consistent_legs(t, where=''):
    """Structural invariant of one tensor: legs, dims, labels, shape and data describe one object."""
    n = len(t.legs)
    assert list(t.labels) == [leg.name for leg in t.legs], where + ' labels do not name the legs'
    assert tuple(t.shape) == tuple(leg.dim for leg in t.legs), \
        '%s shape %r but legs of dimension %r' % (where, tuple(t.shape), tuple(leg.dim for leg in t.legs))
    assert t.dim == n, '%s dim %r but %d legs' % (where, t.dim, n)
    assert len({id(leg) for leg in t.legs}) == n, where + ' the same leg occurs twice'
    for leg in t.legs:
        assert leg.tensor is t, where + ' leg %r does not point back to its tensor' % leg.name
        if leg.bond is not None:
            assert leg in leg.bond.legs, where + ' leg %r is not a side of its bond' % leg.name
            other = leg.bond.legs[0] if leg.bond.legs[1] is leg else leg.bond.legs[1]
            assert other.bond is leg.bond, where + ' the other side of the bond of leg %r is linked elsewhere' % leg.name
            assert other.dim == leg.dim, where + ' bond between dimensions %r and %r' % (leg.dim, other.dim)
            assert leg.anotherSide() is other, where + ' anotherSide is wrong'
    if t.tensorLikeFlag:
        assert t.a is None, where + ' a TensorLike carries data'
    elif t.diagonalFlag:
        a = np.asarray(t.a)
        if n == 0:
            assert a.shape == (), where + ' scalar diagonal tensor with data of shape %r' % (a.shape,)
        else:
            assert a.shape == (t.legs[0].dim,), where + ' diagonal data of shape %r' % (a.shape,)
    else:
        assert np.asarray(t.a).shape == tuple(leg.dim for leg in t.legs), where + ' data shape differs from legs'
