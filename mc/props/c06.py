"""C06: dense tensor operations follow the labelled-array semantics in every history."""
import itertools
import sys

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.leg import Leg
from CTL.tensor.contract.link import makeLink

from mc.histories import run_only
from mc.model import generic, by_labels, same, close, show, dense, consistent_legs, jkey

PROPERTY = 'C06'
RULE = ('breadth-first over all operation histories (rename, tag, reorder by label/leg, combine legs, sum out weighted or '
        'not, singly or as a list, copy, toTensor) up to the depth bound, deduplicated on labels, leg order, memory layout and data; '
        'in every state all observers are compared with the labelled-array model and all requests naming unknown labels must '
        'leave the tensor unchanged; ranks 5 to 7, large dimensions, other memory layouts of the given array and other names at '
        'smaller depth; the same for all tensors with repeated labels (a label stands for its legs in order)')
ASSUMPTIONS = ['numpy transpose/reshape/sum are correct', 'combined index of several legs: first leg is the most significant']

INITIAL = [
    ((), False), ((3,), False), ((2, 3), False), ((2, 3), True), ((1, 2), False), ((2, 2), False), ((3, 3), True),
    ((2, 3, 4), False), ((2, 2, 2), False), ((2, 1, 3), True), ((2, 3, 2, 1), False), ((2, 2, 3, 3), False),
    ((), 'int'), ((3,), 'int'), ((2, 3), 'int'), ((3, 2), 'f32'),
    # other layouts of the caller's array, other names
    ((2, 3), 'fortran'), ((3, 2, 2), 'slice'), ((2, 3), 'readonly'),
    ((2, 3, 2), False, ['10', '1', 'x y']), ((2, 3), False, ['ab', 'a']), ((2, 2), False, ['\u00e9|a', 'A']),
    # larger ones
    ((17, 5), False), ((1, 40), False), ((7, 1, 6), False),
    ((2, 3, 2, 1, 4), False), ((2, 2, 2, 2, 2), True), ((2, 1, 3, 2, 1, 2), False), ((2, 2, 1, 2, 2, 2, 2), False),
]
WEIGHTS = [2., -1., 3., 5., 7., 11., 4., -3., 6., 1., 8., 9.] + [float(x) for x in range(2, 250)]


def bounds(tier):
    return {'ranks': '0..4; 5..7 at depth 1', 'depth': 3 if tier == 'quick' else 4, 'repeated_labels': 'ranks 2..4, depth 2' if tier == 'quick' else 'ranks 2..5, depth 2'}


def data_of(shape, seed, kind):
    """Integer-valued data stored as real, complex, integer or single precision numbers."""
    if kind in ('int', 'f32'):
        return generic(shape, seed).astype({'int': np.int64, 'f32': np.float32}[kind])
    return generic(shape, seed, kind)


def depth_of(shape, tier):
    if len(shape) > 4 or max(shape + (0,)) > 4:
        return 2 if len(shape) < 3 or tier == 'thorough' and len(shape) < 6 else 1
    d = {0: 3, 1: 4, 2: 4, 3: 3, 4: 2}[len(shape)]
    return d + (1 if tier == 'thorough' and len(shape) < 4 else 0)


class Model:
    def __init__(self, labels, arr, conn):
        self.labels, self.arr, self.conn = list(labels), arr, list(conn)

    def axis(self, l):
        return self.labels.index(l)

    def order(self, labels):
        return np.transpose(self.arr, [self.axis(l) for l in labels]) if self.labels else self.arr


class Real:
    def __init__(self, t, outside):
        self.t, self.outside = t, outside


def maker(shape, cplx, labels=None):
    def make():
        names = list(labels or ['w', 'x', 'y', 'z', 'v', 'u', 's'][:len(shape)])
        layout = cplx if cplx in ('fortran', 'slice', 'readonly') else None
        arr = data_of(shape, 5, False if layout else cplx)
        given = arr
        if layout == 'fortran':
            given = np.asfortranarray(arr)
        elif layout == 'slice':
            given = np.zeros(tuple(2 * d for d in shape))
            given[tuple(slice(None, None, 2) for d in shape)] = arr
            given = given[tuple(slice(None, None, 2) for d in shape)]
        elif layout == 'readonly':
            given = arr.copy()
            given.flags.writeable = False
        t = Tensor(data=given, labels=names)
        outside = {}
        conn = [None] * len(shape)
        for i in range(0, len(shape), 2):
            leg = Leg(None, shape[i], 'out%d' % i)
            makeLink(t.legs[i], leg)
            outside[i] = leg
            conn[i] = i
        return Real(t, outside), Model(names, arr, conn)
    return make


def ops(m):
    L = sorted(m.labels)
    out = []
    used = set(L)
    fresh = next(n for n in ('n0', 'n1', 'n2', 'n3', 'n4', 'n5', 'n6') if not any(l.split('-')[-1].startswith(n) for l in used))
    tagged = any('-' in l for l in L)
    for l in L:
        out.append(['rename', l, fresh])
    if len(L) >= 2:
        out.append(['renames', [L[0], L[-1]], [fresh, fresh + 'b']])
    if not tagged:
        out.append(['tag', 'T'])
    if L and L[0].count('-') < 2:
        out.append(['rename', L[0], 'V-' + L[0] if '-' in L[0] else 'V-W-' + L[0]])
    if len({l.split('-', 1)[-1] for l in L}) == len(L):
        out.append(['untag'])
    out.append(['copy'])
    n = len(L)
    perms = list(itertools.permutations(L)) if n <= 3 else [L[::-1], L[2:] + L[:2], L[::2] + L[1::2], L[1::2] + L[::2][::-1]] if n > 4 else [tuple(L[::-1]), tuple(L[1:] + L[:1]), (L[0], L[2], L[1], L[3]), (L[2], L[0], L[3], L[1])]
    for p in perms:
        out.append(['reArrange', list(p)])
        out.append(['toTensor', list(p)])
    groups = [list(p) for r in (1, 2, 3) for p in itertools.permutations(L, r) if r < 3 or n <= 3]
    if n > 4:
        groups += [q[:r] for r in range(3, n + 1) for q in perms]
    for p in groups:
        if p:
            r = len(p)
            out.append(['front', list(p)])
            out.append(['frontLegs', list(p)])
            out.append(['outProduct', list(p), fresh])
            if r <= 2:
                out.append(['outProductLegs', list(p), fresh])
    if n >= 1:
        out.append(['frontAll'])
        out.append(['outProduct', L, fresh]) if n == 4 else None
    for l in L:
        for w in (0, 1):
            out.append(['sum', l, w])
            out.append(['sumLeg', l, w])
        out.append(['sum', l, 2])
        out.append(['sumLeg', l, 3])
    for a, b in itertools.permutations(L, 2):
        if m.arr.shape[m.axis(a)] == m.arr.shape[m.axis(b)]:
            out.append(['sumList', [a, b], 1])
            out.append(['sumList', [a, b], 2])
        out.append(['sumList', [a, b], 0])
    return out


def weights(dim, w):
    """No weights, whole numbers, halves or complex numbers (all exact in floating point)."""
    if not w:
        return None
    wv = np.array(WEIGHTS[:dim])
    return wv if w == 1 else wv / 2 if w == 2 else wv + 1j * wv[::-1]


def msum(m, l, w, dim):
    ax = m.axis(l)
    arr = m.arr
    if w:
        wv = weights(arr.shape[ax], w)
        arr = arr * wv.reshape([-1 if i == ax else 1 for i in range(arr.ndim)])
    m.arr = arr.sum(axis=ax)
    del m.labels[ax], m.conn[ax]


def mout(m, labs, new):
    rest = [l for l in m.labels if l not in labs]
    arr = m.order(labs + rest)
    n = len(labs)
    m.arr = arr.reshape((int(np.prod(arr.shape[:n])),) + arr.shape[n:])
    m.conn = [None] + [m.conn[m.axis(l)] for l in rest]
    m.labels = [new] + rest


def apply(r, m, op, ctx):
    t = r.t
    k = op[0]
    if k == 'rename':
        t.renameLabel(op[1], op[2])
        m.labels[m.axis(op[1])] = op[2]
    elif k == 'renames':
        t.renameLabels(list(op[1]), list(op[2]))
        for a, b in zip(op[1], op[2]):
            m.labels[m.axis(a)] = b
    elif k == 'tag':
        t.addTensorTag(op[1])
        m.labels = [op[1] + '-' + l for l in m.labels]
    elif k == 'untag':
        t.removeTensorTag()
        m.labels = [l.split('-', 1)[-1] for l in m.labels]
    elif k == 'copy':
        r.t = t = t.copy()
        m.conn = [None] * len(m.labels)
    elif k == 'reArrange':
        t.reArrange(list(op[1]))
        ctx.check(list(t.labels) == op[1], lambda: 'reArrange(%r) gave the order %r' % (op[1], t.labels))
    elif k == 'toTensor':
        got = t.toTensor(list(op[1]))
        ctx.check(same(got, m.order(op[1])), lambda: 'toTensor(%r) gave %s, expected %s' % (op[1], show(got), show(m.order(op[1]))))
    elif k in ('front', 'frontLegs', 'frontAll'):
        before = list(t.labels)
        if k == 'front':
            t.moveLabelsToFront(list(op[1]))
            want = op[1]
        elif k == 'frontLegs':
            t.moveLegsToFront([t.getLeg(l) for l in op[1]])
            want = op[1]
        else:
            t.moveLegsToFront(t.legs)
            want = before
        ctx.check(list(t.labels) == want + [l for l in before if l not in want], lambda: 'moving %r to the front of %r gave %r' % (want, before, t.labels))
    elif k in ('outProduct', 'outProductLegs'):
        if k == 'outProduct':
            leg = t.outProduct(list(op[1]), op[2])
        else:
            leg = t.outProduct([t.getLeg(l) for l in op[1]], op[2])
        mout(m, op[1], op[2])
        ctx.check(leg is t.getLeg(op[2]) and leg.dim == m.arr.shape[0], 'outProduct returned another leg')
    elif k == 'sum':
        dim = m.arr.shape[m.axis(op[1])]
        t.sumOutLegByLabel(op[1], weights=weights(dim, op[2]))
        msum(m, op[1], op[2], dim)
    elif k == 'sumLeg':
        dim = m.arr.shape[m.axis(op[1])]
        t.sumOutLeg(t.getLeg(op[1]), weights=weights(dim, op[2]))
        msum(m, op[1], op[2], dim)
    elif k == 'sumList':
        dim = m.arr.shape[m.axis(op[1][0])]
        t.sumOutLegByLabel(list(op[1]), weights=weights(dim, op[2]))
        for l in op[1]:
            msum(m, l, op[2], dim)
    agree(r, m, ctx, op)
    return r, m


def agree(r, m, ctx, op):
    t = r.t
    ctx.check(sorted(t.labels) == sorted(m.labels), lambda: 'after %r: labels %r, expected %r' % (op, t.labels, m.labels))
    consistent_legs(t, 'after %r:' % (op,))
    got = by_labels(t, m.labels)
    ctx.check(same(got, m.arr), lambda: 'after %r: value %s, expected %s (labels %r)' % (op, show(got), show(m.arr), m.labels))
    ctx.check(np.iscomplexobj(got) == np.iscomplexobj(m.arr), lambda: 'after %r: real/complex changed' % (op,))
    for l, c in zip(m.labels, m.conn):
        other = t.getLeg(l).anotherSide()
        if c is None:
            ctx.check(other is None, lambda: 'after %r: leg %r is linked' % (op, l))
        else:
            ctx.check(other is r.outside[c], lambda: 'after %r: leg %r lost its link' % (op, l))


def key(r, m):
    t = r.t
    a = np.asarray(t.a)
    return jkey([str(a.dtype), list(t.labels), list(a.shape), list(a.strides), [str(c) for c in m.conn], m.labels], a)


def observe(r, m, ctx):
    t = r.t
    L = list(t.labels)
    n = len(L)
    arr = m.order(L)
    ctx.check(same(t.toVector(), arr.reshape(-1)), 'toVector is not the data in the order of the labels')
    ctx.check(same(t.toTensor(), arr), 'toTensor() is not the data in the order of the labels')
    ctx.check(close(t.norm(), np.sqrt(np.sum(np.abs(arr) ** 2))), 'norm')
    ctx.check(t.totalSize == arr.size, 'totalSize')
    ctx.check(t.isFloatTensor() == np.issubdtype(arr.dtype, np.floating), 'isFloatTensor')
    if n:
        ctx.check(t.chi == arr.shape[0] and t.bondDimension() == arr.shape[0], 'bondDimension')
    for i, l in enumerate(L):
        ctx.check(t.indexOfLabel(l) == i and t.indexOfLabel(l, backward=True) == i, 'indexOfLabel')
        ctx.check(t.shapeOfLabel(l) == arr.shape[i] and t.shapeOfIndex(i) == arr.shape[i], 'shapeOfLabel')
        ctx.check(t.getLeg(l) is t.legs[i] and t.indexOfLeg(t.legs[i]) == i, 'getLeg')
        ctx.check(t.labelInTensor(l), 'labelInTensor')
    ctx.check(tuple(t.shapeOfLabels(L[::-1])) == arr.shape[::-1], 'shapeOfLabels')
    ctx.check(list(t.getLabelIndices(L[::-1])) == list(range(n))[::-1], 'getLabelIndices')
    ctx.check(t.labelsInTensor(L) and not t.labelsInTensor(L + ['missing']) and not t.labelInTensor('missing'), 'labelsInTensor')
    ctx.check(t.indexOfLabel('missing') == -1 and t.getLeg('missing') is None and t.shapeOfLabel('missing') == -1, 'unknown label lookup')
    ctx.check(all(x is y for x, y in zip(t.complementLegs(t.legs[:1]), t.legs[1:])), 'complementLegs')
    if n == 0:
        ctx.check(same(t.single(), arr), 'single()')
    else:
        ctx.check(refused(lambda: t.single()), 'single() accepted a tensor with legs')
    # matrices and traces: every split of the legs, two orders on each side, four ways to ask
    for mask in range(2 ** n):
        rows = [l for i, l in enumerate(L) if mask >> i & 1]
        cols = [l for l in L if l not in rows]
        for rr, cc in ((rows, cols), (rows[::-1], cols[::-1])):
            # several labels, indices or legs at a time
            at = [L.index(l) for l in rr]
            legs = [t.legs[i] for i in at]
            ctx.check(list(t.getLabelIndices(list(rr))) == at and list(t.getLegIndices(list(legs))) == at, lambda: 'positions of %r' % (rr,))
            ctx.check(tuple(t.shapeOfLabels(list(rr))) == tuple(t.shapeOfIndices(at)) == tuple(arr.shape[i] for i in at), lambda: 'shape of %r' % (rr,))
            ctx.check([id(x) for x in t.getLegsByLabel(list(rr))] == [id(x) for x in legs], lambda: 'getLegsByLabel(%r)' % (rr,))
            ctx.check([id(x) for x in t.complementLegs(list(legs))] == [id(t.getLeg(l)) for l in cols], lambda: 'complementLegs(%r)' % (rr,))
            ctx.check(t.labelsInTensor(list(rr)) and not t.labelsInTensor(['missing'] + rr) and (not rr or not t.labelsInTensor(rr[:1] + ['missing'] + rr[1:])), lambda: 'labelsInTensor(%r)' % (rr,))
            mat = m.order(rr + cc).reshape(int(np.prod([arr.shape[L.index(l)] for l in rr])), -1)
            got = t.toMatrix(rows=list(rr), cols=list(cc))
            ctx.check(same(got, mat), lambda: 'toMatrix(%r, %r) gave %s, expected %s' % (rr, cc, show(got), show(mat)))
            got = t.toMatrix(rows=[t.getLeg(l) for l in rr], cols=[t.getLeg(l) for l in cc])
            ctx.check(same(got, mat), 'toMatrix by legs')
            if mat.shape[0] == mat.shape[1]:
                ctx.check(close(t.trace(rows=list(rr), cols=list(cc)), sum(mat[i, i] for i in range(len(mat)))), 'trace')
            elif rr and cc:
                ctx.check(refused(lambda: t.trace(rows=list(rr), cols=list(cc))), 'trace of a non-square matrix')
        mat = m.order(rows + cols).reshape(int(np.prod([arr.shape[L.index(l)] for l in rows])), -1)
        ctx.check(same(t.toMatrix(rows=list(rows)), mat), lambda: 'toMatrix(rows=%r)' % (rows,))
        ctx.check(same(t.toMatrix(cols=list(cols)), mat), lambda: 'toMatrix(cols=%r)' % (cols,))
    # requests that name an unknown label change nothing
    bad = [lambda: t.renameLabel('missing', 'q'), lambda: t.sumOutLegByLabel('missing'), lambda: t.getLegsByLabel(L[:1] + ['missing']), lambda: t.getLegsByLabel(['missing'] + L), lambda: t.moveLabelsToFront(L[:1] + ['missing']),
           lambda: t.reArrange(L[:-1] + ['missing']), lambda: t.reArrange(L + ['missing']), lambda: t.outProduct(L[:1] + ['missing'], 'q'),
           lambda: t.outProduct(['missing'] + L[:1], 'q'), lambda: t.toTensor(L[1:] + ['missing']), lambda: t.sumOutLeg(Leg(None, 2, 'missing')),
           lambda: t.toMatrix(rows=L[:1] + ['missing']) if L else None, lambda: t.renameLabels(['missing'], ['q']), lambda: t.sumOutLegByLabel(['missing'], weights=[1.0]),
           # legs of no or another tensor, the same leg twice
           lambda: t.moveLegsToFront(t.legs[:1] + [Leg(None, 2, 'missing')]), lambda: t.outProduct(t.legs[:1] + [Leg(None, 2, 'missing')], 'q'),
           lambda: t.moveLegsToFront(t.legs[:1] * 2), lambda: t.outProduct(t.legs[:1] * 2, 'q'), lambda: t.moveLabelsToFront(L[:1] * 2),
           lambda: t.outProduct(L[:1] * 2, 'q'), lambda: t.renameLabels(L[:1] * 2, ['q'])] if L else []
    if any('-' in l for l in L):
        bad.append(lambda: t.addTensorTag('S'))
    for f in bad:
        before = (list(t.legs), list(t.labels), np.array(t.a))
        refused(f)
        ctx.check(len(before[0]) == len(t.legs) and all(x is y for x, y in zip(before[0], t.legs)) and before[1] == list(t.labels)
                  and same(before[2], t.a), 'a request naming an unknown label changed the tensor: labels %r -> %r' % (before[1], list(t.labels)))
    if n:
        for p in itertools.permutations(L) if n <= 3 else [L[::-1], L[1:] + L[:1]]:
            ctx.check(same(t.toTensor(list(p)), m.order(list(p))), 'toTensor(%r)' % (p,))
    agree(r, m, ctx, 'observers')
    ctx.outcome('rank%d' % n)


def refused(f):
    try:
        f()
    except (AssertionError, ValueError, TypeError, AttributeError, KeyError, IndexError):
        return True
    return False


# ---- tensors with repeated labels: a label stands for its legs in order (the first one unless asked from the back)
def cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for labels in itertools.product('ab' if n > 3 else 'abc', repeat=n):
            if len(set(labels)) < n:
                yield {'repeated': list(labels), 'depth': 2 if n <= 3 or tier == 'thorough' and n == 4 else 1}


class Plain:
    """Labels and array in the order of the legs; uid identifies a leg through all histories."""

    def __init__(self, labels, arr, uid=None):
        self.labels, self.arr, self.uid = list(labels), arr, list(range(len(labels))) if uid is None else list(uid)

    def copy(self):
        return Plain(self.labels, self.arr, self.uid)

    def occurrences(self, wanted):
        """Indices of the labels asked for, repeated ones in order; None if there are not enough."""
        left = list(enumerate(self.labels))
        out = []
        for w in wanted:
            hit = next((i for i, l in left if l == w), None)
            if hit is None:
                return None
            left = [(i, l) for i, l in left if i != hit]
            out.append(hit)
        return out

    def front(self, idx):
        order = idx + [i for i in range(len(self.labels)) if i not in idx]
        self.arr = np.transpose(self.arr, order)
        self.labels = [self.labels[i] for i in order]
        self.uid = [self.uid[i] for i in order]

    def drop(self, i, w):
        arr = self.arr
        if w is not None:
            arr = arr * w.reshape([-1 if j == i else 1 for j in range(arr.ndim)])
        self.arr = arr.sum(axis=i)
        del self.labels[i], self.uid[i]


def repeated_ops(m):
    names = sorted(set(m.labels))
    out = [['rename', x, 'q'] for x in names] + [['renames', [x, x], ['q', 'r']] for x in names] + [['tag'], ['copy']]
    for x in names:
        for back in (False, True):
            out.append(['sum', x, back, False])
            out.append(['sum', x, back, True])
        out.append(['sumList', [x, x]])
    for r in range(1, len(m.labels) + 1):
        for wanted in sorted(set(itertools.permutations(m.labels, r))):
            out.append(['front', list(wanted)])
            out.append(['outProduct', list(wanted)])
            if r == len(m.labels):
                out.append(['reArrange', list(wanted)])
                out.append(['toTensor', list(wanted)])
    return out


def repeated_apply(t, m, op, ctx):
    k = op[0]
    if k == 'rename':
        t.renameLabel(op[1], op[2])
        m.labels[m.labels.index(op[1])] = op[2]
    elif k == 'renames':
        t.renameLabels(list(op[1]), list(op[2]))
        for a, b in zip(op[1], op[2]):
            if a in m.labels:
                m.labels[m.labels.index(a)] = b
    elif k == 'tag':
        if any('-' in l for l in m.labels):
            return t
        t.addTensorTag('T')
        m.labels = ['T-' + l for l in m.labels]
    elif k == 'copy':
        t = t.copy()
    elif k == 'sum':
        i = [j for j, l in enumerate(m.labels) if l == op[1]][-1 if op[2] else 0]
        w = np.array(WEIGHTS[:m.arr.shape[i]]) if op[3] else None
        t.sumOutLegByLabel(op[1], backward=op[2], weights=w)
        m.drop(i, w)
    elif k == 'sumList':
        t.sumOutLegByLabel(list(op[1]))
        for x in op[1]:
            if x in m.labels:
                m.drop(m.labels.index(x), None)
    else:
        idx = m.occurrences(op[1])
        got = None
        if k == 'front':
            t.moveLabelsToFront(list(op[1]))
        elif k == 'reArrange':
            t.reArrange(list(op[1]))
        elif k == 'toTensor':
            got = t.toTensor(list(op[1]))
        elif k == 'outProduct':
            t.outProduct(list(op[1]), 'new')
        m.front(idx)
        if k == 'outProduct':
            r = len(idx)
            m.arr = m.arr.reshape((int(np.prod(m.arr.shape[:r])),) + m.arr.shape[r:])
            m.labels = ['new'] + m.labels[r:]
            m.uid = [100 + len(m.labels)] + m.uid[r:]
        ctx.check(got is None or same(got, m.arr), lambda: 'toTensor(%r) gave %s, expected %s' % (op[1], show(got), show(m.arr)))
    ctx.step()
    ctx.check(list(t.labels) == m.labels and same(t.a, m.arr), lambda: 'after %r: labels %r, expected %r; array %s, expected %s' % (
        op, t.labels, m.labels, show(t.a), show(m.arr)))
    consistent_legs(t, 'after %r:' % (op,))
    return t


def repeated_observe(t, m, ctx):
    L = m.labels
    for x in sorted(set(L)) + ['missing']:
        places = [i for i, l in enumerate(L) if l == x]
        for back in (False, True):
            i = (places[-1] if back else places[0]) if places else -1
            leg = t.getLeg(x, backward=back)
            ctx.check(t.indexOfLabel(x, backward=back) == i and (leg is t.legs[i] if places else leg is None)
                      and t.shapeOfLabel(x, backward=back) == (m.arr.shape[i] if places else -1), lambda: 'leg of %r (backward=%r) in %r' % (x, back, L))
        ctx.check(t.labelInTensor(x) == bool(places), 'labelInTensor')
    for x, y in itertools.product(sorted(set(L)), repeat=2):
        if x != y or L.count(x) > 1:
            for back in (False, True):
                i = [j for j, l in enumerate(L) if l == x][-1 if back else 0]
                j = [q for q, l in enumerate(L) if l == y][-1 if back != (x == y) else 0]
                ctx.check(list(t.getLabelIndices([x, y], backward=back)) == [i, j], lambda: 'getLabelIndices(%r, backward=%r) of %r gave %r' % ([x, y], back, L, t.getLabelIndices([x, y], backward=back)))
                ctx.check(tuple(t.shapeOfLabels([x, y], backward=back)) == (m.arr.shape[i], m.arr.shape[j]), 'shapeOfLabels')
        # more occurrences than there are: refused without effect
        before = (list(t.legs), list(t.labels), np.array(t.a))
        wanted = [x] * (L.count(x) + 1)
        for f in (lambda: t.moveLabelsToFront(wanted), lambda: t.outProduct(wanted, 'z'), lambda: t.reArrange(wanted), lambda: t.toTensor(wanted)):
            ctx.check(refused(f), lambda: 'a request for %r was accepted by %r' % (wanted, L))
            ctx.check(all(p is q for p, q in zip(before[0], t.legs)) and before[1] == list(t.labels) and same(before[2], t.a), 'a refused request changed the tensor')
    for x in sorted(set(L)):
        i = L.index(x)
        mat = np.moveaxis(m.arr, i, 0).reshape(m.arr.shape[i], -1)
        ctx.check(same(t.toMatrix(rows=[x]), mat), lambda: 'toMatrix(rows=[%r]) of %r' % (x, L))
        ctx.check(same(t.toMatrix(cols=[t.legs[i]]), mat.T), 'toMatrix by leg')


def repeated(case, ctx):
    labels, depth = case['repeated'], case['depth']
    dims = [2, 3, 2, 3, 2][:len(labels)] if len(set(labels)) == 1 else [2, 3, 4, 2, 3][:len(labels)]
    arr = generic(dims, 7)

    def build(history):
        t, m = Tensor(data=arr, labels=list(labels)), Plain(labels, arr)
        for op in history:
            t = repeated_apply(t, m, op, ctx)
        return t, m

    todo = [list(case['history'])] if 'history' in case else [[]]
    while todo:
        h = todo.pop()

        def visit():
            t, m = build(h)
            for op in repeated_ops(m) if len(h) < depth else []:
                todo.append(h + [op])
            repeated_observe(t, m, ctx)
            ctx.trace()
            ctx.state([m.labels, m.uid, labels])
        ctx.guarded(visit, dict(case, history=h, depth=0))
    ctx.outcome('repeated %d' % len(labels))


def systems(tier):
    return range(len(INITIAL))


def system(i, tier):
    return {'make': maker(*INITIAL[i]), 'ops': lambda r, m: ops(m), 'apply': apply, 'observe': observe, 'key': key,
            'depth': depth_of(INITIAL[i][0], tier)}


def run_case(case, ctx):
    if 'repeated' in case:
        return repeated(case, ctx)
    run_only(sys.modules[__name__], case, ctx)
