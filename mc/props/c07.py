"""C07: a diagonal tensor behaves as the dense tensor it denotes, in every history."""
import itertools
import sys

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.leg import Leg
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.contract import contractTwoTensors

from mc.histories import run_only
from mc.model import generic, diag_dense, by_labels, same, close, show, dense, consistent_legs, jkey
from mc.props.c06 import Model, Real, data_of, agree, weights, msum, refused

PROPERTY = 'C07'
RULE = ('breadth-first over all histories of renaming, tagging, reordering, weighted/unweighted summing out, copying and '
        'contracting with dense and diagonal partners on diagonal tensors of rank 0..4 and dimension 1..3 (rank to 7, dimension to 30, array layouts and other names at smaller depth); every state is compared '
        'with the labelled dense array')
ASSUMPTIONS = ['numpy is the reference for the dense operations']

INITIAL = [(0, 1, False), (0, 1, True), (1, 3, False), (1, 1, False), (2, 3, False), (2, 2, True), (2, 1, False),
           (3, 2, False), (3, 3, True), (4, 2, False), (3, 1, False),
           (1, 2, 'int'), (2, 3, 'int'), (3, 2, 'int'), (2, 2, 'f32'),
           (5, 2, False), (6, 2, True), (7, 2, False), (5, 3, 'int'), (2, 11, False), (1, 30, True), (3, 6, False),
           (2, 3, 'slice'), (3, 2, 'readonly'), (2, 3, False, ['10', '1']), (3, 2, False, ['x y', 'ab', 'a'])]


def bounds(tier):
    return {'rank': '0..4 (to 7 at depth 1)', 'dimension': '1..3 (to 30 at depth 2)', 'depth': 4 if tier == 'quick' else 5}


def depth_of(rank, dim, tier):
    if rank > 4 or dim > 4:
        return 2 if rank < 3 else 1
    return {0: 3, 1: 4, 2: 4, 3: 3, 4: 3}[rank] + (tier == 'thorough')


def maker(rank, dim, cplx, names=None):
    def make():
        labels = list(names or ['w', 'x', 'y', 'z', 'v', 'u', 's'][:rank])
        vec = data_of((dim,) if rank else (), 5, False if cplx in ('slice', 'readonly') else cplx)
        arr = diag_dense(vec, rank)
        if cplx == 'slice':
            vec = np.repeat(vec, 2)[::2]
        elif cplx == 'readonly':
            vec = vec.copy()
            vec.flags.writeable = False
        t = DiagonalTensor(data=vec, labels=labels, shape=(dim,) * rank) if rank else DiagonalTensor(data=vec)
        outside, conn = {}, [None] * rank
        for i in range(0, rank, 2):
            leg = Leg(None, dim, 'out%d' % i)
            makeLink(t.legs[i], leg)
            outside[i] = leg
            conn[i] = i
        m = Model(labels, arr, conn)
        m.mixed = cplx not in (False, True)
        return Real(t, outside), m
    return make


def ops(m):
    if m.kind == 'dense':
        return []
    L = sorted(m.labels)
    n = len(L)
    out = []
    fresh = next(x for x in ('n0', 'n1', 'n2', 'n3', 'n4', 'n5', 'n6', 'n7') if not any(l.split('-')[-1].startswith(x) for l in L))
    for l in L:
        out.append(['rename', l, fresh])
    if not any('-' in l for l in L):
        out.append(['tag', 'T'])
    if len({l.split('-', 1)[-1] for l in L}) == n:
        out.append(['untag'])
    out.append(['copy'])
    perms = list(itertools.permutations(L)) if n <= 3 else [tuple(L[::-1]), tuple(L[1:] + L[:1])]
    for p in perms:
        out.append(['reArrange', list(p)])
        out.append(['toTensor', list(p)])
    for r in (1, 2):
        for p in itertools.permutations(L, r):
            out.append(['front', list(p)])
            out.append(['frontLegs', list(p)])
    if n:
        out.append(['frontAll'])
    for l in L:
        for w in (0, 1):
            out.append(['sum', l, w])
            out.append(['sumLeg', l, w])
        if m.mixed:
            out.append(['sum', l, 2])
            out.append(['sumLeg', l, 3])
        out.append(['withDiag', [l], 2, fresh])
        out.append(['withDiag', [l], 1, fresh])
        if n <= 3:
            out.append(['withDiag', [l], 3, fresh])
        out.append(['withDense', [l], fresh])
    for a, b in itertools.combinations(L, 2):
        out.append(['sumList', [a, b], 0])
        out.append(['sumList', [b, a], 1])
        if m.mixed:
            out.append(['sumList', [b, a], 2])
        out.append(['withDiag', [a, b], 2, fresh])
        out.append(['withDiag', [b, a], 3, fresh])
        out.append(['withDense', [b, a], fresh])
    return out


def contract_model(m, labs, arr, newLabels):
    """Labelled contraction of m with arr, whose first axes pair with labs."""
    ids = {l: i for i, l in enumerate(m.labels)}
    bids = [ids[l] for l in labs] + [30 + i for i in range(len(newLabels))]
    keep = [l for l in m.labels if l not in labs]
    res = np.einsum(m.arr, [ids[l] for l in m.labels], arr, bids, [ids[l] for l in keep] + bids[len(labs):])
    m.conn = [m.conn[m.axis(l)] for l in keep] + [None] * len(newLabels)
    m.labels = keep + newLabels
    m.arr = res


def apply(r, m, op, ctx):
    t, k = r.t, op[0]
    if k == 'rename':
        t.renameLabel(op[1], op[2])
        m.labels[m.axis(op[1])] = op[2]
    elif k == 'tag':
        t.addTensorTag(op[1])
        m.labels = [op[1] + '-' + l for l in m.labels]
    elif k == 'untag':
        t.removeTensorTag()
        m.labels = [l.split('-', 1)[-1] for l in m.labels]
    elif k == 'copy':
        r.t = t.copy()
        m.conn = [None] * len(m.labels)
    elif k == 'reArrange':
        t.reArrange(list(op[1]))
        ctx.check(list(t.labels) == op[1], 'reArrange gave another order')
    elif k == 'toTensor':
        got = t.toTensor(list(op[1]))
        ctx.check(same(got, m.order(op[1])), lambda: 'toTensor(%r) gave %s' % (op[1], show(got)))
    elif k in ('front', 'frontLegs', 'frontAll'):
        before = list(t.labels)
        want = before if k == 'frontAll' else op[1]
        if k == 'front':
            t.moveLabelsToFront(list(want))
        else:
            t.moveLegsToFront(t.legs if k == 'frontAll' else [t.getLeg(l) for l in want])
        ctx.check(list(t.labels) == want + [l for l in before if l not in want], lambda: 'moving %r to the front of %r gave %r' % (want, before, t.labels))
    elif k in ('sum', 'sumLeg', 'sumList'):
        labs = op[1] if k == 'sumList' else [op[1]]
        dim = m.arr.shape[m.axis(labs[0])]
        left = [l for l in t.labels if l not in labs]
        if k == 'sumLeg':
            t.sumOutLeg(t.getLeg(op[1]), weights=weights(dim, op[2]))
        else:
            t.sumOutLegByLabel(list(labs) if k == 'sumList' else op[1], weights=weights(dim, op[2]))
        for l in labs:
            msum(m, l, op[2], dim)
        ctx.check(list(t.labels) == left, lambda: 'summing out %r leaves the legs %r, expected %r' % (labs, t.labels, left))
    elif k in ('withDiag', 'withDense'):
        labs = op[1]
        dim = m.arr.shape[m.axis(labs[0])]
        for l in labs:
            t.getLeg(l).bond = None
        if k == 'withDiag':
            rank = op[2]
            names = ['c%d' % i for i in range(len(labs))] + [op[3] + chr(97 + i) for i in range(rank - len(labs))]
            vec = generic((dim,), 3 + rank)
            b = DiagonalTensor(data=vec, shape=(dim,) * rank, labels=names)
            arr = diag_dense(vec, rank)
        else:
            names = ['c%d' % i for i in range(len(labs))] + [op[2]]
            arr = generic((dim,) * len(labs) + (2,), 4)
            b = Tensor(data=arr, labels=names)
        makeLink([t.getLeg(l) for l in labs], [b.legs[i] for i in range(len(labs))])
        r.t = contractTwoTensors(t, b) if len(labs) == 1 else contractTwoTensors(b, t)
        contract_model(m, labs, arr, names[len(labs):])
        if k == 'withDense':
            m.kind = 'dense'
        ctx.check(r.t.diagonalFlag == (k == 'withDiag'), lambda: 'contraction returned a %s' % r.t.typeName())
    agree(r, m, ctx, op)
    if m.kind == 'diag' and k != 'withDense':
        ctx.check(r.t.diagonalFlag, 'the tensor is no longer diagonal')
    return r, m


Model.kind = 'diag'


def key(r, m):
    return jkey([str(np.asarray(r.t.a).dtype), list(r.t.labels), m.kind, [str(c) for c in m.conn], m.labels], np.asarray(r.t.a))


def observe(r, m, ctx):
    t = r.t
    L = list(t.labels)
    n = len(L)
    arr = m.order(L)
    if m.kind == 'dense':
        ctx.outcome('dense result')
        return
    dim = arr.shape[0] if n else 1
    ctx.check(t.bondDimension() == dim and t.chi == dim, lambda: 'bondDimension %r' % t.bondDimension())
    ctx.check(tuple(t.shape) == arr.shape and t.dim == n, 'shape')
    ctx.check(same(t.toTensor(), arr), lambda: 'toTensor() gave %s, expected %s' % (show(t.toTensor()), show(arr)))
    ctx.check(t.isFloatTensor() == np.issubdtype(arr.dtype, np.floating), 'isFloatTensor() is %r for data of type %s' % (t.isFloatTensor(), arr.dtype))
    ctx.check(close(t.norm(), np.sqrt(np.sum(np.abs(arr) ** 2))), 'norm')
    for i, l in enumerate(L):
        ctx.check(t.indexOfLabel(l) == i and t.shapeOfLabel(l) == dim and t.getLeg(l) is t.legs[i], 'leg lookup')
    ctx.check(tuple(t.shapeOfLabels(L)) == arr.shape, 'shapeOfLabels')
    if n == 0:
        ctx.check(same(t.single(), arr), 'single()')
    else:
        ctx.check(refused(lambda: t.single()), 'single() accepted a tensor with legs')
    for mask in range(2 ** n):
        rows = [l for i, l in enumerate(L) if mask >> i & 1]
        cols = [l for l in L if l not in rows]
        mat = m.order(rows + cols).reshape(dim ** len(rows), dim ** len(cols))
        ctx.check(same(t.toMatrix(rows=list(rows), cols=list(cols)), mat), lambda: 'toMatrix(%r, %r)' % (rows, cols))
        ctx.check(same(t.toMatrix(rows=list(rows)), mat) and same(t.toMatrix(cols=list(cols)), mat), 'toMatrix with one side given')
        if len(rows) == len(cols):
            ctx.check(close(t.trace(rows=list(rows), cols=list(cols)), np.trace(mat)), 'trace')
    if n >= 1:
        for p in [L, L[::-1]]:
            before = (list(t.legs), np.array(t.a))
            try:
                t.outProduct(list(p), 'q')
                ctx.fail('combining legs of a diagonal tensor was not refused')
            except TypeError:
                pass
            ctx.check(before[0] == list(t.legs) and same(before[1], t.a), 'refused outProduct changed the tensor')
    bad = [lambda: t.renameLabel('missing', 'q'), lambda: t.sumOutLegByLabel('missing'), lambda: t.moveLabelsToFront(L[:1] + ['missing']),
           lambda: t.reArrange(L + ['missing']), lambda: t.sumOutLeg(Leg(None, 2, 'missing')), lambda: t.toTensor(L[1:] + ['missing']),
           lambda: t.sumOutLegByLabel(['missing'], weights=[1.0])]
    for f in bad:
        before = (list(t.legs), list(t.labels), np.array(t.a), tuple(t.shape))
        refused(f)
        ctx.check(before[0] == list(t.legs) and before[1] == list(t.labels) and same(before[2], t.a) and before[3] == tuple(t.shape),
                  'a request naming an unknown label changed the tensor')
    agree(r, m, ctx, 'observers')
    ctx.outcome('rank%d dim%d' % (n, dim))


def systems(tier):
    return range(len(INITIAL))


def system(i, tier):
    return {'make': maker(*INITIAL[i]), 'ops': lambda r, m: ops(m), 'apply': apply, 'observe': observe, 'key': key,
            'depth': depth_of(*INITIAL[i][:2], tier) - (INITIAL[i][2] == 'int' and INITIAL[i][0] == 2)}


def run_case(case, ctx):
    run_only(sys.modules[__name__], case, ctx)
