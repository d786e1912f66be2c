"""C14: a finite tensor network gives the value its current definition demands."""
import itertools
import sys

import numpy as np

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
from CTL.tensornetwork.tensordict import TensorDict

from mc.histories import run_only
from mc.nets import Net, multigraphs, dim_classes, larger
from mc.model import generic, diag_dense, einsum, same, show, consistent_legs, dense, jkey

PROPERTY = 'C14'
RULE = ('breadth-first over all histories of adding/removing tensors, linking, renaming before and after, combining legs after, locking, '
        'unlocking and contracting with tensors of changing dimensions, kinds and order (dict or TensorDict, tags kept or removed), next to a '
        'second network; every multigraph on up to 4 tensors (listed ones of 6) as a network contracted repeatedly with tensors of other '
        'dimensions and kinds, names sharing prefixes or containing other signs; every contraction compared with einsum of the current definition, inputs compared with a snapshot')
ASSUMPTIONS = ['a tensor is removed only while it has no link; names of legs are unambiguous']

# every leg belongs to a bond class; A.a2-B.b1 : p, B.b2-C.c1 : q, A.a1-C.c2 : r, A.a3-B.b3 : s
CLASS = {'a1': 'r', 'a2': 'p', 'a3': 's', 'b1': 'p', 'b2': 'q', 'b3': 's', 'c1': 'q', 'c2': 'r'}
LEGS = {'A': ['a1', 'a2', 'a3'], 'B': ['b1', 'b2', 'b3'], 'C': ['c1', 'c2']}
LINKS = [('A', 'a2', 'B', 'b1'), ('B', 'b2', 'C', 'c1'), ('C', 'c2', 'A', 'a1'), ('B', 'b3', 'A', 'a3')]
DIMS = [{'p': 2, 'q': 3, 'r': 2, 's': 2}, {'p': 3, 'q': 2, 'r': 4, 's': 1}, {'p': 2, 'q': 3, 'r': 3, 's': 2}]

INITS = [
    {'names': None, 'real': True, 'ops': [['add', 'A'], ['add', 'B']]},
    {'names': ['A', 'B', 'C'], 'real': True, 'ops': [['link', 0], ['link', 1], ['link', 2]]},
    {'names': ['C', 'A', 'B'], 'real': False, 'ops': [['link', 1], ['link', 0]]},
    {'names': ['B'], 'real': False, 'ops': []},
    {'names': None, 'real': False, 'ops': [['add', 'A'], ['add', 'C'], ['contract', 0, 'D', 0, 0], ['unlock'], ['add', 'B']]},
]


def depth(tier):
    return 4 if tier == 'quick' else 5


def bounds(tier):
    return {'tensors': 3, 'depth': depth(tier), 'initial_definitions': len(INITS), 'dimension_sets': len(DIMS)}


class Model:
    def __init__(self, names):
        self.names = list(names or [])
        self.links = []
        self.pre = {}      # leg -> new name
        self.post = {}     # leg -> (shown name at that time, new name)
        self.outs = []     # ([legs], new)
        self.locked = False

    def linked(self, leg):
        return any(leg in LINKS[i] for i in self.links)

    def used(self, leg):
        return leg in self.post or any(leg in ls for ls, _ in self.outs)


def owner(leg):
    return leg[0].upper()


class World:
    pass


def maker(k):
    def make():
        init = INITS[k]
        w = World()
        given = None if init['names'] is None else list(init['names'])
        w.ftn = FiniteTensorNetwork(given, realCost=init['real']) if given is not None else FiniteTensorNetwork(realCost=init['real'])
        w.other = FiniteTensorNetwork()
        if given is not None:
            given.append('Z')   # what the caller does with its own list later must not matter
        m = Model(init['names'])
        for op in init['ops']:
            w, m = apply(w, m, op, None)
        return w, m
    return make


def ops_for(m):
    out = []
    for n in 'ABC':
        if n not in m.names:
            out.append(['add', n])
        elif not any(m.linked(l) for l in LEGS[n]) and not any(m.used(l) or l in m.pre for l in LEGS[n]):
            out.append(['remove', n])
    for i, (a, la, b, lb) in enumerate(LINKS):
        if i not in m.links and a in m.names and b in m.names and not m.used(la) and not m.used(lb):
            out.append(['link', i])
    for leg in ('a1', 'b1'):
        if owner(leg) in m.names and not m.linked(leg) and not m.used(leg):
            if leg not in m.pre or m.pre[leg] == 'P' + leg:
                out.append(['unpre', leg] if leg in m.pre else ['pre', leg])
    if 'A' in m.names and not any(m.linked(l) or m.used(l) for l in ('a1', 'a3')):
        if m.pre.get('a1') == 'a3':
            out.append(['unswap'])
        elif 'a1' not in m.pre:
            out.append(['swap'])
    for leg in ('a3', 'c2'):
        if owner(leg) in m.names and not m.linked(leg) and not any(leg in ls for ls, _ in m.outs):
            out.append(['unpost', leg] if leg in m.post else ['post', leg])
    for i, (ls, new) in enumerate(OUTS):
        if all(owner(l) in m.names and not m.linked(l) and not m.used(l) for l in ls):
            out.append(['out', i])
    out.append(['unlock'] if m.locked else ['lock'])
    if m.names:
        for d in range(len(DIMS)):
            for kinds in ('D', 'G'):
                if kinds == 'G' and (DIMS[d]['q'] != DIMS[d]['r'] or 'C' not in m.names):
                    continue
                # order of the dictionary, keep tags / container
                out.append(['contract', d, kinds, (d + len(m.links)) % 2, (d + len(m.pre)) % 2])
    out.append(['other'])
    return out


OUTS = [(['a3', 'b2'], 'x'), (['c1', 'c2'], 'y'), (['b3', 'a1'], 'z')]


def library(d, kinds):
    lib, arrs = {}, {}
    for i, (n, legs) in enumerate(LEGS.items()):
        shape = tuple(DIMS[d][CLASS[l]] for l in legs)
        if n == 'C' and kinds == 'G':
            v = generic(shape[:1], 3)
            lib[n] = DiagonalTensor(data=v, shape=shape, labels=list(legs))
            arrs[n] = diag_dense(v, 2)
        else:
            arrs[n] = generic(shape, i)
            order = legs[::-1] if (d + i) % 2 else legs
            lib[n] = Tensor(data=np.transpose(arrs[n], [legs.index(l) for l in order]), labels=list(order))
    return lib, arrs


def expected(m, arrs):
    """(labels, array) of the network as defined; labels with tags."""
    ids = {}
    for i in m.links:
        _, la, _, lb = LINKS[i]
        ids[la] = ids[lb] = len(ids)
    out = []
    terms = []
    for n in m.names:
        axes = []
        for l in LEGS[n]:
            if l not in ids:
                ids[l] = len(ids)
                out.append(l)
            axes.append(ids[l])
        terms.append((arrs[n], axes))
    arr = einsum(terms, [ids[l] for l in out])
    labels = list(out)
    for ls, new in m.outs:
        rest = [l for l in labels if l not in ls]
        arr = np.transpose(arr, [labels.index(l) for l in ls + rest])
        arr = arr.reshape((-1,) + arr.shape[len(ls):])
        labels = ['res-' + new] + rest
    names = []
    for l in labels:
        if l.startswith('res-'):
            names.append(l)
        elif l in m.post:
            names.append(owner(l) + '-' + m.post[l][1])
        else:
            names.append(owner(l) + '-' + m.pre.get(l, l))
    return names, arr


def snapshot(lib):
    return {n: ([l.name for l in t.legs], [id(l) for l in t.legs], [l.bond for l in t.legs], np.array(t.a)) for n, t in lib.items()}


def check(ctx, cond, msg):
    if ctx is None:
        assert cond, msg() if callable(msg) else msg
    else:
        ctx.check(cond, msg)


def apply(w, m, op, ctx):
    k = op[0]
    f = w.ftn
    if k == 'lock':
        f.lock()
        m.locked = True
    elif k == 'unlock':
        f.unlock()
        m.locked = False
    elif k == 'contract':
        contract(w, m, op, ctx)
    elif k == 'other':
        other(w, m, ctx)
    else:
        req = None
        if k == 'add':
            req = lambda: f.addTensor(op[1])
        elif k == 'remove':
            req = lambda: f.removeTensor(op[1])
        elif k == 'link':
            a, la, b, lb = LINKS[op[1]]
            req = lambda: f.addLink(a, m.pre.get(la, la), b, m.pre.get(lb, lb))
        elif k == 'pre':
            req = lambda: f.addPreNameChange(owner(op[1]), op[1], 'P' + op[1])
        elif k == 'unpre':
            req = lambda: f.removePreNameChange(owner(op[1]), op[1], 'P' + op[1])
        elif k in ('swap', 'unswap'):
            # the names of two legs are exchanged by way of a third name
            def req():
                for x, y in (('a1', 'T'), ('a3', 'a1'), ('T', 'a3')):
                    (f.addPreNameChange if k == 'swap' else f.removePreNameChange)('A', x, y)
        elif k == 'post':
            shown = m.pre.get(op[1], op[1])
            req = lambda: f.addPostNameChange(owner(op[1]), shown, 'Q' + op[1])
        elif k == 'unpost':
            req = lambda: f.removePostNameChange(owner(op[1]), m.post[op[1]][0], m.post[op[1]][1])
        elif k == 'out':
            ls, new = OUTS[op[1]]
            legs = [(owner(l), m.pre.get(l, l)) if i % 2 == 0 else owner(l) + '-' + m.pre.get(l, l) for i, l in enumerate(ls)]
            def req():
                f.addPostOutProduct(legs, new)
                legs.append(('A', 'a2'))   # nor what it does with this list later
        try:
            req()
            refused = False
        except AssertionError:
            refused = True
        check(ctx, refused == m.locked, '%r was %s by a network that is %slocked' % (op, 'refused' if refused else 'accepted', '' if m.locked else 'not '))
        if not refused:
            if k == 'add':
                m.names.append(op[1])
            elif k == 'remove':
                m.names.remove(op[1])
            elif k == 'link':
                m.links.append(op[1])
            elif k == 'pre':
                m.pre[op[1]] = 'P' + op[1]
            elif k == 'unpre':
                del m.pre[op[1]]
            elif k == 'swap':
                m.pre.update(a1='a3', a3='a1')
            elif k == 'unswap':
                del m.pre['a1'], m.pre['a3']
            elif k == 'post':
                m.post[op[1]] = (m.pre.get(op[1], op[1]), 'Q' + op[1])
            elif k == 'unpost':
                del m.post[op[1]]
            elif k == 'out':
                m.outs.append((OUTS[op[1]][0], OUTS[op[1]][1]))
    check(ctx, f.tensorCount == len(m.names), 'the network has %d tensors after %r, expected %r' % (f.tensorCount, op, m.names))
    return w, m


def contract(w, m, op, ctx):
    _, d, kinds, rev, keep = op
    lib, arrs = library(d, kinds)
    names = [n for n in sorted(m.names)]
    if rev:
        names = names[::-1]
    given = {n: lib[n] for n in names}
    before = snapshot(given)
    arg = TensorDict(dict(given)) if rev else dict(given)
    labels, arr = expected(m, arrs)
    single = m.names == ['C'] and kinds == 'G' and m.outs
    try:
        res = w.ftn.contract(arg, removeTensorTag=not keep)
    except TypeError:
        check(ctx, single, 'contract raised TypeError')
        m.locked = True
        return
    m.locked = True
    check(ctx, not single, 'legs of a diagonal tensor were combined')
    want = labels if keep else [l.split('-')[1] for l in labels]
    cheapest(w, m, d, kinds, ctx)
    consistent_legs(res, 'contract:')
    check(ctx, sorted(res.labels) == sorted(want), 'contract gives labels %r, expected %r' % (res.labels, want))
    val = dense(res)
    val = np.transpose(val, [res.labels.index(l) for l in want]) if want else val
    check(ctx, same(val, arr), 'contract of %r with links %r gives %s, expected %s' % (m.names, m.links, show(val), show(arr)))
    check(ctx, all(l.bond is None for l in res.legs), 'a leg of the result is linked')
    after = snapshot(given)
    for n in given:
        a, b = before[n], after[n]
        check(ctx, a[0] == b[0] and a[1] == b[1] and a[2] == b[2] and same(a[3], b[3]), 'contract changed its input %s: %r -> %r' % (n, a, b))
    if isinstance(arg, TensorDict):
        check(ctx, arg.tensorCount == len(given) and all(arg.getTensor(n) is given[n] for n in given), 'contract changed the tensor dictionary')


def cheapest(w, m, d, kinds, ctx):
    """With real costs the order is looked for again whenever a dimension has changed."""
    seq = getattr(w.ftn, 'optimalSeq', None)
    if not getattr(w.ftn, 'realCost', False) or seq is None or len(m.names) < 3:
        return
    ids, dims = [], []
    for i in m.links:
        a, la, b, _ = LINKS[i]
        ids.append((m.names.index(a), m.names.index(b)))
        dims.append(DIMS[d][CLASS[la]])
    for n in m.names:
        for l in LEGS[n]:
            if not m.linked(l):
                ids.append((m.names.index(n), None))
                dims.append(DIMS[d][CLASS[l]])
    # (the order is kept when a tensor of the same dimensions becomes diagonal: cheapest for one of the two)
    found = []
    for ks in ('DDD', ''.join('G' if n == 'C' else 'D' for n in m.names)):
        net = Net(3, ids, ks, dims)
        found.append((net.cost_of(seq, None), net.minimum(None)))
        if DIMS[d]['q'] != DIMS[d]['r']:
            break
    check(ctx, any(cost == best for cost, best in found), lambda: 'the order %r found for dimensions %r costs %r, the cheapest %r' % (seq, DIMS[d], found[0][0], found[0][1]))


def other(w, m, ctx):
    o = w.other
    check(ctx, o.tensorCount in (0, 2), 'a separate network has %r tensors' % (o.tensorCount,))
    if o.tensorCount == 0:
        o.addTensor('Y')
        o.addTensor('Z')
        o.addLink('Y', 'i', 'Z', 'i')
    y, z = Tensor(labels=['i', 'j'], data=generic((2, 3), 1)), Tensor(labels=['i'], data=generic((2,), 2))
    r = o.contract({'Y': y, 'Z': z})
    check(ctx, same(r.a, einsum([(y.a, [0, 1]), (z.a, [0])], [1])), 'a separate network gives another value')
    o.unlock()


def observe(w, m, ctx):
    f = w.ftn
    # wrong sets of tensors are refused
    lib, _ = library(0, 'D')
    if m.names:
        for wrong in ({n: lib[n] for n in m.names[1:]}, {n: lib[n] for n in 'ABC'} if len(m.names) < 3 else dict({n: lib[n] for n in 'ABC'}, D=lib['A'].copy())):
            try:
                f.contract(wrong)
                ctx.fail('a wrong set of tensors was accepted')
            except AssertionError:
                pass
        m.locked = True
        # twice with the same arguments, then with changed dimensions
        for d in (1, 1, 0, 2):
            contract(w, m, ['contract', d, 'D', d % 2, 0], ctx)
    other(w, m, ctx)
    ctx.outcome('%d tensors %d links %s' % (len(m.names), len(m.links), 'locked' if m.locked else ''))


def key(w, m):
    return jkey([m.names, m.links, m.pre, m.post, m.outs, m.locked, sorted((a, repr(b)) for a, b in vars(w.ftn).items()), w.other.tensorCount])


# ---- the container of tensors on its own: every history of setting, replacing, deleting and asking
DICT_OPS = [('set', 'A', 0), ('set', 'A', 1), ('set', 'B', 2), ('delete', 'A'), ('delete', 'B')]


def cases(tier):
    for first in DICT_OPS:
        yield {'dict': [list(first)], 'depth': 4 if tier == 'quick' else 6}
    big = tier != 'quick'
    for n, mult, freemax in ((1, 0, 2), (2, 3, 2), (3, 2 if big else 1, 1)):
        for edges in multigraphs(n, mult):
            for free in itertools.product(range(freemax + 1), repeat=n):
                yield {'net': n, 'e': edges, 'free': list(free)}
    for edges in multigraphs(4, 1):
        if big or len(edges) in (3, 4, 6):
            yield {'net': 4, 'e': edges, 'free': [1, 0, 0, 1]}
    for n, edges in larger('quick'):
        if n == 6 and len(edges) < 11:
            yield {'net': n, 'e': edges, 'free': [1] + [0] * (n - 1)}


# ---- whole networks, contracted again and again while dimensions and kinds of the tensors change
NAMES = [['A', 'B', 'C', 'D', 'E', 'F'], ['T', 'T1', 'T10', 'T11', 'T2', 'TT'], ['b', 'a', 'ab', 'ba', 'res', 'x']]


def whole(case, ctx):
    n = case['net']
    edges = [tuple(e) for e in case['e']]
    for v, f in enumerate(case['free']):
        edges += [(v, None)] * f
    kinds = [''.join(k) for k in itertools.product('DG', repeat=n)] if n < 3 else ['D' * n, ('GD' * n)[:n], 'D' * (n - 1) + 'G', 'G' * n]
    steps = [(k, m) for k in kinds for m in ([2, 3, 1, 2, 2, 3], [3, 1, 2, 2, 3, 2], [2])]
    if n > 4:
        steps = [(k, [1 + x % 2 for x in m]) for k, m in steps]
    for nm, names in enumerate(NAMES):
        for real in (True, False):
            for first in range(len(steps)):
                c = {'net': n, 'edges': edges, 'names': names[:n], 'dash': nm == 2, 'real': real, 'flip': first % 2, 'typical': [10, 2][nm % 2],
                     'steps': [list(x) for x in (steps[first], steps[(first + 1) % len(steps)], steps[first], steps[(first + 5) % len(steps)])][:4 if n < 4 else 2]}
                ctx.guarded(lambda: contracted(c, ctx), c)


def contracted(c, ctx):
    n, edges, names = c['net'], [tuple(e) for e in c['edges']], c['names']

    def leg(k, v):
        return ('e|%d %s' if c['dash'] else 'e%d%s') % (k, 'ab'[edges[k].index(v)])
    f = FiniteTensorNetwork(realCost=c['real'], typicalDim=c['typical']) if c['flip'] else FiniteTensorNetwork(names, realCost=c['real'], typicalDim=c['typical'])
    if c['flip']:
        for x in names:
            f.addTensor(x)
    for k, (u, v) in list(enumerate(edges))[::-1 if c['flip'] else 1]:
        if v is not None:
            if c['flip']:
                u, v = v, u
            f.addLink(names[u], leg(k, u), names[v], leg(k, v))
    for i, (kinds, menu) in enumerate(c['steps']):
        cls = dim_classes(n, edges, kinds)
        roots = sorted(set(cls))
        net = Net(n, edges, kinds, [menu[roots.index(x) % len(menu)] for x in cls])
        linked, arrays, ids = net.build(seed=i)
        given = {}
        for v in list(range(n))[::-1 if i % 2 else 1]:
            t = linked[v].copy()
            for l, k in zip(list(t.labels), ids[v]):
                t.renameLabel(l, leg(k, v))
            given[names[v]] = t
        before = snapshot(given)
        tags = bool((i + c['flip']) % 2)
        res = f.contract(TensorDict(dict(given)) if i == 2 else given, removeTensorTag=not tags)
        ctx.step()
        want = [(names[edges[k][0]] + '-' if tags else '') + leg(k, edges[k][0]) for k in net.free()]
        ctx.check(sorted(res.labels) == sorted(want), lambda: 'contract gives labels %r, expected %r' % (res.labels, want))
        ref = net.value(arrays, ids)
        val = dense(res)
        val = np.transpose(val, [res.labels.index(l) for l in want]) if want else val
        ctx.check(same(val, ref), lambda: 'contraction %d of the network gives %s, expected %s' % (i, show(val), show(ref)))
        consistent_legs(res, 'contract:')
        after = snapshot(given)
        for x in given:
            a, b = before[x], after[x]
            ctx.check(a[0] == b[0] and a[1] == b[1] and a[2] == b[2] and same(a[3], b[3]), lambda: 'contract changed its input %s: %r -> %r' % (x, a, b))
        ctx.check(not any(l.bond is not None for l in res.legs), 'a leg of the result is linked')
    ctx.trace()
    ctx.state(c)
    ctx.outcome('network of %d' % n)


def containers(case, ctx):
    pool = [Tensor(data=generic((2,), i), labels=['i']) for i in range(3)]

    def go(history):
        d, other, m = TensorDict(), TensorDict(), {}
        for op in history:
            if op[0] == 'set':
                d.setTensor(op[1], pool[op[2]])
                m[op[1]] = pool[op[2]]
            else:
                try:
                    d.deleteTensor(op[1])
                    refused = False
                except AssertionError:
                    refused = True
                ctx.check(refused == (op[1] not in m), lambda: 'deleting %r was %s' % (op[1], 'refused' if refused else 'accepted'))
                m.pop(op[1], None)
            ctx.step()
            ctx.check(d.tensorCount == len(m) and sorted(d.tensors) == sorted(m), lambda: 'the container holds %r after %r' % (sorted(d.tensors), history))
            ctx.check(all(d.getTensor(k) is t for k, t in m.items()), 'another tensor than the one set last')
            ctx.check(other.tensorCount == 0, 'two containers share their tensors')
        ctx.trace()
        ctx.state(history)

    todo = [case['dict']]
    while todo:
        h = todo.pop()
        ctx.guarded(lambda: go(h), dict(case, dict=h, depth=0))
        if len(h) < case['depth']:
            todo += [h + [list(op)] for op in DICT_OPS]
    ctx.outcome('containers')


def systems(tier):
    return range(len(INITS))


def system(i, tier):
    return {'make': maker(i), 'ops': lambda r, m: ops_for(m), 'apply': apply, 'observe': observe, 'key': key,
            'depth': depth(tier)}


def run_case(case, ctx):
    if 'dict' in case:
        return containers(case, ctx)
    if 'net' in case:
        return contracted(case, ctx) if 'steps' in case else whole(case, ctx)
    run_only(sys.modules[__name__], case, ctx)
