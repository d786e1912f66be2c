"""C21: text descriptions of tensor networks.

Space: every description of the bounded grammar
    network := tensor+ ;  tensor := UPPER leg+ ;  leg := name size? ;  name := lower | '{' lower+ '}' ;  size := digit | '{' digit+ '}'
given by: the tensors each leg name occurs in (once or twice), how its dimension is written on each side, the order of the legs.
Reference: the structure the description was generated from.
"""
import itertools

from CTL.tensor.contract.tensorGraph import createTensorListFromText
from CTL.tensor.contract.optimalContract import makeTensorGraph, makeTensorGraphFromText
from CTL.tensor.contract.link import makeLink
from CTL.tensor.tensor import TensorLike

from mc.model import consistent_legs

PROPERTY = 'C21'
RULE = 'all descriptions up to the number of tensors and leg names x ways of writing dimensions x leg orders'
ASSUMPTIONS = ['every tensor has at least one leg; a name occurring twice links two different tensors']

NAMES = [['i', 'j', 'k'], ['ab', 'b', 'cd'], ['z', 'mn', 'm']]
DIMS = [2, 12, 7]
SPECS = ['none', 'plain', 'braced']


def bounds(tier):
    t = tier == 'thorough'
    return {'tensors': 3, 'names': 3, 'specs_full_up_to_names': 3 if t else 2}


def cases(tier):
    full = bounds(tier)['specs_full_up_to_names']
    for T in (1, 2, 3):
        places = [(a,) for a in range(T)] + list(itertools.combinations(range(T), 2))
        for L in (1, 2, 3):
            for where in itertools.product(places, repeat=L):
                if {a for w in where for a in w} != set(range(T)):
                    continue
                yield {'T': T, 'w': [list(w) for w in where], 'full': L <= full}
    # larger networks: tensors, pairs of tensors a name occurs in (None: one tensor only)
    for i, (T, links) in enumerate(LARGE):
        for style in range(6):
            for twist in range(4):
                yield {'large': i, 'style': style, 'twist': twist}
    for k in ('thrice', 'conflict', 'cost', 'invalid'):
        yield {'k': k}


def ring(n):
    return [(i, (i + 1) % n) for i in range(n)]


LARGE = [(4, ring(4)), (5, list(itertools.combinations(range(5), 2))), (6, [(0, i) for i in range(1, 6)]), (3, [(0, 1)] * 4 + [(1, 2)] * 5), (8, ring(8) + [(i, None) for i in range(8)]),
         (26, [(i, i + 1) for i in range(25)]), (4, [(0, 3), (1, 2), (3, None), (0, 3), (2, None)]), (1, [(0, None)] * 9), (2, [(0, 1)] * 11), (5, [(0, None), (1, None), (2, None), (3, 4)]),
         (7, [(6, 0), (5, 1), (4, 2), (3, None), (6, 5), (6, 4), (6, 3)])]
LETTERS = 'AZQMBYCXDWEVFUGTHSIRJPKOLN'


def large(case, ctx):
    T, links = LARGE[case['large']]
    style, twist = case['style'], case['twist']
    L = len(links)
    if style < 2 and L <= 26:
        names = ['zyxwvutsrqponmlkjihgfedcba'[(i * 3 + 5) % 26] if L <= 8 else 'qwertyuiopasdfghjklzxcvbnm'[i] for i in range(L)]
    else:
        # names that are prefixes of one another
        names = ['a' * (i // 26 + 1 + i % 3 * (style == 3)) + 'abcdefghijklmnopqrstuvwxyz'[i % 26] for i in range(L)]
    dims = [[2, 12, 7, 305, 1, 10, 99, 9][(i * (style + 1) + twist) % 8] for i in range(L)]
    menus = [['none'], ['plain'], ['braced'], ['plain', 'none'], ['none', 'braced'], ['braced', 'plain', 'none']]
    menu = menus[style]
    specs = [[menu[(i + k * (twist + 1)) % len(menu)] for k in range(2)] for i in range(L)]
    where = [tuple(x for x in l if x is not None) for l in links]
    order = [list(range(L)), list(range(L))[::-1], list(range(0, L, 2)) + list(range(1, L, 2)), sorted(range(L), key=lambda i: (i * 5 + 2) % 7)][twist]
    letters = LETTERS[:T] if twist % 2 else LETTERS[::-1][:T]
    text = text_of(T, where, names, dims, specs, order, style == 5, letters)
    one(text, T, where, names, dims, [sp[:len(w)] for sp, w in zip(specs, where)], order, ctx, letters)
    ctx.state(text)
    ctx.trace()


def write(name, dim, spec, braces):
    s = '{%s}' % name if braces or len(name) > 1 else name
    if spec == 'none':
        return s
    if spec == 'plain' and dim < 10:
        return s + str(dim)
    return s + '{%d}' % dim


def text_of(T, where, names, dims, specs, order, braces, letters='QAZ'):
    out = ''
    for t in range(T):
        out += letters[t]
        for n in order:
            for side, a in enumerate(where[n]):
                if a == t:
                    out += write(names[n], dims[n], specs[n][side], braces)
    return out


def run_case(case, ctx):
    if 'k' in case:
        return OTHER[case['k']](ctx)
    if 'large' in case:
        return large(case, ctx)
    T, where = case['T'], case['w']
    L = len(where)
    per = [list(itertools.product(SPECS if case['full'] else SPECS[::2], repeat=len(w))) for w in where]
    for names in NAMES:
        for specs in itertools.product(*per):
            for order in itertools.permutations(range(L)):
                for dims in (DIMS[:L], [1, 3, 305][:L][::-1]):
                    braces = names is NAMES[2]
                    text = text_of(T, where, names, dims, specs, order, braces)
                    if not ctx.state(text):
                        continue
                    one(text, T, where, names, dims, specs, order, ctx)
                    ctx.trace()


def one(text, T, where, names, dims, specs, order, ctx, letters='QAZ'):
    ts = createTensorListFromText(text)
    ctx.step()
    known = [dims[n] if any(s != 'none' for s in specs[n]) else None for n in range(len(where))]
    ctx.check([t.name for t in ts] == list(letters[:T]), lambda: '%r gives the tensors %r' % (text, [t.name for t in ts]))
    for a, t in enumerate(ts):
        want = [(names[n], known[n]) for n in order if a in where[n]]
        got = [(l.name, l.dim) for l in t.legs]
        ctx.check(got == want, lambda: '%r: tensor %s has legs %r, expected %r' % (text, t.name, got, want))
        ctx.check(tuple(t.shape) == tuple(d for _, d in want), lambda: '%r: tensor %s has shape %r' % (text, t.name, t.shape))
        ctx.check(bool(t.tensorLikeFlag) and t.a is None, lambda: '%r: tensor %s is not shape-only' % (text, t.name))
        consistent_legs(t, text)
        for leg in t.legs:
            n = names.index(leg.name)
            o = leg.anotherSide()
            if len(where[n]) == 1:
                ctx.check(o is None, lambda: '%r: leg %s is linked' % (text, leg.name))
            else:
                b = [x for x in where[n] if x != a][0]
                ctx.check(o is not None and o.name == leg.name and any(o is x for x in ts[b].legs) and o.anotherSide() is leg,
                          lambda: '%r: leg %s of %s is not linked to its partner' % (text, leg.name, t.name))
    ctx.outcome('%d tensors, %d names' % (T, len(where)))
    g = makeTensorGraphFromText(text)
    ctx.check([v.name for v in g.v] == list(letters[:T]), lambda: '%r: vertices %r' % (text, [v.name for v in g.v]))
    edges = sorted([sorted(-1 if v is None else v.index for v in e.vertices), repr(e.weight)] for e in g.getEdges())
    want = sorted([sorted(w) if len(w) == 2 else [-1, w[0]], repr(known[n])] for n, w in enumerate(where))
    ctx.check(edges == want, lambda: '%r: edges %r, expected %r' % (text, edges, want))


def refused(ctx, text, errors=(AssertionError, ValueError)):
    try:
        got = createTensorListFromText(text)
    except errors:
        ctx.step()
        return
    ctx.fail('%r was accepted: %r' % (text, got))


def thrice(ctx):
    for s in ('', '3', '{12}'):
        for name in ('i', '{mn}'):
            for text in ('A%sB%sC%s', 'Aj%sB%sC%sj', 'A%sk2B%sC%s{5}' if s == '' else 'A%sB%sC%s'):
                refused(ctx, text % (name + s, name + s, name + s))
    ctx.trace()


def conflict(ctx):
    for a, b in (('2', '3'), ('{12}', '2'), ('{21}', '{12}')):
        for text in ('Ai%sBi%s', 'Ak2i%sBi%sk', 'B{xy}{3}i%sAi%s{xy}3'):
            refused(ctx, text % (a, b))
    ctx.trace()


def invalid(ctx):
    for text in ('', 'i', 'iA', 'ij', '1A', '{A}i', 'Ai}', 'A}i{'):
        refused(ctx, text)
    ctx.trace()


def cost(ctx):
    """The graph of a text costs what the graph of the same network built by hand costs."""
    for text, legs, dims in (('AijBiCjkDkl', ['ij', 'i', 'jk', 'kl'], None),
                             ('Ai2j3Bi2Cj3k4Dk4l5', ['ij', 'i', 'jk', 'kl'], dict(i=2, j=3, k=4, l=5)),
                             ('Ai{11}j3BijCk{20}jDki', None, None),
                             ('Ai{11}j3Bik{20}Ckj', ['ij', 'ik', 'kj'], dict(i=11, j=3, k=20)),
                             ('Ab3c4Ba2c4Ca2b3', ['bc', 'ac', 'ab'], dict(a=2, b=3, c=4))):
        if legs is None:
            refused(ctx, text)
            continue
        for bf, greedy, typical in ((False, False, 10), (True, False, 10), (False, False, 4), (False, False, None), (True, False, None), (False, True, None)):
            if typical is None and dims is None:
                continue
            ts = [TensorLike(labels=list(l), shape=[(dims or {}).get(x, 10) for x in l]) for l in legs]
            for x in 'abcijkl':
                at = [t for t, l in zip(ts, legs) if x in l]
                if len(at) == 2:
                    makeLink(x, x, at[0], at[1])
            res = []
            for g in (makeTensorGraph(ts), makeTensorGraphFromText(text)):
                seq = g.optimalContractSequence(bf=bf, greedy=greedy, typicalDim=typical)
                res.append((len(seq), g.optimalCostResult() if not greedy else None))
            ctx.check(res[0] == res[1], lambda: '%r costs %r, the same network built by hand %r' % (text, res[1], res[0]))
            ctx.step()
    ctx.trace()


OTHER = {'thrice': thrice, 'conflict': conflict, 'cost': cost, 'invalid': invalid}
