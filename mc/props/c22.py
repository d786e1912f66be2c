"""C22: string sets under an enumerated random source.

Space: all histories over {generate, generate with a preferred name, add, remove, contains} up to a depth, for several string lengths,
combined with every prefix of values the random source may return (the random source is the environment: its answers are enumerated,
then it continues fairly so that every honest retry loop ends).
Reference: a plain set.
"""
import itertools
import random

from CTL.funcs.stringSet import StringSet
import CTL.funcs.funcs as funcs

PROPERTY = 'C22'
RULE = 'all histories up to the depth bound x all answer prefixes of the random source'
ASSUMPTIONS = ['the random source is reached through the module random of the standard library']
CASE_CPU_S = 20.0
NAMES = ['a', 'b', 'aa', '']


def bounds(tier):
    t = tier == 'thorough'
    return {'depth': 6 if t else 5, 'answer_prefix': 5 if t else 4, 'lengths': [1, 2, 10]}


OPS = [['new'], ['newAs', 'a'], ['newAs', 'b'], ['add', 'a'], ['add', 'b'], ['remove', 'a'], ['remove', 'b'], ['removeLast']]


def cases(tier):
    b = bounds(tier)
    for n in b['lengths']:
        for prefix in itertools.product(range(len(OPS)), repeat=2):
            yield {'n': n, 'prefix': list(prefix), 'depth': b['depth'], 'answers': b['answer_prefix']}
    # long histories: all 52 names of length one, many of length two, users' names in between
    for n in (1, 2, 3):
        for plan in range(len(PLANS)):
            for source in ('same', 'two', 'count', 'letters'):
                yield {'n': n, 'plan': plan, 'source': source}
    for kind in ('MLBond', 'Tensor', 'Bond'):
        for answers in itertools.product((0, 1), repeat=4):
            yield {'kind': kind, 'a': list(answers)}


LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
PLANS = [[['new']] * 51,
         [['add', c] for c in LETTERS[:26]] + [['new']] * 25 + [['remove', c] for c in LETTERS[:26:2]] + [['new']] * 12,
         ([['new']] * 3 + [['removeLast']]) * 12 + [['new']] * 20,
         [['newAs', c] for c in LETTERS[::2]] + [['new']] * 20 + [['newAs', c] for c in LETTERS[::2]] + [['add', c + c] for c in LETTERS] + [['new']] * 4,
         [['new']] * 10 + [['removeLast']] * 10 + [['add', 'aa'], ['add', 'a'], ['newAs', 'bb'], ['remove', 'aa']] + [['new']] * 30 + [['add', 'aa'], ['remove', 'a'], ['remove', 'a']]]
SCRIPTS = {'same': [0] * 150, 'two': [0, 1] * 60, 'count': [], 'letters': list(range(52)) * 3}


class Source(random.Random):
    """Answers the scripted values first, then counts through all values: fair, hence every retry loop ends."""

    def __new__(cls, *a):
        return super().__new__(cls)

    def __init__(self, answers):
        super().__init__(0)
        self.answers = list(answers)
        self.k = 0
        self.count = 0

    def getrandbits(self, k):
        self.k += 1
        if self.k <= len(self.answers):
            return self.answers[self.k - 1] % (1 << k)
        # a counter in mixed radix over successive calls: every string of every length up to 3 turns up
        self.count += 1
        x = self.count * 2654435761 % (1 << 32)
        return (x >> 7) % (1 << k)

    def random(self):
        return self.getrandbits(20) / (1 << 20)


PATCHED = ['random', 'choice', 'choices', 'randint', 'randrange', 'sample', 'shuffle', 'getrandbits', 'uniform']


class Patched:
    def __init__(self, answers):
        self.src = Source(answers)

    def __enter__(self):
        self.old = {k: getattr(random, k) for k in PATCHED}
        for k in PATCHED:
            setattr(random, k, getattr(self.src, k))

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(random, k, v)


def check_contents(ss, model, universe, ctx, what):
    for s in universe | model | set(NAMES):
        ctx.check(bool(ss.contains(s)) == (s in model), lambda: '%s: contains(%r) is %r, in use: %r' % (what, s, ss.contains(s), sorted(model)))


def perform(ss, model, order, op, ctx, n):
    """Execute one operation on both; returns the name of the outcome."""
    kind = op[0]
    if kind == 'new':
        s = ss.newString()
        ctx.check(s not in model, lambda: 'newString() gave %r, which is in use' % s)
        ctx.check(isinstance(s, str) and len(s) == n, lambda: 'newString() gave %r, not a string of length %d' % (s, n))
        model.add(s)
        order.append(s)
        return 'generated'
    if kind == 'newAs':
        refuse = op[1] in model
        fn = lambda: ss.newString(op[1])
    elif kind == 'add':
        refuse = op[1] in model
        fn = lambda: ss.add(op[1])
    else:
        name = op[1] if kind == 'remove' else (order[-1] if order else 'zz')
        refuse = name not in model
        fn = lambda: ss.remove(name)
    try:
        got = fn()
    except AssertionError:
        ctx.check(refuse, lambda: '%r was refused although legal (in use: %r)' % (op, sorted(model)))
        return 'refused'
    ctx.check(not refuse, lambda: '%r was accepted although the set holds %r' % (op, sorted(model)))
    if kind in ('newAs', 'add'):
        if kind == 'newAs':
            ctx.check(got == op[1], lambda: 'newString(%r) gave %r' % (op[1], got))
        model.add(op[1])
        order.append(op[1])
    else:
        model.discard(name)
        order[:] = [x for x in order if x != name]
    return kind


def run_history(n, hist, answers, ctx):
    with Patched(answers):
        ss = StringSet(n) if n != 10 else StringSet()
        other = StringSet(n)
        model, order, universe = set(), [], set()
        for op in hist:
            out = perform(ss, model, order, op, ctx, n)
            universe |= model
            ctx.outcome(out)
            ctx.step()
            check_contents(ss, model, universe, ctx, 'after %r' % (hist,))
        check_contents(other, set(), universe, ctx, 'another set after %r' % (hist,))
    ctx.state([n, sorted(model), order])
    ctx.trace()


def run_case(case, ctx):
    if 'kind' in case:
        return named(case, ctx)
    n = case['n']
    if 'plan' in case:
        return run_history(n, PLANS[case['plan']], SCRIPTS[case['source']], ctx)
    values = (0, 1) if n == 10 else (0, 1, 5)
    for rest in itertools.product(range(len(OPS)), repeat=case['depth'] - 2):
        hist = [OPS[i] for i in case['prefix'] + list(rest)]
        gen = sum(1 for op in hist if op[0] == 'new')
        if gen == 0:
            scripts = [()]
        elif n == 10:
            # every generation takes 10 answers: whole strings repeated
            scripts = [sum(((v,) * 10 for v in vs), ()) for vs in itertools.product(values, repeat=min(gen + 1, 2))]
        else:
            # 26 is the letter A, 0 the letter a: names given by the user collide with generated ones
            scripts = list(itertools.product(values[:2], repeat=min(gen + 1, case['answers']) * (1 if n == 1 else 2) if n == 1 else 4))
        for script in scripts:
            ctx.current = {'n': n, 'hist': hist, 'script': list(script)}
            run_history(n, hist, script, ctx)


def named(case, ctx):
    from CTL.funcs import stringSet
    get = {'MLBond': stringSet.getMLBondName, 'Tensor': stringSet.getTensorName, 'Bond': stringSet.getBondName}[case['kind']]
    with Patched(sum(((v,) * 10 for v in case['a']), ())):
        names = [get() for _ in range(4)]
        given = get('given-%s-%s' % (case['kind'], case['a']))
        ctx.check(len(set(names)) == 4, lambda: 'generated names %r' % names)
        for taken in names + [given]:
            try:
                got = get(taken)
            except AssertionError:
                continue
            ctx.fail('name %r handed out twice (%r)' % (taken, got))
        ctx.step(9)
    with Patched(()):
        known = set(names)
        with Patched(sum(((v,) * 10 for v in case['a']), ())):
            s = funcs.getNewString(known)
            ctx.check(s not in known and len(s) == 10, lambda: 'getNewString gave %r' % s)
    ctx.trace()


def replay_case(case, ctx):
    if 'hist' in case:
        return run_history(case['n'], case['hist'], case['script'], ctx)
    return run_case(case, ctx)
