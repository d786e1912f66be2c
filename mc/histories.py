"""Breadth-first exploration of operation histories on the real implementation.

make() -> (real, model) fresh; ops(model) -> list of JSON-able operations enabled in the model state;
apply(real, model, op, ctx) -> (real, model) performs op on both, raising Violated on a difference;
observe(real, model, ctx) runs every observer (on a state that is thrown away afterwards);
key(real, model) -> canonical state, including hidden implementation state such as leg order.
A state is re-created by replaying its history, so nothing is shared between branches.
A state is expanded again only when it is reached with more remaining depth than before (the memory of
visited states is shared by the cases one worker process executes).
"""
from mc.core import jhash

_SEEN = {}


def replay(make, apply, hist, ctx):
    real, model = make()
    for op in hist:
        real, model = apply(real, model, op, ctx)
        ctx.step()
    return real, model


def case(desc, hist):
    return {'init': desc, 'hist': hist, 'only': True}


def run_only(mod, c, ctx, tier='quick'):
    """Run exactly one history and observe its last state (used to replay a violation)."""
    sy = mod.system(c['init'], tier)
    real, model = replay(sy['make'], sy['apply'], c['hist'], ctx)
    sy['observe'](real, model, ctx)


def expand(mod, desc, hist, tier, ctx, found):
    """Observe the state reached by hist and execute every operation enabled there.

    found receives (desc, history, key of the state reached) for every operation that succeeded, below the depth bound.
    """
    sy = mod.system(desc, tier)
    box = {}

    def observe():
        real, model = replay(sy['make'], sy['apply'], hist, ctx)
        ctx.state([desc, sy['key'](real, model)])
        box['ops'] = sy['ops'](real, model) if len(hist) < sy['depth'] else []
        sy['observe'](real, model, ctx)
        ctx.trace()

    ctx.guarded(observe, case(desc, hist))
    for op in box.get('ops', []):
        h = hist + [op]

        def visit():
            real, model = replay(sy['make'], sy['apply'], h, ctx)
            found.append((desc, h, jhash([desc, sy['key'](real, model)])))

        ctx.guarded(visit, case(desc, h))


def explore(make, ops, apply, observe, key, depth, ctx, describe, prefix=(), case_of=None):
    """Explore all histories of length <= depth that start with prefix; every new state is observed."""
    seen = _SEEN.setdefault(jhash([ctx.run, describe]), {})
    frontier = [list(prefix)]
    while frontier:
        nxt = []
        for hist in frontier:
            case = case_of(hist)
            box = {}

            def visit():
                real, model = replay(make, apply, hist, ctx)
                k = key(real, model)
                left = depth - len(hist)
                new = k not in seen
                if seen.get(k, -1) >= left:
                    return
                seen[k] = left
                ctx.state([describe, k])
                box['ops'] = ops(model) if len(hist) < depth else []
                if new:
                    observe(real, model, ctx)
                ctx.trace()

            ctx.guarded(visit, case)
            for op in box.get('ops', []):
                nxt.append(hist + [op])
        frontier = nxt
