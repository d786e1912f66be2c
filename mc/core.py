"""Bounded exhaustive exploration of the real CTL code: shared explorer machinery.

A property module (mc/props/<id>.py) provides

    PROPERTY, TITLE, RULE          strings
    cases(tier)                    generator of JSON-able case descriptors: the bounded space, in a
                                   fixed order, simplest first, each element visited exactly once
    run_case(case, ctx)            executes ONE element on the implementation and compares every step
                                   with the reference model; may itself explore (BFS/DFS) below `case`

Nothing is sampled: every element of cases(tier) is executed.  Elements are distributed over worker
processes by index; a worker executes its share and returns counts, canonical-state hashes and the
violations found.  An exception that escapes the code under test, or a case that does not finish
within its CPU allowance, is a violation of the property, not an error of the check.
"""
import hashlib
import importlib
import io
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings
from multiprocessing import TimeoutError as MPTimeout, get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')
MAX_VIOLATIONS_PER_WORKER = int(os.environ.get('MC_MAX', '3'))
CASE_CPU_S = float(os.environ.get('MC_CASE_CPU_S', '60'))


TRIAGE = 'MC_MAX' in os.environ
NO_ANSWER = 'no answer within the CPU time allowed for one case'
#: wall time after which the quick tier stops exploring and reports on what it explored (evidence: exhaustive = false)
BUDGET_S = float(os.environ.get('MC_BUDGET_S', '720'))
GRACE_S = 100.0


class Violated(Exception):
    """The observed behaviour differs from what the property demands."""

    def __init__(self, message, case=None, key=None):
        super().__init__(message)
        self.message = message
        self.case = case
        self.key = key


class CaseTimeout(BaseException):
    pass


class Stop(BaseException):
    pass


def jhash(obj):
    if not isinstance(obj, (bytes, str)):
        obj = json.dumps(obj, sort_keys=True, default=repr)
    if isinstance(obj, str):
        obj = obj.encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


class Ctx:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.known = set()
        self.known_keys = set()
        self.current = None
        self.run = ''
        self.extra = {}

    # ---- measuring
    def state(self, key):
        """A canonical state reached (returns True when it is new to this worker)."""
        h = jhash(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        """One transition executed on the implementation and compared with the model."""
        self.transitions += n

    def trace(self, n=1):
        """One complete history executed on the implementation in agreement with the model."""
        self.traces += n

    def outcome(self, key):
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # ---- judging
    def fail(self, message, case=None, key=None):
        raise Violated(message, case=case, key=key)

    def check(self, cond, message, case=None, key=None):
        if not cond:
            raise Violated(message() if callable(message) else message, case=case, key=key)

    def record(self, v):
        """Record a violation without leaving the case (used by known-finding aware explorers)."""
        case = v.case if v.case is not None else self.current
        if v.key is not None and v.key in self.known_keys:
            self.known.add(v.key)
            return
        self.violations.append({'message': v.message, 'case': case, 'key': v.key})
        if len(self.violations) >= MAX_VIOLATIONS_PER_WORKER:
            raise Stop()

    def guarded(self, fn, case):
        """Run fn(); turn Violated / unexpected exceptions / timeouts into recorded violations."""
        self.current = case
        try:
            fn()
        except Violated as v:
            self.record(v)
        except (Stop, KeyboardInterrupt):
            raise
        except CaseTimeout:
            # the allowance is spent: this worker executes nothing more, and the run ends with this violation
            self.record(Violated(NO_ANSWER))
            raise Stop()
        except Exception as e:
            tb = traceback.format_exc().splitlines()
            self.record(Violated('unexpected %s: %s' % (type(e).__name__, str(e)[:500]) + '\n' + '\n'.join(tb[-14:])))


def _alarm(signum, frame):
    raise CaseTimeout()


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


def setup_process():
    warnings.simplefilter('ignore')
    signal.signal(signal.SIGVTALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass


def _worker(args):
    prop, tier, index, total, known_keys, deadline = args
    mod = load(prop)
    setup_process()
    ctx = Ctx()
    ctx.known_keys = set(known_keys)
    ctx.run = prop + tier
    real_out, real_err = sys.stdout, sys.stderr
    sys.stdout = _Null()
    sys.stderr = _Null()
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % total != index:
                continue
            if time.time() > deadline:
                ctx.count('cut_short')
                break
            ctx.cases += 1
            signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CASE_CPU_S', CASE_CPU_S))
            ctx.guarded(lambda: mod.run_case(case, ctx), case)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if len(ctx.samples) < 1 and ctx.cases in (1,):
                ctx.sample(case)
    except Stop:
        pass
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.stdout, sys.stderr = real_out, real_err
    return result_of(ctx)


def result_of(ctx):
    return {
        'states': ctx.states, 'transitions': ctx.transitions, 'traces': ctx.traces, 'cases': ctx.cases,
        'outcomes': ctx.outcomes, 'samples': ctx.samples, 'violations': ctx.violations,
        'known': ctx.known, 'extra': ctx.extra,
    }


def _expand(args):
    """One step of the level-synchronous breadth-first search: observe some unique states and try all operations there."""
    prop, tier, tasks, known_keys, deadline = args
    from mc import histories
    mod = load(prop)
    setup_process()
    ctx = Ctx()
    ctx.known_keys = set(known_keys)
    ctx.run = prop + tier
    real_out, real_err = sys.stdout, sys.stderr
    sys.stdout = _Null()
    sys.stderr = _Null()
    found = []
    try:
        for desc, hist in tasks:
            if time.time() > deadline:
                ctx.count('cut_short')
                break
            ctx.cases += not hist
            signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CASE_CPU_S', CASE_CPU_S))
            histories.expand(mod, desc, hist, tier, ctx, found)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if len(hist) == 2:
                ctx.sample(histories.case(desc, hist))
    except Stop:
        pass
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.stdout, sys.stderr = real_out, real_err
    r = result_of(ctx)
    r['found'] = found
    return r


def load(prop):
    return importlib.import_module('mc.props.' + prop.lower())


def known_findings(prop):
    try:
        entries = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {e['key']: e for e in entries.get('findings', []) if e['property'] == prop}


def main(prop, tier, seed):
    start = time.time()
    mod = load(prop)
    known = known_findings(prop)
    workers = int(os.environ.get('MC_WORKERS', '8'))
    shards = getattr(mod, 'SHARDS', workers * 4)
    deadline = start + BUDGET_S if tier == 'quick' else float('inf')
    jobs = [(prop, tier, i, shards, sorted(known), deadline) for i in range(shards)]
    agg = {'states': set(), 'transitions': 0, 'traces': 0, 'cases': 0, 'outcomes': {}, 'samples': [],
           'violations': [], 'known': set(), 'extra': {}}
    def merge(r):
        agg['states'] |= r['states']
        for k in ('transitions', 'traces', 'cases'):
            agg[k] += r[k]
        for k in ('outcomes', 'extra'):
            for kk, vv in r[k].items():
                agg[k][kk] = agg[k].get(kk, 0) + vv
        agg['samples'] += r['samples']
        agg['violations'] += r['violations']
        agg['known'] |= r['known']
        enough = len(agg['violations']) >= 4 or any(v['message'] == NO_ANSWER for v in agg['violations'])
        return enough and not TRIAGE

    def results(it):
        # a worker that does not come back (a loop inside of a C function) is given up
        while True:
            try:
                yield it.next(None if deadline == float('inf') else max(1.0, deadline + GRACE_S - time.time()))
            except StopIteration:
                return
            except MPTimeout:
                agg['extra']['cut_short'] = agg['extra'].get('cut_short', 0) + 1
                pool.terminate()
                return

    with get_context('fork').Pool(workers) as pool:
        if hasattr(mod, 'cases'):
            for r in results(pool.imap_unordered(_worker, jobs)):
                if merge(r):
                    pool.terminate()
                    break
        if hasattr(mod, 'systems') and (TRIAGE or len(agg['violations']) < 4):
            # breadth-first over operation histories: all states of one depth, deduplicated, before the next depth
            frontier = [(desc, []) for desc in mod.systems(tier)]
            seen = set()
            levels = []
            stop = False
            while frontier and not stop and 'cut_short' not in agg['extra']:
                levels.append(len(frontier))
                size = max(1, min(64, len(frontier) // (workers * 4)))
                tasks = [(prop, tier, frontier[i:i + size], sorted(known), deadline) for i in range(0, len(frontier), size)]
                frontier = []
                # results are taken in order, so that the history kept for a state does not depend on timing
                for r in results(pool.imap(_expand, tasks)):
                    if merge(r):
                        pool.terminate()
                        stop = True
                        break
                    for desc, hist, key in r['found']:
                        if key not in seen:
                            seen.add(key)
                            frontier.append((desc, hist))
            agg['extra']['states_per_depth'] = levels
            agg['extra']['unique_histories'] = sum(levels)
    complete = len(agg['violations']) == 0 and 'cut_short' not in agg['extra']
    agg['samples'].sort(key=lambda s: (len(json.dumps(s, default=repr)), json.dumps(s, default=repr)))
    os.makedirs(EVIDENCE, exist_ok=True)
    coverage = {
        'states': len(agg['states']),
        'transitions': agg['transitions'],
        'traces_validated_against_impl': agg['traces'],
        'cases': agg['cases'],
        'samples': agg['samples'][:3] + agg['samples'][-1:],
        'rule': getattr(mod, 'RULE', ''),
        'bounds': mod.bounds(tier) if hasattr(mod, 'bounds') else {},
        'distinct_outcomes': len(agg['outcomes']),
        'outcomes': dict(sorted(agg['outcomes'].items(), key=lambda kv: -kv[1])[:40]),
        'exhaustive': complete,
    }
    coverage.update(agg['extra'])
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - start, 2),
        'violations': len(agg['violations']),
    }
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(EVIDENCE, '%s.json' % prop))
    print('%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs' % (
        prop, tier, agg['cases'], len(agg['states']), agg['transitions'], agg['traces'],
        len(agg['outcomes']), time.time() - start))
    for key in sorted(agg['known']):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]['what']))
    if not complete and not agg['violations']:
        print('the time allowed was spent before the space was: the property held on the part explored')
    if not agg['violations'] and agg['cases'] == 0:
        print('no case was explored')
        return 2
    if TRIAGE:
        groups = {}
        for v in agg['violations']:
            lines = v['message'].splitlines()
            import re
            key = (re.sub(r'[-\d.+j\s\[\]]+', ' ', lines[0])[:50], [x.strip() for x in lines if 'File "' in x][-1:] and [x.strip() for x in lines if 'File "' in x][-1])
            groups.setdefault(str(key), []).append(v)
        for key, vs in sorted(groups.items(), key=lambda kv: -len(kv[1]))[:12]:
            print('%6d  %s\n        e.g. %s\n        %s' % (len(vs), key, json.dumps(min((v['case'] for v in vs), key=lambda c: len(json.dumps(c, default=repr))), default=repr)[:400], vs[0]['message'].splitlines()[0][:300]))
    if TRIAGE:
        agg['violations'] = agg['violations'][:1]
    agg['violations'].sort(key=lambda v: len(json.dumps(v['case'], default=repr)))
    for n, v in enumerate(agg['violations'][:5]):
        path = os.path.join(EVIDENCE, 'replay-%s-%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'case': v['case'], 'message': v['message'], 'key': v['key'],
                       'how': 'cd %s && ./check %s --replay %s' % (VERIF, prop, path)}, f, indent=1, default=repr)
        print('  ' + v['message'].replace('\n', '\n    ')[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1 if agg['violations'] else 0


def replay(prop, path):
    mod = load(prop)
    setup_process()
    data = json.load(open(path))
    ctx = Ctx()
    out = sys.stdout
    sys.stdout = _Null()
    try:
        fn = getattr(mod, 'replay_case', mod.run_case)
        ctx.guarded(lambda: fn(data['case'], ctx), data['case'])
    except Stop:
        pass
    finally:
        sys.stdout = out
    for v in ctx.violations:
        print('  ' + v['message'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if not ctx.violations:
        print('replayed: no violation')
    return 1 if ctx.violations else 0
