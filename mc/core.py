"""Explorer core: exhaustive enumeration of scenarios on the real code, in parallel.

A check module provides
    scenarios(tier) -> list of JSON-able scenario descriptors, simplest first
    run(scn, ctx)   -> explores the scenario completely, reporting to ctx
    BOUNDS[tier]    -> text describing alphabet and bounds
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold for the current scenario."""


class ScenarioTimeout(Exception):
    pass


class Ctx(object):
    """Collects what one scenario covered."""

    def __init__(self, known):
        self.known_keys = known
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.known_hit = set()
        self.history = []

    def state(self, key):
        """Record a state; returns True if it is new in this scenario."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 5000:
            self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def fail(self, msg):
        raise Violation(msg)

    def expect(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def known(self, key, msg):
        """A listed finding is recorded, anything else is a violation."""
        if key in self.known_keys:
            self.known_hit.add(key)
        else:
            raise Violation(msg)


def load_known(prop):
    """known_findings.json: list of {property, status, key, what}."""
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        return {e['key']: e['what'] for e in json.load(f)['findings']
                if e['property'] == prop and e['status'] == 'known'}


def _alarm(signum, frame):
    raise ScenarioTimeout()


def run_scenario(module, scn, known, limit):
    """Run one scenario; returns (ctx, error message or None)."""
    ctx = Ctx(known)
    err = None
    # processor time, so that a busy machine does not look like a hang
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    t0 = time.process_time()
    try:
        run_sequence(module, scn, ctx) if scn.get('do') == 'seq' else module.run(scn, ctx)
    except Violation as e:
        err = str(e)
    except ScenarioTimeout:
        err = 'no answer within %g s' % limit
    except RecursionError as e:
        err = 'unexpected RecursionError: %s' % e
    except Exception as e:
        err = 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-12))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.cpu = time.process_time() - t0
    return ctx, err


def sequences(scns):
    """Every scenario after every other one and once more afterwards, in one process:
    calls may not depend on what was called before."""
    return [{'do': 'seq', 'of': [a, b, a]} for a in scns for b in scns if a is not b]


def run_sequence(module, scn, ctx):
    for k, s in enumerate(scn['of']):
        try:
            module.run(s, ctx)
        except Violation as e:
            raise Violation('call %d of %s: %s' % (k + 1, scn['of'], e))
        ctx.state((k, str(scn['of'])))


def _owner(idx, nproc):
    """Mixes neighbouring scenarios over the workers, so that no worker only sees
    one value of an option."""
    return ((idx * 2654435761) >> 7) % nproc


def _worker(module, scns, me, nproc, known, limit, stop_at, q, current):
    import gc
    n_viol = 0
    batch = None

    def flush():
        nonlocal batch
        if batch is not None:
            q.put(('cover', me, batch))
            batch = None

    for idx in range(len(scns)):
        if _owner(idx, nproc) != me:
            continue
        if time.time() > stop_at:
            flush()
            q.put(('cut', me, idx))
            break
        current[2 * me], current[2 * me + 1] = idx, time.time()
        ctx, err = run_scenario(module, scns[idx], known, limit)
        if batch is None:
            batch = dict(n=0, states=0, transitions=0, traces=0, outcomes=set(), known=set(), slowest=0.0)
        batch['slowest'] = max(batch['slowest'], ctx.cpu)
        batch['n'] += 1
        batch['states'] += len(ctx.states)
        batch['transitions'] += ctx.transitions
        batch['traces'] += ctx.traces
        if len(batch['outcomes']) < 20000:
            batch['outcomes'] |= ctx.outcomes
        batch['known'] |= ctx.known_hit
        if batch['n'] >= 50:
            flush()
        if err is not None:
            flush()
            q.put(('viol', me, idx, err, list(map(str, ctx.history))))
            n_viol += 1
            if n_viol >= 2:
                break
        del ctx
        gc.collect(0)
    flush()
    q.put(('done', me, None))
    q.close()
    q.join_thread()


def explore(prop, module, tier, seed):
    t0 = time.time()
    known = load_known(prop)
    scns = list(module.scenarios(tier))
    if not scns:
        raise RuntimeError('no scenarios')
    nproc = min(int(os.environ.get('VERIF_JOBS', os.cpu_count() or 1)), len(scns))
    limit = getattr(module, 'LIMIT', {}).get(tier, 200 if tier == 'quick' else 3000)
    budget = getattr(module, 'BUDGET', {}).get(tier, 760 if tier == 'quick' else 10000)
    q = mp.Queue()
    current = mp.Array('d', [-1.0] * (2 * nproc), lock=False)   # scenario and start time, survives a crash
    procs = [mp.Process(target=_worker, args=(module, scns, i, nproc, set(known), limit, t0 + budget, q, current))
             for i in range(nproc)]
    for p in procs:
        p.start()
    cov = dict(n=0, states=0, transitions=0, traces=0, outcomes=set(), known=set(), slowest=0.0)
    viols = []
    alive = set(range(nproc))
    cut = False
    first_viol = None
    import queue as queuemod
    while alive:
        try:
            m = q.get(timeout=1.0)
        except queuemod.Empty:
            m = None
        if m is not None:
            kind, me = m[0], m[1]
            if kind == 'cover':
                for k in ('n', 'states', 'transitions', 'traces'):
                    cov[k] += m[2][k]
                cov['slowest'] = max(cov['slowest'], m[2]['slowest'])
                cov['outcomes'] |= m[2]['outcomes']
                cov['known'] |= m[2]['known']
            elif kind == 'viol':
                viols.append((m[2], m[3], m[4]))
                first_viol = first_viol or time.time()
            elif kind == 'cut':
                cut = True
            elif kind == 'done':
                alive.discard(me)
            continue
        now = time.time()
        for me in list(alive):
            p = procs[me]
            if not p.is_alive():
                # drained queue and dead without 'done': the process was ended
                alive.discard(me)
                if p.exitcode != 0:
                    viols.append((int(current[2 * me]),
                                  'the process exploring this scenario ended with exit code %s' % p.exitcode, []))
            elif current[2 * me] >= 0 and now - current[2 * me + 1] > 3 * limit + 60:
                p.kill()
                alive.discard(me)
                viols.append((int(current[2 * me]), 'no answer within %g s' % limit, []))
        if first_viol and now - first_viol > 15:
            break
    for p in procs:
        if p.is_alive():
            p.kill()
        p.join()
    viols.sort(key=lambda v: v[0])
    complete = not cut and not viols and cov['n'] == len(scns)
    samples = []
    for k in sorted({0, len(scns) // 3, (2 * len(scns)) // 3, len(scns) - 1}):
        samples.append({'scenario_index': k, 'scenario': scns[k]})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': cov['states'], 'transitions': cov['transitions'],
            'traces_validated_against_impl': cov['traces'],
            'scenarios': len(scns), 'scenarios_completed': cov['n'],
            'distinct_outcomes': len(cov['outcomes']), 'slowest_scenario_cpu_s': round(cov['slowest'], 2),
            'exhaustive': complete, 'bounds': module.BOUNDS[tier], 'samples': samples,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])) + [
            'casadi and numpy themselves (element access, evaluation of symbolic functions) are trusted',
            'values outside the stated alphabets and bounds are not covered'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viols),
    }
    return evidence, viols, known, cov['known'], scns
