# -*- coding: utf-8 -*-
"""Harness of the bounded exhaustive checks.

A check is a module ionmc.checks.cNN with

    PID      property id
    RULE     how cases are made and what makes one non-trivial
    KINDS    {kind: function(payload, rec)}  - decides one case; raises Violation when the property is broken.
    jobs(tier) -> list of (kind, args)       - the finite case space, cut into jobs
    cases(kind, args)  -> iterator of payloads of that job (payloads are Python literals)

and optional attributes ASSUMPTIONS, known(kind, payload, message) -> finding id or None.

The driver enumerates *every* payload of *every* job (no sampling), in parallel processes, runs the real code of
/repo on it under the decision function, counts states, transitions and validated traces as they happen, writes
evidence/<PID>.json, and on a violation a replay file that `./check PID --replay FILE` re-executes.
"""
import ast
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IONPY_REPO', '/repo')
HANG_TICK_S = 20          # a single case that spans two ticks, of processor time, is reported as a hang
HANG_WALL_S = 120         # the same for the time on the clock, for cases that wait for a process of their own
MAX_VIOLATIONS_PER_JOB = int(os.environ.get('IONMC_MAXV', '3'))
N_PROC = int(os.environ.get('IONMC_PROCS', '0')) or (os.cpu_count() or 4)


class Violation(Exception):
    """The property is broken on this case."""


class Hang(BaseException):
    """A case did not finish."""


class Rec(object):
    """Counters of one job, filled while the cases run."""

    def __init__(self):
        self.evals = 0
        self.states = set()
        self.n_states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.extra = {}

    def state(self, key):
        """Notes a (hashable) abstract state; distinct ones are counted."""
        self.states.add(hash(key))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """A behaviour of the reference model was replayed on the implementation and compared."""
        self.traces += n

    def outcome(self, tag):
        self.outcomes[tag] = self.outcomes.get(tag, 0) + 1

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)


def cpython_shim():
    """Lets CPython (used by C23 only) import the repository: the packages installed for the repository's interpreter,
    and the abstract classes under the names that the repository uses."""
    import collections
    import collections.abc
    import warnings
    for n in ('MutableMapping', 'MutableSequence', 'Mapping', 'Sequence', 'Iterable'):
        if not hasattr(collections, n):
            setattr(collections, n, getattr(collections.abc, n))
    warnings.simplefilter('ignore')
    try:
        import pkg_resources, six, jsonconversion  # noqa
    except ImportError:
        sys.path.append('/opt/venv/lib/pypy3.9/site-packages')


def setup_repo():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if not hasattr(sys, 'pypy_version_info'):
        cpython_shim()
    import amazon.ion
    import amazon.ion.simpleion
    where = os.path.realpath(amazon.ion.simpleion.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('amazon.ion comes from %s, not from %s' % (where, REPO))


_MODULE = None
_TICK = {'rec': None, 'in_case': False, signal.SIGPROF: -1, signal.SIGALRM: -1}


def _on_alarm(signum, frame):
    rec = _TICK['rec']
    if rec is None or not _TICK['in_case']:
        return
    if _TICK[signum] == rec.evals:
        _TICK[signum] = -1
        raise Hang()
    _TICK[signum] = rec.evals


def _worker_init(modname):
    global _MODULE
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    setup_repo()
    _MODULE = importlib.import_module(modname)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, HANG_TICK_S, HANG_TICK_S)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_WALL_S, HANG_WALL_S)


def _decide(fn, payload, rec):
    """Runs one case; returns None or a message."""
    try:
        fn(payload, rec)
        return None
    except Violation as e:
        return str(e)
    except Hang:
        return 'the case did not finish within %d s of processor time' % HANG_TICK_S
    except MemoryError:
        return 'the case ran out of memory'
    except RecursionError as e:
        return 'unexpected RecursionError'
    except Exception as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])


def _run_job(job):
    kind, args = job
    rec = Rec()
    _TICK.update({'rec': rec, signal.SIGPROF: -1, signal.SIGALRM: -1})
    fn = _MODULE.KINDS[kind]
    violations = []
    known = getattr(_MODULE, 'known', None)
    found = {}
    t0 = time.time()
    longest = 0
    first = last = None
    gen = iter(_MODULE.cases(kind, args))
    while True:
        # The generators only use the reference model; they never run the code under test.
        try:
            payload = next(gen)
        except StopIteration:
            break
        rec.evals += 1
        if first is None:
            first = payload
        last = payload
        _TICK['in_case'] = True
        t1 = time.time()
        msg = _decide(fn, payload, rec)
        longest = max(longest, time.time() - t1)
        _TICK['in_case'] = False
        if msg is not None:
            fid = known(kind, payload, msg) if known else None
            if fid is not None:
                found.setdefault(fid, (kind, payload, msg))
                continue
            violations.append((kind, payload, msg))
            if len(violations) >= MAX_VIOLATIONS_PER_JOB or 'did not finish' in msg[:30]:
                break
    _TICK['rec'] = None
    samples = list(rec.samples)
    if not samples and first is not None:
        samples = [_short((kind, first))] + ([_short((kind, last))] if last is not first else [])
    return {
        'evals': rec.evals, 'states': len(rec.states) + rec.n_states, 'transitions': rec.transitions,
        'traces': rec.traces, 'outcomes': rec.outcomes, 'samples': samples, 'extra': rec.extra,
        'violations': violations, 'known': found, 'job': job, 's': time.time() - t0, 'longest': longest,
    }


def _short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def run(pid, tier, seed):
    modname = 'ionmc.checks.%s' % pid.lower()
    t0 = time.time()
    setup_repo()
    mod = importlib.import_module(modname)
    jobs = list(mod.jobs(tier))
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    for old in os.listdir(evdir):
        if old.startswith(pid + '.violation-'):
            os.unlink(os.path.join(evdir, old))
    budget = float(os.environ.get('IONMC_BUDGET_S') or (780 if tier == 'quick' else 36000))
    results = []
    stopped = None
    from concurrent.futures import ProcessPoolExecutor, as_completed
    import multiprocessing
    ex = ProcessPoolExecutor(max_workers=N_PROC, mp_context=multiprocessing.get_context('fork'),
                             initializer=_worker_init, initargs=(modname,))
    futures = {}
    try:
        futures = {ex.submit(_run_job, j): i for i, j in enumerate(jobs)}
        n_viol = 0
        for fu in as_completed(futures, timeout=budget):
            r = fu.result()
            r['i'] = futures[fu]
            results.append(r)
            n_viol += len(r['violations'])
            if n_viol >= 2 * MAX_VIOLATIONS_PER_JOB:
                stopped = 'stopped after %d violations' % n_viol
                break
    except Exception as e:   # a dead or stuck worker: no verdict unless something was found before
        stopped = '%s: %s' % (type(e).__name__, e)
        if not any(r['violations'] for r in results):
            traceback.print_exc()
            _kill(ex)
            print('ERROR property=%s %s' % (pid, stopped))
            return 2
    if stopped:
        _kill(ex)
    else:
        ex.shutdown()
    results.sort(key=lambda r: r['i'])

    violations = [v for r in results for v in r['violations']]
    known_found = {}
    for r in results:
        for fid, v in r['known'].items():
            known_found.setdefault(fid, v)
    outcomes, extra, samples = {}, {}, []
    per_kind = {}
    for r in results:
        for k, n in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + n
        for k, n in r['extra'].items():
            extra[k] = extra.get(k, 0) + n
        k = r['job'][0]
        if per_kind.get(k, 0) < 2:
            for s in r['samples'][:1]:
                samples.append(s)
                per_kind[k] = per_kind.get(k, 0) + 1
    evals = sum(r['evals'] for r in results)
    states = sum(r['states'] for r in results)
    by_kind = {}
    for r in results:
        by_kind[r['job'][0]] = by_kind.get(r['job'][0], 0) + r['evals']
    coverage = {
        'states': states,
        'transitions': sum(r['transitions'] for r in results),
        'traces_validated_against_impl': sum(r['traces'] for r in results),
        'samples': samples[:16],
        'evaluations': evals,
        'distinct_nontrivial': states,
        'rule': mod.RULE,
        'cases_by_kind': by_kind,
        'distinct_outcomes': len(outcomes),
        'outcomes': dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
        'jobs': len(jobs), 'jobs_finished': len(results),
        'exhaustive': stopped is None,
    }
    coverage.update(extra)
    wall = time.time() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': coverage,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    path = os.path.join(evdir, pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=repr)
    os.replace(path + '.tmp', path)

    print('property=%s tier=%s cases=%d states=%d transitions=%d traces=%d outcomes=%d jobs=%d/%d wall=%.1fs%s' % (
        pid, tier, evals, states, coverage['transitions'], coverage['traces_validated_against_impl'], len(outcomes),
        len(results), len(jobs), wall, ' (%s)' % stopped if stopped else ''))
    if os.environ.get('IONMC_TIMES'):
        groups = {}
        for r in results:
            key = ' '.join([str(r['job'][0])] + [x for x in r['job'][1] if isinstance(x, str)])
            groups[key] = groups.get(key, 0) + r['s']
        for key in sorted(groups, key=lambda k: -groups[k])[:40]:
            print('  group %7.1fs %s' % (groups[key], key))
        for r in sorted(results, key=lambda r: -r['s'])[:25]:
            print('  %.1fs %d cases, longest %.1fs %s' % (r['s'], r['evals'], r['longest'], _short(r['job'], 160)))
        print('longest case %.1fs' % max(r['longest'] for r in results))
    listed = {f['id']: f for f in load_known() if f.get('status') == 'known' and f['property'] == pid}
    for fid in sorted(known_found):
        if fid in listed:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, fid, listed[fid]['what']))
        else:
            violations.append(known_found[fid])
    if not violations:
        if evals == 0 or not results:
            print('ERROR property=%s explored nothing' % pid)
            return 2
        return 0
    violations.sort(key=lambda v: len(repr(v[1])))
    if os.environ.get('IONMC_DUMP'):
        with open(os.environ['IONMC_DUMP'], 'w') as f:
            json.dump([(k, repr(p), m) for k, p, m in violations], f)
    for n, (kind, payload, msg) in enumerate(violations[:5], 1):
        rp = os.path.join(evdir, '%s.violation-%d.json' % (pid, n))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'kind': kind, 'payload': repr(payload), 'message': msg,
                       'tier': tier, 'how': './check %s --replay %s' % (pid, rp)}, f, indent=1)
        print('-- %s %s\n   %s' % (kind, _short(payload, 600), msg[:3000].replace('\n', '\n   ')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1


def _kill(ex):
    procs = list((getattr(ex, '_processes', None) or {}).values())
    for p in procs:
        try:
            p.kill()
        except Exception:
            pass
    try:
        ex.shutdown(wait=False, cancel_futures=True)
    except TypeError:
        ex.shutdown(wait=False)


def replay(pid, path):
    with open(path) as f:
        r = json.load(f)
    modname = 'ionmc.checks.%s' % pid.lower()
    _worker_init(modname)
    rec = Rec()
    _TICK['rec'] = rec
    _TICK['in_case'] = True
    payload = ast.literal_eval(r['payload'])
    msg = _decide(_MODULE.KINDS[r['kind']], payload, rec)
    if msg is None:
        print('replay: the property holds on this case')
        return 0
    print('-- %s %s\n   %s' % (r['kind'], _short(payload, 2000), msg))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def main(argv):
    pid = argv[0].upper()
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(pid, argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2 and argv[1] == '--tier':
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['VERIF_TIER'] = tier
    rc = run(pid, tier, seed)
    sys.stdout.flush()
    return rc

