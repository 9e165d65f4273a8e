"""Runner for the property-based checks.

A property consists of sub-checks.  Every sub-check has a Hypothesis strategy that
produces a JSON-able *spec* and a function run(spec, ctx) that builds the case from
the spec, exercises the code under test and compares it with its oracle.  A failing
spec is shrunk by Hypothesis and written as the replay file.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter, deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

CASE_TIMEOUT = 60          # seconds a single case may take before it counts as a hang
NO_ANSWER = 'no answer within {} s on a case that normally takes milliseconds'.format(CASE_TIMEOUT)
SHRINK_BUDGET = 45         # seconds after the first failure


class Violation(Exception):
    """The code under test contradicts the oracle."""


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Stop(BaseException):
    """Leave Hypothesis: time budget used up."""


class Sub:
    def __init__(self, prop, name, strategy, run, quick, thorough, rule, examples=(), shards=None):
        self.prop, self.name, self.strategy, self.run = prop, name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.examples = list(examples)
        self.shards = shards


REGISTRY = {}


def sub(prop, name, strategy, quick=300, thorough=None, rule='', examples=(), shards=None):
    def deco(f):
        s = Sub(prop, name, strategy, f, quick, thorough or quick * 25, rule, examples, shards)
        REGISTRY.setdefault(prop, []).append(s)
        return f
    return deco


class Ctx:
    """Collects what a case looked like (for evidence)."""
    def __init__(self):
        self.nontrivial = False
        self.tags = set()

    def tag(self, *tags):
        self.tags.update(str(t) for t in tags)

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def check(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(',', ':'))


def _in_repo(tb):
    pref = os.path.join(SRC, 'CTL') + os.sep
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.abspath(fn).startswith(pref) or fn.startswith(pref):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(s, spec):
    """Returns ctx; raises Violation or HarnessError."""
    import numpy as np
    ctx = Ctx()
    np.random.seed(12345)
    import random
    rstate = random.getstate()
    random.seed(54321)
    out = io.StringIO()
    # processor time, so that a loaded machine makes no case look like a hang; real time only as a last resort
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
    signal.setitimer(signal.ITIMER_REAL, 3 * CASE_TIMEOUT)
    try:
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(out), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                s.run(spec, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old[0])
            signal.signal(signal.SIGPROF, old[1])
            random.setstate(rstate)
            _restore()
    except Violation:
        raise
    except CaseTimeout:
        raise Violation(NO_ANSWER)
    except (KeyboardInterrupt, Stop):
        raise
    except Exception as e:  # noqa
        if type(e).__module__.startswith('hypothesis'):
            raise
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if _in_repo(e.__traceback__):
            raise Violation('the code raised {}: {} on a valid input\n{}'.format(type(e).__name__, str(e)[:500], tb)) from e
        if isinstance(e, (MemoryError, ImportError, OSError)):
            raise HarnessError(tb) from e
        # never happens on results of the right form
        raise Violation('a result could not be compared with the expectation: {}: {}\n{}'.format(type(e).__name__, str(e)[:500], tb)) from e
    return ctx


def _restore():
    import numpy as np
    import CTL.funcs.xplib as xplib
    xplib.xp = np


def derive(*parts):
    h = hashlib.sha256('|'.join(str(x) for x in parts).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def _worker(s, n, seed, shard, budget, q):
    sys.setrecursionlimit(5000)
    res = {'sub': s.name, 'shard': shard, 'evaluations': 0, 'nt': set(), 'tags': Counter(), 'samples': [],
           'failure': None, 'error': None, 'stopped': False, 'slowest': 0.0}
    start = time.time()
    state = {'fail': None, 'fail_t': None}
    hist = deque(maxlen=5000)

    def one(spec):
        now = time.time()
        if state['fail_t'] is not None and now - state['fail_t'] > SHRINK_BUDGET:
            raise Stop()
        if state['fail_t'] is None and now - start > budget:
            res['stopped'] = True
            raise Stop()
        hist.append(spec)
        try:
            ctx = run_case(s, spec)
        except Violation as e:
            state['fail'] = (spec, str(e))
            res['history'] = list(hist)[:-1]
            if state['fail_t'] is None:
                state['fail_t'] = time.time()
            raise
        if state['fail_t'] is None:
            res['evaluations'] += 1
            res['slowest'] = max(res['slowest'], time.time() - now)
            for t in ctx.tags:
                res['tags'][t] += 1
            if ctx.nontrivial:
                c = canon(spec)
                h = hashlib.blake2b(c.encode(), digest_size=8).digest()
                if h not in res['nt']:
                    res['nt'].add(h)
                    if len(res['samples']) < 3 and (len(res['nt']) in (1, 7, 40)):
                        res['samples'].append(spec)

    try:
        if shard == 0:
            for ex in s.examples:
                one(ex)
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        hypothesis.configuration.set_hypothesis_home_dir(os.path.join(tempfile.gettempdir(), 'verif-hyp-%d' % os.getpid()))

        def test(spec):
            one(spec)
        t = given(s.strategy)(test)
        t = hypothesis.seed(derive(seed, s.prop, s.name, shard))(t)
        t = settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                     suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                     verbosity=hypothesis.Verbosity.quiet)(t)
        with contextlib.redirect_stderr(io.StringIO()):
            t()
    except Stop:
        pass
    except Violation:
        pass
    except HarnessError as e:
        res['error'] = str(e)
    except BaseException as e:  # noqa
        if state['fail'] is None:
            res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    if state['fail'] is not None:
        res['failure'] = state['fail']
        res['error'] = None
    import shutil
    shutil.rmtree(os.path.join(tempfile.gettempdir(), 'verif-hyp-%d' % os.getpid()), ignore_errors=True)
    q.put(res)


def _fresh(s, specs, q):
    sys.setrecursionlimit(5000)
    out = None
    for i, spec in enumerate(specs):
        try:
            run_case(s, spec)
        except Violation as e:
            if i == len(specs) - 1:
                out = str(e)
        except BaseException:  # noqa
            pass
    q.put((out,))


def fails_fresh(s, specs, limit=60.0):
    """Message of the violation of the last spec when the specs run in this order in a new process, or None."""
    q = multiprocessing.Queue()
    pr = multiprocessing.Process(target=_fresh, args=(s, specs, q), daemon=True)
    pr.start()
    try:
        r = q.get(timeout=limit)[0]
    except Exception:
        r = None
    if pr.is_alive():
        pr.kill()
    pr.join()
    return r


def only_slow(s, spec):
    """True if the case does come to an end without a violation when it gets four times the time in a new process."""
    global CASE_TIMEOUT
    old, CASE_TIMEOUT = CASE_TIMEOUT, 1000
    try:
        q = multiprocessing.Queue()
        pr = multiprocessing.Process(target=_fresh, args=(s, [spec], q), daemon=True)
        pr.start()
        try:
            return q.get(timeout=4 * old)[0] is None
        except Exception:
            return False
        finally:
            if pr.is_alive():
                pr.kill()
            pr.join()
    finally:
        CASE_TIMEOUT = old


def minimal_history(s, spec, history, budget=60.0):
    """A case that fails only after others (state kept by the code under test): the few others that are needed."""
    t0 = time.time()
    if fails_fresh(s, [spec]) is not None:
        return []
    keep = None
    for k in (10, 100, 1000, len(history)):
        h = history[-k:]
        if fails_fresh(s, h + [spec]) is not None:
            keep = h
            break
    if keep is None:
        return None
    size = max(1, len(keep) // 2)
    while time.time() - t0 < budget:
        i, cut = 0, False
        while i < len(keep) and time.time() - t0 < budget:
            h = keep[:i] + keep[i + size:]
            if fails_fresh(s, h + [spec]) is not None:
                keep, cut = h, True
            else:
                i += size
        if size == 1 and not cut:
            break
        size = max(1, size // 2)
    return keep


def run_property(prop, title, tier, seed, level_note=''):
    t0 = time.time()
    subs = REGISTRY[prop]
    cores = max(1, min(8, os.cpu_count() or 1))
    budget = 200.0 if tier == 'quick' else 420.0
    tasks = []
    for s in subs:
        n = s.quick if tier == 'quick' else s.thorough
        shards = s.shards or max(1, min(cores, n // 60))
        if tier == 'thorough':
            shards = max(shards, 8)
        per = -(-n // shards)
        for k in range(shards):
            tasks.append((s, per, k))
    # long tasks of different subs interleaved
    q = multiprocessing.Queue()
    running, results, pending = {}, [], list(tasks)
    total_limit = 600 if tier == 'quick' else 3000
    while pending or running:
        while pending and len(running) < cores:
            s, per, k = pending.pop(0)
            pr = multiprocessing.Process(target=_worker, args=(s, per, seed, k, budget, q), daemon=True)
            pr.start()
            running[pr.pid] = (pr, s, k, time.time())
        try:
            r = q.get(timeout=0.5)
            results.append(r)
        except Exception:
            pass
        for pid in list(running):
            pr, s, k, ts = running[pid]
            if not pr.is_alive():
                # drain
                try:
                    while True:
                        results.append(q.get(timeout=0.2))
                except Exception:
                    pass
                if not any(r['sub'] == s.name and r['shard'] == k for r in results):
                    results.append({'sub': s.name, 'shard': k, 'evaluations': 0, 'nt': set(), 'tags': Counter(),
                                    'samples': [], 'failure': None, 'stopped': False,
                                    'error': 'worker died (exit code %s)' % pr.exitcode})
                del running[pid]
            elif time.time() - ts > budget + 200:
                pr.kill()
        if any(r['failure'] for r in results) and pending:
            pending = []
        if time.time() - t0 > total_limit and pending:
            pending = []
    slow = []
    for r in results:
        if r['failure'] and r['failure'][1] == NO_ANSWER and len(slow) < 3 and only_slow([x for x in subs if x.name == r['sub']][0], r['failure'][0]):
            slow.append({'sub': r['sub'], 'spec': r['failure'][0]})
            r['failure'] = None
    failures = sorted([(canon(r['failure'][0]), r) for r in results if r['failure']], key=lambda x: (len(x[0]), x[0]))
    errors = [r for r in results if r['error']]
    violations = []
    rdir = os.path.join(VERIF, 'replays')
    seen_sub = set()
    for c, r in failures:
        if r['sub'] in seen_sub:
            continue
        seen_sub.add(r['sub'])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%s.json' % (prop, r['sub'], hashlib.sha256(c.encode()).hexdigest()[:10]))
        case = {'property': prop, 'sub': r['sub'], 'spec': r['failure'][0], 'message': r['failure'][1]}
        with open(path, 'w') as f:
            json.dump(case, f, indent=1)
        h = [] if r['failure'][1] == NO_ANSWER else \
            minimal_history([x for x in subs if x.name == r['sub']][0], r['failure'][0], r.get('history', []))
        if h is None:
            case['note'] = 'this case did not fail when it was repeated in a new process'
        elif h:
            case['history'] = h
        with open(path, 'w') as f:
            json.dump(case, f, indent=1)
        violations.append((path, r))
    per_sub = {}
    allnt = 0
    for s in subs:
        rs = [r for r in results if r['sub'] == s.name]
        nt = set()
        tags = Counter()
        for r in rs:
            nt |= r['nt']
            tags.update(r['tags'])
        allnt += len(nt)
        per_sub[s.name] = {'evaluations': sum(r['evaluations'] for r in rs), 'distinct_nontrivial': len(nt),
                           'rule': s.rule, 'shards': len(rs), 'slowest_case_s': round(max([r.get('slowest', 0.0) for r in rs], default=0.0), 2), 'stopped_by_time_budget': any(r['stopped'] for r in rs),
                           'classification': dict(sorted(tags.items()))}
    samples = []
    for s in subs:
        for r in results:
            if r['sub'] == s.name and r['samples']:
                samples.append({'sub': s.name, 'spec': r['samples'][-1]})
                break
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(x['evaluations'] for x in per_sub.values()),
                       'distinct_nontrivial': allnt,
                       'rule': 'Hypothesis-generated specs; distinct by their canonical JSON; non-trivial per sub-check: '
                               + ' || '.join('%s: %s' % (s.name, s.rule) for s in subs),
                       'samples': samples, 'per_sub': per_sub, 'slow_cases_without_verdict': slow},
          'assumptions': ['numpy (einsum, linalg, indexing) and the independent reference code under /verif are trusted',
                          'generated data are small integers (exact in float64) unless a decomposition is involved'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for s in subs:
        x = per_sub[s.name]
        print('%s/%s: %d cases, %d distinct non-trivial%s' % (prop, s.name, x['evaluations'], x['distinct_nontrivial'],
              ' (time budget)' if x['stopped_by_time_budget'] else ''))
    print_known(prop)
    if violations:
        for path, r in violations:
            print('--- %s/%s: %s' % (prop, r['sub'], r['failure'][1][:3000]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for r in errors[:3]:
            print('HARNESS ERROR in %s/%s: %s' % (prop, r['sub'], r['error']), file=sys.stderr)
        return 2
    print('%s held on everything explored (%.1f s)' % (prop, time.time() - t0))
    return 0


def known_entries():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return json.load(open(path))['entries']


def print_known(prop):
    for e in known_entries():
        if e['property'] == prop and e['status'] == 'finding':
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))


def is_known(prop, key):
    return any(e['property'] == prop and e['status'] == 'finding' and e.get('key') == key for e in known_entries())


def replay(prop, path):
    d = json.load(open(path))
    for s in REGISTRY[prop]:
        if s.name == d['sub']:
            for spec in d.get('history', []):
                try:
                    run_case(s, spec)
                except Violation:
                    pass
            try:
                run_case(s, d['spec'])
            except Violation as e:
                print(str(e))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                return 1
            print('replay passes')
            return 0
    print('no such sub-check: %s' % d['sub'], file=sys.stderr)
    return 2
