"""Runner shared by all checks.

    check.sh P01 quick|thorough [--replay FILE] [--cases N] [--jobs N] [--seed N]

Every check module (``checks/pNN.py``) provides

    ANCHORS      anchored source files, relative to /repo
    RULE         how cases are made, what makes one non-trivial
    QUICK, THOROUGH   numbers of cases
    LEVEL, ASSUMPTIONS (optional)
    MIN          {event name: least number that must have been observed}
    gen(rng, i, tier) -> case     JSON value, normally {'cfg':…, 'ops': […]}
    run(case, mon)                runs the real code, raises Violation
    fixed(mon)   (optional)       deterministic extra cases: yields (name, fn)
    known(mon)   (optional)       {finding id: probe} -> probe() returns True while the defect is there

Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: no verdict.
"""
import argparse
import ctypes
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
NODE = os.path.join(SRC, 'node') + os.sep


class Violation(Exception):
    """The monitored execution contradicts the property."""

    def __init__(self, kind, detail=''):
        super().__init__('{}: {}'.format(kind, detail))
        self.kind = kind
        self.detail = detail


class CaseTimeout(BaseException):
    pass


class StepLimit(BaseException):
    pass


def short(value, limit=300):
    try:
        text = repr(value)
    except Exception as e:  # a repr of the code under test may fail
        text = '<unrepresentable {}: {}>'.format(type(value).__name__, type(e).__name__)
    return text if len(text) <= limit else text[:limit] + '...'


class Mon(object):
    """Collects what the monitors observed."""

    def __init__(self):
        self.events = {}
        self.nontrivial = set()
        self.states = set()
        self.samples = []
        self.trace = None

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def state(self, sig):
        if len(self.states) < 200000:
            self.states.add(hash(sig))

    def note(self, *what):
        if self.trace is not None:
            self.trace.append(' '.join(x if isinstance(x, str) else short(x) for x in what))

    def eq(self, actual, expected, kind, *what):
        self.ev('comparisons')
        try:
            same = type(actual) is type(expected) and bool(actual == expected) \
                if isinstance(expected, (bool, int, float, str, bytes, list, tuple, dict)) \
                else bool(actual == expected)
        except Violation:
            raise
        except Exception as e:
            raise Violation(kind, '{} comparing {}'.format(type(e).__name__, ' '.join(map(str, what))))
        if not same:
            raise Violation(kind, '{}: got {} expected {}'.format(
                ' '.join(map(str, what)), short(actual), short(expected)))

    def is_(self, actual, expected, kind, *what):
        self.ev('comparisons')
        if actual is not expected:
            raise Violation(kind, '{}: got {} expected the object {}'.format(
                ' '.join(map(str, what)), short(actual), short(expected)))

    def true(self, cond, kind, *what):
        self.ev('comparisons')
        if not cond:
            raise Violation(kind, ' '.join(x if isinstance(x, str) else short(x) for x in what))


def outcome(fn, *args, **kw):
    """('ok', value) or ('exc', exception)."""
    try:
        return 'ok', fn(*args, **kw)
    except Exception as e:
        return 'exc', e


def raises(mon, exc, kind, what, fn, *args, **kw):
    """fn must raise exc (class or tuple)."""
    mon.ev('expected_errors')
    state, val = outcome(fn, *args, **kw)
    if state == 'ok':
        raise Violation(kind, '{}: returned {} but {} was expected'.format(what, short(val), exc))
    if isinstance(val, (Violation,)):
        raise val
    if not isinstance(val, exc):
        raise Violation(kind, '{}: raised {!r} but {} was expected'.format(what, val, exc))
    return val


def ok(mon, kind, what, fn, *args, **kw):
    """fn must not raise."""
    state, val = outcome(fn, *args, **kw)
    if state == 'exc':
        if isinstance(val, Violation):
            raise val
        tb = traceback.extract_tb(val.__traceback__)
        at = ' <- '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
        raise Violation(kind, '{}: unexpected {!r} at {}'.format(what, val, at))
    return val


# ---------------------------------------------------------------------------
# executed lines of the code under test
# ---------------------------------------------------------------------------

class Coverage(object):
    TOOL = 3

    def __init__(self):
        self.lines = {}

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'verif-coverage')
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)

    def _line(self, code, line):
        fn = code.co_filename
        if fn.startswith(NODE):
            self.lines.setdefault(fn[len(SRC) + 1:], set()).add(line)
        return sys.monitoring.DISABLE


class Steps(object):
    """Counts executed lines everywhere, aborts beyond a limit."""
    TOOL = 4

    def __init__(self, limit):
        self.limit = limit
        self.count = 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'verif-steps')
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.register_callback(self.TOOL, m.events.JUMP, self._line)
        m.set_events(self.TOOL, m.events.LINE | m.events.JUMP)
        m.restart_events()
        return self

    def _line(self, *args):
        self.count += 1
        if self.count > self.limit:
            self.count = 0
            raise StepLimit()

    def __exit__(self, *args):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except ValueError:  # already limited further
        pass


CASE_SECONDS = 30
CASE_STEPS = 20000000


def _alarm(signum, frame):
    raise CaseTimeout()


def in_thread(fn):
    """fn() in a new thread; its exceptions come back, CaseTimeout goes there."""
    got = []
    done = threading.Event()

    def main():
        try:
            fn()
        except BaseException as e:
            got.append(e)
        finally:
            done.set()
    t = threading.Thread(target=main, daemon=True)
    t.start()
    try:
        done.wait()
    except CaseTimeout:
        # the thread must not go on beside the next case
        for _ in range(50):
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(CaseTimeout))
            t.join(.1)
            if not t.is_alive():
                break
        raise
    t.join()
    if got:
        raise got[0]


def while_handling(fn):
    """fn() while an exception is being handled."""
    try:
        raise LookupError('of the surroundings')
    except LookupError:
        fn()


CONTEXTS = {'thread': in_thread, 'handling': while_handling}


def go(mod, case, mon):
    ctx = case.get('_ctx') if isinstance(case, dict) else None
    if ctx is None:
        mod.run(case, mon)
    else:
        mon.ev('context.' + ctx)
        CONTEXTS[ctx](lambda: mod.run(case, mon))


def run_one(mod, case, mon, seconds=None):
    """Returns None or Violation."""
    seconds = seconds or getattr(mod, 'CASE_SECONDS', CASE_SECONDS)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        try:
            go(mod, case, mon)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None
    except Violation as e:
        return e
    except CaseTimeout:
        pass
    except MemoryError as e:
        return Violation('unbounded-memory', 'MemoryError')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = ' <- '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        return Violation('unexpected-' + type(e).__name__, '{!r} at {}'.format(e, at))
    # took too long: decide by counting steps, not by the clock
    if getattr(mod, 'THREADED', False):
        return Violation('inconclusive', 'threaded case did not finish in {} s'.format(seconds))
    signal.setitimer(signal.ITIMER_REAL, 300)
    try:
        with Steps(CASE_STEPS):
            mod.run(case, Mon())
        return None
    except StepLimit:
        return Violation('non-termination', 'more than {} steps in one case'.format(CASE_STEPS))
    except CaseTimeout:
        return Violation('inconclusive', 'case did not finish')
    except MemoryError:
        return Violation('unbounded-memory', 'MemoryError')
    except Exception as e:
        return e if isinstance(e, Violation) else Violation('unexpected-' + type(e).__name__, repr(e))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def shrink(mod, case, kind, budget=25.0):
    """Removes operations while the same kind of violation persists."""
    if not isinstance(case, dict) or not isinstance(case.get('ops'), list):
        return case
    end = time.time() + budget
    ops = list(case['ops'])

    def bad(o):
        c = dict(case)
        c['ops'] = o
        v = run_one(mod, c, Mon(), seconds=5)
        return v is not None and v.kind == kind
    size = max(1, len(ops) // 2)
    while size >= 1 and time.time() < end:
        i = 0
        while i < len(ops) and time.time() < end:
            cand = ops[:i] + ops[i + size:]
            if bad(cand):
                ops = cand
            else:
                i += size
        size //= 2
    c = dict(case)
    c['ops'] = ops
    return c


def load(prop):
    sys.path.insert(0, SRC)
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    import node
    import node.base
    files = [node.base.__file__]
    for f in files:
        if not os.path.abspath(f).startswith(NODE):
            print('ERROR: node imported from {}'.format(f))
            sys.exit(2)
    sys.modules['rt'] = sys.modules['__main__'] if __name__ == '__main__' else sys.modules[__name__]
    return importlib.import_module(prop.lower())


def make_case(mod, prop, seed, i, tier):
    case = mod.gen(random.Random('{}:{}:{}'.format(seed, prop, i)), i, tier)
    if isinstance(case, dict) and not getattr(mod, 'THREADED', False):
        # some cases run in another thread or while an exception is handled
        r = random.Random('context:{}:{}:{}'.format(seed, prop, i)).random()
        if r < .2:
            case['_ctx'] = 'thread' if r < .1 else 'handling'
    return case


def worker(args):
    limit_memory()
    sys.setrecursionlimit(3000)
    signal.signal(signal.SIGALRM, _alarm)
    mod = load(args.prop)
    mon = Mon()
    cov = Coverage()
    cov.start()
    res = {'violations': [], 'evaluations': 0, 'inconclusive': []}
    if args.worker == 0 and hasattr(mod, 'known'):
        res['known'] = {}
        for fid, probe in mod.known(mon).items():
            try:
                res['known'][fid] = bool(probe())
            except Exception as e:
                res['known'][fid] = None
                res.setdefault('known_error', {})[fid] = repr(e)
    if args.worker == 0 and hasattr(mod, 'fixed'):
        for name, fn in mod.fixed(mon):
            class M(object):
                THREADED = getattr(mod, 'THREADED', False)
                CASE_SECONDS = getattr(mod, 'CASE_SECONDS', CASE_SECONDS)

                @staticmethod
                def run(case, m):
                    fn()
            v = run_one(M, None, mon)
            res['evaluations'] += 1
            if v is not None:
                if v.kind == 'inconclusive':
                    res['inconclusive'].append('{}: {}'.format(name, v))
                else:
                    res['violations'].append({'case': {'fixed': name}, 'kind': v.kind, 'detail': v.detail, 'i': -1})
                break
    for i in range(args.worker, args.cases, args.jobs):
        case = make_case(mod, args.prop, args.seed, i, args.tier)
        # what is executed is what a replay file would hold
        case = json.loads(json.dumps(case))
        v = run_one(mod, case, mon)
        res['evaluations'] += 1
        if v is None:
            sig = json.dumps(case, sort_keys=True)
            mon.nontrivial.add(hash(sig)) if len(case.get('ops', case)) else None
            if len(mon.samples) < 2 and len(sig) < 1500:
                mon.samples.append(case)
            continue
        if v.kind == 'inconclusive':
            res['inconclusive'].append('case {}: {}'.format(i, v.detail))
            if len(res['inconclusive']) > 2:
                break
            continue
        rec = {'i': i, 'kind': v.kind, 'detail': v.detail, 'case': case, 'alone': False}
        again = run_one(mod, case, Mon())
        if again is not None and again.kind != 'inconclusive':
            small = shrink(mod, case, again.kind)
            fin = run_one(mod, small, Mon())
            if fin is None or fin.kind == 'inconclusive':
                small, fin = case, again
            rec.update(case=small, kind=fin.kind, detail=fin.detail, alone=True)
        res['violations'].append(rec)
        break
    res['events'] = mon.events
    res['nontrivial'] = list(mon.nontrivial)
    res['states'] = list(mon.states)
    res['samples'] = mon.samples
    res['lines'] = {k: sorted(v) for k, v in cov.lines.items()}
    with open(args.out, 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    # threads of broken code under test must not keep the worker alive
    os._exit(0)


def executable_lines(path):
    try:
        with open(path) as f:
            code = compile(f.read(), path, 'exec')
    except Exception:
        return set()
    out = set()
    todo = [code]
    while todo:
        c = todo.pop()
        if c.co_flags & 1:  # function bodies only, the rest runs at import
            out.update(l for _, _, l in c.co_lines() if l and l != c.co_firstlineno)
        todo.extend(k for k in c.co_consts if hasattr(k, 'co_lines'))
    return out


def parent(args):
    t0 = time.time()
    prop = args.prop
    mod = load(prop)
    quick = args.tier == 'quick'
    cases = args.cases if args.cases is not None else (mod.QUICK if quick else mod.THOROUGH)
    jobs = args.jobs or getattr(mod, 'JOBS', 6)
    scratch = tempfile.mkdtemp(prefix='verif-')
    deadline = t0 + (600 if quick else 3600 * 3)
    try:
        procs = []
        for w in range(jobs):
            out = os.path.join(scratch, 'out{}.json'.format(w))
            cmd = [sys.executable, '-W', 'ignore', os.path.abspath(__file__), prop, args.tier, '--worker', str(w),
                   '--jobs', str(jobs), '--cases', str(cases), '--seed', str(args.seed), '--out', out]
            env = dict(os.environ, VERIF_SCRATCH=scratch)
            procs.append((out, subprocess.Popen(cmd, env=env, start_new_session=True)))
        results, errors = [], []
        for out, p in procs:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                errors.append('worker ended with {} and no result'.format(rc))
    finally:
        for _, p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    events, lines = {}, {}
    nontrivial, states, samples, violations, inconclusive = set(), set(), [], [], []
    evaluations = 0
    known_state = {}
    for r in results:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['lines'].items():
            lines.setdefault(k, set()).update(v)
        nontrivial.update(r['nontrivial'])
        states.update(r['states'])
        samples.extend(r['samples'])
        violations.extend(r['violations'])
        inconclusive.extend(r['inconclusive'])
        evaluations += r['evaluations']
        known_state.update(r.get('known', {}))
        for fid, err in r.get('known_error', {}).items():
            print('note: probe of known finding {} failed: {}'.format(fid, err))
    code = 0
    # known findings
    listed = known_findings(prop)
    for fid, text in listed.items():
        if known_state.get(fid):
            print('KNOWN-FINDING: property={} {}'.format(prop, text))
    for fid, state in known_state.items():
        if state and fid not in listed:
            violations.append({'i': -1, 'kind': 'finding-' + fid, 'detail': 'defect probe ' + fid,
                               'case': {'probe': fid}, 'alone': True})
    if violations:
        violations.sort(key=lambda v: v['i'])
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for v in violations:
            if v['kind'] in seen:
                continue
            seen.add(v['kind'])
            path = os.path.join(VERIF, 'replays', '{}-{}-{}.json'.format(prop, args.seed, max(v['i'], 0)))
            v.update(property=prop, seed=args.seed, tier=args.tier, jobs=jobs, cases=cases)
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('  {}: {}'.format(v['kind'], v['detail'][:1500]))
            print('VIOLATION property={} replay={}'.format(prop, path))
        code = 1
    total = executed = 0
    percov = {}
    for a in mod.ANCHORS:
        ex = executable_lines(os.path.join(REPO, a))
        key = os.path.relpath(a, 'src')
        hit = lines.get(key, set()) & ex
        total += len(ex)
        executed += len(hit)
        percov[a] = '{}/{}'.format(len(hit), len(ex))
    level = getattr(mod, 'LEVEL', 'exploration')
    cov = {
        'evaluations': evaluations,
        'distinct_nontrivial': len(nontrivial),
        'rule': mod.RULE,
        'samples': samples[:3],
        'events_observed': events,
        'distinct_states': len(states),
        'anchor_lines_executed': percov,
    }
    if getattr(mod, 'EXPLAIN', None):
        cov['explanation'] = mod.EXPLAIN
    ev = {
        'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': level, 'coverage': cov,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    text = json.dumps(ev, indent=1)
    if len(text) > 60000:
        cov['samples'] = [short(s, 2000) for s in cov['samples']]
        text = json.dumps(ev, indent=1)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        f.write(text)
    if code == 0:
        problems = list(errors) + inconclusive
        if args.cases is None:
            for k, n in getattr(mod, 'MIN', {}).items():
                if events.get(k, 0) < n:
                    problems.append('only {} x {} observed, {} needed'.format(events.get(k, 0), k, n))
        if problems:
            for p in problems:
                print('INCONCLUSIVE {}: {}'.format(prop, p))
            code = 2
    print('{} {}: {} cases, {} distinct, {} comparisons, {} states, lines {}/{}, {:.1f} s -> {}'.format(
        prop, args.tier, evaluations, len(nontrivial), events.get('comparisons', 0), len(states), executed, total,
        time.time() - t0, {0: 'held', 1: 'VIOLATED', 2: 'no verdict'}[code]))
    if args.verbose:
        print(json.dumps(events, indent=1, sort_keys=True))
        for a in mod.ANCHORS:
            ex = executable_lines(os.path.join(REPO, a))
            print(a, 'not executed:', sorted(ex - lines.get(os.path.relpath(a, 'src'), set())))
    sys.exit(code)


def known_findings(prop):
    """Open findings of known_findings.json for a property: {id: text}."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {x['id']: x['what'] for x in data['open'] if x['property'] == prop}


def replay(args):
    limit_memory()
    signal.signal(signal.SIGALRM, _alarm)
    with open(args.replay) as f:
        rec = json.load(f)
    mod = load(rec['property'])
    mon = Mon()
    case = rec['case']
    v = None
    if 'fixed' in case:
        for name, fn in mod.fixed(mon):
            if name == case['fixed']:
                try:
                    fn()
                except Exception as e:
                    v = e if isinstance(e, Violation) else Violation('unexpected-' + type(e).__name__, repr(e))
    elif 'probe' in case:
        v = Violation('finding', case['probe']) if mod.known(mon)[case['probe']]() else None
    else:
        if not rec.get('alone', True):
            jobs = rec.get('jobs', 1)
            for i in range(rec['i'] % jobs, rec['i'], jobs):
                run_one(mod, json.loads(json.dumps(make_case(mod, rec['property'], rec['seed'], i, rec['tier']))), Mon())
        mon.trace = []
        v = run_one(mod, case, mon)
        for line in mon.trace:
            print('   ', line)
    if v is not None:
        print('  {}: {}'.format(v.kind, v.detail))
        print('VIOLATION property={} replay={}'.format(rec['property'], args.replay))
        sys.stdout.flush()
        os._exit(1)
    print('{}: not reproduced'.format(rec['property']))
    sys.stdout.flush()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('-v', '--verbose', action='store_true')
    args = ap.parse_args()
    if args.replay:
        replay(args)
    elif args.worker is not None:
        worker(args)
    else:
        parent(args)


if __name__ == '__main__':
    main()
