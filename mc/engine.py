"""
Bounded-exhaustive explicit-state exploration of the real implementation.

A check builds sections.  Each section is a finite, deterministically enumerated space:

  * sweep:      every case of an enumeration is executed on freshly built real objects and judged by a reference model
  * histories:  every sequence of operations up to a depth, drawn from a finite alphabet, is executed on a fresh world
                (real objects in lockstep with a reference model).  Sequences are extended one operation at a time;
                a sequence whose last operation is not enabled is not extended.  With dedup=True a sequence is only
                extended when its canonical state (of the model and of everything observable) has not been seen with
                at least that many remaining operations (explicit-state search); without, every history is executed.

Nothing is sampled: a section either runs to the end of its space or the check says so (exhaustive=false in the
evidence).  Work is divided over forked workers; the union of all explored states is counted.
"""

import io
import json
import os
import pickle
import signal
import sys
import time
import traceback
import hashlib

CASE_SECONDS = 60           # A single case or history that needs longer than this does not terminate, for our purposes
WATCHED = -1
MAX_VIOLATIONS = 3


class Violation(Exception):
    """The implementation disagrees with the reference model"""


class Disabled(Exception):
    """Operation is not enabled in this state"""


def fail(fmt, *args):
    raise Violation(fmt % args if args else fmt)


def require(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def near(a, b, tol=1e-9):
    """Numbers equal up to rounding, relative to their magnitude (absolute below 1)"""
    a = float(a)
    b = float(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def flat(v):
    """Flatten nested tuples/lists/iterables (points, vectors) of numbers"""
    if hasattr(v, 'xy'):
        v = v.xy()
    if isinstance(v, (list, tuple)):
        return [w for u in v for w in flat(u)]
    return [v]


def near_all(a, b, tol=1e-9):
    fa, fb = flat(a), flat(b)
    return len(fa) == len(fb) and all(near(x, y, tol) for x, y in zip(fa, fb))


def same(what, got, want, tol=1e-9):
    """Require that numbers, points, or nested sequences of them agree up to rounding"""
    try:
        ok = near_all(got, want, tol)
    except (TypeError, ValueError):
        ok = False
    if not ok:
        raise Violation('%s: got %s, expected %s' % (what, show(got), show(want)))


def equal(what, got, want):
    if not got == want:
        raise Violation('%s: got %s, expected %s' % (what, show(got), show(want)))


def show(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + '...'


def raises(exc, func, *args, **kwargs):
    """Require that func raises exc (a class or tuple of classes)"""
    try:
        r = func(*args, **kwargs)
    except exc as err:
        return err
    raise Violation('%s%s: expected %s, got %s' % (
        getattr(func, '__name__', func), show(args), getattr(exc, '__name__', exc), show(r)))


def digest(key):
    return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()


class Obs(object):
    """Counters handed to a case: states seen and operations performed"""
    __slots__ = ('states', 'transitions')

    def __init__(self):
        self.states = set()
        self.transitions = 0

    def state(self, *key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n


def _alarm(signum, frame):
    raise Violation('did not terminate within %d seconds' % CASE_SECONDS)


def describe_exc(err):
    if isinstance(err, Violation):
        return str(err)
    tb = traceback.extract_tb(err.__traceback__)
    where = ' < '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-4:]))
    return 'unexpected %s: %s [%s]' % (type(err).__name__, err, where)


class Section(object):
    def __init__(self, name, about, kind):
        self.name = name
        self.about = about
        self.kind = kind
        self.runs = 0
        self.transitions = 0
        self.states = set()
        self.samples = []
        self.bounds = ''
        self.complete = True
        self.wall = 0.0


class Ctx(object):
    def __init__(self, prop, tier, seed, replay=None):
        self.prop = prop
        self.tier = tier
        self.deep = tier == 'thorough'
        self.seed = seed
        self.replay = replay
        self.sections = []
        self.violations = []        # (section, index, case, message)
        self.assumptions = []
        self.workers = int(os.environ.get('VERIF_WORKERS', '8'))

    # -- public API used by checks

    def assume(self, *texts):
        self.assumptions.extend(texts)

    def pick(self, quick, thorough):
        return thorough if self.deep else quick

    def sweep(self, name, cases, fn, about='', bounds=''):
        """Run fn(case, obs) for every case"""
        cases = list(cases)
        sec = Section(name, about, 'sweep')
        sec.bounds = bounds or '%d cases, enumerated completely' % len(cases)
        if self._skip(name):
            return

        def run_one(idx, obs):
            obs.step()
            r = fn(cases[idx], obs)
            if r is not None:
                obs.state(idx, r)

        def work(part, nparts, obs):
            runs = 0
            bad = []
            for idx in self._indices(len(cases), part, nparts):
                runs += 1
                msg = self._guard(run_one, idx, obs)
                if msg:
                    bad.append((idx, cases[idx], msg))
                    if len(bad) >= MAX_VIOLATIONS:
                        break
            return runs, bad

        self._parallel(sec, work, len(cases))
        for idx in {0, len(cases) // 2, len(cases) - 1} if cases else ():
            sec.samples.append({'section': name, 'case': show(cases[idx])})

    def histories(self, name, make, ops, depth, about='', dedup=False, watch=None):
        """
            Run every sequence over ops of length 1..depth.  make() returns a world with
                .apply(op)   perform op on implementation and model; raise Disabled if op is not enabled
                .check()     compare all that can be observed with the model
                .canon()     hashable canonical state
                .peek()      (optional) those parts of check() that change nothing
            Histories of length watch (default: depth - 1, at least 2) are run a second time with check() before the first and after
            every operation, so that whatever the queries remember meets the later operations.
        """
        if watch is None:
            watch = min(depth, max(2, depth - 1))
        ops = list(ops)
        sec = Section(name, about, 'histories')
        sec.bounds = 'all operation sequences up to length %d over an alphabet of %d%s' % (
            depth, len(ops), ', states deduplicated' if dedup else '')
        if watch:
            sec.bounds += '; those of length %d also with all queries after every operation' % watch
        if self._skip(name):
            return
        nops = len(ops)

        def execute(hist, obs):
            """Returns canonical state or None if last op is disabled"""
            w = make()
            if hist and hist[-1] == WATCHED:
                peek = getattr(w, 'peek', w.check)
                peek()
                for i in hist[:-1]:
                    w.apply(ops[i])
                    peek()
                    obs.step()
                w.check()
                return w.canon()
            if not hist:
                w.check()
                return w.canon()
            for i in hist[:-1]:
                w.apply(ops[i])
            try:
                w.apply(ops[hist[-1]])
            except Disabled:
                return None
            obs.step(len(hist))
            w.check()
            return w.canon()

        def work(part, nparts, obs):
            bad = []
            seen = {}
            count = {'runs': 0, 'pairs': 0}
            samples = []

            def attempt(hist, own):
                """Execute one history.  Returns its state, or None if disabled or bad"""
                out = []
                msg = self._guard(lambda _idx, obs_: out.append(execute(hist, obs_)), 0, obs if own else Obs())
                if msg:
                    if own:
                        bad.append((list(hist), [show(ops[i]) if i != WATCHED else '(queried after every step)' for i in hist], msg))
                    return None
                if out[-1] is not None and own:
                    count['runs'] += 1
                    obs.states.add(digest(out[-1]))
                    if hist[-1:] != (WATCHED,) and (not samples or len(hist) >= len(samples[-1])):
                        samples[1:] = [hist]
                return out[-1]

            def rec(hist, own):
                if len(bad) >= MAX_VIOLATIONS:
                    return
                st = attempt(hist, own)
                if st is not None and own and watch and len(hist) == watch:
                    if attempt(hist + (WATCHED,), True) is None:
                        return
                left = depth - len(hist)
                if st is None or left <= 0:
                    return
                if dedup and len(hist) > 1:
                    key = digest(st)
                    if seen.get(key, 0) >= left:
                        return
                    seen[key] = left
                for i in range(nops):
                    # Every worker executes the first operation (part 0 counts it), pairs are divided over workers
                    if len(hist) == 1:
                        count['pairs'] += 1
                        if count['pairs'] % nparts == part:
                            rec(hist + (i,), True)
                    else:
                        rec(hist + (i,), own if hist else part == 0)

            if self.replay:
                rec_hist = tuple(self.replay['index'])
                attempt(rec_hist, True)
                return count['runs'], bad
            rec((), part == 0)
            sec.samples = [{'section': name, 'history': [show(ops[i]) for i in h]} for h in samples[:2]]
            return count['runs'], bad, sec.samples

        self._parallel(sec, work, nops ** min(depth, 3))

    # -- internals

    def _skip(self, name):
        if self.replay:
            return self.replay['section'] != name
        return len(self.violations) >= MAX_VIOLATIONS

    def _indices(self, n, part, nparts):
        if self.replay:
            return [self.replay['index']]
        return range(part, n, nparts)

    @staticmethod
    def _guard(fn, idx, obs):
        """Run one case; returns None or text describing the violation.  A failing case is run again to confirm it."""
        def once():
            signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
            try:
                fn(idx, obs)
                return None
            except (KeyboardInterrupt, SystemExit) as err:
                if isinstance(err, KeyboardInterrupt):
                    raise
                return 'unexpected SystemExit'
            except MemoryError:
                return 'unexpected MemoryError'
            except Exception as err:
                return describe_exc(err)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        msg = once()
        if msg:
            again = once() if 'did not terminate' not in msg else msg
            if not again:
                msg += ' (not when run a second time: depends on what ran before in this process)'
        return msg

    def _parallel(self, sec, work, size):
        t0 = time.time()
        n = 1 if self.replay or size < 64 else self.workers
        results = []
        if n == 1:
            signal.signal(signal.SIGALRM, _alarm)
            obs = Obs()
            with quiet():
                out = work(0, 1, obs)
            results.append((out[0], out[1], obs.states, obs.transitions, out[2:]))
        else:
            results = fork_all(n, work)
        bad_all = []
        for runs, bad, states, transitions, extra in results:
            if extra and len(sec.samples) < 4:
                sec.samples = (sec.samples + extra[0])[:4]
            sec.runs += runs
            sec.states |= states
            sec.transitions += transitions
            bad_all.extend(bad)
        bad_all.sort(key=lambda b: (len(b[0]), b[0]) if isinstance(b[0], list) else (0, b[0]))
        for idx, case, msg in bad_all[:MAX_VIOLATIONS]:
            self.violations.append((sec.name, idx, case, msg))
        sec.complete = not bad_all
        sec.wall = time.time() - t0
        self.sections.append(sec)


class quiet(object):
    """Silence output of the code under test"""
    def __enter__(self):
        self.out = sys.stdout
        sys.stdout = io.StringIO()
        self.sink = sys.stdout
        self.sink.write = lambda s: len(s)

    def __exit__(self, *exc):
        sys.stdout = self.out


def fork_all(n, work):
    """Run work(part, n, obs) in n forked processes and collect (runs, bad, states, transitions)"""
    sys.stdout.flush()
    sys.stderr.flush()
    procs = []
    for part in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                signal.signal(signal.SIGALRM, _alarm)
                obs = Obs()
                with quiet():
                    res = work(part, n, obs)
                    runs, bad = res[:2]
                    bad = [(i, c if isinstance(c, list) and all(isinstance(s, str) for s in c) else show(c), m)
                           for i, c, m in bad]
                with os.fdopen(wr, 'wb') as out:
                    pickle.dump((runs, bad, obs.states, obs.transitions, res[2:]), out)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        procs.append((pid, rd))
    results = []
    failed = None
    for pid, rd in procs:
        with os.fdopen(rd, 'rb') as inp:
            data = inp.read()
        _, status = os.waitpid(pid, 0)
        if status or not data:
            failed = 'worker %d ended with status %s' % (pid, status)
        else:
            results.append(pickle.loads(data))
    if failed:
        raise RuntimeError(failed)
    return results
