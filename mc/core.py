"""Shared explorer: exhaustive enumeration of bounded case spaces over the
real code, violation / known-finding reporting, replay files, evidence.

Runs on the repository's interpreter (PyPy, Python 3.9 syntax).
"""

import collections
import gc
import json
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replay')
FINDINGS = os.path.join(VERIF, 'known_findings.json')


def fork():
    """os.fork(), tried again when there is no memory for it."""
    for wait in (0, .1, 1):
        try:
            return os.fork()
        except OSError:
            gc.collect()
            time.sleep(wait)
    return os.fork()


class Hang(BaseException):
    """The code under test made no progress."""


class Mismatch(AssertionError):
    """The code disagrees with the reference."""


class WorkerFailure(Exception):
    """What a worker process found."""

    trace = ()


class Stop(BaseException):
    """Enough violations collected."""


def show(value, limit=400):
    text = repr(value)
    if len(text) > limit:
        text = text[:limit] + '...(%d chars)' % len(text)
    return text


def expect(condition, message, *args):
    if not condition:
        raise Mismatch(message + ''.join(' ' + show(a) for a in args))


def same(got, want, what=''):
    if type(got) is bytearray:
        got = bytes(got)
    if type(want) is bytearray:
        want = bytes(want)
    if got != want:
        raise Mismatch('%s: got %s, expected %s'
                       % (what, show(got), show(want)))


def raises(fn, *classes):
    """fn must raise (one of classes, default Exception)."""
    try:
        result = fn()
    except classes or Exception as e:
        return e
    raise Mismatch('expected an exception, got %s' % show(result))


def memory(open=os.open, read=os.read, close=os.close,
           page=os.sysconf('SC_PAGE_SIZE')):
    # It is asked in a signal handler: opening a text file may import
    # modules, and that may be what was interrupted.
    fd = open('/proc/self/statm', os.O_RDONLY)
    try:
        return int(read(fd, 200).split()[1]) * page
    finally:
        close(fd)


class Check(object):

    MAX_VIOLATIONS = 5
    # Of processor time; of a clock, for what only waits
    HANG_SECONDS = 40
    WAIT_SECONDS = 200
    MEMORY_OCTETS = 4 << 30

    def __init__(self, prop, level, technique, tier, seed, replay=None,
                 only=None):
        self.prop = prop
        self.level = level
        self.technique = technique
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.replay = replay
        self.only = only
        self.t0 = time.time()
        self.real_time = time.time
        self.evaluations = 0
        self.nontrivial = 0
        self.families = collections.OrderedDict()
        self.outcomes = collections.Counter()
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.assumptions = []
        self.rule = ''
        self.violations = []
        self.known_hit = collections.OrderedDict()
        self.known = {}
        if os.path.exists(FINDINGS):
            with open(FINDINGS) as fh:
                for entry in json.load(fh)['findings']:
                    if entry.get('property') == prop and 'key' in entry:
                        self.known[entry['key']] = entry['what']
        self._progress = 0
        self._last_progress = -1
        self._since = None
        self._current = None

    # -- watchdog ---------------------------------------------------------

    def start_watchdog(self):
        tick = 1

        def on_alarm(signum, frame):
            now = os.times()
            used = now.user + now.system
            if self._current is not None \
                    and memory() >= self.MEMORY_OCTETS:
                raise Hang('%d octets of memory in use' % memory())
            if self._progress != self._last_progress \
                    or self._since is None:
                self._last_progress = self._progress
                self._since = used, now.elapsed
            elif self._current is not None and (
                    used - self._since[0] >= self.HANG_SECONDS
                    or now.elapsed - self._since[1] >= self.WAIT_SECONDS):
                since, self._since = self._since, (used, now.elapsed)
                raise Hang('no progress for %d s, %d s of them used' % (
                    now.elapsed - since[1], used - since[0]))
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, tick, tick)

    def stop_watchdog(self):
        signal.setitimer(signal.ITIMER_REAL, 0, 0)

    def alive(self):
        self._progress += 1

    # -- enumeration ------------------------------------------------------

    def each(self, family, params, fn, key=None, workers=0, init=None):
        """Run fn on every parameter of a finite enumeration.

        fn raises on a violation, and returns a label of the observed
        outcome (falsy: trivial case).  `key(param)` names the known
        finding a failing case would belong to.  With workers, the cases
        are shared among as many forked processes (init() in each).
        """
        if self.only and family not in self.only:
            return
        if self.replay and self.replay['family'] != family:
            return
        if workers and not self.replay:
            return self._each_forked(family, list(params), fn, key, workers,
                                     init)
        gc.collect()
        count = nontrivial = 0
        outcomes = set()
        first = last = None
        for param in params:
            if self.replay and repr(param) != self.replay['case']:
                continue
            self._progress += 1
            self._current = (family, param)
            count += 1
            try:
                outcome = fn(param)
            except Stop:
                raise
            except (Exception, Hang, RecursionError) as e:
                self.report(family, param, e,
                            key(param) if key is not None else None)
                outcome = 'violation'
            finally:
                self._current = None
            if outcome:
                nontrivial += 1
                if len(outcomes) < 2000:
                    outcomes.add(outcome)
            if first is None:
                first = param
            last = param
        self._count(family, count, nontrivial, outcomes, first, last)

    def _share(self, family, params, n, workers, fn):
        """The n-th share of the cases -> (nontrivial, outcomes, failed)"""
        nontrivial, outcomes, failed = 0, set(), []
        for index in range(n, len(params), workers):
            self._progress += 1
            self._current = (family, params[index])
            try:
                outcome = fn(params[index])
            except (Exception, Hang, RecursionError) as e:
                failed.append((
                    index, '%s: %s' % (type(e).__name__, e),
                    traceback.format_exception(
                        type(e), e, e.__traceback__)[-8:]))
                outcome = 'violation'
                if len(failed) > self.MAX_VIOLATIONS:
                    break
            finally:
                self._current = None
            if outcome:
                nontrivial += 1
                outcomes.add(repr(outcome))
        return nontrivial, outcomes, failed

    def _each_forked(self, family, params, fn, key, workers, init):
        """Each worker sends back what it counted and what failed."""
        sys.stdout.flush()
        gc.collect()
        kids, left = [], []
        for n in range(workers):
            r, w = os.pipe()
            try:
                pid = fork()
            except OSError:
                # no memory for another process: done here, afterwards
                os.close(r)
                os.close(w)
                left.append(n)
                continue
            if pid:
                os.close(w)
                kids.append((pid, r))
                continue
            try:
                os.close(r)
                self.start_watchdog()
                if init is not None:
                    init()
                data = pickle.dumps(
                    self._share(family, params, n, workers, fn))
                while data:
                    data = data[os.write(w, data):]
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(0)
        nontrivial, outcomes, failed = 0, set(), []
        for pid, r in kids:
            data = b''
            while 1:
                self._progress += 1
                try:
                    got = os.read(r, 1 << 20)
                except InterruptedError:
                    continue
                if not got:
                    break
                data += got
            os.close(r)
            os.waitpid(pid, 0)
            if not data:
                raise RuntimeError('a worker of %s failed' % family)
            a, b, c = pickle.loads(data)
            nontrivial += a
            outcomes |= b
            failed += c
        for n in left:
            if init is not None:
                init()
            a, b, c = self._share(family, params, n, workers, fn)
            nontrivial += a
            outcomes |= b
            failed += c
        self._count(family, len(params), nontrivial, outcomes,
                    *([params[0], params[-1]] if params else [None, None]))
        for index, message, trace in sorted(failed):
            e = WorkerFailure(message)
            e.trace = trace
            self.report(family, params[index], e, key(params[index])
                        if key is not None else None)

    def _count(self, family, count, nontrivial, outcomes, first, last):
        self.evaluations += count
        self.nontrivial += nontrivial
        fam = self.families.setdefault(
            family, {'cases': 0, 'nontrivial': 0, 'distinct_outcomes': 0})
        fam['cases'] += count
        fam['nontrivial'] += nontrivial
        fam['distinct_outcomes'] += len(outcomes)
        if count and len(self.samples) < 60:
            self.samples.append({'family': family, 'case': show(first, 300)})
            if count > 1:
                self.samples.append(
                    {'family': family, 'case': show(last, 300)})

    def note(self, **kw):
        self.extra.update(kw)

    # -- reporting --------------------------------------------------------

    def report(self, family, param, exc, key=None):
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = (family, show(param, 200))
            return
        # identical class of failure: keep the first few only
        os.makedirs(REPLAYS, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(REPLAYS, '%s-%d.json' % (self.prop, n))
        message = '%s: %s' % (type(exc).__name__, exc)
        trace = traceback.format_exception(
            type(exc), exc, exc.__traceback__)[-8:]
        if isinstance(exc, WorkerFailure):
            message, trace = str(exc), exc.trace
        with open(path, 'w') as fh:
            json.dump({
                'property': self.prop, 'family': family,
                'case': repr(param), 'message': message, 'key': key,
                'traceback': trace,
                'rerun': 'bash /verif/run.sh %s --replay %s' % (
                    self.prop, path),
                }, fh, indent=1)
        self.violations.append(path)
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('  family=%s case=%s' % (family, show(param)))
        print('  %s' % message[:1500])
        sys.stdout.flush()
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise Stop()

    def finish(self):
        wall = self.real_time() - self.t0
        cov = {
            'rule': self.rule,
            'families': self.families,
            'samples': self.samples,
            'exhaustive': not self.violations and not self.replay,
        }
        if self.level == 'model_checking':
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces)
            cov['evaluations'] = self.evaluations
        else:
            cov.update(evaluations=self.evaluations,
                       distinct_nontrivial=self.nontrivial)
            if self.states:
                cov.update(states=self.states,
                           transitions=self.transitions)
        cov.update(self.extra)
        if not self.replay:
            os.makedirs(EVIDENCE, exist_ok=True)
            tmp = os.path.join(EVIDENCE, '.%s.tmp' % self.prop)
            with open(tmp, 'w') as fh:
                json.dump({
                    'property': self.prop, 'tier': self.tier,
                    'seed': self.seed, 'level': self.level,
                    'coverage': cov, 'wall_s': round(wall, 2),
                    'assumptions': self.assumptions,
                    'violations': len(self.violations),
                    }, fh, indent=1, default=repr)
            os.replace(tmp, os.path.join(
                EVIDENCE, '%s.json' % self.prop))
        for key in self.known_hit:
            print('KNOWN-FINDING: property=%s %s [%s]'
                  % (self.prop, self.known[key], key))
        print('%s %s: %d cases (%d non-trivial), %d states, %d transitions,'
              ' %d families, %.1f s, %d violation(s)'
              % (self.prop, self.tier, self.evaluations, self.nontrivial,
                 self.states, self.transitions, len(self.families), wall,
                 len(self.violations)))
        for name, fam in self.families.items():
            print('   %-34s %9d cases %9d non-trivial %6d outcomes' % (
                name, fam['cases'], fam['nontrivial'],
                fam['distinct_outcomes']))
        return 1 if self.violations else 0

    # -- explicit-state search over real objects --------------------------

    def bfs(self, family, init, events, build, canon, invariant, depth,
            max_states=None, key=None):
        """Explicit-state search: a state is the event history reaching it
        (live objects are rebuilt by replaying the history).

        build(history) -> world (executes the real code, comparing every
        step with the reference model; raises Mismatch on disagreement).
        """
        if self.only and family not in self.only:
            return
        if self.replay and self.replay['family'] != family:
            return
        if self.replay:
            self.each(family, [eval(self.replay['case'])],
                      lambda h: (invariant(build(list(h))), 'replayed')[1],
                      key)
            return
        world = build([])
        invariant(world)
        seen = {canon(world)}
        frontier = collections.deque([()])
        transitions = 0
        deepest = 0
        last = ()
        while frontier:
            hist = frontier.popleft()
            if len(hist) >= depth:
                continue
            for ev in events(hist):
                self._progress += 1
                new = hist + (ev,)
                self._current = (family, new)
                transitions += 1
                try:
                    world = build(list(new))
                    invariant(world)
                except (Exception, Hang) as e:
                    self.report(family, new, e,
                                key(new) if key is not None else None)
                    continue
                finally:
                    self._current = None
                c = canon(world)
                if c not in seen:
                    seen.add(c)
                    frontier.append(new)
                    deepest = max(deepest, len(new))
                    last = new
                    if max_states and len(seen) >= max_states:
                        self.extra['capped_' + family] = max_states
                        frontier.clear()
                        break
        self.states += len(seen)
        self.transitions += transitions
        self.traces += transitions
        self.evaluations += transitions
        self.nontrivial += len(seen)
        self.families[family] = {
            'cases': transitions, 'nontrivial': len(seen),
            'distinct_outcomes': len(seen), 'max_depth': deepest,
            'depth_bound': depth}
        self.samples.append({'family': family, 'case': show(last, 300)})
