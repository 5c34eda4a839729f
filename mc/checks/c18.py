"""C18: at most one at a time changes a keyring."""

import itertools
import os
import queue
import shutil
import subprocess
import threading

from mc import sched
from mc import scratch
from mc import shimctl
from mc import util
from mc.checks import c16
from mc.core import expect, same, Mismatch
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'model_checking'
TECHNIQUE = ('stateless exploration of the real locking and keyring code '
             'under a controlled scheduler: threads and processes are '
             'interleaved at every file operation, lock operation and '
             'signal, threads also between statements, up to a bound on '
             'preemptions, with processes ending at any point')
RULE = ('All schedules within the preemption and crash bounds of two to '
        'three threads or processes that lock, nest, time out, change and '
        'read keyrings, from free, stale and foreign initial locks; '
        'transitions: scheduling steps, states: distinct points of '
        'distinct schedules.')
ASSUMPTIONS = ['Operations on the scratch file system are atomic and '
               'visible in the order of the schedule.',
               'The ID of a process that is gone is not reused, not even '
               'by the process that waits for its lock.']

STATEMENTS = 'pgp.db'      # mc.steps

DEAD, FOREIGN = 77, 'elsewhere.example.org'
MAIN = 40


def run(ck):
    shimctl.ensure()
    sched.install()
    import platform
    from pgp.db import gpg
    pool = c16.Pool()
    base = scratch.new('c18')
    counter = itertools.count()
    rmtree = shutil.rmtree
    node = platform.node()

    class Setting(object):
        """A world with a keyring file; a name for the lock file is what
        the code makes of it."""

        def __init__(self, initial=None, secret=False):
            self.dir = os.path.join(base, '%d-%d' % (
                sched.real['os.getpid'](), next(counter)))
            os.mkdir(self.dir)
            self.path = os.path.join(self.dir, 'ring.gpg')
            if initial is not None:
                with open(self.path, 'wb') as fh:
                    fh.write(pool.initial(initial, secret))
            self.world = sched.World(self.dir)
            sched.world = self.world
            self.inside = set()

        def lock_file(self, pid, host):
            with open(self.path + '.lock', 'w') as fh:
                fh.write('%010d%s\n' % (pid, host))

        def close(self):
            sched.world = None
            for l in getattr(gpg, '_locks', []):
                l.locked = False
            if hasattr(gpg, "_locks"):
                del gpg._locks[:]
            rmtree(self.dir, ignore_errors=True)

    # -- the lock ----------------------------------------------------------

    # actor programs
    #  a acquire, t with a timeout, z with no waiting at all, c critical
    #  section, r release
    def program(setting, name, lock, word):
        def fn():
            got = []
            depth = 0
            for op in word:
                if op in 'atz':
                    ok = lock().acquire(**{
                        'a': {}, 't': {'timeout': 3},
                        'z': {'timeout': 0}}[op])
                    got.append(bool(ok))
                    if not ok:
                        return got
                    depth += 1
                    expect(not setting.inside - {name},
                           'locked at the same time as', name,
                           setting.inside)
                    setting.inside.add(name)
                elif op == 'c':
                    expect(setting.inside == {name},
                           'not alone', name, setting.inside)
                    sched.point('critical')
                    expect(setting.inside == {name},
                           'not alone', name, setting.inside)
                elif op == 'r':
                    depth -= 1
                    if not depth:
                        setting.inside.discard(name)
                    lock().release()
            return got
        return fn

    # configurations: actors as (process, thread, lock object)
    CONFIGS = {
        'processes': [(1, 11, 0), (2, 22, 1)],
        'threads': [(1, 11, 0), (1, 12, 0)],
        'handles': [(1, 11, 0), (1, 12, 1)],
        # handing over between statements, too
        'statements': [(1, 11, 0), (1, 12, 0)],
        'three threads': [(1, 11, 0), (1, 12, 0), (1, 13, 0)],
        'both': [(1, 11, 0), (1, 12, 0), (2, 22, 1)],
        'three': [(1, 11, 0), (2, 22, 1), (3, 33, 2)],
        'mixed': [(1, 11, 0), (1, 12, 1), (2, 22, 2)],
        # each of a user of its own
        'users': [(1, 11, 0), (2, 22, 1)],
    }
    FINE = ('statements', 'three threads')
    LOCKS = ['free', 'stale', 'foreign', 'live', 'other']
    # hosts that are not this one, whatever they are called
    HOSTS = {'foreign': FOREIGN, 'longer': node + '-2', 'sub': node + '.x',
             'shorter': node[:-1], 'suffix': node[1:],
             'super': 'x.' + node}
    HOSTS = {k: v for k, v in HOSTS.items() if v != node}
    HELD = tuple(HOSTS) + ('live', 'other')

    def somebody(s, state):
        """The lock as somebody has it who never gives it up."""
        if state in HOSTS:
            s.lock_file(DEAD, HOSTS[state])
        else:
            s.lock_file(MAIN, node)
            s.world.process(MAIN)
            if state == 'other':
                # of another user
                s.world.users[MAIN] = 'other'

    def users(s, config):
        if config == 'users':
            s.world.users.update({p: p for p, _, _ in CONFIGS[config]})

    def lock_world(case, schedule):
        config, state, words, killable = case
        s = Setting()
        try:
            actors = CONFIGS[config]
            s.world.fine = config in FINE
            if state == 'stale':
                s.lock_file(DEAD, node)
            elif state in HELD:
                somebody(s, state)
            users(s, config)
            objects = {}

            def lock_of(n):
                def get():
                    if n not in objects:
                        objects[n] = gpg.Lock(s.path)
                    return objects[n]
                return get
            for n, (pid, tid, obj) in enumerate(actors):
                s.world.process(pid)
                s.world.spawn('%d/%d' % (pid, tid), pid, tid, None)
            for a, (pid, tid, obj), word in zip(s.world.actors, actors,
                                                words):
                a.fn = program(s, a.name, lock_of(obj), word)

            def on_step(w):
                for a in w.actors:
                    if a.status == 'dead':
                        s.inside.discard(a.name)

            # objects are made by their process before it starts
            def make():
                for pid, tid, obj in actors:
                    if obj not in objects:
                        lock_of(obj)()
            for pid, tid, obj in actors:
                if obj in objects:
                    continue
                a = [x for x in s.world.actors if x.pid == pid][0]
                g = sched.greenlet.greenlet(lock_of(obj))
                s.world.by_greenlet[g] = a
                while not g.dead:
                    g.switch()
                del s.world.by_greenlet[g]
                a.started = False
            s.world.run(schedule.choose, on_step, killable)
            outcome = []
            for a, word in zip(s.world.actors, words):
                if a.error is not None:
                    raise a.error
                outcome.append((a.status, a.result))
                if a.status == 'done' and 'a' in word:
                    expect(all(a.result), 'not acquired', a.name)
            if state in HELD:
                expect(os.path.exists(s.path + '.lock'),
                       'lock of another one removed')
                for st, r in outcome:
                    expect(st == 'dead' or r == [False],
                           'lock of another one ignored', outcome)
            elif not any(a.status == 'dead' for a in s.world.actors):
                expect(not os.path.exists(s.path + '.lock'),
                       'lock left behind')
                n = sum(r == [False] for _, r in outcome)
                if all(set(w) <= set('zcr') for w in words):
                    expect(n < len(words), 'nobody got the lock')
            # whoever comes then gets it
            if state not in HELD:
                pid = 90
                s.world.process(pid)
                s.inside.clear()
                a = s.world.spawn('late', pid, 99, None)
                lock = {}

                def late():
                    return program(s, 'late', lambda: lock.setdefault(
                        0, None) or lock.__setitem__(0, gpg.Lock(s.path))
                        or lock[0], 'acr')()
                a.fn = late
                s.world.run(lambda o: o[0])
                if a.error is not None:
                    raise a.error
                same(a.result, [True], 'late comer')
            return repr(outcome)
        finally:
            s.close()

    def exploration(execute, preemptions, crashes, part, parts):
        """All schedules of a case, shared by their second choice."""
        n = steps = 0
        outcomes = set()
        for schedule, outcome in sched.explore(
                execute, preemptions, crashes, part=part, parts=parts):
            ck.alive()
            n += 1
            steps += len(schedule.taken)
            if isinstance(outcome, Exception):
                raise Mismatch('%s: %s; schedule %r' % (
                    type(outcome).__name__, outcome, schedule.taken))
            outcomes.add(outcome)
        return n, steps, outcomes

    def lock_case(param):
        case, preemptions, crashes = param[:3]
        n, steps, outcomes = exploration(
            lambda s: lock_world(case, s), preemptions, crashes,
            *(param[3:] or (0, 1)))
        return (case, n, steps, tuple(sorted(outcomes))[:20])

    def lock_cases():
        words = ['acr', 'aacrcr', 'tcr', 'zcr', 'acracr']
        t = ck.thorough
        for config in ('processes', 'threads', 'handles', 'users'):
            for state in LOCKS:
                if config == 'users' and state not in ('free', 'stale'):
                    continue
                for pair in itertools.product(words, repeat=2):
                    if config == 'users' and not t and (
                            'acracr' in pair or pair[0] == 'zcr'):
                        continue
                    if state in HELD and (
                            set('a') & set(''.join(pair))):
                        continue
                    short = sum(map(len, pair)) < 8
                    if not t and not short and pair[0] != 'acr':
                        continue
                    yield (config, state, pair, ()), (
                        (7 if t else 4) if short else 4 if t else 2), 0
        for config in ('both', 'three', 'mixed'):
            for state in LOCKS:
                for word in ('acr', 'tcr', 'zcr'):
                    if state in HELD and word == 'acr':
                        continue
                    still = state in HELD
                    yield (config, state, (word,) * 3, ()), (
                        1 if still else 2) + t, 0
        for state in HOSTS:
            for word in ('tcr', 'zcr'):
                yield ('processes', state, (word,) * 2, ()), 1, 0
        # processes that are gone
        for config in ('processes', 'users', 'both', 'three'):
            pids = sorted({p for p, _, _ in CONFIGS[config]})
            for state in ('free', 'stale'):
                yield (config, state, ('acr',) * len(CONFIGS[config]),
                       tuple(pids)), (
                    3 if len(pids) < 3 and config != 'both'
                    else 2 if t else 1), 1
        yield ('processes', 'stale', ('acr', 'acr'), (1, 2)), 2, 2
        yield ('three', 'stale', ('acr',) * 3, (1, 2)), 2 if t else 0, 2

    def collect(family, cases, fn):
        cases = list(cases)
        ck.each(family, cases, fn, workers=8, init=shimctl.renew)

    schedules = {'n': 0, 'steps': 0}

    def counting(fn):
        """Workers report their numbers through a file."""
        def call(param):
            r = fn(param)
            with open(os.path.join(base, 'counts-%d' % sched.real[
                    'os.getpid']()), 'a') as fh:
                fh.write('%d %d\n' % (r[1], r[2]))
            return r
        return call
    collect('lock', lock_cases(), counting(lock_case))

    def lock_statement_cases():
        t = ck.thorough
        for state in LOCKS:
            for pair in itertools.product(('acr', 'aacrcr', 'tcr', 'zcr'),
                                          repeat=2):
                if state in HELD and set('a') & set(''.join(pair)):
                    continue
                for part in range(4):
                    yield ('statements', state, pair, ()), 2 + t, 0, part, 4
    collect('lock-statements', lock_statement_cases(), counting(lock_case))

    # -- keyrings ----------------------------------------------------------

    def serial(initial, histories, finished):
        """All (results, content) that some order of whole operations
        gives; operations that did not finish may have been done."""
        out = set()

        def go(pos, state, results):
            if all(p == len(h) for p, h in zip(pos, histories)):
                out.add((results, tuple(sorted(state.items()))))
            for i, h in enumerate(histories):
                if pos[i] == len(h):
                    continue
                op = h[pos[i]]
                done = pos[i] < finished[i]
                nxt = pos[:i] + (pos[i] + 1,) + pos[i + 1:]
                r, new = apply(state, op)
                if done:
                    go(nxt, new, results[:i] + (results[i] + (r,),)
                       + results[i + 1:])
                else:
                    go(nxt, new, results)
                    go(nxt, state, results)
        go((0,) * len(histories), dict(initial), ((),) * len(histories))
        return out

    def apply(state, op):
        kind, k, v = op
        if kind == 'keys':
            return tuple(sorted(state)), state
        if kind == 'get':
            return state.get(k, 'KeyError'), state
        if (k in state) == (kind == 'add'):
            return 'KeyError', state
        new = dict(state)
        if kind == 'delete':
            del new[k]
        else:
            new[k] = v
        return 'done', new

    names = {pool.fingerprint(k): k for k in 'abc'}

    def do(ring, op):
        kind, k, v = op
        try:
            if kind == 'keys':
                return tuple(sorted(names[f] for f in ring.keys()))
            if kind == 'get':
                key = ring.get_transferrable_key(pool.fingerprint(k))
                return pool.identify(util.octets(key))[1]
            getattr(ring, kind + '_transferrable_key')(
                pool.key(k, v, False, True))
            return 'done'
        except KeyError:
            return 'KeyError'

    def ring_world(case, schedule):
        config, initial, programs, killable = case
        s = Setting(initial)
        try:
            s.world.fine = config in FINE
            users(s, config)
            actors = CONFIGS[config]
            objects = {}
            results = [[] for _ in programs]
            for pid, tid, obj in actors:
                s.world.process(pid)
                s.world.spawn('%d/%d' % (pid, tid), pid, tid, None)

            def body(n, obj, ops):
                def fn():
                    if initial is None and obj not in objects:
                        objects[obj] = gpg.get_resource(s.path, force=True)
                    for op in ops:
                        results[n].append(do(objects[obj], op))
                return fn
            for n, (a, (pid, tid, obj), ops) in enumerate(zip(
                    s.world.actors, actors, programs)):
                a.fn = body(n, obj, ops)
                if initial is not None and obj not in objects:
                    g = sched.greenlet.greenlet(
                        lambda: objects.__setitem__(
                            obj, gpg.get_resource(s.path)))
                    s.world.by_greenlet[g] = a
                    while not g.dead:
                        g.switch()
                    del s.world.by_greenlet[g]
            s.world.run(schedule.choose, None, killable)
            for a in s.world.actors:
                if a.error is not None:
                    raise a.error
            start = {}
            if initial:
                start = dict(pool.identify(b) for b in c16.blocks(
                    pool.initial(initial, False)))
            sched.world = None
            with open(s.path, 'rb') as fh:
                data = fh.read()
            final = [pool.identify(b) for b in c16.blocks(data)]
            same(len(final), len(set(k for k, _ in final)), 'keys twice')
            got = (tuple(map(tuple, results)), tuple(sorted(final)))
            want = serial(start, programs, [len(r) for r in results])
            expect(got in want, 'not the result of any order: ', got,
                   sorted(want, key=repr)[:4])
            expect(any(a.status == 'dead' for a in s.world.actors)
                   or not os.path.exists(s.path + '.lock'),
                   'lock left behind')
            return repr(got)
        finally:
            s.close()

    def ring_case(param):
        case, preemptions, crashes = param[:3]
        n, steps, outcomes = exploration(
            lambda s: ring_world(case, s), preemptions, crashes,
            *(param[3:] or (0, 1)))
        return (case, n, steps, tuple(sorted(outcomes))[:20])

    A, A1 = ('add', 'a', 0), ('add', 'a', 1)
    UB, DB, DA = ('update', 'b', 1), ('delete', 'b', 0), ('delete', 'a', 0)
    AC, G, K = ('add', 'c', 0), ('get', 'b', 0), ('keys', None, 0)

    def ring_cases():
        t = ck.thorough
        pairs = [((A,), (AC,)), ((A,), (A1,)), ((A,), (UB,)), ((A,), (DB,)),
                 ((UB,), (DB,)), ((DB,), (DB,)), ((A,), (G,)), ((UB,), (G,)),
                 ((DB,), (G,)), ((DB,), (K,)), ((A,), (K,)),
                 ((A, DA), (UB,)), ((DB, A), (AC, K))]
        for config in ('processes', 'threads', 'handles'):
            for pair in pairs:
                n = sum(map(len, pair))
                yield (config, 'one', pair, ()), (
                    (3 if n < 3 else 2) if t else (2 if n < 3 else 1)), 0
        for pair in pairs[:3]:
            yield ('processes', None, pair, ()), 2 if t else 1, 0
        for config in ('both', 'three', 'mixed'):
            for trio in (((A,), (UB,), (AC,)), ((A,), (DB,), (K,))):
                yield (config, 'one', trio, ()), 2 if t else 1, 0
        for pair in (pairs if t else pairs[:4]):
            yield ('processes', 'one', pair, (1, 2)), 2 if t else 1, 1
        for pair in (pairs if t else pairs[:2]):
            yield ('users', 'one', pair, (1, 2)), 1, 1
    collect('keyring', ring_cases(), counting(ring_case))

    def statement_cases():
        t = ck.thorough
        for pair in [((K,), (DA, UB)), ((G,), (DA, UB)), ((AC,), (UB,)),
                     ((G,), (DA,))] + t * [
                    ((K,), (AC, DA)), ((UB,), (DA, DB)), ((DB,), (DA,)),
                    ((DA, AC), (UB, K)), ((G, G), (DA, DB)),
                    ((UB,), (A1, DA))]:
            for part in range(8):
                yield ('statements', 'two', pair, ()), 2, 0, part, 8
        for trio in t * [((K,), (DA,), (UB,))]:
            for part in range(64):
                yield ('three threads', 'two', trio, ()), 2, 0, part, 64
    collect('keyring-statements', statement_cases(), counting(ring_case))

    def held_world(case, schedule):
        """Somebody else has the lock, for longer than anyone waits."""
        config, state, programs = case
        s = Setting('one')
        try:
            s.world.pace = 20
            rings = {}
            results = [[] for _ in programs]

            def body(n, obj, ops):
                def fn():
                    for op in ops:
                        results[n].append(do(rings[obj], op))
                return fn
            for n, ((pid, tid, obj), ops) in enumerate(zip(
                    CONFIGS[config], programs)):
                s.world.process(pid)
                a = s.world.spawn('%d/%d' % (pid, tid), pid, tid,
                                  body(n, obj, ops))
                if obj not in rings:
                    g = sched.greenlet.greenlet(
                        lambda: rings.__setitem__(
                            obj, gpg.get_resource(s.path)))
                    s.world.by_greenlet[g] = a
                    while not g.dead:
                        g.switch()
                    del s.world.by_greenlet[g]
            somebody(s, state)

            def contents():
                out = []
                for path in (s.path, s.path + '.lock'):
                    with sched.real['open'](path, 'rb') as fh:
                        out.append(fh.read())
                return out
            before = contents()
            try:
                s.world.run(schedule.choose)
            except sched.Stuck:
                pass
            same(results, [[] for _ in programs], 'done without the lock')
            for a in s.world.actors:
                expect(a.error is None, 'gave up: ', repr(a.error))
                expect(a.status != 'done', 'gave up')
            same(contents(), before, 'keyring or lock of another one')
            # until it is given up
            sched.real['os.unlink'](s.path + '.lock')
            s.world.version += 1
            s.world.run(schedule.choose)
            for a in s.world.actors:
                if a.error is not None:
                    raise a.error
            start = dict(pool.identify(b) for b in c16.blocks(before[0]))
            final = [pool.identify(b)
                     for b in c16.blocks(_read(s.path))]
            got = (tuple(map(tuple, results)), tuple(sorted(final)))
            want = serial(start, programs, [len(r) for r in results])
            expect(got in want, 'not the result of any order: ', got)
            return repr(got)
        finally:
            s.close()

    def _read(path):
        with sched.real['open'](path, 'rb') as fh:
            return fh.read()

    def held_case(param):
        case, preemptions = param
        n, steps, outcomes = exploration(
            lambda s: held_world(case, s), preemptions, 0, 0, 1)
        return (case, n, steps, tuple(sorted(outcomes))[:20])

    def held_cases():
        t = ck.thorough
        for state in HELD:
            for op in (A, UB, DB, G, K):
                yield ('processes', state, ((op,),)), 0
        for state in ('foreign', 'live', 'other'):
            for pair in [((A,), (G,)), ((UB,), (DB,)), ((A,), (K,))] + t * [
                    ((A, DA), (UB,)), ((DB,), (DB,))]:
                for config in ('processes', 'threads', 'handles'):
                    yield (config, state, pair), 1 + t
    collect('held', held_cases(), counting(held_case))

    for name in os.listdir(base):
        if name.startswith('counts-'):
            with open(os.path.join(base, name)) as fh:
                for line in fh:
                    a, b = map(int, line.split())
                    ck.traces += a
                    ck.transitions += b
    ck.states += ck.transitions
    ck.note(schedules=ck.traces)

    # -- forked processes --------------------------------------------------

    def fork_case(case):
        held, word, after = case
        d = os.path.join(base, 'f%d' % next(counter))
        os.mkdir(d)
        path = os.path.join(d, 'ring.gpg')

        def parent():
            lock = gpg.Lock(path)
            for _ in range(held):
                same(lock.acquire(timeout=1), True, 'parent')

            def child():
                got = []
                for op in word:
                    if op == 'z':
                        got.append(lock.acquire(timeout=0.1))
                    elif op == 'r':
                        lock.release()
                if after == 'exit':
                    # as the interpreter does at its end
                    getattr(gpg, "_clean_up_locks", int)()
                return got
            got = shimctl.child(child).value
            left = os.path.exists(path + '.lock')
            for _ in range(held):
                lock.release()
            again = lock.acquire(timeout=1)
            lock.release()
            return got, left, again, os.path.exists(path + '.lock')
        got, left, again, end = shimctl.child(parent).value
        if held:
            same(got, [False] * word.count('z'), 'child')
            same(left, True, 'lock of the parent')
        else:
            same(got, [True] * word.count('z'), 'child')
        same((again, end), (True, False), 'parent afterwards')
        return repr(case)
    ck.each('fork', itertools.product(
        [0, 1, 2], ['', 'z', 'zr', 'zrzr', 'r', 'rz', 'zz', 'zzrr'],
        ['', 'exit']), fork_case)

    # -- words of operations of two threads and two locks ---------------------

    def place(path, pid):
        temporary = path + '.new'
        with open(temporary, 'w') as fh:
            fh.write('%010d%s\n' % (pid, node))
        os.link(temporary, path + '.lock')
        os.unlink(temporary)

    class Hand(threading.Thread):
        """A thread that does what it is told, one thing at a time."""

        def __init__(self):
            threading.Thread.__init__(self, daemon=True)
            self.asked, self.answers = queue.Queue(), queue.Queue()
            self.start()

        def run(self):
            while 1:
                fn = self.asked.get()
                if fn is None:
                    return
                try:
                    self.answers.put((fn(), None))
                except BaseException as e:
                    self.answers.put((None, e))

        def do(self, fn):
            self.asked.put(fn)
            value, e = self.answers.get(timeout=20)
            if e is not None:
                raise e
            return value

    alive = os.getpid()
    gone = subprocess.Popen(['true'])
    gone.wait()

    def words_case(case):
        """All words that begin with some letters."""
        letters, begin, length = case

        def go():
            hands = Hand(), Hand()
            done = 0
            try:
                for rest in itertools.product(letters,
                                              repeat=length - len(begin)):
                    word_case(hands, begin + rest)
                    done += 1
            except Exception as e:
                return '%s: %s' % (''.join(begin + rest), e)
            finally:
                for hand in hands:
                    hand.asked.put(None)
            return done
        got = shimctl.child(go, 300).value
        if isinstance(got, str):
            raise Mismatch(got)
        return got

    def word_case(hands, word):
        d = os.path.join(base, 'w%d-%d' % (os.getpid(), next(counter)))
        os.mkdir(d)
        path = os.path.join(d, 'ring')
        locks = {'x': gpg.Lock(path), 'y': gpg.Lock(path)}
        holder, depth = None, 0
        for n, letter in enumerate(word):
            op, t, name = EVENTS[letter]
            what = 'after %s: %s' % (word[:n], (op, t, name))
            if op == 'acquire':
                got = hands[t].do(lambda: locks[name].acquire(timeout=0))
                if holder == 'gone' and not got:
                    # no time left after it was removed
                    holder = None
                elif holder in (None, 'gone'):
                    holder, depth = (t, name), 1
                    same(got, True, what)
                elif holder == (t, name):
                    depth += 1
                    same(got, True, what)
                else:
                    same(got, False, what)
            elif op == 'release':
                try:
                    hands[t].do(locks[name].release)
                except RuntimeError:
                    # as good an answer to one who does not hold it
                    if holder == (t, name):
                        raise
                if holder == (t, name):
                    depth -= 1
                    if not depth:
                        holder = None
            elif holder is None:
                place(path, alive if op == 'other' else gone.pid)
                holder = op
            elif holder == 'other' == op:
                os.unlink(path + '.lock')
                holder = None
            same(os.path.exists(path + '.lock'), holder is not None,
                 what + ', there is a lock')
            same([name for name in 'xy' if locks[name].locked],
                 [holder[1]] if isinstance(holder, tuple) else [],
                 what + ', locked')
        # and whatever happened, it can be had afterwards
        if holder in ('other', 'gone'):
            os.unlink(path + '.lock')
        for _ in range(depth):
            hands[holder[0]].do(locks[holder[1]].release)
        for t in (0, 1):
            for name in 'xy':
                what = '%s, then %s by %d' % (word, name, t)
                same(hands[t].do(lambda: locks[name].acquire(timeout=0)),
                     True, what)
                hands[t].do(locks[name].release)
        shutil.rmtree(d)
        if hasattr(gpg, '_locks'):
            del gpg._locks[:]

    EVENTS = {'a': ('acquire', 0, 'x'), 'b': ('acquire', 1, 'x'),
              'c': ('acquire', 0, 'y'), 'd': ('acquire', 1, 'y'),
              'A': ('release', 0, 'x'), 'B': ('release', 1, 'x'),
              'C': ('release', 0, 'y'), 'D': ('release', 1, 'y'),
              'o': ('other', None, None), 'g': ('gone', None, None)}
    more = 1 if ck.thorough else 0
    ck.each('words', [
        (letters, begin, length)
        for letters, length in (('abABo', 6 + more), ('abcdABCDog', 4 + more))
        for begin in itertools.product(letters, repeat=2)],
        words_case, workers=8, init=shimctl.renew)
