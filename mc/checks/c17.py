"""C17: a change of a keyring happens completely or not at all."""

import errno
import itertools
import os
import shutil
import stat

from mc import scratch
from mc import shimctl
from mc import util
from mc.checks import c16
from mc.core import expect, same, Mismatch
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive crash-point and fault exploration of the real '
             'keyring code under an interposed C library: the process is '
             'ended before, within and after every file operation of a '
             'change, every operation is made to fail, and every state of '
             'the disk that a power loss may leave is derived from the '
             'recorded operations')
RULE = ('Every file operation of every change of the domain (add, update, '
        'delete, create; several keyrings, public and secret, through '
        'links) as a crash point in all forms (before, partial write, '
        'after), as a fault of each kind (once, from then on, partial), as '
        'an interruption, and all reachable disk states after power loss; '
        'states: file system states reached, transitions: file operations '
        'explored.')
ASSUMPTIONS = ['After a power loss directory changes are found in the order '
               'in which they were made, and the data of a file is certain '
               'only after it was synchronised.',
               'A change that was reported as made may still be lost with '
               'the power (the directory is not synchronised).',
               'When removing the lock itself fails, the process keeps it.']


def run(ck):
    shimctl.ensure()
    from pgp.db import gpg
    pool = c16.Pool()
    base = scratch.new('c17')
    counter = itertools.count()

    # a key that does not fit into one buffer
    big_uids = [b'%04d' % n + b' big' * 200 for n in range(60)]
    pool.uids['b'].append(tuple(big_uids))
    pool.cache['b', 2, False, True] = R.certificate(
        pool.b, big_uids, hash_alg=2, new=True)
    pool.cache['b', 2, True, True] = R.certificate(
        pool.b, big_uids, hash_alg=2, new=True, secret=True)

    # (keyring, secret, link, operation, key, version)
    CASES = [
        (ring, secret, link, op, k, v)
        for ring, op, k, v in [
            ('empty', 'add', 'a', 0), ('empty', 'add', 'b', 2),
            ('one', 'add', 'a', 1), ('one', 'update', 'b', 1),
            ('one', 'delete', 'b', 0), ('gnupg', 'update', 'b', 0),
            ('gnupg', 'update', 'a', 1), ('gnupg', 'update', 'c', 1),
            ('gnupg', 'delete', 'b', 0), ('gnupg', 'delete', 'a', 0),
            ('gnupg', 'delete', 'c', 0), ('new', 'add', 'b', 2),
            (None, 'create', None, 0), (None, 'add', 'a', 0),
        ]
        for secret in (False, True) for link in (False, True)
        if ring is not None or not link]
    if not ck.thorough:
        CASES = [c for n, c in enumerate(CASES)
                 if not c[2] or c[3] != 'delete']

    class World(object):

        def __init__(self, case):
            ring, self.secret, link, self.op, self.k, self.v = case
            self.dir = os.path.join(base, 'w%d-%d' % (os.getpid(), next(counter)))
            os.mkdir(self.dir)
            self.path = os.path.join(self.dir, 'ring.gpg')
            self.real = self.path
            self.initial = None
            if link:
                os.mkdir(os.path.join(self.dir, 'other'))
                self.real = os.path.join(self.dir, 'other', 'real.gpg')
                os.symlink(self.real, self.path)
            if ring is not None:
                self.initial = pool.initial(ring, self.secret)
                with open(self.real, 'wb') as fh:
                    fh.write(self.initial)
                os.chmod(self.real, 0o600)
            if self.k:
                self.key = pool.key(self.k, self.v, self.secret, True)

        def open(self):
            return gpg.get_resource(self.path, force=True,
                                    secret=self.secret)

        def operate(self):
            ring = self.open()
            if self.op != 'create':
                self.change(ring)
            return ring

        def change(self, ring):
            getattr(ring, self.op + '_transferrable_key')(self.key)

        def read(self):
            try:
                with open(self.real, 'rb') as fh:
                    return fh.read()
            except FileNotFoundError:
                return None

        def copies(self):
            """Other files that have part of a key -> modes"""
            out = {}
            starts = [pool.octets(k, 0, self.secret, True)[8:40]
                      for k in 'abc']
            for d, _, names in os.walk(self.dir):
                for name in names:
                    path = os.path.join(d, name)
                    if os.path.islink(path) or os.path.samefile(
                            path, self.real if os.path.exists(self.real)
                            else '/'):
                        continue
                    with open(path, 'rb') as fh:
                        data = fh.read()
                    if any(s in data for s in starts):
                        out[path] = stat.S_IMODE(os.stat(path).st_mode)
            return out

        def close(self):
            shutil.rmtree(self.dir, ignore_errors=True)

    def perform(world, mode, step=0, err=0, part=0, again=False):
        """The operation in a process of its own, armed -> Result of
        (exception, ...)"""
        def fn():
            shimctl.arm(world.dir, mode, step, err, part)
            ring, failed = None, None
            try:
                ring = world.open()
                if world.op != 'create':
                    world.change(ring)
            except (Exception, KeyboardInterrupt) as e:
                failed = type(e).__name__, isinstance(
                    e, (OSError, KeyboardInterrupt)), repr(e)
            shimctl.disarm()
            then = None
            if again and failed:
                # the same process goes on
                then = redo(world, ring)
            return failed, then
        return shimctl.child(fn)

    def redo(world, ring=None):
        """Do what was not done -> its keys afterwards"""
        if ring is None:
            ring = world.open()
        had = world.k and world.key.fingerprint in ring
        if world.op == 'add' and not had or \
                world.op == 'delete' and had or world.op == 'update':
            world.change(ring)
        return sorted(ring.keys())

    clean = {}

    def reference(case):
        """(records, new content, keys) of an undisturbed run"""
        if case not in clean:
            w = World(case)
            same(perform(w, shimctl.TRACE), (False, (None, None)),
                 'undisturbed operation')
            records = shimctl.log()
            names = [r for r in records]
            new = w.read()
            keys = shimctl.child(lambda: sorted(w.open().keys())).value
            expect(not w.copies(), 'keys left elsewhere', w.copies())
            # what the files were before
            initial = {}
            if w.initial is not None:
                initial[w.real] = w.initial
            lost = shimctl.after_power_loss(initial, names, w.real)
            blocks = [c16.content(b) for b in c16.blocks(new)]
            w.close()
            clean[case] = records, new, keys, lost, blocks
        return clean[case]

    def is_step_of(case, step):
        return [r for r in reference(case)[0] if r.step == step][0]

    def steps(case):
        return [r.step for r in reference(case)[0] if r.step]

    states = set()

    def check_content(w, case, what):
        old = w.initial
        new = reference(case)[1]
        data = w.read()
        allowed = [old, new]
        if old is None:
            # creating and adding are two changes
            allowed.append(b'')
        if data not in allowed:
            found = 'nothing' if data is None else '%d octets' % len(data)
            raise Mismatch('keyring is neither as before nor changed: %s '
                           '(before %s, after %s) %s' % (
                               found, old and len(old), new and len(new),
                               what))
        for path, mode in w.copies().items():
            same(mode & ~0o600, 0, 'permissions of ' + path)
        return data

    def follow_up(w, case):
        """Another process goes on with it."""
        got = shimctl.child(lambda: redo(w)).value
        same(got, reference(case)[2], 'keys afterwards')
        same(sorted(c16.content(b) for b in c16.blocks(w.read())),
             sorted(reference(case)[4]), 'keyring afterwards')

    def crash(param):
        case, mode, step, part = param
        w = World(case)
        try:
            r = perform(w, mode, step, 0, part)
            expect(r.killed, 'was not ended')
            data = check_content(w, case, param[1:])
            follow_up(w, case)
            return case, data == w.initial, mode
        finally:
            w.close()

    def crash_points():
        for case in CASES:
            for r in reference(case)[0]:
                if not r.step:
                    continue
                yield case, shimctl.KILL_BEFORE, r.step, 0
                if r.kind == 'w':
                    for part in range(4):
                        yield case, shimctl.KILL_PART, r.step, part
                yield case, shimctl.KILL_AFTER, r.step, 0
    ck.each('undisturbed', CASES, lambda c: repr(len(steps(c))))
    W = dict(workers=8, init=shimctl.renew)
    ck.each('crash', crash_points(), crash, **W)

    def fault(param):
        case, mode, step, err, part = param
        kind = is_step_of(case, step).kind
        go_on = kind != 'u' and mode == shimctl.FAIL
        w = World(case)
        try:
            r = perform(w, mode, step, err, part, go_on)
            expect(not r.killed, 'was ended')
            failed, then = r.value
            data = check_content(w, case, param[1:])
            if failed is None:
                same(data, reference(case)[1], 'keyring after success')
            else:
                expect(failed[1], 'unexpected exception', failed)
            if go_on:
                if failed:
                    same(then, reference(case)[2], 'keys after going on')
                expect(not w.copies(), 'keys left elsewhere', w.copies())
            follow_up(w, case)
            return case, mode, failed and failed[0]
        finally:
            w.close()

    def faults():
        for case in CASES:
            for r in reference(case)[0]:
                if not r.step:
                    continue
                for err in ((errno.EIO, errno.ENOSPC, errno.EACCES)
                            if ck.thorough else (errno.EIO,)):
                    yield case, shimctl.FAIL, r.step, err, 0
                yield case, shimctl.FAIL_ON, r.step, errno.ENOSPC, 0
                if r.kind == 'w':
                    for part in range(4):
                        yield (case, shimctl.FAIL_PART, r.step,
                               errno.ENOSPC, part)
    ck.each('fault', faults(), fault, **W)

    def interrupt(param):
        case, step = param
        w = World(case)
        try:
            r = perform(w, shimctl.INTERRUPT, step)
            check_content(w, case, param[1:])
            follow_up(w, case)
            return case, r.killed or r.value[0] and r.value[0][0]
        finally:
            w.close()
    ck.each('interruption', ((c, s) for c in CASES for s in steps(c)),
            interrupt, **W)

    def power(case):
        records, new, _, lost, _ = reference(case)
        old = World(case)
        allowed = [old.initial, new] + (
            [b''] if old.initial is None else [])
        old.close()
        for data, when in lost.items():
            states.add((case, data))
            if data not in allowed:
                raise Mismatch(
                    'power loss after %r leaves %s of %s/%s octets' % (
                        records[when - 1][:4],
                        'no file' if data is None else len(data),
                        old.initial and len(old.initial), len(new)))
        ck.transitions += len(records)
        return case
    ck.each('power-loss', CASES, power)

    # two changes, the first of which did not end
    def double(param):
        first, second, step = param
        w = World(first)
        try:
            r = perform(w, shimctl.KILL_AFTER, step)
            expect(r.killed, 'was not ended')
            before = w.read()
            had = {c16.content(b) for b in c16.blocks(before or b'')}
            op, k, v = second

            def fn():
                ring = w.open()
                key = pool.key(k, v, w.secret, True)
                try:
                    getattr(ring, op + '_transferrable_key')(key)
                    return True
                except KeyError:
                    return False
            done = shimctl.child(fn).value
            got = {c16.content(b) for b in c16.blocks(w.read())}
            mine = {c for c in had if c[0][1] == c16.content(
                pool.octets(k, 0, w.secret, True))[0][1]}
            expect(done == (bool(mine) == (op != 'add')), 'result', done)
            want = had
            if done:
                want = had - mine
                if op != 'delete':
                    want = want | {c16.content(
                        pool.octets(k, v, w.secret, True))}
            same(sorted(got), sorted(want), 'keyring after both')
            return op, done
        finally:
            w.close()
    seconds = [('add', 'a', 1), ('update', 'b', 1), ('delete', 'b', 0),
               ('delete', 'c', 0)]
    ck.each('two-changes', (
        (c, s, n) for c in CASES
        if (ck.thorough or c[0] in ('one', None)) and not c[2]
        for n in steps(c) for s in seconds), double, **W)

    # file system states: after each crash or fault, and each power loss
    ck.states += len(states) + ck.nontrivial
    ck.transitions += ck.evaluations
    ck.traces += ck.evaluations
