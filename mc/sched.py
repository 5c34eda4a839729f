"""Controlled scheduler: real code of several threads and processes runs as
greenlets that hand over at every operation on shared state, so that every
interleaving within the bounds can be executed and repeated.

File operations are real, in a scratch directory; process IDs, signals,
thread locks, sleeping and the clock are the scheduler's.
"""

import builtins
import errno
import os
import threading
import time

import greenlet

from mc.core import Mismatch

try:
    import fcntl
except ImportError:
    fcntl = None

real = {}
world = None        # the world being executed


class Stuck(Mismatch):
    pass


class Actor(object):

    def __init__(self, world, name, pid, tid, fn):
        self.world, self.name, self.pid, self.tid = world, name, pid, tid
        self.status = 'ready'
        self.wake = None        # what it waits for
        self.result = None
        self.error = None
        self.files = []
        self.greenlet = greenlet.greenlet(self.main)
        self.fn = fn

    def main(self):
        try:
            self.result = self.fn()
        except Exception as e:
            self.error = e
        self.status = 'done'

    def enabled(self):
        if self.status == 'ready':
            return True
        if self.status == 'waiting':
            return self.wake()
        return False


def current():
    if world is None:
        return None
    return world.by_greenlet.get(greenlet.getcurrent())


class World(object):

    def __init__(self, directory):
        self.dir = directory
        self.actors = []
        self.by_greenlet = {}
        self.version = 0
        self.clock = 1000000000.0
        self.alive = set()
        self.users = {}     # of processes, where they are not all the same
        self.log = []
        self.fine = False
        self.pace = 1       # greater: longer and longer waiting
        self.main = greenlet.getcurrent()

    def process(self, pid):
        self.alive.add(pid)

    def spawn(self, name, pid, tid, fn):
        a = Actor(self, name, pid, tid, fn)
        self.actors.append(a)
        self.by_greenlet[a.greenlet] = a
        return a

    def kill(self, pid):
        """The process is gone, with all it has open."""
        self.alive.discard(pid)
        self.version += 1
        for a in self.actors:
            if a.pid == pid and a.status != 'done':
                a.status = 'dead'
        null = real['os.open'](os.devnull, os.O_RDWR)
        for a in self.actors:
            if a.pid != pid:
                continue
            for fh in a.files:
                try:
                    fd = fh if isinstance(fh, int) else fh.fileno()
                    os.dup2(null, fd)
                except (ValueError, OSError):
                    pass
        os.close(null)

    def inside(self, actor, fn):
        """Run something as this actor without handing over."""
        raise NotImplementedError

    def run(self, choose, on_step=None, killable=()):
        """choose(n) -> which of n options; options: (cost, what)"""
        last = None
        idle = 0
        while True:
            live = [a for a in self.actors
                    if a.status in ('ready', 'waiting')]
            if not live:
                return
            enabled = [a for a in live if a.enabled()]
            if not enabled:
                # let time pass
                idle += 1
                if idle > 6:
                    raise Stuck('nobody can go on: %s' % ', '.join(
                        '%s at %s' % (a.name, a.at) for a in live))
                self.clock += self.pace ** idle
                for a in live:
                    if a.sleeping:
                        a.status = 'ready'
                continue
            options = []
            if last in enabled:
                options.append((0, 0, last))
            for a in enabled:
                if a is not last:
                    options.append((1 if last in enabled else 0, 0, a))
            for pid in killable:
                if pid in self.alive and any(
                        a.pid == pid and a.started for a in live):
                    options.append((0, 1, pid))
            cost, crash, pick = choose(options)
            if crash:
                self.log.append('kill %d' % pick)
                self.kill(pick)
                if on_step:
                    on_step(self)
                continue
            idle_before = self.version
            pick.status = 'ready'
            pick.started = True
            self.log.append(pick.name)
            pick.greenlet.switch()
            if self.version != idle_before:
                idle = 0
            last = pick
            if on_step:
                on_step(self)


Actor.started = False
Actor.sleeping = False
Actor.at = 'start'


def point(at):
    """Hand over to the scheduler."""
    a = current()
    if a is not None:
        a.at = at
        a.world.main.switch()
        a.sleeping = False
    return a


def statement():
    """Between two statements of the code, where the world is that fine."""
    if world is not None and world.fine:
        point('statement')


def wait(at, condition):
    """Not enabled until condition()."""
    a = current()
    a.at = at
    a.status = 'waiting'
    a.wake = condition
    a.world.main.switch()
    a.sleeping = False


def _sleep(seconds):
    a = current()
    if a is None:
        return real['time.sleep'](seconds)
    w = a.world
    version = w.version
    a.at = 'sleep'
    a.status = 'waiting'
    a.sleeping = True
    a.wake = lambda: w.version != version
    w.main.switch()
    a.sleeping = False
    w.clock += seconds


def _time():
    a = current()
    return real['time.time']() if a is None else a.world.clock


def _monotonic():
    a = current()
    return real['time.monotonic']() if a is None else a.world.clock


def _getpid():
    a = current()
    return real['os.getpid']() if a is None else a.pid


def _get_ident():
    a = current()
    return real['threading.get_ident']() if a is None else a.tid


def _kill(pid, sig):
    a = point('kill')
    if a is None:
        return real['os.kill'](pid, sig)
    if sig != 0:
        raise AssertionError('signal sent')
    if pid not in a.world.alive:
        raise ProcessLookupError(errno.ESRCH, 'No such process')
    users = a.world.users
    if users.get(pid) != users.get(a.pid):
        raise PermissionError(errno.EPERM, 'Operation not permitted')


def _changing(name):
    def call(*args, **kw):
        a = point(name)
        result = real['os.' + name](*args, **kw)
        if a is not None:
            a.world.version += 1
        return result
    return call


def _looking(name):
    def call(*args, **kw):
        point(name)
        return real['os.' + name](*args, **kw)
    return call


def _open(file, mode='r', *args, **kw):
    a = point('open')
    fh = real['open'](file, mode, *args, **kw)
    if a is not None:
        a.files.append(fh)
        if set(mode) & set('wax+'):
            a.world.version += 1
    return fh


def _os_open(*args, **kw):
    a = point('os.open')
    fd = real['os.open'](*args, **kw)
    if a is not None:
        a.files.append(fd)
    return fd


def _flock(fh, operation):
    a = point('flock')
    if a is None:
        return real['fcntl.flock'](fh, operation)
    if operation & fcntl.LOCK_UN or operation & fcntl.LOCK_NB:
        return real['fcntl.flock'](fh, operation)
    while True:
        try:
            return real['fcntl.flock'](fh, operation | fcntl.LOCK_NB)
        except BlockingIOError:
            _sleep(0.01)


class ModelLock(object):
    """threading.Lock and RLock of the actors."""

    reentrant = True

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        a = point('lock')
        if a is None:
            me = real['threading.get_ident']()
            if self.owner not in (None, me):
                raise AssertionError('lock of an actor')
        else:
            me = a.tid
            end = a.world.clock + timeout

            def free():
                return (self.owner is None
                        or self.reentrant and self.owner == me
                        or 0 <= timeout and a.world.clock >= end)
            if not free():
                if not blocking:
                    return False
                wait('lock', free)
            if self.owner is not None and not (
                    self.reentrant and self.owner == me):
                return False
        self.owner = me
        self.depth += 1
        return True

    __enter__ = acquire

    def release(self):
        a = current()
        me = real['threading.get_ident']() if a is None else a.tid
        if self.reentrant and self.owner != me or self.owner is None:
            raise RuntimeError('cannot release un-acquired lock')
        self.depth -= 1
        if not self.depth:
            self.owner = None
        if a is not None:
            a.world.version += 1

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self.owner is not None


class ModelPlainLock(ModelLock):
    reentrant = False


def _make(kind, model):
    def make(*args, **kw):
        if world is None:
            return real['threading.' + kind](*args, **kw)
        return model()
    return make


def install():
    """Replace the operations, once per process."""
    if real:
        return
    for name in ('link', 'unlink', 'remove', 'rename', 'replace', 'symlink',
                 'mkdir', 'rmdir'):
        real['os.' + name] = getattr(os, name)
        setattr(os, name, _changing(name))
    for name in ('stat', 'lstat'):
        real['os.' + name] = getattr(os, name)
        setattr(os, name, _looking(name))
    real.update({
        'open': builtins.open, 'os.open': os.open, 'os.getpid': os.getpid,
        'os.kill': os.kill, 'time.sleep': time.sleep,
        'time.time': time.time, 'time.monotonic': time.monotonic,
        'threading.get_ident': threading.get_ident,
        'threading.RLock': threading.RLock,
        'threading.Lock': threading.Lock})
    builtins.open = _open
    os.open = _os_open
    os.getpid = _getpid
    os.kill = _kill
    time.sleep = _sleep
    time.time = _time
    time.monotonic = _monotonic
    threading.get_ident = _get_ident
    threading.RLock = _make('RLock', ModelLock)
    threading.Lock = _make('Lock', ModelPlainLock)
    if fcntl is not None:
        real['fcntl.flock'] = fcntl.flock
        fcntl.flock = _flock


# -- exploration -----------------------------------------------------------


class Schedule(object):
    """One branch of the search: a prefix of choices, then the first option
    each time."""

    def __init__(self, prefix, preemptions, crashes):
        self.prefix = prefix
        self.left = preemptions
        self.crashes = crashes
        self.taken = []
        self.width = []

    def choose(self, options):
        allowed = [o for o in options
                   if o[0] <= self.left and o[1] <= self.crashes]
        n = len(self.taken)
        i = self.prefix[n] if n < len(self.prefix) else 0
        self.taken.append(i)
        self.width.append(len(allowed))
        pick = allowed[i]
        self.left -= pick[0]
        self.crashes -= pick[1]
        return pick

    def siblings(self):
        """The branches after the prefix that were not taken."""
        for n in range(len(self.prefix), len(self.taken)):
            for i in range(1, self.width[n]):
                yield self.taken[:n] + [i]


def explore(execute, preemptions, crashes=0, limit=None, prefix=(),
            part=0, parts=1):
    """execute(schedule) runs one world.  Yields (choices, outcome or
    exception) of every schedule, or of one part of them."""
    stack = [list(prefix)]
    count = 0
    while stack:
        s = Schedule(stack.pop(), preemptions, crashes)
        try:
            outcome = execute(s)
        except Exception as e:
            outcome = e
        siblings = list(s.siblings())
        if s.prefix == list(prefix):
            siblings = siblings[part::parts]
            if part and not isinstance(outcome, Exception):
                stack.extend(siblings)
                continue
        yield s, outcome
        count += 1
        if limit and count >= limit:
            return
        stack.extend(siblings)
