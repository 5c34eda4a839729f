"""Runs operations in forked processes that are ended, or in which calls are
made to fail, at a chosen file operation (mc/shim/shim.c)."""

import collections
import ctypes
import os
import pickle
import select
import signal
import subprocess
import sys
import time

from mc import core, scratch

(OFF, TRACE, KILL_BEFORE, KILL_PART, KILL_AFTER, FAIL, FAIL_PART, FAIL_ON,
 INTERRUPT) = range(9)

_lib = None


def ensure():
    """Make sure that the shim is loaded, starting over if it is not."""
    global _lib
    if _lib is None:
        try:
            lib = ctypes.CDLL(None)
            lib.mc_arm
        except AttributeError:
            if os.environ.get('MC_SHIM'):
                raise SystemExit('the shim was not loaded')
            here = os.path.dirname(os.path.abspath(__file__))
            out = scratch.new('shim')
            path = os.path.join(out, 'shim.so')
            subprocess.check_call(
                ['gcc', '-O1', '-shared', '-fPIC', '-o', path,
                 os.path.join(here, 'shim', 'shim.c'), '-ldl'])
            env = dict(os.environ, LD_PRELOAD=path, MC_SHIM=path)
            signal.setitimer(signal.ITIMER_REAL, 0, 0)
            code = subprocess.call(
                [sys.executable, '-W', 'ignore', '-m', 'mc.run']
                + sys.argv[1:], env=env)
            scratch.remove_all()
            sys.stdout.flush()
            os._exit(code)
        os.environ.pop('LD_PRELOAD', None)
        lib.mc_log.restype = ctypes.c_void_p
        lib.mc_log_length.restype = ctypes.c_size_t
        _lib = lib
    return _lib


Result = collections.namedtuple('Result', 'killed value')


class Hung(Exception):
    pass


def arm(root, mode=TRACE, step=0, err=0, part=0):
    _lib.mc_arm(os.path.realpath(root).encode(), mode, step, err, part)


def renew():
    """In a worker process: share with its own children only."""
    _lib.mc_renew()


def disarm():
    _lib.mc_disarm()


def child(fn, seconds=20):
    """fn() in a forked process -> Result"""
    sys.stdout.flush()
    r, w = os.pipe()
    pid = core.fork()
    if not pid:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            os.close(r)
            os.umask(0o022)
            data = pickle.dumps(fn())
            _lib.mc_disarm()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    end = time.time() + seconds
    while 1:
        ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise Hung('no answer for %d s' % seconds)
        got = os.read(r, 65536)
        if not got:
            break
        out += got
    os.close(r)
    _, status = os.waitpid(pid, 0)
    killed = os.WIFSIGNALED(status)
    if not killed and not out:
        raise Hung('the process of the operation failed')
    return Result(killed, pickle.loads(out) if out else None)


Record = collections.namedtuple('Record', 'kind fd number a b step')


def log():
    """What the last armed process did."""
    data = ctypes.string_at(_lib.mc_log(), _lib.mc_log_length())
    out, pos, step = [], 0, 0

    def take():
        nonlocal pos
        n = int.from_bytes(data[pos:pos + 4], 'little')
        pos += 4 + n
        return data[pos - n:pos]
    while pos < len(data):
        kind = take().decode()
        fd = int.from_bytes(take(), 'little', signed=True)
        number = int.from_bytes(take(), 'little', signed=True)
        a, b = take(), take()
        if kind != 'w':
            b = b.decode()
        at = None
        if kind != 'c' and (kind != 'o'
                            or number & (os.O_CREAT | os.O_TRUNC)):
            step += 1
            at = step
        out.append(Record(kind, fd, number, a.decode(), b, at))
    assert step == _lib.mc_count(), 'steps'
    return out


# -- power loss ------------------------------------------------------------


class Inode(object):

    def __init__(self, data=b''):
        self.durable = data
        self.pending = []   # operations since the last fsync

    def states(self):
        """All contents that may be found after a power loss."""
        data = bytearray(self.durable)
        yield bytes(data)
        for op, at, what in self.pending:
            if op == 't':
                data[at:] = b''
                data.extend(bytes(at - len(data)))
                yield bytes(data)
            else:
                for cut in sorted({len(what) // 2, len(what)}):
                    new = bytearray(data)
                    new.extend(bytes(max(0, at - len(new))))
                    new[at:at + cut] = what[:cut]
                    yield bytes(new)
                data = new


def after_power_loss(initial, records, path):
    """Contents (None: no such file) of path if power is lost after any of
    the records: names change in order, data of a file is certain only after
    fsync."""
    names = {p: Inode(d) for p, d in initial.items()}
    history = [dict(names)]     # name tables since the last directory sync
    fds = {}
    out = {}

    def look(n):
        for table in history:
            inode = table.get(path)
            for s in ([None] if inode is None else inode.states()):
                out.setdefault(s, n)
    look(0)
    for n, r in enumerate(records, 1):
        if r.kind == 'o':
            inode = names.get(r.a)
            if inode is None:
                if os.path.isdir(r.a):
                    fds[r.fd] = 'directory'
                    continue
                inode = names[r.a] = Inode()
                history.append(dict(names))
            elif r.number & os.O_TRUNC:
                inode.pending.append(('t', 0, None))
            fds[r.fd] = inode
        elif r.kind == 'w':
            fds[r.fd].pending.append(('w', r.number, r.b))
        elif r.kind == 't':
            fds[r.fd].pending.append(('t', r.number, None))
        elif r.kind == 'T':
            names[r.a].pending.append(('t', r.number, None))
        elif r.kind == 's':
            if fds[r.fd] == 'directory':
                del history[:-1]
            else:
                inode = fds[r.fd]
                for inode.durable in inode.states():
                    pass
                inode.pending = []
        elif r.kind == 'u':
            names.pop(r.a, None)
            history.append(dict(names))
        elif r.kind == 'r':
            names[r.b] = names.pop(r.a)
            history.append(dict(names))
        elif r.kind == 'l':
            names[r.b] = names[r.a]
            history.append(dict(names))
        look(n)
    return out
