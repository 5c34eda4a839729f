"""Owns the nondeterminism of the process: randomness and import path."""

import hashlib
import os
import sys
import warnings

REPO = os.environ.get('MC_REPO', '/repo')


class DRBG(object):
    """Deterministic byte source standing in for Crypto.Random."""

    def __init__(self):
        self.reset(b'0')

    def reset(self, label):
        self.seed = hashlib.sha256(b'mc-drbg' + label).digest()
        self.counter = 0
        self.buf = b''

    def read(self, n):
        while len(self.buf) < n:
            self.buf += hashlib.sha512(
                self.seed + str(self.counter).encode()).digest()
            self.counter += 1
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def flush(self):
        pass

    def close(self):
        pass

    def reinit(self):
        pass


RNG = DRBG()


def install():
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import Crypto.Random
    Crypto.Random.new = lambda *a, **k: RNG
    Crypto.Random.get_random_bytes = RNG.read
    Crypto.Random.atfork = lambda: None
    import pgp
    where = os.path.realpath(os.path.dirname(pgp.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'pgp')):
        raise SystemExit('pgp imported from %s, not %s' % (where, REPO))
