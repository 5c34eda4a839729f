"""C16: a keyring is a map from fingerprints to keys."""

import ast
import itertools
import os
import shutil
import stat
import subprocess
import sys

from mc import scratch
from mc import util
from mc.core import expect, same, raises, Mismatch
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of operation sequences on real '
             'keyring files through one or two handles and on databases of '
             'several keyrings, every state compared with a reference map '
             'and with an independent parser of the files')
RULE = ('All sequences of add, update, delete and reopen up to the depth '
        'over three keys in two versions each (version 3 and 4, with '
        'colliding short key IDs, with trust packets), from several initial '
        'keyrings; all databases of up to three resources of the domain.')
ASSUMPTIONS = ['GDBM resources are not explored: databases made by current '
               'versions of the library are not recognised as such.',
               'The order of keys in a keyring is not specified.',
               'Local-trust packets of a key that is updated are not kept.']


def blocks(data):
    """Reference reading of a keyring: [octets of each key]."""
    starts = [start for tag, _, start, _ in rfc.packet_spans(data)
              if tag in (5, 6)]
    if data:
        assert starts and starts[0] == 0, 'does not start with a key'
    return [data[a:b] for a, b in zip(starts, starts[1:] + [len(data)])]


def content(block):
    """What a key is, apart from how its packets are framed."""
    return tuple((t, b) for t, b in rfc.split_packets(block) if t != 12)


class Pool(object):
    """The keys of the exploration."""

    def __init__(self):
        # share the last 32 bits of their key IDs
        self.a = R.Key('rsa_s1', created=1000142102)
        self.b = R.Key('dsa_small', created=1000037993)
        assert self.a.key_id[-8:] == self.b.key_id[-8:]
        self.c = R.Key('rsa_s2', version=3, created=1000000005)
        self.sub = R.Key('rsa_c', created=1000000009)
        self.uids = {
            'a': [(b'Alice <alice@example.org>',),
                  (b'Alice <alice@example.org>', b'Alice Two <x@y.org>')],
            'b': [(b'Bob <bob@Example.org>',), (b'Robert',)],
            'c': [(b'Carol <carol@example.org>',),
                  (b'caroline (old) <c@example.net>',)],
        }
        self.cache = {}

    def primary(self, k):
        return getattr(self, k)

    def fingerprint(self, k):
        return self.primary(k).fingerprint

    def octets(self, k, variant, secret, new):
        ident = k, variant, secret, new
        if ident not in self.cache:
            self.cache[ident] = R.certificate(
                self.primary(k), self.uids[k][variant],
                [self.sub] if k == 'a' and variant else [],
                secret=secret, new=new, hash_alg=2)
        return self.cache[ident]

    def key(self, k, variant, secret, new):
        ident = 'key', k, variant, secret, new
        if ident not in self.cache:
            self.cache[ident] = util.read_key(
                self.octets(k, variant, secret, new))
        return self.cache[ident]

    def identify(self, block):
        """(letter, variant) of a key in a keyring"""
        what = content(block)
        for k in 'abc':
            for v in (0, 1):
                for s in (False, True):
                    if what == content(self.octets(k, v, s, True)):
                        return k, v
        raise Mismatch('unknown key in the keyring', )

    def with_trust(self, k, variant, secret):
        """As GnuPG has it in its keyrings: old headers, trust packets"""
        out = b''
        for tag, body in rfc.split_packets(
                self.octets(k, variant, secret, False)):
            out += rfc.old_packet(tag, body)
            if tag in (2, 5, 6, 13):
                out += rfc.old_packet(12, b'\x00\x03')
        return out

    def initial(self, name, secret):
        o = self.octets
        return {
            'empty': b'',
            'gnupg': b''.join(self.with_trust(k, 0, secret) for k in 'bac'),
            'new': o('c', 0, secret, True) + o('a', 1, secret, True),
            'mixed': o('a', 0, secret, False) + o('c', 1, secret, True)
            + self.with_trust('b', 1, secret),
            'two': o('a', 0, secret, True) + o('b', 0, secret, True),
            'one': self.with_trust('b', 0, secret),
        }[name]

DEFAULTS = '''
import ast, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from pgp import read_key_file, get_gnupg_db
from pgp.db.gpg import GPGDatabase
options = ast.literal_eval(sys.argv[3])
results = []
try:
    if options is None:
        db = get_gnupg_db()
    else:
        db = GPGDatabase()
        db.load_default_resources(force=bool(options[0]),
                                  read_only=bool(options[1]))
except RuntimeError:
    print((False, [], [], 0))
    sys.exit()
for name in ('pub', 'sec'):
    key = read_key_file(os.path.join(sys.argv[2], name))
    try:
        db.add_key(key)
        results.append('done')
    except TypeError:
        results.append('TypeError')
print((True, results, list(db.keys()),
       len(db.search(fingerprint=key.fingerprint))))
'''


def run(ck):
    from pgp.db import gpg
    from pgp.transferrable_keys import (TransferablePublicKey,
                                        TransferableSecretKey)
    pool = Pool()
    base = scratch.new('c16')
    counter = itertools.count()

    initial = pool.initial

    class Ring(object):
        """A keyring file, its handles and what it should contain."""

        def __init__(self, name, secret):
            n = next(counter)
            self.dir = os.path.join(base, 'r%d' % n)
            os.mkdir(self.dir)
            self.path = os.path.join(self.dir, 'ring.gpg')
            self.secret = secret
            data = initial(name, secret)
            if name != 'empty':
                with open(self.path, 'wb') as fh:
                    fh.write(data)
                os.chmod(self.path, 0o640)
                self.mode = 0o640
            else:
                self.mode = 0o600
            self.handles = {}
            self.map = {pool.identify(b)[0]: (pool.identify(b)[1], b)
                        for b in blocks(data)}
            self.seen = {}
            self.open('x')

        def open(self, h):
            self.handles[h] = gpg.get_resource(
                self.path, force=True, secret=self.secret)
            self.seen[h] = self.state()

        def state(self):
            return tuple(sorted((k, v) for k, (v, _) in self.map.items()))

        def close(self):
            self.handles.clear()
            shutil.rmtree(self.dir, ignore_errors=True)

        def operate(self, event):
            op, h = event[0], event[-1]
            if op == 'open':
                self.open(h)
                return
            if h not in self.handles:
                self.open(h)
            ring = self.handles[h]
            k, v = event[1], event[2]
            new = bool((ord(k) + v) % 2)
            key = pool.key(k, v, self.secret, new)
            before = self.read()
            call = {'add': ring.add_transferrable_key,
                    'update': ring.update_transferrable_key,
                    'delete': ring.delete_transferrable_key}[op]
            if (k in self.map) == (op == 'add'):
                raises(lambda: call(key), KeyError)
                same(self.read(), before, 'keyring after a refused ' + op)
            else:
                call(key)
                if op == 'delete':
                    del self.map[k]
                else:
                    self.map[k] = v, None
            self.seen[h] = self.state()

        def read(self):
            with open(self.path, 'rb') as fh:
                return fh.read()

        def check_file(self):
            found = {}
            for block in blocks(self.read()):
                k, v = pool.identify(block)
                expect(k not in found, 'twice in the keyring', k)
                found[k] = v, block
            same(sorted((k, v) for k, (v, _) in found.items()),
                 sorted((k, v) for k, (v, _) in self.map.items()),
                 'keys in the file')
            for k, (v, block) in self.map.items():
                if block is not None:
                    same(found[k][1], block, 'octets of an untouched key')
                tags = [t for t, _ in rfc.split_packets(found[k][1])]
                same(tags[0], 5 if self.secret else 6, 'kind of key')
            self.map = found
            same(stat.S_IMODE(os.stat(self.path).st_mode), self.mode,
                 'permissions')
            for name in os.listdir(self.dir):
                if name == 'ring.gpg':
                    continue
                path = os.path.join(self.dir, name)
                if not os.path.exists(path):
                    continue
                with open(path, 'rb') as fh:
                    expect(not any(block[:20] in fh.read()
                                   for _, block in found.values()),
                           'keys left in', name)
                expect(not name.endswith('.lock'), 'still locked', name)

        def check_handle(self, h):
            ring = self.handles[h]
            want = {pool.fingerprint(k): (k, v)
                    for k, (v, _) in self.map.items()}
            same(sorted(ring.keys()), sorted(want), 'keys of ' + h)
            same(sorted(ring), sorted(want), 'iteration of ' + h)

            def same_key(key, k, v, what):
                same(type(key), TransferableSecretKey if self.secret
                     else TransferablePublicKey, 'type')
                same(key.fingerprint, pool.fingerprint(k), what)
                same(content(util.octets(key)),
                     content(pool.octets(k, v, self.secret, True)), what)
            items = list(ring.items())
            same(sorted(f for f, _ in items), sorted(want), 'items')
            for f, key in items:
                same_key(key, *want[f] + ('item',))
            same(sorted(key.fingerprint for key in ring.values()),
                 sorted(want), 'values')
            for k in 'abc':
                f, i = pool.fingerprint(k), pool.primary(k).key_id
                same(f in ring, k in self.map, 'contains')
                for form in (f, f.lower(), i, i.lower()):
                    if k in self.map:
                        same_key(ring.get_transferrable_key(form), k,
                                 self.map[k][0], 'by ' + form)
                    else:
                        raises(lambda: ring.get_transferrable_key(form),
                               KeyError)
                short = i[-8:]
                having = [x for x in self.map
                          if pool.primary(x).key_id.endswith(short)]
                for form in (short, short.lower()):
                    if having:
                        key = ring.get_transferrable_key(form)
                        expect(key.fingerprint in
                               [pool.fingerprint(x) for x in having],
                               'by short key ID', form, key.fingerprint)
                    else:
                        raises(lambda: ring.get_transferrable_key(form),
                               KeyError)
            for form in ('0' * 40, 'F' * 16, '00000000', 'A' * 39):
                raises(lambda: ring.get_transferrable_key(form), KeyError)

    def build(hist, name, secret):
        ring = Ring(name, secret)
        try:
            for n, event in enumerate(hist):
                ring.operate(event)
                ring.check_file()
            if not hist:
                ring.check_file()
            for h in sorted(ring.handles):
                ring.check_handle(h)
            state = (ring.state(), tuple(sorted(ring.seen.items())),
                     [pool.identify(b) for b in blocks(ring.read())],
                     [b[0] for b in blocks(ring.read())])
        finally:
            ring.close()
        return repr(state)

    def events_of(handles):
        ops = []
        for h in handles:
            for k in 'abc':
                for v in (0, 1):
                    ops.append(('add', k, v, h))
                    ops.append(('update', k, v, h))
                ops.append(('delete', k, 1, h))
            ops.append(('open', h))
        return lambda hist: ops

    canon = str
    ok = lambda world: None  # noqa: E731
    deep = 3 if ck.thorough else 2
    for name in ('empty', 'gnupg', 'new', 'mixed', 'one'):
        for secret in (False, True):
            ck.bfs('ring-%s-%s' % (name, 'secret' if secret else 'public'),
                   [], events_of('x'), lambda h: build(h, name, secret),
                   canon, ok, deep + (name == 'empty' and not secret))
    two = [('add', 'a', 0), ('update', 'a', 1), ('delete', 'a', 0),
           ('add', 'b', 0), ('update', 'b', 1), ('delete', 'b', 0),
           ('delete', 'c', 0)]
    two = [e + (h,) for e in two for h in 'xy']
    for name in ('empty', 'gnupg'):
        ck.bfs('two-handles-' + name, [], lambda h: two,
               lambda h: build(h, name, False), canon, ok, deep + 1)

    # -- keyrings with keys of both kinds ----------------------------------

    def mixture(case):
        order, kinds, trust, op = case
        d = os.path.join(base, 'm%d' % next(counter))
        os.mkdir(d)
        try:
            path = os.path.join(d, 'ring')
            parts = {}
            for k, secret in zip(order, kinds):
                parts[k] = (pool.with_trust(k, 1, secret) if trust
                            else pool.octets(k, 1, secret, True))
            with open(path, 'wb') as fh:
                fh.write(b''.join(parts[k] for k in order))
            ring = gpg.get_resource(path, force=True, secret=kinds[0])
            want = {pool.fingerprint(k): content(parts[k]) for k in order}
            if op:
                k = order[-1]
                key = pool.key(k, 0, kinds[-1], True)
                if op == 'update':
                    ring.update_transferrable_key(key)
                    want[pool.fingerprint(k)] = content(
                        pool.octets(k, 0, kinds[-1], True))
                else:
                    ring.delete_transferrable_key(key)
                    del want[pool.fingerprint(k)]
                with open(path, 'rb') as fh:
                    left = blocks(fh.read())
                same(sorted(content(b) for b in left),
                     sorted(want.values()), 'file')
                for k in order[:-1]:
                    expect(parts[k] in left, 'octets of another key', k)
            same(sorted(ring.keys()), sorted(want), 'keys')
            same({f: content(util.octets(key)) for f, key in ring.items()},
                 want, 'items')
            same({key.fingerprint: content(util.octets(key))
                  for key in ring.values()}, want, 'values')
            for f in want:
                key = ring.get_transferrable_key(f)
                same(content(util.octets(key)), want[f], 'key')
                same(type(key), TransferableSecretKey if dict(zip(
                    map(pool.fingerprint, order), kinds))[f]
                    else TransferablePublicKey, 'type')
            return repr(case)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ck.each('mixture', [
        (order, kinds, trust, op)
        for n in (1, 2, 3) for order in itertools.permutations('abc', n)
        for kinds in itertools.product([False, True], repeat=n)
        for trust in (False, True) for op in (None, 'update', 'delete')],
        mixture)

    # -- databases ---------------------------------------------------------

    # name -> (secret, read only, initial)
    RESOURCES = {
        'p': (False, False, 'empty'), 'q': (False, False, 'one'),
        'g': (False, False, 'gnupg'), 's': (True, False, 'empty'),
        't': (True, False, 'gnupg'), 'R': (False, True, 'gnupg'),
        'T': (True, True, 'one'),
    }

    class World(object):

        def __init__(self, config):
            self.dir = os.path.join(base, 'd%d' % next(counter))
            os.mkdir(self.dir)
            self.db = gpg.GPGDatabase()
            self.order = []
            self.maps = {}
            for letter in config:
                primary = letter == '!'
                if primary:
                    continue
                secret, read_only, start = RESOURCES[letter]
                path = os.path.join(self.dir, 'ring-%s.gpg' % letter)
                data = initial(start, secret)
                with open(path, 'wb') as fh:
                    fh.write(data)
                first = config.startswith('!') and letter == config[-1]
                res = self.db.add_resource(path, primary=first,
                                           secret=secret,
                                           read_only=read_only)
                same(res.filename, path, 'resource')
                if first:
                    self.order.insert(0, letter)
                else:
                    self.order.append(letter)
                self.maps[letter] = {
                    pool.identify(b)[0]: pool.identify(b)[1]
                    for b in blocks(data)}

        def path(self, letter):
            return os.path.join(self.dir, 'ring-%s.gpg' % letter)

        def operate(self, event):
            op, k, v, secret = event
            key = pool.key(k, v, secret, True)
            mine = [x for x in self.order if RESOURCES[x][0] == secret]
            call = getattr(self.db, op + '_key')
            if op != 'add':
                mine = [x for x in mine if k in self.maps[x]]
                if not mine:
                    raises(lambda: call(key), KeyError)
                    return
            if not mine:
                # nowhere to put it
                raises(lambda: call(key))
                return
            target = mine[0]
            if RESOURCES[target][1]:
                raises(lambda: call(key), TypeError)
            elif op == 'add' and k in self.maps[target]:
                raises(lambda: call(key), KeyError)
            else:
                call(key)
                if op == 'delete':
                    del self.maps[target][k]
                else:
                    self.maps[target][k] = v

        def check(self):
            for x in self.order:
                with open(self.path(x), 'rb') as fh:
                    data = fh.read()
                got = dict(pool.identify(b) for b in blocks(data))
                same(got, self.maps[x], 'keyring ' + x)
                for b in blocks(data):
                    same(rfc.split_packets(b)[0][0],
                         5 if RESOURCES[x][0] else 6, 'kind of key')
            same(sorted(self.db.keys()), sorted(
                pool.fingerprint(k) for x in self.order
                for k in self.maps[x]), 'keys of the database')

            def found(match, user_id=None, **kw):
                want = []
                for x in self.order:
                    for k, v in sorted(self.maps[x].items()):
                        if match(k) and (user_id is None or any(
                                user_id.lower() in u.decode().lower()
                                for u in pool.uids[k][v])):
                            want.append((k, v, RESOURCES[x][0]))
                if user_id is not None:
                    kw['user_id'] = user_id
                got = []
                for key in self.db.search(**kw):
                    k, v = pool.identify(util.octets(key))
                    got.append((k, v, isinstance(key,
                                                 TransferableSecretKey)))
                same(sorted(got), sorted(want), 'search %r' % (kw,))
                return got
            for k in 'abc':
                one = lambda x: x == k  # noqa: E731
                for u in (None, 'alice', 'EXAMPLE.ORG', 'nobody'):
                    found(one, u, fingerprint=pool.fingerprint(k))
                    found(one, u, key_id=pool.primary(k).key_id)
                # those of a and b are the same
                short = pool.primary(k).key_id[-8:]
                alike = lambda x: pool.primary(  # noqa: E731
                    x).key_id.endswith(short)
                for u, term in ((None, short), ('alice', short[-4:]),
                                ('bob', short.lower())):
                    found(alike, u, key_id=term)
            every = lambda x: True  # noqa: E731
            for u in ('alice', 'Bob <bob@example.org>', 'example.org', 'X@Y',
                      'nobody', 'old)'):
                found(every, u)
            same(self.db.search(), [], 'search for nothing')
            same(self.db.search(fingerprint='0' * 40), [], 'unknown')
            same(self.db.search(key_id='0' * 16), [], 'unknown')

        def close(self):
            self.db = None
            shutil.rmtree(self.dir, ignore_errors=True)

    def build_db(hist, config):
        w = World(config)
        try:
            for event in hist:
                w.operate(event)
            w.check()
            return repr(sorted((x, sorted(m.items()))
                               for x, m in w.maps.items()))
        finally:
            w.close()

    db_events = [(op, k, v, s) for op, v in (
        ('add', 0), ('update', 1), ('delete', 0)) for k in 'abc'
        for s in (False, True)]
    configs = ['', 'p', 's', 'ps', 'sp', 'pq', '!pq', 'qgs', '!gsq', 'st',
               'Rp', 'pR', 'Tts', '!sTt', 'gt', '!tgp']
    for config in configs:
        big = len(config.strip('!')) > 2
        ck.bfs('database-' + (config or 'none'), [], lambda h: db_events,
               lambda h: build_db(h, config), canon, ok,
               3 if ck.thorough else 1 if big else 2)

    # -- searching -----------------------------------------------------------

    UIDS = [b'', b'a', b'Ab', b'ba', '\u00e9a'.encode('utf8'), b'a b <a@b>',
            b'bbbbbbbbb', b'Xy ' * 40 + b'<End@B>']
    terms = sorted(set(
        [''.join(t) for n in range(1, 4 if ck.thorough else 3)
         for t in itertools.product('abAB\u00e9 @', repeat=n)]
        + ['Xy ' * n + 'x' for n in (5, 21, 22, 39, 40)]
        + [t for n in (1, 20, 39) for t in
           ('XY ' * n, 'xy ' * n + '<END', 'Y ' + 'xY ' * n + '<end@b>')]
        + [u.decode('utf8')[i:j] + more for u in UIDS if len(u) < 20
           for i in range(len(u.decode('utf8')))
           for j in range(i + 1, len(u.decode('utf8')) + 1)
           for more in ('', 'a', '\u00c9')]))

    def search_case(case):
        many, few = case
        d = os.path.join(base, 'q%d-%d' % (os.getpid(), next(counter)))
        os.mkdir(d)
        path = os.path.join(d, 'ring')
        with open(path, 'wb') as fh:
            for key, uids in ((pool.a, many), (pool.b, few)):
                fh.write(rfc.old_packet(6, key.public_body))
                for u in uids:
                    fh.write(rfc.old_packet(13, u))
        db = gpg.GPGDatabase()
        db.add_resource(path)
        prints = [pool.a.fingerprint, pool.b.fingerprint]

        def found(**kw):
            return [k.fingerprint for k in db.search(**kw)]
        texts = [[u.decode('utf8').lower() for u in uids]
                 for uids in (many, few)]
        hits = 0
        for term in terms:
            want = [p for p, uids in zip(prints, texts)
                    if any(term.lower() in u for u in uids)]
            same(found(user_id=term), want, 'search for %r' % term)
            hits += len(want)
        # (how a user ID that is looked for is combined with a key)
        for term in terms[::7]:
            for key, p, uids in zip((pool.a, pool.b), prints, texts):
                want = [p] if any(term.lower() in u for u in uids) else []
                same(found(fingerprint=p, user_id=term), want, 'both')
                same(found(key_id=key.key_id, user_id=term), want, 'both')
        shutil.rmtree(d)
        return hits
    lists = [()] + [(u,) for u in UIDS] + list(
        itertools.product(UIDS, repeat=2))
    ck.each('searches', [(many, few) for many in lists
                         for few in ([(), (b'ab',), (b'z', b'Ab')]
                                     if ck.thorough else [(b'z', b'Ab')])],
            search_case, workers=8)

    # -- opening -----------------------------------------------------------

    def open_case(case):
        exists, force, prefix, relative, link, called = case
        d = os.path.join(base, 'o%d' % next(counter))
        os.mkdir(d)
        path = os.path.join(d, called)
        real = path
        data = initial('gnupg', False)
        if exists:
            if link:
                real = os.path.join(d, 'real')
                os.symlink(real, path)
            with open(real, 'wb') as fh:
                fh.write(data)
        name = path
        cwd = os.getcwd()
        try:
            if relative:
                os.chdir(d)
                name = called
            if prefix:
                name = 'gnupg-keyring:' + name
            if not exists and not force:
                raises(lambda: gpg.get_resource(name), RuntimeError)
                expect(not os.path.exists(path), 'created')
                return 'refused'
            ring = gpg.get_resource(name, force=force)
            same(type(ring).__name__, 'Keyring', 'resource')
            if relative:
                os.chdir(cwd)
            same(len(list(ring.keys())), 3 if exists else 0, 'keys')
            if not exists:
                same(stat.S_IMODE(os.stat(path).st_mode), 0o600, 'mode')
                same(os.path.getsize(path), 0, 'size')
            else:
                ring.delete_transferrable_key(pool.key('a', 0, False, True))
                same(os.path.islink(path), bool(link), 'link')
                with open(real, 'rb') as fh:
                    same(len(blocks(fh.read())), 2, 'keys left')
            ring2 = gpg.get_resource(path)
            same(len(list(ring2.keys())), 2 if exists else 0, 'keys')
            return repr(case)
        finally:
            os.chdir(cwd)
    ck.each('open', [
        c + (called,) for c in itertools.product([0, 1], repeat=5)
        if c[0] or not c[4]
        for called in ('some ring', 'a:b', 'r.kbx', '-', 'gnupg-keyring.gpg',
                       'Gnupg-keyring:x', '\u00e9.lock')], open_case)

    def first_case(case):
        """Whatever the first octets of a keyring are."""
        header, name, version, created, prefix = case
        key = R.Key(name, version=version, created=created)
        body = key.public_body
        raw = {'old': lambda: rfc.old_packet(6, body),
               'old4': lambda: b'\x9a' + len(body).to_bytes(4, 'big') + body,
               'old2': lambda: b'\x99' + len(body).to_bytes(2, 'big') + body,
               'new': lambda: rfc.new_packet(6, body),
               'new5': lambda: b'\xc6\xff' + len(body).to_bytes(4, 'big')
               + body}[header]() + rfc.old_packet(13, b'u')
        path = os.path.join(base, 'f%d-%d' % (os.getpid(), next(counter)))
        with open(path, 'wb') as fh:
            fh.write(raw)
        ring = gpg.get_resource('gnupg-keyring:' * prefix + path)
        same(list(ring.keys()), [key.fingerprint], 'keys')
        same(ring.get_transferrable_key(key.fingerprint).key_id, key.key_id,
             'key')
        os.unlink(path)
        return repr(case)
    times = [int.from_bytes(bytes(t), 'big')
             for t in itertools.product([0, 1, 0x4b, 0x66], repeat=4)
             if sum(b == 1 for b in t) or ck.thorough]
    ck.each('first-octets', [c for c in itertools.product(
        ['old', 'old2', 'old4', 'new', 'new5'],
        ['rsa_s1', 'dsa_small'],
        [3, 4], times, [0, 1]) if c[1] != 'dsa_small' or c[2] == 4],
        first_case, workers=8)

    def default_case(case):
        """The keyrings of the user, in a home of their own."""
        force, read_only, there, shortcut = case
        home = os.path.join(base, 'h%d' % next(counter))
        gnupg = os.path.join(home, '.gnupg')
        os.makedirs(gnupg)
        names = ('pubring.gpg', 'secring.gpg')
        for n in names:
            if there:
                with open(os.path.join(gnupg, n), 'wb') as fh:
                    fh.write(initial('one', n == 'secring.gpg'))
        for n, secret in (('pub', False), ('sec', True)):
            with open(os.path.join(home, n), 'wb') as fh:
                fh.write(pool.octets('a', 1, secret, False))
        out = subprocess.run(
            [sys.executable, '-W', 'ignore', '-c', DEFAULTS,
             os.path.dirname(os.path.dirname(gpg.__file__)) + '/..',
             home, repr((force, read_only)) if not shortcut else 'None'],
            env=dict(os.environ, HOME=home, LD_PRELOAD=''),
            stdout=subprocess.PIPE, universal_newlines=True, timeout=100,
            check=True).stdout
        opened, results, keys, found = ast.literal_eval(out)
        same(opened, bool(there or force and not shortcut), 'opened')
        if not opened:
            expect(not any(os.path.exists(os.path.join(gnupg, n))
                           for n in names), 'created')
            return repr(case)
        changes = not read_only
        same(results, ['done' if changes else 'TypeError'] * 2, 'changes')
        a, b = pool.fingerprint('a'), pool.fingerprint('b')
        same(sorted(keys), sorted(2 * (there * [b] + changes * [a])), 'keys')
        same(found, 2 * changes, 'found')
        for n in names:
            with open(os.path.join(gnupg, n), 'rb') as fh:
                ring = fh.read()
            want = [('b', 0)] * there + [('a', 1)] * changes
            same([pool.identify(x) for x in blocks(ring)], want, n)
            kinds = {t for t, _ in rfc.split_packets(ring)}
            expect(not kinds & ({5, 7} if n == names[0] else {6, 14}),
                   'kind of keys in ', n)
        return repr(case)
    ck.each('defaults', [(f, r, t, 0) for f in (0, 1) for r in (0, 1)
                         for t in (0, 1)] + [(0, 0, t, 1) for t in (0, 1)],
            default_case)

    def read_only_case(case):
        op, secret, present = case
        d = os.path.join(base, 'o%d' % next(counter))
        os.mkdir(d)
        path = os.path.join(d, 'ring')
        data = initial('new', secret)
        with open(path, 'wb') as fh:
            fh.write(data)
        ring = gpg.get_resource(path, secret=secret, read_only=True)
        key = pool.key('c' if present else 'b', 1, secret, True)
        raises(lambda: getattr(ring, op + '_transferrable_key')(key),
               TypeError)
        with open(path, 'rb') as fh:
            same(fh.read(), data, 'read-only keyring')
        same(len(list(ring.keys())), 2, 'keys')
        return repr(case)
    ck.each('read-only', itertools.product(
        ['add', 'update', 'delete'], [False, True], [False, True]),
        read_only_case)

    def keybox(case):
        d = os.path.join(base, 'o%d' % next(counter))
        os.mkdir(d)
        path = os.path.join(d, 'pubring.kbx')
        data = b'\0\0\0\x20\1\1\0\2KBXf' + bytes(20)
        with open(path, 'wb') as fh:
            fh.write(data)
        for name in (path, 'gnupg-kbx:' + path):
            raises(lambda: gpg.get_resource(name, force=True), ValueError)
        with open(path, 'rb') as fh:
            same(fh.read(), data, 'keybox')
        return 'refused'
    ck.each('keybox', [0], keybox)
