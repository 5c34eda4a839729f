"""C14: transferable keys are read and written as the keys they are."""

import gc
import itertools
import os

from mc import util
from mc.core import expect, same, raises, Mismatch
from mc.ref import keys as R
from mc.ref import rfc
from mc.zones import ZONES, changes, in_zone

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of the transferable-key grammar as '
             'an automaton (states: automaton state and depth, transitions: '
             'packets), every word up to the depth replayed on the real '
             'parser; exhaustive enumeration of key numbers, validity '
             'periods and instants around clock changes against an '
             'independent model')
RULE = ('All packet words over a 15-letter alphabet up to the depth bound '
        '(dead prefixes extended by one packet), all key kinds, sizes and '
        'header forms, all v3 validity periods of the domain, every half '
        'hour around the clock changes of several time zones.')
ASSUMPTIONS = ['Local-trust packets are not kept (RFC 4880 5.10).',
               'User attributes are written after user IDs.']

TIME = 1000000100

# letters of packet words
#  K primary, k another primary, S subkey, s subkey of the other secrecy,
#  U user ID, A user attribute, T trust, signatures: D direct 0x1f, R key
#  revocation 0x20, C certification 0x13, G 0x10, V certification revocation,
#  B binding 0x18, X subkey revocation, Z document 0x00, L literal data
LETTERS = 'KkSsUATDRCVBXZL'


def step(state, letter):
    """The automaton of RFC 4880 11.1 -> state, or None (refused).

    States: start, key, user, sub-unbound, sub-bound."""
    if state == 'start':
        return 'key' if letter == 'K' else None
    if letter == 'T':
        return state
    if letter in 'DR':
        return state if state == 'key' else None
    if letter in 'UA':
        return 'user' if state in ('key', 'user') else None
    if letter in 'CV':
        return state if state == 'user' else None
    if letter == 'S':
        return None if state == 'sub-unbound' else 'sub-unbound'
    if letter == 'B':
        return 'sub-bound' if state.startswith('sub') else None
    if letter == 'X':
        return state if state.startswith('sub') else None
    return None


def verdict(word):
    state = 'start'
    for letter in word:
        state = step(state, letter)
        if state is None:
            return False
    return state in ('key', 'user', 'sub-bound')


def run(ck):
    import datetime
    import pgp
    from pgp import shortcuts
    from pgp.packets import constants as C
    from pgp.transferrable_keys import (TransferablePublicKey, UserAttribute,
                                        UserAttributeContentItem,
                                        TransferableSecretKey)

    prim = R.Key('rsa_s1', created=1000000000)
    prim3 = R.Key('rsa_s1', version=3, created=1000000000)
    sub_a = R.Key('dsa_small', created=1000000001)
    image = b'\x10\x00\x01\x01' + bytes(12) + b'\xff\xd8image'
    attr = bytes([len(image) + 1, 1]) + image

    # -- the grammar -----------------------------------------------------------

    def body_of(letter, n, secret, primary):
        def sig(kind, data):
            return 2, R.signature_body(primary, kind, 2, data, TIME + n)
        if letter == 'K':
            return (5, primary.secret_body()) if secret \
                else (6, primary.public_body)
        if letter == 'k':
            other = R.Key('rsa_s2')
            return (5, other.secret_body()) if secret \
                else (6, other.public_body)
        if letter in 'Ss':
            key = R.Key('dsa_small', created=1000000001 + n)
            if secret == (letter == 'S'):
                return 7, key.secret_body()
            return 14, key.public_body
        if letter == 'U':
            return 13, b'user %d' % n
        if letter == 'A':
            return 17, bytes([len(image) + 3, 1]) + image + b'%02d' % n
        if letter == 'T':
            return 12, b'\x00' + bytes([n])
        if letter == 'L':
            return 11, R.literal_body(b'b', b'', TIME, b'x')
        return sig({'D': 0x1f, 'R': 0x20, 'C': 0x13, 'V': 0x30, 'B': 0x18,
                    'X': 0x28, 'Z': 0}[letter], b'%d' % n)

    cache = {}

    def packet_octets(letter, n, secret, primary):
        ident = letter, n, secret, primary.version
        if ident not in cache:
            tag, body = body_of(letter, n, secret, primary)
            raw = rfc.packet(tag > 15, tag, body)
            pkt, = util.parse(raw)
            cache[ident] = raw, pkt
        return cache[ident]

    def structure(word):
        """[(letter, position, [(letter, position)])] as written."""
        items = []
        for i, letter in enumerate(word):
            if letter in 'KUAS':
                items.append((letter, i, []))
            elif letter != 'T':
                items[-1][2].append((letter, i))
        order = {'K': 0, 'U': 1, 'A': 2, 'S': 3}
        return sorted(items, key=lambda it: order[it[0]])

    def word_case(case):
        word, secret, version = case
        primary = prim if version == 4 else prim3
        pairs = [packet_octets(c, i, secret, primary)
                 for i, c in enumerate(word)]
        cls = TransferableSecretKey if secret else TransferablePublicKey
        want = verdict(word)
        if version == 3 and 'S' in word:
            want = False
        if not want:
            raises(lambda: cls.from_packets([p for _, p in pairs]))
            return 'refused'
        key = cls.from_packets([p for _, p in pairs])
        items = structure(word)
        raw = b''
        got = [('K', key)] + [('U', u) for u in key.user_ids] \
            + [('A', a) for a in key.user_attributes] \
            + [('S', s) for s in key.subkeys]
        same([t for t, _ in got], [t for t, _, _ in items], 'parts')
        for (t, obj), (_, i, sigs) in zip(got, items):
            raw += pairs[i][0]
            same(bytes(obj.to_packet()), pairs[i][0], 'part %s' % t)
            same([bytes(s.to_packet()) for s in obj.signatures],
                 [pairs[j][0] for _, j in sigs], 'signatures of %s' % t)
            for s, (letter, j) in zip(obj.signatures, sigs):
                raw += pairs[j][0]
                expect(s.parent is obj, 'parent of a signature')
                same(s.revocation, letter in 'RVX', 'revocation')
            if t == 'U':
                same(obj.user_id, 'user %d' % i, 'user ID')
        same(util.octets(key), raw, 'written')
        return len(items)

    def words(depth, alphabet, top):
        """Viable words, and each of their extensions by one letter."""
        frontier = [('', 'start')]
        states, transitions = {('start', 0)}, 0
        while frontier:
            nxt = []
            for word, state in frontier:
                for letter in alphabet:
                    if letter == 'k' and not word:
                        continue
                    transitions += 1
                    new = step(state, letter)
                    yield word + letter
                    if new is not None and len(word) + 1 < depth:
                        states.add((new, len(word) + 1))
                        nxt.append((word + letter, new))
                # dead words are also tried once more below
            frontier = nxt
        ck.states += len(states)
        ck.transitions += transitions
        ck.traces += transitions
    ck.each('grammar', ((w, secret, 4) for secret in (False, True)
                        for w in words(8 if ck.thorough else 7, LETTERS, 0)),
            word_case)
    ck.each('grammar_v3', ((w, secret, 3) for secret in (False, True)
                           for w in words(4, LETTERS, 0)),
            word_case)
    # (every word, viable or not)
    ck.each('words', (('K' + ''.join(w), False, 4)
                      for n in range(4 if ck.thorough else 3)
                      for w in itertools.product(LETTERS, repeat=n + 1)),
            word_case)

    # -- identity ---------------------------------------------------------------

    grips = {}, {}

    def keygrip(obj, now):
        """One value for the same key material, whatever packet it is in,
        and another for other material (an RSA exponent may not count)."""
        mine = tuple(sorted((n, v) for n, v in now.num.items()
                            if n in ('n', 'e', 'p', 'q', 'g', 'y')
                            and (now.kind, n) not in (('rsa', 'p'),
                                                      ('rsa', 'q'))))
        grip = obj.keygrip
        expect(len(bytes.fromhex(grip)) == 20, 'keygrip', grip)
        same(grips[0].setdefault((now.kind, mine), grip), grip, 'keygrip')
        main = mine if now.kind != 'rsa' else dict(mine)['n']
        same(grips[1].setdefault(grip, (now.kind, main)), (now.kind, main),
             'material of the keygrip')

    ZONE = 'UTC'

    def secrets_of(key):
        return {int(v) for n, v in key.num.items() if n in (
            ('d', 'p', 'q', 'u') if key.kind == 'rsa' else ('x',))}

    def identity(case):
        name, version, created, days, alg, secret, new = case
        key = R.Key(name, version=version, created=created, days=days,
                    alg=alg)
        body = key.secret_body() if secret else key.public_body
        raw = rfc.packet(new, 5 if secret else 6, body) \
            + rfc.packet(new, 13, b'u')
        k = util.read_key(raw)

        def same_key(k, fresh_raw):
            same(k.fingerprint, key.fingerprint, 'fingerprint')
            same(k.key_id, key.key_id, 'key ID')
            keygrip(k, key)
            num = key.num
            same(k.bit_length,
                 num['n' if key.kind == 'rsa' else 'p'].bit_length(),
                 'bit length')
            same((k.version, k.public_key_algorithm), (version, key.alg),
                 'version and algorithm')
            want = {'modulus_n': 'n', 'exponent_e': 'e'} \
                if key.kind == 'rsa' else {
                    'prime_p': 'p', 'group_generator_g': 'g',
                    'key_value_y': 'y'}
            if key.kind == 'dsa':
                want['group_order_q'] = 'q'
            for attr_, n in want.items():
                same(int(getattr(k, attr_)), num[n], attr_)
            same(k.creation_time, datetime.datetime.fromtimestamp(created),
                 'creation time')
            same(int(k.creation_time.timestamp()), created,
                 'creation instant')
            if version < 4 and days:
                same(int(k.expiration_time.timestamp()),
                     created + days * 86400, 'expiration instant')
            else:
                expect(k.expiration_time is None, 'expires',
                       k.expiration_time)
            same(util.octets(k), fresh_raw, 'written')
        same_key(k, raw)
        if secret:
            pub = k.to_public_key()
            pub_raw = rfc.packet(new, 6, key.public_body) \
                + rfc.packet(new, 13, b'u')
            same_key(pub, pub_raw)
            k.unlock('')
            same_key(k, raw)
            pub = k.to_public_key()
            same_key(pub, pub_raw)
            for name_, v in sorted(vars(pub).items()):
                if isinstance(v, int):
                    expect(v not in secrets_of(key), 'public copy has',
                           name_)
            for name_ in ('exponent_d', 'prime_p', 'prime_q',
                          'multiplicative_inverse_u', 'exponent_x'):
                v = getattr(pub, name_, None)
                expect(v is None or int(v) not in secrets_of(key),
                       'public copy tells', name_)
            expect(not isinstance(k.to_public_key(), TransferableSecretKey),
                   'public copy is a secret key')
        return version, key.alg, secret

    names = sorted(R.NUM) + sorted(R.BIG)
    ck.each('identity', itertools.chain(
        # (version 3 keys are RSA keys)
        ((n, v, 1000000000, 0, a, s, h) for n in names
         for v in ((3, 4) if n.startswith('rsa') else (4,))
         for a in ((1, 2, 3) if n.startswith('rsa') else (None,))
         for s in (False, True) for h in (False, True)),
        (('rsa_s1', 3, t, d, None, s, False)
         for t in (0, 1, 86399, 86400, 946684800, 1000000000, 2 ** 31 - 1,
                   2 ** 31, 2 ** 32 - 1)
         for d in (0, 1, 2, 30, 365, 366, 3650, 32768, 65535)
         for s in (False, True)),
        (('dsa_small', 4, t, 0, None, s, False)
         for t in (0, 1, 255, 256, 65535, 65536, 946684799, 2 ** 31 - 1,
                   2 ** 31, 2 ** 32 - 1) for s in (False, True))),
        identity)

    # numbers of every length, with and without leading zeroes in the octets
    # that the version 3 key ID is made of
    def sizes(case):
        kind, octets, version, low = case
        big = (1 << (8 * octets - octets % 8 - 1)) | low
        num = {'rsa': dict(kind='rsa', n=big, e=[3, 65537, 1 << 256 | 1][
                   octets % 3]),
               'dsa': dict(kind='dsa', p=big, q=low or 5, g=7, y=big >> 3),
               'elg': dict(kind='elg', p=big, g=5, y=big - 1)}[kind]
        R.NUM['made up'] = num
        return identity(('made up', version, 1000000000, 0, None, False,
                         True))
    top = 8190 if ck.thorough else 2100
    ck.each('sizes', itertools.chain(
        (('rsa', n, v, low) for n in range(9, top) for v in (3, 4)
         for low in ((0, 0x0123456789abcdef) if n % 16 == 0 else
                     (1 << (n % 61),))),
        ((k, n, 4, 0xabcdef) for n in range(12, top, 5)
         for k in ('dsa', 'elg'))), sizes)
    R.NUM.pop('made up', None)

    # -- identity after changes -----------------------------------------------------

    def changed(case):
        """The numbers and the time of a key are assigned, one after the
        other, and its identity follows, and comes back with them."""
        name, version, where, ops = case
        first = R.Key(name, version=version)
        outer = R.Key('rsa_b')
        if where == 'subkey':
            k = util.public(outer, subkeys=[first])
            obj = k.subkeys[0]
        elif where == 'secret subkey':
            k = util.read_key(R.certificate(outer, subkeys=[first],
                                             secret=True))
            k.unlock('')
            obj = k.subkeys[0]
        elif where == 'secret':
            obj = k = util.read_key(R.certificate(first, secret=True))
            k.unlock('')
        else:
            obj = k = util.public(first)
        now = R.Key(name, version=version)
        now.num = dict(first.num)
        attrs = {'rsa': [('modulus_n', 'n'), ('exponent_e', 'e')],
                 'dsa': [('prime_p', 'p'), ('group_order_q', 'q'),
                         ('group_generator_g', 'g'), ('key_value_y', 'y')],
                 'elg': [('prime_p', 'p'), ('group_generator_g', 'g'),
                         ('key_value_y', 'y')]}[first.kind]

        def check():
            same(obj.fingerprint, now.fingerprint, 'fingerprint')
            same(obj.key_id, now.key_id, 'key ID')
            same(obj.bit_length, now.num[
                'n' if now.kind == 'rsa' else 'p'].bit_length(),
                'bit length')
            keygrip(obj, now)
            expect(now.key_id in repr(obj), 'shown as', repr(obj))
            same(bytes(obj.to_packet().content)[:len(now.public_body)].hex(),
                 now.public_body.hex(), 'octets')
            if where.startswith('secret'):
                pub = k.to_public_key()
                if obj is not k:
                    pub = pub.subkeys[0]
                same(pub.fingerprint, now.fingerprint, 'of the copy')
                keygrip(pub, now)
                same(bytes(pub.to_packet().content).hex(),
                     now.public_body.hex(), 'octets of the copy')
            if where.endswith('subkey'):
                same(k.fingerprint, outer.fingerprint, 'of the primary')
        check()
        for op in ops:
            if op == 'time':
                now.created = 1234567890
            elif op == 'time-back':
                now.created = first.created
            elif op.endswith('-back'):
                attr, n = attrs[int(op[0])]
                now.num[n] = first.num[n]
                setattr(obj, attr, now.num[n])
            else:
                attr, n = attrs[int(op[0])]
                now.num[n] = first.num[n] // 5 | 1
                setattr(obj, attr, now.num[n])
            if op.startswith('time'):
                obj.creation_time = datetime.datetime.fromtimestamp(
                    now.created)
            check()
        return len(ops)

    def changed_cases():
        for name, version in (('rsa_a', 4), ('rsa_a', 3), ('dsa_a', 4),
                              ('elg_a', 4)):
            count = {'rsa': 2, 'dsa': 4, 'elg': 3}[R.NUM[name]['kind']]
            ops = ['time', 'time-back']
            for i in range(count):
                ops += ['%d' % i, '%d-back' % i]
            for where in ('public', 'secret', 'subkey', 'secret subkey'):
                if name == 'elg_a' and 'subkey' not in where:
                    continue
                for n in range(1, 3 + ck.thorough):
                    for w in itertools.product(ops, repeat=n):
                        yield name, version, where, w
    ck.each('changed', changed_cases(), changed)

    # -- local clocks --------------------------------------------------------------

    def clock(case):
        zone, t, name, version, days = case
        return in_zone(zone, lambda: identity(
            (name, version, t, days, None, True, False)))

    def clock_cases():
        for zone in ZONES:
            spots = changes(zone) or [1380000000]
            for spot in spots:
                for k in range(-6, 7):
                    t = spot + k * 1800
                    yield zone, t, 'dsa_small', 4, 0
                    for days in (0, 1, 100, 365):
                        yield zone, t, 'rsa_s1', 3, days
                        # expires about the change
                        if days:
                            yield zone, t - days * 86400, 'rsa_s1', 3, days
    ck.each('clocks', clock_cases(), clock)

    # -- round trips of whole certificates ---------------------------------------------

    def certificate(secret, protect, nuids, nattrs, nsubs, new):
        out = rfc.packet(new, 5 if secret else 6,
                         prim.secret_body(protect) if secret
                         else prim.public_body)
        out += rfc.packet(new, 2, R.signature_body(prim, 0x1f, 2,
                                                   prim.hashed))
        for i in range(nuids):
            uid = 'N\u00e4me %d <x@y>'.encode('utf8') % i
            out += rfc.packet(new, 13, uid)
            for kind in (0x13, 0x10):
                out += rfc.packet(new, 2, R.signature_body(
                    prim, kind, 2, R.on_user_id(prim, uid), TIME + i))
        for i in range(nattrs):
            content = image + b'%d' % i
            a = bytes([len(content) + 1, 1]) + content
            if i == 1:
                a += b'\x04\x64abc'
            out += rfc.packet(True, 17, a)
            out += rfc.packet(new, 2, R.signature_body(
                prim, 0x13, 2, R.on_attribute(prim, a)))
        for i in range(nsubs):
            k = R.Key(('dsa_small', 'elg_a', 'rsa_s2')[i],
                      created=1000000005 + i)
            out += rfc.packet(new, 7 if secret else 14,
                              k.secret_body(protect) if secret
                              else k.public_body)
            out += rfc.packet(new, 2, R.signature_body(
                prim, 0x18, 2, prim.hashed + k.hashed))
        return out

    LOCKS = {
        'plain': None,
        'locked': {'usage': 254, 'alg': 9, 'passphrase': b'pw',
                   'iv': bytes(range(16)), 's2k': (3, 8, b'saltsalt', 0)},
        'stub': {'usage': 'gnu', 'mode': 1},
    }

    def owned(key):
        # every part is one of this key, and all its signatures verify
        parts = [key] + key.user_ids + key.user_attributes + key.subkeys
        for part in parts:
            expect(part is key or part.primary_public_key is key,
                   'part of another key', part)
            expect(part.signatures or part is key, 'no signatures')
            for s in part.signatures:
                expect(s.parent is part, 'signature of something else')
                expect(key.verify(s, part) is True, 'verification')
            expect(not part.revoked, 'revoked')
            same([s.creation_time for s in part.self_signatures],
                 [s.creation_time for s in part.signatures],
                 'self-signatures')
        for a in key.user_attributes:
            same(a.content_items[0].mime_type, 'image/jpeg', 'image')

    def whole(case):
        secret, lock, shape, new = case
        raw = certificate(secret, LOCKS.get(lock), *shape, new=new)
        other = certificate(secret, LOCKS.get(lock), *shape, new=not new)
        pub_raw = certificate(False, None, *shape, new=new)
        key = util.read_key(raw)
        same(util.octets(key), raw, 'written')
        same(b''.join(bytes(p) for p in key.to_packets(
            C.NEW_PACKET_HEADER_TYPE)), raw if new else other,
            'written with new headers')
        same(b''.join(bytes(p) for p in key.to_packets(
            C.OLD_PACKET_HEADER_TYPE)), other if new else raw,
            'written with old headers')
        old_raw = other if new else raw
        same(shortcuts.serialize_key(key), old_raw, 'serialized')
        text = shortcuts.serialize_key(key, armored=True)
        label = 'PGP %s KEY BLOCK' % ('PRIVATE' if secret else 'PUBLIC')
        lines = text.splitlines()
        same(lines[0], '-----BEGIN %s-----' % label, 'label')
        same(lines[-1], '-----END %s-----' % label, 'label')
        for source in (text, text.encode('ascii')):
            back = pgp.read_key(source, armored=True)
            same(util.octets(back), old_raw, 'armored and read back')
            expect(type(back) is type(key), 'kind')
            back = pgp.read_key(source)
            same(util.octets(back), old_raw, 'armored and read back')
        owned(key)
        copies = []
        if secret:
            for state in ('locked', 'unlocked', 'locked'):
                if state == 'unlocked' and lock != 'stub':
                    key.unlock('pw')
                elif state == 'locked':
                    key.lock()
                pub = key.to_public_key()
                same(util.octets(pub), pub_raw, 'public copy while ' + state)
                same(len(pub.subkeys), shape[2], 'subkeys')
                text = shortcuts.serialize_key(pub, armored=True)
                expect('PRIVATE' not in text, 'label of the public copy')
                owned(pub)
                copies.append(pub)
                same(util.octets(key), raw, 'written while ' + state)
        if copies and new:
            # without the secret key
            del key, back
            gc.collect()
            gc.collect()
            for pub in copies:
                same(util.octets(pub), pub_raw, 'public copy alone')
                owned(pub)
        return case[0], lock, shape
    ck.each('certificates', [
        (secret, lock, shape, new) for secret in (False, True)
        for lock in (('plain', 'locked', 'stub') if secret else ('plain',))
        for shape in itertools.product(range(3), range(3), range(4))
        for new in (False, True)], whole)

    # -- files ----------------------------------------------------------------------

    def files(case):
        import shutil
        import tempfile
        secret, armored, hint = case
        raw = certificate(secret, None, 1, 0, 1, False)
        key = util.read_key(raw)
        where = tempfile.mkdtemp()
        try:
            path = os.path.join(where, 'key')
            with open(path, 'wb') as fh:
                fh.write(b'x' * 10000)
            shortcuts.write_key_file(key, path, armored)
            with open(path, 'rb') as fh:
                data = fh.read()
            if not armored:
                same(data, raw, 'file')
            else:
                expect(data.startswith(b'-----BEGIN PGP '), 'armor')
            back = shortcuts.read_key_file(path, armored if hint else False)
            same(util.octets(back), raw, 'read from the file')
            return armored, hint
        finally:
            shutil.rmtree(where)
    ck.each('files', itertools.product((False, True), repeat=3), files)

    # -- user attributes --------------------------------------------------------------

    def attributes(case):
        subs = b''
        want = []
        for kind, size, salt in case:
            content = util.pattern(size, salt)
            if kind == 'jpeg':
                kind, content = 1, image + content
            elif kind == 'other':
                kind, content = 1, image[:3] + b'\x64' + image[4:] + content
            elif kind == 'gif':
                kind, content = 1, image[:3] + b'\x65' + bytes(12) \
                    + b'GIF89a' + content
            subs += rfc.new_length(len(content) + 1) + bytes([kind]) \
                + content
            want.append((kind, content))
        raw = rfc.packet(False, 6, prim.public_body) \
            + rfc.packet(True, 17, subs) \
            + rfc.packet(False, 2, R.signature_body(
                prim, 0x13, 2, R.on_attribute(prim, subs)))
        key = util.read_key(raw)
        same(util.octets(key), raw, 'written')
        a, = key.user_attributes
        same(len(a.content_items), len(case), 'items')
        for item, (kind, content) in zip(a.content_items, want):
            if kind == 1:
                same(bytes(item.data), content[16:], 'image')
                expect(item.mime_type, 'no type')
            else:
                same(bytes(item.data), content, 'content')
                expect(item.mime_type is None, 'type', item.mime_type)
        expect(key.verify(a.signatures[0], a) is True, 'signature')
        return tuple(k for k, _, _ in case)
    atoms = [('jpeg', 0, 0), ('jpeg', 170, 1), ('jpeg', 175, 1),
             ('jpeg', 8500, 2), ('other', 5, 3), ('gif', 20, 4), (2, 0, 0),
             (2, 190, 5), (2, 191, 5), (100, 8400, 6), (127, 3, 7),
             (255, 1, 8)]
    ck.each('attributes', (c for n in (1, 2) for c in itertools.product(
        atoms, repeat=n)), attributes)

    # -- attributes made by the user ----------------------------------------------

    def own_attributes(case):
        data = [(kind, util.pattern(size, salt)) for kind, size, salt in case]
        owner = R.Key('rsa_a', created=1000000003)
        key = util.public(owner)
        sec = util.read_key(R.certificate(owner, secret=True))
        sec.unlock('')
        want = b''
        for kind, d in data:
            n = len(d) + 17
            want += rfc.new_length(n) + b'\1' + b'\x10\0\1\1' \
                + bytes(12) + d
        for k in (key, sec):
            a = UserAttribute(k, [UserAttributeContentItem(kind, d)
                                  for kind, d in data])
            same(bytes(a.to_packet().content), want, 'content')
            same(bytes(a.to_packet()), rfc.packet(True, 17, want), 'packet')
            k.user_attributes.append(a)
        sig = sec.sign(sec.user_attributes[0], 4, 0x13, 8)
        expect(R.verify_body(owner, bytes(sig.to_packet().content),
                             R.on_attribute(owner, want, 4)), 'signature')
        expect(key.verify(sig, key.user_attributes[0]) is True, 'verified')
        key.user_attributes[0].signatures.append(sig)
        again = util.read_key(util.octets(key))
        back, = again.user_attributes
        same([(i.mime_type, bytes(i.data)) for i in back.content_items],
             data, 'read again')
        expect(again.verify(back.signatures[0], back) is True,
               'verified again')
        return len(case)
    ck.each('own_attributes', (
        c for n in (1, 2) for c in itertools.product(
            [('image/jpeg', size, salt)
             for size in (0, 1, 100, 173, 174, 175, 176, 430, 8366, 8367,
                          8368, 66000) for salt in (1,)], repeat=n)),
        own_attributes)
