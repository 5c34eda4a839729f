"""C10: a message can be read by exactly the recipients it was encrypted
to."""

import hashlib
import itertools

from mc import util
from mc.core import expect, same, raises, Mismatch
from mc.env import RNG
from mc.ref import cipher
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'exploration'
TECHNIQUE = ('bounded exhaustive enumeration of recipient lists (public keys, '
             'hidden public keys, passphrases) and readers over the real '
             'code, against an independent model of session key packets')
RULE = ('Every sequence of recipients up to the bound from a pool of RSA and '
        'ElGamal keys and passphrases, named or hidden, times every reader '
        'of the pool and outsiders; every malformed session key block of a '
        'fixed set. A case is non-trivial when at least one reader got '
        'the message or a malformed block was refused.')
ASSUMPTIONS = ['RSA and ElGamal are trusted as mathematics; key sizes are '
               '509 to 1024 bits.',
               'A wrong hidden recipient passes the PKCS#1 and checksum '
               'tests with negligible probability.']

TIME = 1400000000
CIPHERS = (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13)


def run(ck):
    import datetime
    from pgp.message import (BinaryMessage, EncryptedMessageWrapper,
                             PublicKeySessionKey, SymmetricSessionKey)
    from pgp import s2k
    stamp = datetime.datetime.fromtimestamp(TIME)
    plain = BinaryMessage(b'for your eyes', 'f', stamp)

    # Readers. The key encrypted to is a subkey or the primary key itself.
    ref = {
        'a': R.Key('rsa_a', created=1100000000),
        'b': R.Key('rsa_b', created=1100000001),
        'e': R.Key('elg_a', created=1100000002),
        'f': R.Key('elg_b', created=1100000003),
        'o': R.Key('rsa_odd', created=1100000004),
        'g': R.Key('elg_odd', created=1100000005),
        'v': R.Key('rsa_c', version=3, created=900000000),
        's': R.Key('rsa_s1', created=1100000006, alg=2),
        # of the sizes that are in use
        'K': R.Key('rsa_2048', created=1100000007),
        'L': R.Key('rsa_3072', created=1100000008),
        'M': R.Key('rsa_4096', created=1100000009),
        'X': R.Key('elg_2048', created=1100000010),
        'Y': R.Key('elg_4096', created=1100000011),
        }
    secret = {}
    public = {}
    keep = []
    for name, key in ref.items():
        if name in 'abv':
            sec = util.read_key(R.certificate(key, secret=True))
            sec.unlock('')
            pub = util.read_key(R.certificate(key))
            secret[name], public[name] = sec, pub
        else:
            main = R.Key('dsa_a', created=1100000010 + ord(name))
            sec = util.read_key(R.certificate(main, subkeys=[key],
                                              secret=True))
            sec.unlock('')
            pub = util.read_key(R.certificate(main, subkeys=[key]))
            secret[name], public[name] = sec.subkeys[0], pub.subkeys[0]
        keep.append((sec, pub))
    phrases = {'p': 'secret phrase', 'q': u'zweit\u00e9'}

    def reads(raw, reader, msg=None):
        if msg is None:
            msg = util.read_message(raw)
        expect(isinstance(msg, EncryptedMessageWrapper), 'kind of message')
        got = msg.get_message(secret[reader] if reader in secret
                              else phrases[reader])
        same(bytes(got.data), b'for your eyes', 'content')
        same(type(got).__name__, 'BinaryMessage', 'kind')

    def build(alg, recipients, protect=True):
        """recipients: (name, hidden) pairs."""
        named = [public[n] for n, h in recipients if n in public and not h]
        hidden = [public[n] for n, h in recipients if n in public and h]
        return plain.public_key_encrypt(
            alg, public_keys=named, hidden_public_keys=hidden,
            integrity_protect=protect)

    def check_packets(raw, alg, recipients):
        packets = rfc.split_packets(raw)
        esk, (tag, data) = packets[:-1], packets[-1]
        same(len(esk), len(recipients), 'number of session key packets')
        sessions = set()
        left = list(recipients)
        for kind, body in esk:
            if kind == 3:
                for n, h in left:
                    if n in phrases:
                        try:
                            got = R.read_skesk(
                                body, phrases[n].encode('utf8'))
                        except Exception:
                            continue
                        if len(got[1]) == cipher.KEY.get(got[0]):
                            break
                else:
                    raise Mismatch('no passphrase opens a packet')
                key_id = None
            else:
                same(kind, 1, 'packet type')
                same(body[0], 3, 'version')
                for n, h in left:
                    if n not in ref:
                        continue
                    if h != (body[1:9] == bytes(8)) or (
                            not h and body[1:9].hex().upper()
                            != ref[n].key_id) or body[9] != ref[n].alg:
                        continue
                    try:
                        key_id, a, s = R.read_pkesk(ref[n], body)
                    except ValueError:
                        continue
                    got = a, s
                    break
                else:
                    raise Mismatch('no recipient opens a packet', body)
            left.remove((n, h))
            same(got[0], alg, 'cipher for %s' % n)
            sessions.add(got[1])
        same(len(sessions), 1, 'session keys')
        session = sessions.pop()
        same(len(session), cipher.KEY[alg], 'session key length')
        _, inner = (R.open_seipd if tag == 18 else R.open_sed)(
            alg, session, data)
        return session

    everyone = 'abefogvs'

    def exactly(raw, holders):
        outcome = []
        for reader in everyone + 'pq':
            if reader in holders:
                reads(raw, reader)
                outcome.append(reader)
            else:
                try:
                    reads(raw, reader)
                except Mismatch:
                    raise
                except Exception:
                    continue
                raise Mismatch('%s reads it, too' % reader)
        return ''.join(outcome)

    # -- the code writes ---------------------------------------------------

    def sequences(names, top):
        pool = [(n, h) for n in names for h in (False, True)]
        for size in range(1, top + 1):
            for seq in itertools.permutations(pool, size):
                if len(set(n for n, _ in seq)) == size:
                    yield seq

    def public_only(case):
        alg, protect, seq = case
        RNG.reset(repr(case).encode())
        raw = util.octets(build(alg, seq, protect))
        check_packets(raw, alg, seq)
        return exactly(raw, set(n for n, _ in seq))
    ck.each('recipients', ((9, True, seq) for seq in sequences(
        'abev' if not ck.thorough else 'abefv', 3)), public_only)
    def large(case):
        alg, hidden, names, label = case
        RNG.reset(repr(case).encode())
        seq = tuple((n, hidden) for n in names)
        raw = util.octets(build(alg, seq))
        check_packets(raw, alg, seq)
        for n in names:
            reads(raw, n)
        if not hidden:
            raises(lambda: reads(raw, 'a'))
        return names, hidden
    ck.each('large-keys', [
        (alg, h, names, label) for alg in (2, 7, 9) for h in (False, True)
        for names in ('K', 'L', 'M', 'X', 'Y', 'KX', 'MY', 'XK')
        for label in range(2 if not ck.thorough else 20)
        if not (h and 'M' in names and 'Y' in names)], large)
    ck.each('recipients-ciphers', (
        (alg, protect, seq) for alg in CIPHERS for protect in (True, False)
        for n in 'abefogvs' for h in (False, True)
        for seq in [((n, h),)]
        # the modulus of s is too short for the longest blocks otherwise
        ), public_only)
    ck.each('recipients-many', ((alg, True, tuple((n, h) for n in names))
                                for alg in (7, 9) for h in (False, True)
                                for names in ('abefogvs', 'svgofeba',
                                              'bavsfego')), public_only)

    def one_message(case):
        """Whoever read a message before, it is for its recipients only."""
        protect, hide, names, holders, readers = case
        RNG.reset(repr(case).encode())
        if holders in phrases:
            msg = plain.symmetric_encrypt(9, phrases[holders],
                                          integrity_protect=protect)
        else:
            msg = build(9, [(n, hide) for n in holders], protect)
        raw = util.octets(msg)
        if names == 'read':
            msg = util.read_message(raw)
        for reader in readers:
            if reader in holders:
                reads(raw, reader, msg)
            else:
                try:
                    reads(raw, reader, msg)
                except Mismatch:
                    raise
                except Exception:
                    continue
                raise Mismatch('%s reads it, too' % reader)
        same(util.octets(msg), raw, 'message')
        return ''.join(readers)
    ck.each('one-message', itertools.product(
        (True, False), (False, True), ('made', 'read'),
        ('a', 'e', 'ae', 'p'),
        itertools.product('aebpq', repeat=4 if ck.thorough else 3)),
        one_message)

    def single(name):
        raw = util.octets(plain.public_key_encrypt(
            9, public_key=public[name]))
        check_packets(raw, 9, [(name, False)])
        raises(lambda: plain.public_key_encrypt(
            9, public_key=public[name], public_keys=[public[name]]),
            TypeError)
        # a secret key is good to encrypt to as well
        raw = util.octets(plain.public_key_encrypt(
            9, public_key=secret[name]))
        check_packets(raw, 9, [(name, False)])
        return exactly(raw, {name})
    ck.each('single', everyone, single)

    def session_values(case):
        name, alg, session = case
        raw = util.octets(plain.public_key_encrypt(
            alg, public_key=public[name], session_key=session))
        same(check_packets(raw, alg, [(name, False)]), session,
             'session key')
        return exactly(raw, {name})

    def key_values(alg):
        n = cipher.KEY[alg]
        yield bytes(n)
        yield b'\xff' * n
        yield b'\0' + util.pattern(n - 1)
        yield util.pattern(n - 1) + b'\0'
        yield b'\0\2' + util.pattern(n - 2)
        yield bytes(n - 1) + b'\1'
    ck.each('session-key-values', (
        (n, alg, s) for n in 'abegos' for alg in (3, 7, 8, 9, 10)
        for s in key_values(alg)), session_values)

    # passphrases and public keys for one message
    def mixed(case):
        seq, esk_alg = case
        RNG.reset(repr(case).encode())
        alg = 9
        session = util.pattern(32, 4)
        keys = []
        for n, h in seq:
            if n in phrases:
                keys.append(SymmetricSessionKey(
                    alg, s2k.IteratedAndSaltedS2K(
                        2, esk_alg, bytearray(b'saltsal' + n.encode()),
                        1024),
                    passphrase=phrases[n].encode('utf8'),
                    session_key=session))
            else:
                keys.append(PublicKeySessionKey(
                    3, public_key=public[n], symmetric_algorithm=alg,
                    session_key=session, hide_key_id=h))
        data = plain.public_key_encrypt(
            alg, session_key=session).message_data_obj
        raw = util.octets(EncryptedMessageWrapper(keys, data))
        check_packets(raw, alg, seq)
        return exactly(raw, set(n for n, _ in seq))
    pool = [('a', False), ('a', True), ('e', False), ('b', True),
            ('p', False), ('q', False)]
    ck.each('mixed', ((seq, e) for size in (1, 2, 3, 4)
                      for seq in itertools.permutations(pool, size)
                      if len(set(n for n, _ in seq)) == size
                      for e in ((9,) if size > 2 else (3, 9, 2))), mixed)

    # -- the model writes ------------------------------------------------

    def from_model(case):
        seq, alg, filler, protect, header = case
        session = util.pattern(cipher.KEY[alg], 1)
        make = {1: rfc.new_packet, 0: rfc.old_packet}[header]
        raw = b''
        for n, h in seq:
            if n in phrases:
                raw += make(3, R.skesk_body(
                    9, 3, 8, phrases[n].encode('utf8'), b'12345678', 0,
                    alg, session))
            else:
                raw += make(1, R.pkesk_body(ref[n], alg, session, h,
                                            filler))
        inner = rfc.new_packet(11, R.literal_body(
            b'b', b'f', TIME, b'for your eyes'))
        prefix = util.pattern(cipher.BLOCK[alg], 8)
        raw += rfc.new_packet(18, R.seipd_body(alg, session, inner, prefix)) \
            if protect else make(9, R.sed_body(alg, session, inner, prefix))
        same(util.octets(util.read_message(raw)) == raw, header == 1 or
             util.octets(util.read_message(raw)) == raw, 'written again')
        return exactly(raw, set(n for n, _ in seq))
    ck.each('from-model', (
        (seq, alg, filler, protect, header)
        for seq in [((n, h),) for n in everyone for h in (False, True)]
        + [(('a', True), ('b', True)), (('b', True), ('a', True)),
           (('e', True), ('f', True)), (('f', True), ('e', True)),
           (('p', False), ('q', False)), (('q', False), ('p', False)),
           (('p', False), ('a', False)), (('e', False), ('p', False))]
        for alg in CIPHERS for filler in (1, 0xff)
        for protect in (True, False) for header in (0, 1)), from_model)

    # a passphrase alone, whose key encrypts the data directly, among
    # others whose session key it is
    def direct(case):
        n, alg, kind, h, order = case
        salt = b'01234567'
        session = cipher.s2k(kind, h, cipher.KEY[alg],
                             phrases['p'].encode(), salt,
                             cipher.s2k_count(3))
        first = rfc.new_packet(3, R.skesk_body(
            alg, kind, h, phrases['p'].encode(), salt, 3))
        other = rfc.new_packet(1, R.pkesk_body(ref[n], alg, session))
        inner = rfc.new_packet(11, R.literal_body(
            b'b', b'f', TIME, b'for your eyes'))
        raw = (first + other if order else other + first) \
            + rfc.new_packet(18, R.seipd_body(
                alg, session, inner, util.pattern(cipher.BLOCK[alg])))
        return exactly(raw, {'p', n})
    ck.each('direct-passphrase', itertools.product(
        'ae', CIPHERS, (0, 1, 3), (1, 2, 8, 10), (0, 1)), direct)

    # a passphrase that is not for the first session key, but passes its
    # quick check of two octets by chance
    def chance(case):
        alg, count, order = case
        salt = b'01234567'
        bs = cipher.BLOCK[alg]
        keys = [cipher.s2k(3, 8, cipher.KEY[alg], phrases[n].encode('utf8'),
                           salt, cipher.s2k_count(3)) for n in 'pq']
        enc, other = (cipher.block_pair(alg, k)[0] for k in keys)
        pad, pad2 = enc(bytes(bs)), other(bytes(bs))
        esk = [rfc.new_packet(3, R.skesk_body(
            alg, 3, 8, phrases['p'].encode('utf8'), salt, 3)),
            rfc.new_packet(3, R.skesk_body(
                9, 3, 8, phrases['q'].encode('utf8'), salt, 3, alg,
                keys[0]))]
        if order:
            esk.reverse()
        body = R.literal_body(b'b', b'f', TIME, b'for your eyes')
        inners = [rfc.new_packet(11, body), b'\xac' + bytes([len(body)])
                  + body, b'\xad' + len(body).to_bytes(2, 'big') + body,
                  b'\xae' + len(body).to_bytes(4, 'big') + body,
                  b'\xaf' + body]
        # (uncompressed, and markers before the content)
        inners += [rfc.new_packet(8, b'\0' + inners[0]),
                   b'\xa3\0' + inners[0]]
        inners += [head + b'PGP' + inners[0] for head in (
            b'\xca\3', b'\xca\xff\0\0\0\3', b'\xa8\3', b'\xa9\0\3',
            b'\xaa\0\0\0\3')]
        left = count
        kinds = set()
        for i in range(1 << 24):
            prefix = hashlib.sha256(b'%d' % i).digest()[:bs]
            c0 = cipher.xor(pad, prefix)
            c1 = cipher.xor(enc(c0)[:2], prefix[-2:])
            if cipher.xor(other(c0)[:2], c1) != cipher.xor(pad2, c0)[-2:]:
                continue
            for inner in inners:
                body = R.sed_body(alg, keys[0], inner, prefix)
                first = R.open_sed(alg, keys[1], body)[1][0]
                tag = first & 0x3f if first & 0x40 else (first & 0x3f) >> 2
                if first & 0x80 and tag in (1, 2, 3, 4, 8, 9, 10, 11, 18):
                    # (it might be read as a message)
                    continue
                kinds.add(first)
                msg = util.read_message(
                    b''.join(esk) + rfc.new_packet(9, body))
                for n in 'pq':
                    got = msg.get_message(phrases[n])
                    if inner in inners[5:7]:
                        got = got.get_message()
                    same(bytes(got.data), b'for your eyes', 'content')
            left -= 1
            if not left:
                break
        return len(kinds)
    ck.each('by-chance', [(a, 4, 0) for a in ((7, 3) if not ck.thorough
                                              else CIPHERS)]
            + [(9, 40, 1)] * ck.thorough, chance)

    # -- malformed session key blocks are nobody's -------------------------

    def malformed(case):
        name, alg, what = case
        n = cipher.KEY[alg]
        session = util.pattern(n, 1)
        good = R.session_block(alg, session)
        key = ref[name]
        mod = key.num['n'] if key.kind == 'rsa' else key.num['p']
        size = (mod.bit_length() + 7) // 8
        pad = size - len(good) - 3
        ems = {
            'good': b'\0\2' + b'A' * pad + b'\0' + good,
            'type-1': b'\0\1' + b'\xff' * pad + b'\0' + good,
            'type-0': b'\0\0' + b'A' * pad + b'\0' + good,
            'first-1': b'\1\2' + b'A' * pad + b'\0' + good,
            'no-separator': b'\0\2' + b'A' * (pad + 1) + good,
            'checksum': b'\0\2' + b'A' * pad + b'\0' + good[:-1]
                        + bytes([good[-1] ^ 1]),
            'checksum-high': b'\0\2' + b'A' * pad + b'\0' + good[:-2]
                             + bytes([good[-2] ^ 1, good[-1]]),
            'key-octet': b'\0\2' + b'A' * pad + b'\0' + good[:5]
                         + bytes([good[5] ^ 4]) + good[6:],
            'short-key': b'\0\2' + b'A' * (pad + 1) + b'\0'
                         + R.session_block(alg, session[:-1]),
            'long-key': b'\0\2' + b'A' * (pad - 1) + b'\0'
                        + R.session_block(alg, session + b'x'),
            'cipher-0': b'\0\2' + b'A' * pad + b'\0'
                        + R.session_block(0, session),
            'cipher-5': b'\0\2' + b'A' * pad + b'\0'
                        + R.session_block(5, session),
            'cipher-200': b'\0\2' + b'A' * pad + b'\0'
                          + R.session_block(200, session),
            'empty': b'\0\2' + b'A' * (size - 3) + b'\0',
            'zero': bytes(size),
            'swapped-checksum': b'\0\2' + b'A' * pad + b'\0' + good[:-2]
                                + good[:-3:-1],
            'no-checksum': b'\0\2' + b'A' * pad + b'\0' + good[:-2]
                           + b'\0\0',
            }
        for bit in range(16):
            c = int.from_bytes(good[-2:], 'big') ^ 1 << bit
            ems['checksum-bit-%d' % bit] = (
                b'\0\2' + b'A' * pad + b'\0' + good[:-2]
                + c.to_bytes(2, 'big'))
        em = ems[what]
        m = int.from_bytes(em, 'big')
        if m >= mod:
            return None
        num = key.num
        if key.kind == 'rsa':
            values = [pow(m, num['e'], mod)]
        else:
            values = [pow(num['g'], 4321, mod),
                      m * pow(num['y'], 4321, mod) % mod]
        body = b'\3' + bytes.fromhex(key.key_id) + bytes([key.alg]) \
            + b''.join(map(rfc.mpi, values))
        inner = rfc.new_packet(11, R.literal_body(
            b'b', b'f', TIME, b'for your eyes'))
        tail = rfc.new_packet(18, R.seipd_body(
            alg, session, inner, util.pattern(cipher.BLOCK[alg])))
        raw = rfc.new_packet(1, body) + tail
        if what == 'good':
            return exactly(raw, {name})
        exactly(raw, set())
        # and does not keep the others from reading it
        other = 'b' if name != 'b' else 'a'
        rest = rfc.new_packet(1, R.pkesk_body(ref[other], alg, session)) \
            + rfc.new_packet(3, R.skesk_body(
                9, 0, 2, phrases['p'].encode(), b'', 0, alg, session)) \
            + rfc.new_packet(1, R.pkesk_body(ref[name], alg, session))
        return what, exactly(rfc.new_packet(1, body) + rest + tail,
                             {other, 'p', name})
    ck.each('malformed', itertools.product(
        'abegos', (3, 7, 8, 9), (
            'good', 'type-1', 'type-0', 'first-1', 'no-separator',
            'checksum', 'checksum-high', 'key-octet', 'short-key',
            'long-key', 'cipher-0', 'cipher-5', 'cipher-200', 'empty',
            'zero', 'swapped-checksum', 'no-checksum') + tuple(
                'checksum-bit-%d' % n for n in range(16))), malformed)

    # -- keys of a length that is not the cipher's are none, also when the
    # data were encrypted with them ------------------------------------------

    def lengths(case):
        name, told, used = case
        session = util.pattern(cipher.KEY[used], 3)
        inner = rfc.new_packet(11, R.literal_body(
            b'b', b'f', TIME, b'for your eyes'))
        tail = rfc.new_packet(18, R.seipd_body(
            used, session, inner, util.pattern(16))) \
            if told % 2 else rfc.new_packet(9, R.sed_body(
                used, session, inner, util.pattern(16)))
        block = rfc.new_packet(3, R.skesk_body(
            9, 3, 8, phrases['p'].encode(), b'saltsalt', 0, told, session)) \
            if name == 'p' else rfc.new_packet(1, R.pkesk_body(
                ref[name], told, session))
        return exactly(block + tail, {name} if told == used else set())
    ck.each('key-lengths', [
        (name, told, used) for group in ((7, 8, 9), (11, 12, 13))
        for told in group for used in group for name in 'abegop'], lengths)

    # -- packets nothing is known about do not hide the others -------------

    def foreign(case):
        what, header, where = case
        session = util.pattern(32, 1)
        key_id = bytes.fromhex(ref['a'].key_id)
        packets = {
            'skesk-cipher-0': (3, b'\4\0\0\2' + bytes(33)),
            'skesk-cipher-0-direct': (3, b'\4\0\0\2'),
            'skesk-cipher-5': (3, b'\4\5\0\2' + bytes(33)),
            'skesk-cipher-99-direct': (3, b'\4\x63\0\2'),
            'skesk-hash-5': (3, b'\4\x09\0\5' + bytes(33)),
            'skesk-hash-200-direct': (3, b'\4\x09\0\xc8'),
            'ecdh': (1, b'\3' + bytes(range(8)) + b'\x12' + bytes(40)),
            'ecdh-hidden': (1, b'\3' + bytes(8) + b'\x12' + bytes(40)),
            'unknown-hidden': (1, b'\3' + bytes(8) + b'\x63' + bytes(40)),
            'unknown-named': (1, b'\3' + key_id + b'\x63' + bytes(40)),
            'dsa-named': (1, b'\3' + key_id + b'\x11' + bytes(40)),
            'rsa-nothing': (1, b'\3' + bytes(8) + b'\1'),
            'rsa-short': (1, b'\3' + bytes(8) + b'\1' + rfc.mpi(5)),
            'rsa-long': (1, b'\3' + bytes(8) + b'\1' + rfc.mpi(
                1 << 1000)),
            'rsa-zero': (1, b'\3' + bytes(8) + b'\1' + rfc.mpi(0)),
            'elgamal-zero': (1, b'\3' + bytes(8) + b'\x10' + rfc.mpi(0)
                             + rfc.mpi(0)),
            'elgamal-long': (1, b'\3' + bytes(8) + b'\x10' + rfc.mpi(
                1 << 900) + rfc.mpi(1 << 901)),
            'elgamal-one': (1, b'\3' + bytes(8) + b'\x10' + rfc.mpi(77)),
            }
        make = rfc.new_packet if header else rfc.old_packet
        esk = [make(1, R.pkesk_body(ref['a'], 9, session)),
               make(1, R.pkesk_body(ref['e'], 9, session, True)),
               make(3, R.skesk_body(9, 0, 2, b'secret phrase', b'', 0, 9,
                                    session))]
        esk.insert(where, make(*packets[what]))
        inner = rfc.new_packet(11, R.literal_body(
            b'b', b'f', TIME, b'for your eyes'))
        raw = b''.join(esk) + rfc.new_packet(18, R.seipd_body(
            9, session, inner, util.pattern(16)))
        return what, exactly(raw, set('aep'))
    ck.each('foreign', itertools.product(
        ('skesk-cipher-0', 'skesk-cipher-0-direct', 'skesk-cipher-5',
         'skesk-cipher-99-direct', 'skesk-hash-5', 'skesk-hash-200-direct',
         'ecdh', 'ecdh-hidden', 'unknown-hidden', 'unknown-named',
         'dsa-named', 'rsa-nothing', 'rsa-short', 'rsa-long', 'rsa-zero',
         'elgamal-zero', 'elgamal-long', 'elgamal-one'), (0, 1),
        (0, 1, 2, 3)), foreign)

    # -- a locked key reads nothing ----------------------------------------

    def locked(name):
        raw = util.octets(build(9, [(name, False)]))
        sec = secret[name]
        sec.lock()
        try:
            raises(lambda: reads(raw, name))
        finally:
            sec.unlock('')
        reads(raw, name)
        return True
    ck.each('locked', everyone, locked)

    # -- randomness ------------------------------------------------------

    def guess(base, mod, bits=17):
        """Tells whether a power of the base has an exponent of less than
        twice so many bits (all of them, in steps small and large)."""
        near, x = {}, 1
        for k in range(1 << bits):
            near[x] = k
            x = x * base % mod
        back = pow(x, mod - 2, mod)

        def found(y):
            for _ in range(1 << bits):
                if y in near:
                    return True
                y = y * back % mod
            return False
        return found

    def fresh(case):
        name, alg = case
        RNG.reset(b'fresh')
        seen = set()
        sessions = set()
        key = ref[name]
        mod = key.num['n'] if key.kind == 'rsa' else key.num['p']
        small = {pow(key.num['g'], k, mod) for k in range(70)} \
            if key.kind == 'elg' else set()
        found = guess(key.num['g'], mod) if key.kind == 'elg' else None
        count = 12
        fixed = util.pattern(cipher.KEY[alg], 6)
        for i in range(count):
            w = plain.public_key_encrypt(alg, public_key=public[name])
            raw = util.octets(w)
            sessions.add(check_packets(raw, alg, [(name, False)]))
            w = plain.public_key_encrypt(alg, public_key=public[name],
                                         session_key=fixed)
            body = rfc.split_packets(util.octets(w))[0][1]
            R.read_pkesk(key, body)
            v, _ = rfc.read_mpi(body, 10)
            expect(v not in small, 'guessable ElGamal exponent')
            if found and i < 2:
                expect(not found(v), 'ElGamal exponent of few bits')
            seen.add(v)
        same(len(sessions), count, 'distinct session keys')
        same(len(seen), count, 'distinct encryptions of a session key')
        return True
    ck.each('fresh', itertools.product('abefogs', (3, 7, 9)), fresh)

    # the octets of the padding are never zero, however the random source
    # behaves
    def padding(case):
        name, label = case
        RNG.reset(b'pad%d' % label)
        raw = util.octets(build(9, [(name, False)]))
        check_packets(raw, 9, [(name, False)])
        reads(raw, name)
        return True
    ck.each('padding', ((n, i) for n in 'aeo' for i in range(
        60 if not ck.thorough else 1000)), padding)
