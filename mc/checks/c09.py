"""C09: encrypted data round trips; integrity protected data is returned
unmodified or not at all."""

import itertools
import random

from mc import util
from mc.core import expect, same, raises, Mismatch
from mc.env import RNG
from mc.ref import cipher
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'fault_enumeration'
TECHNIQUE = ('bounded exhaustive enumeration of encrypted messages and of '
             'every single-fault modification (bit flip, truncation, '
             'extension, octet removal or repetition, block swap) of their '
             'octets, real decryption against an independent model')
RULE = ('Messages: every cipher x packet kind x body length within the bound '
        'x literal format, both directions against the model. Faults: every '
        'bit, every cut, every removed or repeated octet and every swap of '
        'two blocks of a set of messages per cipher; a case is non-trivial '
        'when the code reached a verdict (message or refusal).')
ASSUMPTIONS = ['Block ciphers and hashlib are trusted (C07 checks them).',
               'SHA-1 collisions are not explored.',
               'Random octets come from a deterministic source whose use '
               'the check observes.']

CIPHERS = (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13)
TIME = 1400000000


def run(ck):
    import datetime
    from pgp.message import (BinaryMessage, TextMessage,
                             EncryptedMessageWrapper)
    stamp = datetime.datetime.fromtimestamp(TIME)

    def literal(fmt, body):
        if fmt == 'b':
            return BinaryMessage(body, 'f', stamp)
        return TextMessage(body, 'f', stamp)

    def check_literal(msg, fmt, body):
        same(type(msg).__name__,
             'BinaryMessage' if fmt == 'b' else 'TextMessage', 'kind')
        got = msg.data
        if fmt == 'b':
            got = bytes(got)
        same(got, body, 'content')
        same(msg.filename, 'f', 'filename')
        same(msg.timestamp, stamp, 'time')

    def body_of(fmt, n):
        if fmt == 'b':
            return util.pattern(n, 7)
        return (u'a\u00e9\u20ac\r\n\U0001f600z' * (n // 5 + 1))[:n]

    def encrypted_packets(raw):
        got = rfc.split_packets(raw)
        same([t for t, _ in got[:-1]], [3], 'session key packets')
        return got[0][1], got[-1]

    # -- the code writes, the model reads; the code reads ----------------

    def write(case):
        alg, protect, fmt, n = case
        RNG.reset(repr(case).encode())
        body = body_of(fmt, n)
        msg = literal(fmt, body)
        plain = util.octets(msg)
        wrapped = msg.symmetric_encrypt(alg, 'pass', s2k_type=0,
                                        s2k_hash_algorithm=2,
                                        integrity_protect=protect)
        raw = util.octets(wrapped)
        skesk, (tag, data) = encrypted_packets(raw)
        same(tag, 18 if protect else 9, 'packet type')
        got_alg, session = R.read_skesk(skesk, b'pass')
        same(got_alg, alg, 'cipher')
        same(len(session), cipher.KEY[alg], 'session key length')
        prefix, inner = (R.open_seipd if protect else R.open_sed)(
            alg, session, data)
        same(inner, plain, 'encrypted octets')
        (lit,) = rfc.split_packets(inner)
        same(lit, (11, R.literal_body(
            b'b' if fmt == 'b' else b'u', b'f', TIME,
            body if fmt == 'b' else body.encode('utf8'))), 'literal packet')
        check_literal(wrapped.get_message('pass'), fmt, body)
        back = util.read_message(raw)
        expect(isinstance(back, EncryptedMessageWrapper), 'kind of message')
        check_literal(back.get_message('pass'), fmt, body)
        check_literal(back.get_message(b'pass'), fmt, body)
        raises(lambda: back.get_message('Pass'))
        same(util.octets(back), raw, 'written again')
        return alg, protect, len(data)

    top = 70 if not ck.thorough else 400
    ck.each('write', itertools.product(CIPHERS, (True, False), 'bt',
                                       range(top)), write)
    ck.each('write-long', itertools.product(
        CIPHERS if ck.thorough else (1, 3, 9), (True, False), 'b',
        [140, 141, 155, 156, 157, 158, 159, 180, 186, 191, 192, 193,
         255, 256, 257, 510, 511, 512, 513, 514, 1023, 1024, 1025,
         4096, 8170, 8383, 8384, 9000, 65536, 70000]), write)

    # -- the model writes, the code reads -------------------------------

    def read(case):
        alg, protect, n, prefix, form = case
        body = util.pattern(n, 3)
        session = util.pattern(cipher.KEY[alg], alg)
        lit = R.literal_body(b'b', b'f', TIME, body)
        if form == 0:
            plain = rfc.new_packet(11, lit)
        elif form == 1:
            plain = rfc.old_packet(11, lit)
        elif form == 2:
            plain = rfc.old_packet(11, lit, 3)
        else:
            plain = rfc.new_packet(10, b'PGP') + rfc.new_packet(11, lit)
        prefix = (bytes([prefix]) * cipher.BLOCK[alg] if prefix is not None
                  else util.pattern(cipher.BLOCK[alg], 99))
        make = R.seipd_body if protect else R.sed_body
        skesk = R.skesk_body(alg, 0, 2, b'pw', session_alg=alg,
                             session=session)
        data = make(alg, session, plain, prefix)
        for header in (rfc.new_packet, rfc.old_packet):
            if protect and header is rfc.old_packet:
                continue
            raw = header(3, skesk) + header(18 if protect else 9, data)
            check_literal(util.read_message(raw).get_message('pw'), 'b',
                          body)
        # partial lengths of the encrypted data
        if len(data) > 512:
            raw = rfc.new_packet(3, skesk) + rfc.partial_packet(
                18 if protect else 9, [data[:512]], data[512:])
            check_literal(util.read_message(raw).get_message('pw'), 'b',
                          body)
        # the session key straight from the passphrase
        direct = cipher.s2k(0, 2, cipher.KEY[alg], b'pw')
        raw = rfc.new_packet(3, R.skesk_body(alg, 0, 2, b'pw')) \
            + rfc.new_packet(18 if protect else 9,
                             make(alg, direct, plain, prefix))
        check_literal(util.read_message(raw).get_message('pw'), 'b', body)
        return alg, protect, form

    ck.each('read', itertools.product(
        CIPHERS, (True, False), list(range(34)) + [509, 1000],
        (None, 0, 255), (0, 1, 2, 3)), read)

    # -- without any session key packet: IDEA, MD5 of the passphrase -----

    def bare(case):
        protect, n, phrase = case
        body = util.pattern(n)
        key = cipher.s2k(0, 1, 16, phrase.encode('utf8'))
        plain = rfc.new_packet(11, R.literal_body(b'b', b'f', TIME, body))
        make = R.seipd_body if protect else R.sed_body
        raw = rfc.new_packet(18 if protect else 9,
                             make(1, key, plain, util.pattern(8)))
        msg = util.read_message(raw)
        check_literal(msg.get_message(phrase), 'b', body)
        same(util.octets(msg), raw, 'written again')
        return True
    ck.each('no-session-key-packet', itertools.product(
        (False, True), range(20), ('', 'x', u'p\u00e4ss', 'a' * 70)), bare)

    # -- s2k options of passphrase encryption ------------------------------

    def options(case):
        alg, kek, kind, h, given, phrase = case
        RNG.reset(b'opt')
        session = util.pattern(cipher.KEY[alg], 5) if given else None
        msg = BinaryMessage(b'hello', 'f', stamp)
        w = msg.symmetric_encrypt(
            alg, phrase, session_key=session, s2k_type=kind,
            s2k_hash_algorithm=h, s2k_symmetric_algorithm=kek,
            s2k_salt=bytearray(b'saltsalt'), s2k_count=1024)
        raw = util.octets(w)
        skesk, (tag, data) = encrypted_packets(raw)
        octets = phrase if isinstance(phrase, bytes) \
            else phrase.encode('utf8')
        same(skesk[1], kek, 'cipher of the session key')
        same(tuple(skesk[2:4]), (kind, h), 'specifier')
        got, key = R.read_skesk(skesk, octets)
        same(got, alg, 'cipher')
        if given:
            same(key, session, 'session key')
        prefix, inner = R.open_seipd(alg, key, data)
        check_literal(util.read_message(raw).get_message(phrase), 'b',
                      b'hello')
        for other in ('', 'q', 'pw\0', 'pW', u'p\u00e4', 'x' * 80):
            if other != phrase and other.encode('utf8') != octets:
                raises(lambda: util.read_message(raw).get_message(other))
        return kind, h, alg, kek
    few = (1, 3, 8, 9, 10)
    ck.each('passphrase-options', itertools.product(
        CIPHERS if ck.thorough else few,
        CIPHERS if ck.thorough else few,
        (0, 1, 3), (1, 2, 3, 8, 9, 10, 11), (False, True),
        ('pw', '', b'\xff\x00z', u'p\u00e4sswort')), options)

    # -- everything secret depends on the random source --------------------

    holder = R.Key('rsa_a')
    pub = util.read_key(R.certificate(holder))
    sec = util.read_key(R.certificate(holder, secret=True))
    sec.unlock('')

    def fresh(case):
        alg, protect, way = case
        seen = []
        for label in (b'one', b'two', None):
            # Only the source of random octets is fresh
            random.seed(0)
            if label is not None:
                RNG.reset(label)
            msg = BinaryMessage(b'hello', 'f', stamp)
            w = msg.symmetric_encrypt(
                alg, 'pw', integrity_protect=protect) if way == 'p' else \
                msg.public_key_encrypt(
                    alg, pub, integrity_protect=protect) if way == 'k' else \
                msg.public_key_encrypt(alg, hidden_public_keys=[pub],
                                       integrity_protect=protect)
            (_, block), (tag, data) = rfc.split_packets(util.octets(w))
            session = (R.read_skesk(block, b'pw') if way == 'p'
                       else R.read_pkesk(holder, block))[-1]
            prefix, _ = (R.open_seipd if protect else R.open_sed)(
                alg, session, data)
            if way == 'p':
                same(block[2], 3, 'iterated and salted')
            seen.append((session, prefix,
                         block[4:12] if way == 'p' else block[10:]))
        for a, b in itertools.combinations(seen, 2):
            for x, y, what in zip(a, b, ('session key', 'prefix', 'salt')):
                expect(x != y, 'the same %s twice' % what)
                differ = sum(i != j for i, j in zip(x, y))
                expect(differ * 2 >= len(x), '%s hardly differs' % what)
        return True
    ck.each('fresh-secrets', itertools.product(CIPHERS, (True, False),
                                               'pkh'), fresh)

    # -- what is not asked for ----------------------------------------------

    def unasked(case):
        """Messages are protected unless that is refused."""
        alg, layers, way = case
        RNG.reset(repr(case).encode())
        msg = literal('b', b'hello')
        for layer in layers:
            if layer == 's':
                msg = msg.sign(sec, 4, 0, 8)
            elif layer == 'c':
                msg = msg.compress(2, 6)
            else:
                msg = msg.symmetric_encrypt(3, 'inner')
        plain = util.octets(msg)
        if way == 'p':
            w = msg.symmetric_encrypt(alg, 'pw')
        elif way == 'k':
            w = msg.public_key_encrypt(alg, pub)
        else:
            w = msg.public_key_encrypt(alg, hidden_public_keys=[pub])
        raw = util.octets(w)
        (t, session), (tag, data) = rfc.split_packets(raw)
        same((t, tag), (3 if way == 'p' else 1, 18), 'packets')
        if way == 'p':
            same(R.read_skesk(session, b'pw')[0], alg, 'cipher')
            key = R.read_skesk(session, b'pw')[1]
            same(R.open_seipd(alg, key, data)[1], plain, 'content')
        reader = 'pw' if way == 'p' else sec
        for m in (w, util.read_message(raw)):
            same(util.octets(m.get_message(reader)), plain, 'read')
        bad = bytearray(raw)
        bad[-1] ^= 1
        raises(lambda: util.read_message(bytes(bad)).get_message(reader))
        return len(plain)
    ck.each('unasked', itertools.product(
        CIPHERS, [''.join(x) for n in range(4)
                  for x in itertools.product('sce', repeat=n)
                  if 's' not in x[1:]], 'pkh'),
            unasked)

    # -- tampering ---------------------------------------------------------

    def message(alg, n, shape):
        """(head, body of the data packet, session key)"""
        session = util.pattern(cipher.KEY[alg], alg + 50)
        plain = rfc.new_packet(11, R.literal_body(
            b'b', b'f', TIME, util.pattern(n, shape)))
        if shape == 1:
            # the literal packet runs to the end of the data
            plain = rfc.old_packet(11, R.literal_body(
                b'b', b'f', TIME, util.pattern(n, shape)), 3)
        elif shape == 2:
            import zlib
            plain = rfc.new_packet(8, b'\2' + zlib.compress(plain))
        data = R.seipd_body(alg, session, plain,
                            util.pattern(cipher.BLOCK[alg], 77))
        head = rfc.new_packet(3, R.skesk_body(
            alg, 0, 2, b'pw', session_alg=alg, session=session))
        return head, data, session

    cache = {}

    def base(alg, n, shape):
        if (alg, n, shape) not in cache:
            cache[alg, n, shape] = message(alg, n, shape)
        return cache[alg, n, shape]

    def tampered(alg, data, bs, op):
        kind = op[0]
        if kind == 'flip':
            out = bytearray(data)
            out[op[1] >> 3] ^= 1 << (op[1] & 7)
            return bytes(out)
        if kind == 'cut':
            return data[:op[1]]
        if kind == 'behead':
            return data[:1] + data[1 + op[1]:]
        if kind == 'drop':
            return data[:op[1]] + data[op[1] + 1:]
        if kind == 'dup':
            return data[:op[1]] + data[op[1]:op[1] + 1] + data[op[1]:]
        if kind == 'append':
            return data + op[1]
        if kind == 'swap':
            i, j = 1 + op[1] * bs, 1 + op[2] * bs
            out = bytearray(data)
            out[i:i + bs], out[j:j + bs] = data[j:j + bs], data[i:i + bs]
            return bytes(out)
        if kind == 'dropblock':
            i = 1 + op[1] * bs
            return data[:i] + data[i + bs:]
        if kind == 'zero':
            out = bytearray(data)
            out[op[1]] = 0
            return bytes(out)
        raise AssertionError(op)

    def tamper(case):
        alg, n, shape, op = case
        head, data, session = base(alg, n, shape)
        bad = tampered(alg, data, cipher.BLOCK[alg], op)
        if bad == data:
            return None
        try:
            R.open_seipd(alg, session, bad)
        except (ValueError, IndexError):
            pass
        else:
            raise AssertionError('the model accepts it')
        raw = head + rfc.new_packet(18, bad)
        try:
            got = util.read_message(raw).get_message('pw')
        except Exception as e:
            return op[0], type(e).__name__
        raise Mismatch('modified message returned as %r with %r' % (
            type(got).__name__, getattr(got, 'data', None)))

    def ops(alg, n, shape):
        head, data, session = base(alg, n, shape)
        bs = cipher.BLOCK[alg]
        for i in range(len(data) * 8):
            yield ('flip', i)
        for i in range(len(data)):
            yield ('cut', i)
            yield ('drop', i)
            yield ('dup', i)
            yield ('zero', i)
        for i in range(1, len(data) - 1):
            yield ('behead', i)
        for tail in (b'\0', b'\xff', bytes(bs), util.pattern(22),
                     data[-22:], data[-bs:]):
            yield ('append', tail)
        blocks = (len(data) - 1) // bs
        for i in range(blocks):
            yield ('dropblock', i)
            for j in range(i):
                yield ('swap', i, j)

    sizes = {
        0: (0, 1, 5, 16, 33) if not ck.thorough else range(48),
        1: (0, 9) if not ck.thorough else range(24),
        2: (12,) if not ck.thorough else range(0, 40, 3)}
    algs = CIPHERS if ck.thorough else (1, 2, 3, 4, 7, 9, 10, 13)
    for shape in (0, 1, 2):
        ck.each('tamper-%d' % shape, (
            (alg, n, shape, op) for alg in algs for n in sizes[shape]
            for op in ops(alg, n, shape)), tamper)

    # pairs of faults: two flips in the detection code's own octets and
    # anywhere else (a check that compares only a part misses these)
    def tamper2(case):
        alg, i, j = case
        head, data, session = base(alg, 3, 0)
        bad = bytearray(data)
        bad[i >> 3] ^= 1 << (i & 7)
        bad[j >> 3] ^= 1 << (j & 7)
        raw = head + rfc.new_packet(18, bytes(bad))
        try:
            got = util.read_message(raw).get_message('pw')
        except Exception as e:
            return type(e).__name__
        raise Mismatch('modified message returned as %r with %r' % (
            type(got).__name__, getattr(got, 'data', None)))
    bits = len(base(9, 3, 0)[1]) * 8
    step = 1 if ck.thorough else 5
    ck.each('tamper-pairs', (
        (9, i, j) for i in range(0, bits, step) for j in range(i + 1, bits,
                                                               step)),
        tamper2)

    # a detection code that is missing, or that is somebody else's
    def no_mdc(case):
        alg, n, kind = case
        session = util.pattern(cipher.KEY[alg], 50)
        plain = rfc.new_packet(11, R.literal_body(b'b', b'f', TIME,
                                                  util.pattern(n)))
        import hashlib
        prefix = util.pattern(cipher.BLOCK[alg], 77)
        good = hashlib.sha1(prefix + prefix[-2:] + plain
                            + b'\xd3\x14').digest()
        mdc = {
            'none': b'',
            'zero': b'\xd3\x14' + bytes(20),
            'no-prefix': b'\xd3\x14' + hashlib.sha1(
                plain + b'\xd3\x14').digest(),
            'no-repeat': b'\xd3\x14' + hashlib.sha1(
                prefix + plain + b'\xd3\x14').digest(),
            'no-header': b'\xd3\x14' + hashlib.sha1(
                prefix + prefix[-2:] + plain).digest(),
            'header-d2': b'\xd2\x14' + good,
            'header-13': b'\xd3\x13' + good,
            'short': b'\xd3\x14' + good[:19],
            'long': b'\xd3\x14' + good + b'\0',
            'md5': b'\xd3\x10' + hashlib.md5(plain).digest(),
            'good': b'\xd3\x14' + good,
            'twice': (b'\xd3\x14' + good) * 2,
        }[kind]
        data = R.seipd_body(alg, session, plain, prefix, mdc)
        raw = rfc.new_packet(3, R.skesk_body(
            alg, 0, 2, b'pw', session_alg=alg, session=session)) \
            + rfc.new_packet(18, data)
        if kind == 'good':
            check_literal(util.read_message(raw).get_message('pw'), 'b',
                          util.pattern(n))
            return kind
        try:
            got = util.read_message(raw).get_message('pw')
        except Exception as e:
            return kind, type(e).__name__
        raise Mismatch('returned as %r' % type(got).__name__)
    ck.each('wrong-code', itertools.product(
        algs, range(0, 24 if not ck.thorough else 80),
        ('none', 'zero', 'no-prefix', 'no-repeat', 'no-header', 'header-d2',
         'header-13', 'short', 'long', 'md5', 'good', 'twice')), no_mdc)

    # integrity protected data of an unknown version is refused
    def version(v):
        head, data, session = base(9, 5, 0)
        raw = head + rfc.new_packet(18, bytes([v]) + data[1:])
        if v == 1:
            util.read_message(raw).get_message('pw')
            return 'read'
        raises(lambda: util.read_message(raw).get_message('pw'))
        return 'refused'
    ck.each('versions', range(256), version)
