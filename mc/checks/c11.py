"""C11: messages built of signing, compressing and encrypting layers come
apart into what they were made of."""

import bz2
import itertools
import zlib

from mc import util
from mc.core import expect, same, raises, Mismatch
from mc.env import RNG
from mc.ref import cipher
from mc.ref import keys as R
from mc.ref import rfc
from mc.zones import in_zone, instants

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of a model of the message grammar '
             '(states: layer stacks, transitions: sign, compress, encrypt), '
             'every model trace executed on the real code in both '
             'directions')
RULE = ('Every stack of layers up to the depth bound over a literal message: '
        'the code builds it and an independent reader takes it apart; the '
        'model writes it in every encoding variant and the code takes it '
        'apart. Truncated compressed data at every length. States are layer '
        'stacks, transitions the layers added.')
ASSUMPTIONS = ['zlib and bz2 are trusted as codecs.',
               'Signatures are made over literal messages only; the code '
               'offers no signing of other messages.']

TIME = 1400000000

LAYERS = (
    ('sign', 0), ('sign', 1), ('sign2', 0), ('prefix', 0), ('prefix2', 1),
    ('zip', 0), ('zip', 1), ('zip', 2), ('zip', 3),
    ('sym', 1), ('sym', 0), ('pk', 1), ('pk', 0))


def run(ck):
    import datetime
    from pgp.message import (BinaryMessage, TextMessage, SignedMessageWrapper,
                             CompressedMessageWrapper,
                             EncryptedMessageWrapper)
    stamp = datetime.datetime.fromtimestamp(TIME)

    rsa = R.Key('rsa_a', created=1100000000)
    dsa = R.Key('dsa_a', created=1100000001)
    enc = R.Key('elg_a', created=1100000002)
    sec = util.read_key(R.certificate(rsa, subkeys=[enc], secret=True))
    sec.unlock('')
    sec2 = util.read_key(R.certificate(dsa, secret=True))
    sec2.unlock('')
    pub = util.read_key(R.certificate(rsa, subkeys=[enc]))
    pub2 = util.read_key(R.certificate(dsa))

    def body_of(fmt, n):
        if fmt == 'b':
            # (a lone CR is ambiguous as a line ending)
            return util.pattern(n, 7).replace(b'\r', b'.')
        return (u'a\u00e9\u20ac\r\n\U0001f600z' * (n // 5 + 1))[:n]

    def signed_octets(fmt, body, kind):
        data = body if fmt == 'b' else body.encode('utf8')
        if kind == 1:
            data = data.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')
        return data

    # -- the code builds ---------------------------------------------------

    def build(fmt, body, stack):
        msg = (BinaryMessage if fmt == 'b' else TextMessage)(
            body, 'name', stamp)
        for kind, arg in stack:
            if kind in ('sign', 'prefix'):
                msg = msg.sign(sec, signature_type=arg, hash_algorithm=8,
                               one_pass=kind == 'sign')
            elif kind in ('sign2', 'prefix2'):
                one = msg.sign(sec, signature_type=arg, hash_algorithm=8)
                two = msg.sign(sec2, signature_type=1 - arg,
                               hash_algorithm=2)
                msg = SignedMessageWrapper(
                    one.signatures + two.signatures, msg, kind == 'sign2')
            elif kind == 'zip':
                msg = msg.compress(arg, 6)
            elif kind == 'sym':
                msg = msg.symmetric_encrypt(9, 'pw', s2k_type=1,
                                            integrity_protect=bool(arg))
            else:
                msg = msg.public_key_encrypt(
                    7, public_key=pub.subkeys[0],
                    integrity_protect=bool(arg))
        return msg

    def take_apart(raw, stack, fmt, body):
        """The independent reader."""
        packets = rfc.split_packets(raw)
        for kind, arg in reversed(stack):
            if kind in ('sign', 'sign2', 'prefix', 'prefix2'):
                count = 2 if kind.endswith('2') else 1
                if kind.startswith('sign'):
                    ops = packets[:count]
                    sigs = packets[-count:]
                    inner = packets[count:-count]
                    same([t for t, _ in ops], [4] * count, 'one-pass')
                    for i, ((_, o), (_, s)) in enumerate(
                            zip(ops, reversed(sigs))):
                        s = R.read_signature(s)
                        same(o[0], 3, 'one-pass version')
                        same(tuple(o[1:4]), (s['kind'], s['hash'],
                                             s['alg']), 'one-pass fields')
                        ids = [b for t, c, b in R.read_subpackets(
                            s['hashed'] + s['unhashed']) if t == 16]
                        same([o[4:12]], ids, 'one-pass key ID')
                        same(o[12], int(i == count - 1), 'nested flag')
                else:
                    sigs, inner = packets[:count], packets[count:]
                same([t for t, _ in sigs], [2] * count, 'signatures')
                for i, (_, s) in enumerate(sigs):
                    same(s[1], arg if i == 0 else 1 - arg, 'type')
                    expect(R.verify_body(
                        (rsa, dsa)[i], s, signed_octets(fmt, body, s[1])),
                        'signature %d is wrong' % i)
                packets = inner
            elif kind == 'zip':
                same(len(packets), 1, 'compressed packets')
                same(packets[0][0], 8, 'packet type')
                data = packets[0][1]
                same(data[0], arg, 'algorithm')
                data = data[1:]
                if arg == 1:
                    d = zlib.decompressobj(-15)
                    data = d.decompress(data)
                    expect(d.eof and not d.unused_data, 'raw deflate')
                elif arg == 2:
                    d = zlib.decompressobj()
                    data = d.decompress(data)
                    expect(d.eof and not d.unused_data, 'zlib')
                elif arg == 3:
                    data = bz2.decompress(data)
                packets = rfc.split_packets(data)
            else:
                same([t for t, _ in packets],
                     [3 if kind == 'sym' else 1, 18 if arg else 9], 'layer')
                if kind == 'sym':
                    alg, session = R.read_skesk(packets[0][1], b'pw')
                    same(alg, 9, 'cipher')
                else:
                    key_id, alg, session = R.read_pkesk(enc, packets[0][1])
                    same(key_id, enc.key_id, 'recipient')
                    same(alg, 7, 'cipher')
                _, data = (R.open_seipd if arg else R.open_sed)(
                    alg, session, packets[1][1])
                packets = rfc.split_packets(data)
        same(packets, [(11, R.literal_body(
            b'b' if fmt == 'b' else b'u', b'name', TIME,
            body if fmt == 'b' else body.encode('utf8')))], 'literal')

    def descend(msg, stack, fmt, body):
        """The code's own reader."""
        signatures = []
        for kind, arg in reversed(stack):
            if kind in ('sign', 'sign2', 'prefix', 'prefix2'):
                expect(isinstance(msg, SignedMessageWrapper), 'signed',
                       type(msg))
                same(len(msg.signatures), 2 if kind.endswith('2') else 1,
                     'number of signatures')
                same(bool(msg.one_pass), kind.startswith('sign'),
                     'one pass')
                signatures = [(s, msg) for s in msg.signatures]
                msg = msg.get_message()
                for i, (s, _) in enumerate(signatures):
                    same(s.signature_type, arg if i == 0 else 1 - arg,
                         'signature type')
                    expect((pub, pub2)[i].verify(s, msg), 'not verified')
                    raises(lambda: (pub2, pub)[i].verify(s, msg))
            elif kind == 'zip':
                expect(isinstance(msg, CompressedMessageWrapper),
                       'compressed', type(msg))
                same(msg.compression_algorithm, arg, 'algorithm')
                msg = msg.get_message()
            else:
                expect(isinstance(msg, EncryptedMessageWrapper),
                       'encrypted', type(msg))
                msg = msg.get_message('pw' if kind == 'sym'
                                      else sec.subkeys[0])
        same(type(msg).__name__,
             'BinaryMessage' if fmt == 'b' else 'TextMessage', 'kind')
        same(bytes(msg.data) if fmt == 'b' else msg.data, body, 'content')
        same(msg.filename, 'name', 'filename')
        same(msg.timestamp, stamp, 'time')

    def allowed(stack, layer):
        # only literal messages can be signed
        return not (stack and (layer[0].startswith('sign')
                               or layer[0].startswith('prefix')))

    def forward(case):
        fmt, n, stack = case
        RNG.reset(repr(case).encode())
        body = body_of(fmt, n)
        msg = build(fmt, body, stack)
        descend(msg, stack, fmt, body)
        raw = util.octets(msg)
        take_apart(raw, stack, fmt, body)
        back = util.read_message(raw)
        descend(back, stack, fmt, body)
        same(util.octets(back), raw, 'written again')
        return stack

    depth = 3 if not ck.thorough else 4
    stacks = [()]
    frontier = [()]
    for _ in range(depth):
        frontier = [s + (layer,) for s in frontier for layer in LAYERS
                    if allowed(s, layer)]
        stacks += frontier
    ck.states += len(stacks)
    before = ck.evaluations
    ck.each('code-builds', ((fmt, n, s) for s in stacks
                            for fmt in 'bt'
                            for n in ((20,) if len(s) > 2 else
                                      (0, 1, 20, 300))), forward)

    # -- the model builds --------------------------------------------------

    def model(fmt, body, stack, variant):
        """variant: encoding choices."""
        new = variant in (0, 3, 4)
        make = rfc.new_packet if new else rfc.old_packet
        data = body if fmt == 'b' else body.encode('utf8')
        lit = R.literal_body(b'b' if fmt == 'b' else b'u', b'name', TIME,
                             data)

        def wrap(tag, content):
            if variant == 2:
                return rfc.old_packet(tag, content, 2)
            if variant == 3 and len(content) >= 512:
                return rfc.partial_packet(tag, [content[:512]],
                                          content[512:])
            return make(tag, content)
        if variant == 5:
            # to the end of what contains it
            raw = rfc.old_packet(11, lit, 3)
        else:
            raw = wrap(11, lit)
        for kind, arg in stack:
            if kind in ('sign', 'sign2', 'prefix', 'prefix2'):
                if variant == 5:
                    raw = rfc.old_packet(11, lit)
                count = 2 if kind.endswith('2') else 1
                sigs, ops = [], []
                for i in range(count):
                    key = (rsa, dsa)[i]
                    k = arg if i == 0 else 1 - arg
                    h = (8, 2)[i]
                    version = 3 if variant == 1 else 4
                    sigs.append(make(2, R.signature_body(
                        key, k, h, signed_octets(fmt, body, k), 1200000000,
                        version)))
                    ops.insert(0, make(4, bytes([3, k, h, key.alg])
                                       + bytes.fromhex(key.key_id)
                                       + bytes([int(i == 0)])))
                if kind.startswith('sign'):
                    raw = b''.join(ops) + raw + b''.join(sigs)
                else:
                    raw = b''.join(sigs) + raw
            elif kind == 'zip':
                if arg == 1:
                    c = zlib.compressobj(9, zlib.DEFLATED, -15)
                    raw = c.compress(raw) + c.flush()
                elif arg == 2:
                    raw = zlib.compress(raw)
                elif arg == 3:
                    raw = bz2.compress(raw)
                raw = bytes([arg]) + raw
                raw = rfc.old_packet(8, raw, 3) if variant == 5 \
                    else wrap(8, raw)
            else:
                alg = 9 if kind == 'sym' else 7
                session = util.pattern(cipher.KEY[alg], 2)
                if kind == 'sym':
                    esk = make(3, R.skesk_body(9, 3, 8, b'pw', b'saltsalt',
                                               0, alg, session))
                else:
                    esk = make(1, R.pkesk_body(enc, alg, session))
                content = (R.seipd_body if arg else R.sed_body)(
                    alg, session, raw, util.pattern(16, 3))
                if variant == 5 and not arg:
                    raw = esk + rfc.old_packet(9, content, 3)
                elif arg:
                    raw = esk + (wrap if variant == 3 else rfc.new_packet)(
                        18, content)
                else:
                    raw = esk + wrap(9, content)
            if variant == 4:
                # markers are ignored
                raw = rfc.new_packet(10, b'PGP') + raw
        return raw

    def backward(case):
        fmt, n, stack, variant = case
        body = body_of(fmt, n)
        raw = model(fmt, body, stack, variant)
        msg = util.read_message(raw)
        descend(msg, stack, fmt, body)
        # what is written again has the same meaning
        again = util.octets(msg)
        if variant != 4 and variant != 1:
            take_apart(again, stack, fmt, body)
        descend(util.read_message(again), stack, fmt, body)
        return stack, variant
    ck.each('model-builds', ((fmt, n, s, v) for s in stacks
                             for v in range(6) for fmt in 'bt'
                             for n in ((20,) if len(s) > 2
                                       else (0, 20, 700))), backward)
    ck.transitions += ck.evaluations - before
    ck.traces += ck.evaluations - before

    # -- forms of headers --------------------------------------------------

    def headers(case):
        """Messages are written with the headers asked for."""
        fmt, stack, way = case
        RNG.reset(repr(case).encode())
        body = body_of(fmt, 300)
        msg = build(fmt, body, stack)
        if way == 'read':
            msg = util.read_message(model(fmt, body, stack, 0))
        for form in (1, 2):
            packets = msg.to_packets(form)
            for p in packets:
                p = bytes(p)
                (tag, _), = rfc.split_packets(p)
                same(p[0] >> 6, 3 if form == 1 or tag > 15 else 2,
                     'form of the header of a packet %d' % tag)
            raw = b''.join(map(bytes, packets))
            take_apart(raw, stack, fmt, body)
            descend(util.read_message(raw), stack, fmt, body)
        return stack
    ck.each('headers', ((fmt, s, way) for s in stacks if len(s) < 3
                        for fmt in 'bt' for way in ('made', 'read')),
            headers)

    # -- compression ------------------------------------------------------

    def compression(case):
        alg, level, n, shape = case
        body = {0: util.pattern(n), 1: bytes(n), 2: b'ab' * (n // 2)}[shape]
        msg = BinaryMessage(body, 'name', stamp).compress(alg, level)
        raw = util.octets(msg)
        take_apart(raw, (('zip', alg),), 'b', body)
        for m in (msg, util.read_message(raw)):
            for _ in range(2):
                descend(m, (('zip', alg),), 'b', body)
        return alg, level, len(raw)
    ck.each('compression', ((a, level, n, s) for a in (0, 1, 2, 3)
                            for level in range(1, 10)
                            for n in list(range(12)) + [100, 191, 8000,
                                                        40000, 70000]
                            for s in (0, 1, 2)), compression)
    # beyond the sizes of buffers
    ck.each('compression-large', [
        (a, level, (1 << k) + d, s) for a in (0, 1, 2, 3)
        for level in ((1, 6, 9) if ck.thorough else (6,))
        for k in ((17, 20, 21, 22) if ck.thorough else (20, 21))
        for d in (7,) for s in (0, 1)], compression, workers=8)

    # what was cut short is never returned as if complete
    def truncated(case):
        alg, form, cut = case
        content = R.literal_body(b'b', b'name', TIME, b'abc' * 30)
        plain = rfc.old_packet(11, content, 3) if form \
            else rfc.new_packet(11, content)
        if alg == 1:
            c = zlib.compressobj(6, zlib.DEFLATED, -15)
            data = c.compress(plain) + c.flush()
        elif alg == 2:
            data = zlib.compress(plain)
        else:
            data = bz2.compress(plain)
        if cut >= len(data):
            return None
        raw = rfc.new_packet(8, bytes([alg]) + data[:cut])
        raises(lambda: util.read_message(raw).get_message())
        return True
    ck.each('truncated', itertools.product((1, 2, 3), (0, 1), range(200)),
            truncated)

    def flipped(case):
        alg, bit = case
        plain = rfc.new_packet(11, R.literal_body(b'b', b'name', TIME,
                                                  b'abc' * 30))
        data = zlib.compress(plain) if alg == 2 else bz2.compress(plain)
        if bit >= len(data) * 8:
            return None
        bad = bytearray(data)
        bad[bit >> 3] ^= 1 << (bit & 7)
        try:
            got = util.read_message(rfc.new_packet(
                8, bytes([alg]) + bytes(bad))).get_message()
        except Exception:
            return 'refused'
        # some bits are not part of the content
        same(bytes(got.data), b'abc' * 30, 'content of damaged data')
        return 'unaffected'
    ck.each('damaged', itertools.product((2, 3), range(1200)), flipped)

    def unknown(alg):
        raises(lambda: util.read_message(rfc.new_packet(
            8, bytes([alg]) + b'\x2a' * 20)).get_message())
        return True
    ck.each('unknown-compression', range(4, 256), unknown)

    # -- local clocks -------------------------------------------------------

    def clock(case):
        zone, t, fmt = case
        data = b'text'
        raw = rfc.new_packet(11, R.literal_body(fmt, b'name', t, data))

        def go():
            msg = util.read_message(raw)
            same(int(msg.timestamp.timestamp()), t, 'time')
            same(util.octets(msg), raw, 'written')
            made = (BinaryMessage if fmt == b'b' else TextMessage)(
                data if fmt == b'b' else 'text', 'name',
                datetime.datetime.fromtimestamp(t))
            for m in (made, made.compress(2, 6)):
                packets = rfc.split_packets(util.octets(m))
                if packets[0][0] == 8:
                    packets = rfc.split_packets(zlib.decompress(
                        packets[0][1][1:]))
                want = R.literal_body(b'u' if fmt == b't' else fmt, b'name',
                                      t, data)
                same(packets, [(11, want)], 'made')
            return zone
        return in_zone(zone, go)
    ck.each('clocks', ((z, t, f) for z, t in instants()
                       for f in (b'b', b'u', b't')), clock)

    # what is less than a second is dropped
    def fraction(case):
        t, micro, fmt, layer = case
        when = datetime.datetime.fromtimestamp(t).replace(microsecond=micro)
        m = BinaryMessage(b'x', 'n', when) if fmt == b'b' else \
            TextMessage('x', 'n', when)
        if layer == 'c':
            m = m.compress(2, 6)
        packets = rfc.split_packets(util.octets(m))
        if layer == 'c':
            packets = rfc.split_packets(zlib.decompress(packets[0][1][1:]))
        body = [b for tag, b in packets if tag == 11][0]
        same(int.from_bytes(body[3:7], 'big'), t, 'time')
        return layer
    ck.each('fractions', itertools.product(
        (0, 1, TIME, TIME + 1, 2 ** 31 - 1, 2 ** 32 - 1),
        (0, 1, 499999, 500000, 500001, 999999), (b'b', b'u'), 'lc'), fraction)

    # and times that there are no octets for are refused
    def no_time(case):
        zone, t, fmt, layer = case

        def go():
            when = datetime.datetime.fromtimestamp(0) + datetime.timedelta(
                seconds=t)
            m = BinaryMessage(b'x', 'n', when) if fmt == 'b' else \
                TextMessage('x', 'n', when)
            raises(lambda: util.octets(
                m if layer == 'l' else m.compress(1, 6) if layer == 'c'
                else m.symmetric_encrypt(9, 'pw')))
            return layer
        return in_zone(zone, go)
    ck.each('no-such-time', itertools.product(
        ('UTC0', 'EST5'), (-86400 * 365, -90000, 2 ** 32 + 90000,
                           2 ** 33, 2 ** 32 + 10 ** 9),
        'bt', 'lcs'), no_time)

    # -- any number of signatures -------------------------------------------

    MAKES = [(rsa, 8, 0), (dsa, 2, 1), (rsa, 10, 1), (dsa, 8, 0)]

    def many(case):
        """Sequences of signatures by keys, digests and types."""
        how, who, one_pass = case
        body = b'one\ntwo'
        stuff = [MAKES[i] for i in who]
        if how == 'written':
            m = BinaryMessage(body, 'name', stamp)
            made = []
            for key, h, kind in stuff:
                made += m.sign(sec if key is rsa else sec2,
                               signature_type=kind,
                               hash_algorithm=h).signatures
            raw = util.octets(SignedMessageWrapper(made, m, one_pass))
            packets = rfc.split_packets(raw)
            n = len(stuff)
            ops = packets[:n] if one_pass else []
            sigs = packets[n + 1:] if one_pass else packets[:n]
            same([t for t, _ in packets],
                 [4] * n + [11] + [2] * n if one_pass else [2] * n + [11],
                 'packets')
            for (key, h, kind), (_, s) in zip(stuff, sigs):
                same((s[1], s[2], s[3]), (kind, key.alg, h), 'signature')
                expect(R.verify_body(key, s, signed_octets('b', body, kind)),
                       'signature is wrong')
            for i, ((_, o), (key, h, kind)) in enumerate(
                    zip(ops, reversed(stuff))):
                same(bytes(o), bytes([3, kind, h, key.alg])
                     + bytes.fromhex(key.key_id) + bytes([i == n - 1]),
                     'one-pass signature')
            return len(raw)
        sigs = b''.join(rfc.new_packet(2, R.signature_body(
            key, kind, h, signed_octets('b', body, kind), 1200000000))
            for key, h, kind in stuff)
        ops = b''.join(rfc.new_packet(4, bytes([3, kind, h, key.alg])
                                      + bytes.fromhex(key.key_id)
                                      + bytes([i == len(stuff) - 1]))
                       for i, (key, h, kind) in enumerate(reversed(stuff)))
        lit = rfc.new_packet(11, R.literal_body(b'b', b'n', TIME, body))
        raw = ops + lit + sigs if one_pass else sigs + lit
        msg = util.read_message(raw)
        same(len(msg.signatures), len(stuff), 'signatures')
        same(bool(msg.one_pass), one_pass, 'one pass')
        inner = msg.get_message()
        for s, (key, h, kind) in zip(msg.signatures, stuff):
            same((s.signature_type, s.hash_algorithm,
                  s.public_key_algorithm), (kind, h, key.alg), 'order')
            same(bool((pub if key is rsa else pub2).verify(s, inner)), True,
                 'verified')
        same(util.octets(msg), raw, 'written')
        return len(raw)
    ck.each('many-signatures', (
        (how, who, one_pass) for how in ('written', 'read')
        for one_pass in (True, False)
        for who in [w for n in range(1, 4 if not ck.thorough else 6)
                    for w in itertools.product(range(4), repeat=n)]
        + [(0, 1, 2, 3) * 2, (3, 0) * 6, (0,) * 20]), many)

    # -- one signed content per message ------------------------------------

    def contents(case):
        """A signature never covers one of several contents."""
        seq, = case
        lit = [rfc.new_packet(11, R.literal_body(b'b', b'', TIME, c))
               for c in (b'one', b'two')]
        sig = rfc.new_packet(2, R.signature_body(rsa, 0, 8, b'one'))
        ops = rfc.new_packet(4, bytes([3, 0, 8, 1])
                             + bytes.fromhex(rsa.key_id) + b'\1')
        table = {'S': sig, 'O': ops, '1': lit[0], '2': lit[1],
                 'M': rfc.new_packet(10, b'PGP'),
                 'C': rfc.new_packet(8, b'\0' + lit[1])}
        raw = b''.join(table[c] for c in seq)
        bare = seq.replace('M', '')
        first = bare[:1]
        data = [c for c in bare if c in '12C']
        try:
            msg = util.read_message(raw)
        except Exception:
            expect(bare not in ('1', '2', 'C', 'S1', 'O1S', 'SS1', 'OO1SS'),
                   'valid message refused')
            return 'refused'
        if not isinstance(msg, SignedMessageWrapper):
            expect(first not in ('S', 'O'), 'signatures lost')
            return 'unsigned'
        expect(first in ('S', 'O'), 'signed out of nothing')
        expect(len(data) == 1, 'several signed contents')
        for s in msg.signatures:
            got = msg.get_message()
            try:
                pub.verify(s, got)
                ok = True
            except Exception:
                ok = False
            same(ok, data == ['1'], 'verified')
        return seq
    ck.each('one-content', ((''.join(s),) for n in range(1, 6)
                            for s in itertools.product('SO12MC', repeat=n)),
            contents)
