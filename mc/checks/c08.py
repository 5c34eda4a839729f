"""C08: reading any octets ends, and what was read can be asked and written."""

import itertools

from mc import util
from mc.core import expect, same, Mismatch
from mc.ref import armor as RA
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive fault enumeration: every truncation, deletion, '
             'insertion and replacement of an octet of sample keys and '
             'messages, every short input, every length of every subpacket, '
             'specifier and packet body')
RULE = ('All single-octet faults of the samples and all short packets and '
        'fields; each is read as packets and as a key or message. It is '
        'refused by an exception, or what it gives can be written, is read '
        'again as the same octets, and all of its attributes can be asked.')
ASSUMPTIONS = ['Which exception refuses damaged octets is left open.',
               'A regular expression may be refused when it is asked for, '
               'since Python has other ones.',
               'Which damaged octets are accepted is left to C01 to C05; '
               'here only that the packets before the damage are the same.']

T = 1400000000


def run(ck):
    import pgp
    from pgp.exceptions import CannotParseCriticalNotation
    from pgp.packets import parse_binary_packet_data

    prim = R.Key('rsa_s1', created=1100000000)
    sub = R.Key('rsa_s2', created=1100000001)
    elg = R.Key('elg_a', created=1100000002)
    dsa = R.Key('dsa_a', created=1100000003)
    old = R.Key('rsa_s2', version=3, created=1000000005)
    guard = {'usage': 254, 'alg': 9, 'passphrase': b'pw',
             'iv': bytes(range(16)), 's2k': (3, 8, b'saltsalt', 0)}
    session = util.pattern(32, 5)
    literal = rfc.new_packet(11, R.literal_body(b'b', b'n', T, b'con\ntent'))
    photo = b'\x01\x10\0\1\1' + bytes(12) + b'JPEG'
    photo = bytes([len(photo)]) + photo
    back = R.signature_body(dsa, 0x19, 8, b'x')
    area = b''.join(R.subpacket(t, b) for t, b in [
        (2, (1200000000).to_bytes(4, 'big')), (3, b'\0\0\0\x63'), (4, b'\1'),
        (5, b'\1\x78'), (6, b'<[^>]+[@.]x\\.y>$\0'), (7, b'\1'),
        (9, b'\0\0\xff\xff'), (10, b'\x80\1' + bytes(20)), (11, b'\x09\x02'),
        (12, b'\x80\1' + bytes(20)), (16, bytes.fromhex(dsa.key_id)),
        (20, b'\x80\0\0\0\0\1\0\1nv'), (21, b'\x08'), (22, b'\x02\x01'),
        (23, b'\x80'), (24, b'a://b'), (25, b'\1'), (26, b'p://q'),
        (27, b'\3'), (28, b'me'), (29, b'\1x'), (30, b'\1'),
        (31, b'\1\x08' + bytes(32)), (32, back), (100, b'private')])
    one_pass = rfc.new_packet(4, b'\3\1\x08\1' + bytes.fromhex(prim.key_id)
                              + b'\1')
    revocation = rfc.new_packet(2, R.signature_body(
        prim, 0x30, 8, R.on_user_id(prim, b'Al <a@b>', 4)))
    SAMPLES = {
        'public': R.certificate(prim, [b'Al (c) <a@b>'], [sub]),
        'subpackets': R.certificate(prim, [b'Al <a@b>'], direct=[area])
        + revocation,
        'secret': R.certificate(dsa, [b'Al <a@b>'], [elg], secret=True),
        'locked': R.certificate(dsa, [b'D'], [elg], secret=True,
                                protect=guard),
        'version 3': R.certificate(old, secret=True, new=True),
        'photo': rfc.packet(False, 6, dsa.public_body)
        + rfc.packet(True, 17, photo) + rfc.packet(True, 2, R.signature_body(
            dsa, 0x13, 8, R.on_attribute(dsa, photo))),
        'literal': literal,
        'text': rfc.new_packet(11, R.literal_body(
            b'u', b'', T, 'z\u00e9\r\nz'.encode('utf8'))),
        'signed': one_pass + literal + rfc.new_packet(2, R.signature_body(
            prim, 1, 8, b'con\r\ntent')),
        'signed before': rfc.packet(False, 2, R.signature_body(
            old, 0, 2, b'con\ntent', version=3)) + literal,
        'compressed': rfc.new_packet(8, b'\0' + literal),
        'symmetric': rfc.new_packet(3, R.skesk_body(
            9, 3, 8, b'pw', b'saltsalt', 0, 9, session))
        + rfc.new_packet(18, R.seipd_body(9, session, literal,
                                          util.pattern(16, 3))),
        'encrypted': rfc.new_packet(1, R.pkesk_body(elg, 9, session))
        + rfc.new_packet(9, R.sed_body(9, session, literal,
                                       util.pattern(16, 3))),
        'other': rfc.new_packet(10, b'PGP') + rfc.new_packet(12, b'\1\2')
        + rfc.new_packet(60, b'private'),
    }
    KEYS = ('public', 'subpackets', 'secret', 'locked', 'version 3', 'photo')
    READERS = {
        'packets': lambda d: list(parse_binary_packet_data(d)),
        'key': pgp.read_key,
        'message': pgp.read_message,
    }

    def written(how, o):
        if how == 'packets':
            return b''.join(bytes(p) for p in o)
        return b''.join(bytes(p) for p in o.to_packets())

    def ask(o, seen):
        """Ask for everything that can be asked."""
        if isinstance(o, (list, tuple)):
            for x in o:
                ask(x, seen)
            return
        if id(o) in seen or not type(o).__module__.startswith('pgp'):
            return
        seen[id(o)] = o
        for name in ['repr'] + dir(o):
            if name.startswith('_'):
                continue
            try:
                value = repr(o) if name == 'repr' else getattr(o, name)
            except Exception as e:
                if name == 'regular_expressions' \
                        or isinstance(e, CannotParseCriticalNotation):
                    continue
                raise Mismatch('%s of %s cannot be asked: %s: %s' % (
                    name, type(o).__name__, type(e).__name__, e))
            if not callable(value):
                ask(value, seen)

    def areas(body):
        if body[0] != 4:
            return 19
        at = 6 + int.from_bytes(body[4:6], 'big')
        return at + 2 + int.from_bytes(body[at:at + 2], 'big') + 2

    ASKED = set()

    def read(how, data, whole=True):
        try:
            o = READERS[how](data)
        except Exception as e:
            return 'refused: ' + type(e).__name__, None
        expect(o is not None, 'reading gave nothing')
        try:
            octets = written(how, o)
        except Exception as e:
            raise Mismatch('what was read cannot be written: %s: %s' % (
                type(e).__name__, e))
        try:
            again = written(how, READERS[how](octets))
        except Exception as e:
            raise Mismatch('what was written cannot be read: %s: %s' % (
                type(e).__name__, e))
        same(again, octets, 'octets that were read and written again')
        if how == 'packets':
            parts, now = rfc.split_packets(data), rfc.split_packets(octets)
        else:
            # other packets than those of the key or message are dropped
            parts = now = ()
        for (tag, old), (_, new) in zip(parts, now):
            # what is hashed, of which no other writing is the same
            if tag in (13, 17):
                same(new, old, 'a user ID or attribute')
            elif tag == 2:
                same(new[:areas(old)], old[:areas(old)],
                     'the areas of a signature')
        if whole and how == 'packets':
            # most packets are the ones of the sample
            for p, (_, body) in zip(o, now):
                case = type(p), p.header_format, body
                if case not in ASKED:
                    ask(p, {})
                    if len(ASKED) < 1000:
                        ASKED.add(case)
        elif whole:
            ask(o, {})
        return 'accepted%s' % (octets == bytes(data)), o

    for name, data in SAMPLES.items():
        how = 'key' if name in KEYS else 'message'
        if name != 'other':
            same(read(how, data)[0], 'acceptedTrue', name)
        same(read('packets', data)[0], 'acceptedTrue', name)

    # -- one octet -----------------------------------------------------

    def ends(data):
        """Where the packets of a sample end."""
        out, at = [], 0
        for p in parse_binary_packet_data(data):
            at += len(bytes(p))
            out.append(at)
        same(at, len(data), 'length')
        return out

    ENDS = {name: ends(data) for name, data in SAMPLES.items()}

    VALUES = (0, 1, 4, 0x7f, 0x80, 0xff)

    def faults(data, at):
        d, c = data, data[at]
        yield d[:at]
        yield d[:at] + d[at + 1:]
        yield d[:at] + d[at:at + 1] + d[at:]
        values = set(range(256)) if ck.thorough else set(
            VALUES + (c ^ 0x80, c ^ 0x40, c ^ 0x20, c ^ 1,
                      (c + 1) & 255, (c - 1) & 255))
        for v in sorted(values - {c}):
            yield d[:at] + bytes([v]) + d[at + 1:]
        for v in (0, 0xff, 0x80):
            yield d[:at] + bytes([v]) + d[at:]
        # the rest of the input is something else
        yield d[:at] + bytes(len(d) - at)
        yield d[:at] + b'\xff' * (len(d) - at)
        yield d[:at] + d

    def numbers(data):
        """Positions within numbers, where no octet has a meaning."""
        out = set()
        for tag, body, _, end in rfc.packet_spans(data):
            if tag == 2:
                at, count = areas(body), 99
            elif tag in (5, 6, 7, 14):
                at = 6 if body[0] == 4 else 8
                count = {1: 2, 17: 4, 16: 3}[body[at - 1]]
            else:
                continue
            while count and at < len(body):
                after = rfc.read_mpi(body, at)[1]
                out.update(end - len(body) + i
                           for i in range(at + 3, after - 1))
                at, count = after, count - 1
        return out

    INNER = {name: numbers(data) for name, data in SAMPLES.items()}

    def one_octet(case):
        name, at = case
        data = SAMPLES[name]
        out = set()
        before = [e for e in ENDS[name] if e <= at]
        count = len(before)
        head = data[:before[-1]] if before else b''
        for bad in faults(data, at):
            got, o = read('packets', bad)
            out.add(got)
            if o is not None:
                same(b''.join(bytes(p) for p in o[:count]), head,
                     'the packets before the damage')
            if name != 'other':
                how = 'key' if name in KEYS else 'message'
                out.add(read(how, bytearray(bad), ck.thorough
                             or at not in INNER[name])[0])
            ck.alive()
        return repr(sorted(out))
    ck.each('one-octet', [(n, at) for n in SAMPLES
                          for at in range(len(SAMPLES[n]))],
            one_octet, workers=8)

    # -- short inputs ------------------------------------------------------

    def short(case):
        out = set()
        for rest in itertools.product(*case[1:]):
            out.add(read('packets', bytes((case[0],) + rest))[0])
        ck.alive()
        return repr(sorted(out))
    FEW = (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 18, 31, 63, 64, 99, 100, 101,
           127, 128, 129, 191, 192, 193, 223, 224, 239, 254, 255)
    EVERY = tuple(range(256))
    ck.each('short', [(h,) + rest for h in EVERY for rest in (
        [(), (EVERY,), (EVERY, FEW), (FEW[:9] + FEW[-9:], FEW[:12], FEW)]
        + [(EVERY, EVERY), (FEW, FEW, FEW)] * ck.thorough)],
        short, workers=8)

    # -- bodies of packets, by their first octets --------------------------

    FILL = (b'\0', b'\1', b'\2', b'\3', b'\4', b'\xff', b'\x08\1',
            b'\0\1\2\3\4\5\6\7', b'\x80\x40', b'\x65')

    def bodies(case):
        tag, first = case
        out = set()
        for fill in FILL:
            for size in list(range(0, 48)) + [63, 64, 65, 100, 191, 192, 300]:
                body = (first + fill * size)[:len(first) + size]
                for new in (True, False):
                    if new or tag < 16:
                        out.add(read('packets', rfc.packet(new, tag, body))[0])
        ck.alive()
        return repr(sorted(out))
    ck.each('bodies', [(tag, bytes(first)) for tag in range(1, 64)
                       for first in [()] + [(a,) for a in (1, 2, 3, 4, 5)]
                       + [(a, b) for a in (3, 4) for b in (
                           0, 1, 2, 3, 7, 9, 10, 16, 17, 18, 20, 22, 99)]],
            bodies, workers=8)

    # -- subpackets of any size ---------------------------------------------

    def subpackets(case):
        kind, critical = case
        out = set()
        for fill in FILL if ck.thorough else FILL[:2] + FILL[5:9]:
            for size in list(range(0, 48) if ck.thorough else range(0, 12)) + [
                    19, 20, 21, 22, 23, 190, 191, 192, 300]:
                content = (fill * size)[:size]
                s = R.subpacket(kind | critical, content)
                for area in (R.created(T) + s, s + s):
                    for where in ('hashed', 'unhashed'):
                        body = R.signature_body(
                            prim, 0x1f, 8, prim.hashed, **{where: area})
                        if where == 'unhashed' and area == s + s:
                            continue
                        key = rfc.packet(True, 6, prim.public_body) \
                            + rfc.packet(True, 2, body)
                        out.add(read('key', key)[0])
            ck.alive()
        return repr(sorted(out))
    KINDS = list(range(0, 40)) + [60, 63, 64, 100, 101, 110, 111, 127]
    ck.each('subpackets', [(k, c) for k in KINDS for c in (0, 0x80)],
            subpackets, workers=8)

    def attributes(kind):
        out = set()
        for fill in FILL:
            for size in list(range(0, 48)) + [190, 191, 192, 300]:
                content = (fill * size)[:size]
                s = R.subpacket(kind, content)
                for n in (1, 2):
                    out.add(read('key', rfc.packet(
                        True, 6, prim.public_body)
                        + rfc.packet(True, 17, s * n))[0])
                    image = R.subpacket(kind, b'\x10\0\1' + content)
                    out.add(read('packets', rfc.packet(
                        True, 17, image * n))[0])
        return repr(sorted(out))
    ck.each('attributes', range(256), attributes, workers=8)

    # -- specifiers and values of secret keys --------------------------------

    def specifiers(case):
        usage, alg = case
        out = set()
        for kind in (0, 1, 2, 3, 4, 100, 101, 255):
            for digest in (0, 1, 2, 8, 99, 255):
                for rest in range(0, 40):
                    for fill in (b'\0', b'\xff', b'GNU\1', b'GNU\2\x10',
                                 b'GNU\2\1', b'GNU\3', b'\x60'):
                        end = (fill + fill[-1:] * rest)[:rest]
                        body = prim.public_body + bytes(
                            [usage, alg, kind, digest]) + end
                        out.add(read('packets', rfc.packet(True, 5, body))[0])
                        out.add(read('packets', rfc.packet(
                            True, 3, bytes([4, alg, kind, digest]) + end))[0])
            ck.alive()
        return repr(sorted(out))
    ck.each('specifiers', [(u, a) for u in (0, 1, 7, 9, 10, 254, 255)
                           for a in (0, 1, 2, 7, 9, 10, 13, 99, 255)],
            specifiers, workers=8)

    # -- nesting ----------------------------------------------------------

    def nested(case):
        what, depth = case
        if what == 'signatures':
            body = back
            for _ in range(depth):
                body = R.signature_body(
                    prim, 0x18, 8, b'x',
                    hashed=R.created(T) + R.subpacket(32, body))
            return read('packets', rfc.packet(True, 2, body))[0]
        if what == 'groups':
            regex = b'(' * depth + b'a' + b')' * depth + b'\0'
            body = R.signature_body(prim, 0x1f, 8, prim.hashed,
                                    hashed=R.created(T)
                                    + R.subpacket(6, regex))
            return read('packets', rfc.packet(True, 2, body))[0]
        if what == 'comments':
            name = b'a ' + b'(' * depth + b'c' + b')' * depth + b' <a@b>'
        elif what == 'open':
            name = b'(' * depth
        elif what == 'angles':
            name = b'<' * depth + b'a@b' + b'>' * depth
        elif what == 'routes':
            name = b'a <' + b'@x,' * depth + b':a@b>'
        elif what == 'messages':
            data = literal
            for _ in range(depth):
                data = rfc.new_packet(8, b'\0' + data)
            m = pgp.read_message(data)
            for _ in range(depth):
                m = m.get_message()
            same(written('message', m), literal, 'content')
            return depth
        got, o = read('packets', rfc.packet(True, 13, name))
        key = rfc.packet(True, 6, prim.public_body) + rfc.packet(
            True, 13, name)
        k = pgp.read_key(key)
        same(written('key', k), key, 'octets')
        for part in ('user_name', 'user_email', 'user_comment'):
            try:
                getattr(k.user_ids[0], part)
            except RecursionError:
                pass
        return got
    ck.each('nested', [
        (w, d) for w in ('signatures', 'groups', 'comments', 'open',
                         'angles', 'routes', 'messages')
        for d in list(range(1, 12)) + [30, 100, 300, 1000]
        if not (w == 'signatures' and d > 100)], nested, workers=8)

    # -- armor ------------------------------------------------------------

    def armored(case):
        name, at = case
        text = TEXTS[name]
        out = set()
        reader = pgp.read_key if name in KEYS else pgp.read_message
        c = text[at]
        for bad in [text[:at], text[:at] + text[at + 1:],
                    text[:at] + c + text[at:]] + [
                        text[:at] + x + text[at + more:]
                        for x in '\n\r =-:Aa/\0\u00e9\U00010000'
                        for more in (0, 1)]:
            for given in (bad, bad.encode('utf8')):
                try:
                    o = reader(given, armored=True)
                except Exception as e:
                    out.add(type(e).__name__)
                    continue
                expect(o is not None, 'nothing')
                octets = b''.join(bytes(p) for p in o.to_packets())
                same(octets, SAMPLES[name], 'content of damaged armor')
                out.add('same')
        ck.alive()
        return repr(sorted(out))
    TEXTS = {
        'photo': RA.write('PGP PUBLIC KEY BLOCK', SAMPLES['photo'],
                          [('Comment', 'a: b')]),
        'literal': RA.write('PGP MESSAGE', literal),
    }
    ck.each('armor', [(n, at) for n in TEXTS for at in range(len(TEXTS[n]))],
            armored, workers=8)

    # -- what is within compressed and encrypted data ------------------------

    def within(case):
        name, how, at = case
        data = SAMPLES[name]
        out = set()
        for bad in faults(data, at):
            if how == 'compressed':
                m = pgp.read_message(rfc.new_packet(8, b'\0' + bad))
                call = m.get_message
            else:
                m = pgp.read_message(
                    rfc.new_packet(3, R.skesk_body(
                        7, 0, 2, b'pw', b'', 0, 7, session[:16]))
                    + rfc.new_packet(18, R.seipd_body(
                        7, session[:16], bad, util.pattern(16, 3))))
                def call():
                    return m.get_message('pw')
            try:
                o = call()
            except Exception as e:
                out.add(type(e).__name__)
                continue
            if o is None:
                out.add('nothing')
                continue
            octets = written('message', o)
            same(written('message', pgp.read_message(octets)), octets,
                 'octets')
            out.add('accepted')
        ck.alive()
        return repr(sorted(out))
    ck.each('within', [(n, how, at) for n in ('literal', 'text', 'signed')
                       for how in ('compressed', 'encrypted')
                       for at in range(len(SAMPLES[n]))],
            within, workers=8)

    # -- compressed data --------------------------------------------------

    def compressed(case):
        alg, at = case
        data = PACKED[alg]
        out = set()
        if at >= len(data):
            return None
        for bad in faults(data, at):
            m = pgp.read_message(rfc.new_packet(8, bytes([alg]) + bad))
            try:
                o = m.get_message()
            except Exception as e:
                out.add(type(e).__name__)
                continue
            out.add('nothing' if o is None else 'accepted')
        ck.alive()
        return repr(sorted(out))
    PACKED = {alg: compress(alg, literal * 1) for alg in (1, 2, 3)}
    ck.each('compressed', [(a, at) for a in PACKED
                           for at in range(len(PACKED[a]))],
            compressed, workers=8)


def compress(alg, data):
    import bz2
    import zlib
    if alg == 3:
        return bz2.compress(data)
    c = zlib.compressobj(9, zlib.DEFLATED, -15 if alg == 1 else 15)
    return c.compress(data) + c.flush()
