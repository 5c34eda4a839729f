"""C04: signature subpackets keep type, criticality, value and order."""

import itertools

from mc.core import expect, same
from mc.ref import rfc

LEVEL = 'exploration'
TECHNIQUE = ('bounded exhaustive enumeration of signature subpackets and '
             'subpacket sequences, real codec against independent RFC 4880 '
             'layouts')
RULE = ('Every subpacket type 0-127 with and without the critical bit, the '
        'product of the field domains of every known type, every content '
        'length around the length-encoding boundaries, every ordered '
        'sequence of up to three subpackets in each of the two areas; a '
        'case is non-trivial when the subpacket has content.')
ASSUMPTIONS = ['Subpackets the library itself makes use the shortest '
               'encoding of their length; those read keep theirs.']


def pat(n, salt=0):
    return bytes((i * 11 + salt * 29 + 1) & 0xff for i in range(n))


def u16(n):
    return n.to_bytes(2, 'big')


def u32(n):
    return n.to_bytes(4, 'big')


def raw_sub(t, crit, content):
    return (rfc.new_length(len(content) + 1)
            + bytes([t | (0x80 if crit else 0)]) + content)


def run(ck):
    from pgp.packets import constants as C
    from pgp.packets import packets as P
    from pgp.packets import parsers
    from pgp.packets import signature_subpackets as SS
    from pgp import utils

    def norm(v):
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        return v

    def check(t, crit, content, cls, attrs, make):
        raw = raw_sub(t, crit, content)
        for prefix, suffix in ((b'', b''), (b'\x02\x99', b'\x03\x00')):
            data = bytearray(prefix + raw + suffix)
            sub, end = SS.signature_subpacket_from_data(data, len(prefix))
            same(end, len(prefix) + len(raw), 'offset after the subpacket')
            expect(type(sub) is cls, 'parsed as', type(sub))
            same(sub.type, t, 'type')
            same(bool(sub.critical), crit, 'critical')
            for name, want in attrs.items():
                same(norm(getattr(sub, name)), norm(want), name)
            same(bytes(sub), raw, 'written back')
            built = make()
            if built is None:
                # flags that only parsing can give
                built = SS.signature_subpacket_from_data(bytearray(raw))[0]
            same(bytes(built), raw, 'constructed and written')
            expect(sub == built, 'parsed subpacket is not the constructed')
            expect(hash(sub) == hash(built), 'hashes differ')
        return '%s-%d' % (cls.__name__, len(raw) - len(content))

    ALL = SS.SIGNATURE_SUBPACKET_TYPES

    # -- unknown types ----------------------------------------------------
    unknown = [t for t in range(128) if t not in ALL]

    def unknown_case(case):
        t, crit, n = case

        def make():
            s = SS.SignatureSubpacket.from_subpacket_content(
                t, crit, bytearray(pat(n, t)))
            return s
        check(t, crit, pat(n, t), SS.SignatureSubpacket,
              dict(content=pat(n, t)), make)
        return n and 'unknown%d' % len(rfc.new_length(n + 1))
    ck.each('unknown-types', itertools.product(
        unknown, (False, True), (0, 1, 5, 189, 190, 191, 192, 300)),
        unknown_case)
    ck.each('unknown-lengths', itertools.product(
        unknown[:1], (False, True),
        list(range(0, 600)) + list(range(8370, 8400)) + [65000]),
        unknown_case)

    # -- known types ------------------------------------------------------
    BOOLS = ((b'\x00', False), (b'\x01', True))
    TIMES = [0, 1, 255, 256, 86400, 0x7fffffff, 0x80000000, 0xffffffff]
    TEXTS = [b'', b'x', b'http://example.org/?a=b', 'caf\u00e9'.encode(),
             b'\xff\xfe', b'\x00\x01', b'a' * 189, b'a' * 190, b'b' * 191,
             b'b' * 192, b'c' * 600]

    def text(b, enc='utf8'):
        return b.decode(enc, 'surrogateescape')

    cases = []

    def add(t, content, attrs, make):
        for crit in (False, True):
            cases.append((t, crit, content, attrs, make))

    for t, cls in ((2, SS.CreationTimeSubpacket),
                   (3, SS.ExpirationSecondsSubpacket),
                   (9, SS.KeyExpirationTimeSubpacket)):
        for v in TIMES:
            add(t, u32(v), dict(time=v),
                lambda c, cls=cls, v=v: cls(c, v))
    for t, cls, attr in ((4, SS.ExportableSubpacket, 'exportable'),
                         (7, SS.RevocableSubpacket, 'revocable'),
                         (25, SS.PrimaryUserIDSubpacket, 'primary')):
        for raw, v in BOOLS:
            add(t, raw, {attr: v}, lambda c, cls=cls, v=v: cls(c, v))
    for d in range(256):
        for a in (range(256) if ck.thorough else
                  (0, 1, 59, 60, 119, 120, 127, 128, 255)):
            add(5, bytes([d, a]), dict(depth=d, amount=a),
                lambda c, d=d, a=a: SS.TrustSubpacket(c, d, a))
    for b in TEXTS[:5] + TEXTS[6:]:
        p = b.replace(b'\x00', b'0')
        add(6, p + b'\x00', dict(pattern=text(p, 'ascii')),
            lambda c, p=p: SS.RegularExpressionSubpacket(c, text(p, 'ascii')))
    for strong in (False, True):
        for alg in (1, 17, 255):
            add(10, bytes([0x80 if strong else 0, alg]) + pat(20, alg),
                dict(strong_request=strong, public_key_algorithm=alg,
                     fingerprint=pat(20, alg).hex().upper()),
                lambda c, s=strong, a=alg:
                SS.AdditionalRecipientRequestSubpacket(
                    c, s, a, pat(20, a).hex().upper()))
    for t, cls in ((11, SS.PreferredSymmetricAlgorithmsSubpacket),
                   (21, SS.PreferredHashAlgorithmsSubpacket),
                   (22, SS.PreferredCompressionAlgorithmsSubpacket)):
        for k in range(0, 5):
            for algs in itertools.product((0, 1, 9, 255), repeat=k):
                add(t, bytes(algs), dict(preferred_algorithms=list(algs)),
                    lambda c, cls=cls, algs=algs: cls(c, list(algs)))
    for sens in (False, True):
        for alg in (1, 17, 255):
            for salt in range(4):
                fp = pat(20, salt).hex().upper() if salt else '00' * 20
                add(12, bytes([0xc0 if sens else 0x80, alg])
                    + bytes.fromhex(fp),
                    dict(sensitive=sens, public_key_algorithm=alg,
                         fingerprint=fp),
                    lambda c, s=sens, a=alg, fp=fp:
                    SS.RevocationKeySubpacket(c, fp, a, s))
    for kid in ('0123456789ABCDEF', '0' * 16, '0' * 15 + '1', 'F' * 16):
        add(16, bytes.fromhex(kid), dict(key_id=kid),
            lambda c, k=kid: SS.IssuerSubpacket(c, k))
    names = [(b'n', None), (b'n', b'example.org'), (b'n', b''),
             (b'', None), (b'', b'x'), (b'a', b'b@c'),
             ('\u00e9'.encode(), '\u00e8'.encode()), (b'\xff', b'\xfe'),
             (b'x' * 200, b'y' * 60)]
    for name, ns in names:
        for human in (False, True):
            for v in TEXTS:
                nm = name + (b'' if ns is None else b'@' + ns)
                value = text(v) if human else v
                add(20, bytes([0x80 if human else 0, 0, 0, 0])
                    + u16(len(nm)) + u16(len(v)) + nm + v,
                    dict(name=text(name),
                         namespace=None if ns is None else text(ns),
                         human_readable=human, value=value),
                    lambda c, n=name, ns=ns, h=human, v=value:
                    SS.NotationSubpacket(
                        c, text(n), None if ns is None else text(ns), h, v))
    FLAGS = ('may_certify_others', 'may_sign_data', 'may_encrypt_comms',
             'may_encrypt_storage', 'may_have_been_split',
             'may_be_used_for_auth', None, 'may_have_multiple_owners')
    for v in range(256):
        attrs = {n: bool(v >> i & 1) for i, n in enumerate(FLAGS) if n}

        def make(c, v=v, attrs=attrs):
            if v & 0x40:
                return None
            return SS.KeyFlagsSubpacket(c, **attrs)
        add(27, bytes([v]), attrs, make)
    for v in range(256):
        def make(c, v=v):
            if v & 0x7f:
                return None
            return SS.KeyServerPreferencesSubpacket(c, bool(v & 0x80))
        add(23, bytes([v]), dict(no_modify=bool(v & 0x80)), make)

        def make(c, v=v):
            if v & 0xfe:
                return None
            return SS.FeaturesSubpacket(c, bool(v & 1))
        add(30, bytes([v]),
            dict(supports_modification_detection=v & 1), make)
    for t, cls, attr in ((24, SS.PreferredKeyServerSubpacket, 'uri'),
                         (26, SS.PolicyURISubpacket, 'uri'),
                         (28, SS.UserIDSubpacket, 'user_id')):
        for b in TEXTS:
            if t != 28 and not b:
                continue
            add(t, b, {attr: text(b)},
                lambda c, cls=cls, b=b: cls(c, text(b)))
    for code in range(256):
        for b in (TEXTS if code in (0, 1, 2, 3, 32, 100) else TEXTS[:3]):
            add(29, bytes([code]) + b,
                dict(revocation_code=code, revocation_reason=text(b)),
                lambda c, code=code, b=b: SS.RevocationReasonSubpacket(
                    c, code, text(b)))
    HL = {1: 16, 2: 20, 3: 20, 8: 32, 9: 48, 10: 64, 11: 28}
    for pk in (0, 1, 17, 255):
        for h in list(HL) + [100]:
            n = HL.get(h, 24)
            for digest in (pat(n, h), bytes(n), bytes(1) + pat(n - 1, h)):
                add(31, bytes([pk, h]) + digest,
                    dict(public_key_algorithm=pk, hash_algorithm=h,
                         hash=digest.hex().upper()),
                    lambda c, pk=pk, h=h, d=digest: SS.TargetSubpacket(
                        c, pk, h, d.hex().upper(), len(d)))
    # an embedded signature of either version, itself with subpackets
    sig4 = (bytes([4, 0x19, 1, 8]) + u16(6) + raw_sub(2, False, u32(77))
            + u16(10) + raw_sub(16, True, pat(8)) + b'\x12\x34'
            + rfc.mpi(12345))
    sig3 = (bytes([3, 5, 0x18]) + u32(9) + pat(8) + bytes([1, 2])
            + b'\xab\xcd' + rfc.mpi(1 << 300))
    for s in (sig4, sig3):
        add(32, s, {},
            lambda c, s=s: SS.EmbeddedSignatureSubpacket(
                c, list(parsers.parse_binary_packet_data(
                    rfc.new_packet(2, s)))[0]))

    seen = {c[0] for c in cases}
    missing = set(ALL) - seen

    def known_case(i):
        t, crit, content, attrs, make = cases[i]
        return check(t, crit, content, ALL[t], attrs, lambda: make(crit))
    ck.each('known-types', range(len(cases)), known_case)
    ck.note(known_types_without_values=sorted(missing))

    # every RFC subpacket type keeps its number
    NUMBERS = {
        'CREATION_TIME': 2, 'EXPIRATION_SECONDS': 3, 'EXPORTABLE': 4,
        'TRUST': 5, 'REGULAR_EXPRESSION': 6, 'REVOCABLE': 7,
        'KEY_EXPIRATION_TIME': 9, 'PREFERRED_SYMMETRIC_ALGORITHMS': 11,
        'REVOCATION_KEY': 12, 'ISSUER_KEY_ID': 16, 'NOTATION': 20,
        'PREFERRED_HASH_ALGORITHMS': 21,
        'PREFERRED_COMPRESSION_ALGORITHMS': 22,
        'KEY_SERVER_PREFERENCES': 23, 'PREFERRED_KEY_SERVER': 24,
        'PRIMARY_USER_ID': 25, 'POLICY_URI': 26, 'KEY_FLAGS': 27,
        'ISSUERS_USER_ID': 28, 'REVOCATION_REASON': 29, 'FEATURES': 30,
        'TARGET': 31, 'EMBEDDED_SIGNATURE': 32,
        }

    def number(name):
        same(getattr(C, name + '_SUBPACKET_TYPE'), NUMBERS[name], name)
        expect(NUMBERS[name] in ALL, 'type not parsed')
        return name
    ck.each('type-numbers', sorted(NUMBERS), number)

    # -- multi-octet flags: the octets that are not known are kept --------
    def flags(case):
        t, crit, octets = case
        raw = raw_sub(t, crit, octets)
        sub, _ = SS.signature_subpacket_from_data(bytearray(raw), 0)
        same(bytes(sub), raw, 'written back')
        return len(octets)
    ck.each('long-flags', (
        (t, c, bytes(o)) for t in (23, 27, 30) for c in (False, True)
        for k in (2, 3, 4)
        for o in itertools.product((0, 1, 0x40, 0x80, 0xff), repeat=k)),
        flags)

    # -- sequences in both areas of a signature ---------------------------
    atoms = [(2, False, u32(5)), (2, True, u32(6)), (16, False, pat(8)),
             (16, True, pat(8, 1)), (101, False, pat(3)), (99, True, b''),
             (20, False, bytes([0x80, 0, 0, 0]) + u16(3) + u16(1) + b'a@bc'),
             (20, False, bytes([0x80, 0, 0, 0]) + u16(3) + u16(1) + b'a@bd'),
             (28, False, b'q' * 191), (28, False, b'q' * 190),
             (27, False, b'\x03'), (32, False, sig4)]

    def area(case):
        hashed, unhashed = case
        hraw = b''.join(raw_sub(*atoms[i]) for i in hashed)
        uraw = b''.join(raw_sub(*atoms[i]) for i in unhashed)
        body = (bytes([4, 0x13, 1, 8]) + u16(len(hraw)) + hraw
                + u16(len(uraw)) + uraw + b'\x12\x34' + rfc.mpi(99))
        raw = rfc.new_packet(2, body)
        p, = parsers.parse_binary_packet_data(raw)
        for got, want in ((p.hashed_subpackets, hashed),
                          (p.unhashed_subpackets, unhashed)):
            same([(s.type, bool(s.critical), bytes(s.content)) for s in got],
                 [atoms[i] for i in want], 'subpackets')
        same(p.signature_values, [99], 'values after the subpackets')
        same(bytes(p), raw, 'signature written back')
        return len(hashed), len(unhashed)
    idx = range(len(atoms))
    shapes = [(h, u) for k in (0, 1, 2) for h in itertools.product(
        idx, repeat=k) for j in (0, 1) for u in itertools.product(
        idx, repeat=j)]
    shapes += [((), u) for u in itertools.product(idx, repeat=2)]
    top = idx if ck.thorough else idx[:8]
    shapes += [(h, ()) for h in itertools.product(top, repeat=3)]
    shapes += [((), h) for h in itertools.product(top, repeat=3)]
    ck.each('sequences', shapes, area)

    # -- every form of the length ------------------------------------------
    def form_bytes(n, form):
        return {1: lambda: bytes([n]),
                2: lambda: bytes([((n - 192) >> 8) + 192, (n - 192) & 0xff]),
                5: lambda: b'\xff' + n.to_bytes(4, 'big')}[form]()

    def length_form(case):
        packet, size, form, pos = case
        one = form_bytes(size, form) + b'\x64' + pat(size - 1, 2)
        other = b'\x05\x65' + u32(7)
        area = {'alone': one, 'first': one + other, 'last': other + one}[pos]
        if packet == 'attribute':
            raw = rfc.new_packet(17, area)
        else:
            h, u = (area, b'') if packet == 'hashed' else (b'', area)
            raw = rfc.new_packet(2, bytes([4, 0x13, 1, 8]) + u16(len(h)) + h
                                 + u16(len(u)) + u + b'\x12\x34'
                                 + rfc.mpi(99))
        p, = parsers.parse_binary_packet_data(raw)
        subs = {'attribute': lambda: p.subpackets,
                'hashed': lambda: p.hashed_subpackets,
                'unhashed': lambda: p.unhashed_subpackets}[packet]()
        mine = subs[-1 if pos == 'last' else 0]
        same(len(subs), 1 if pos == 'alone' else 2, 'subpackets')
        same(bytes(mine.content), pat(size - 1, 2), 'content')
        p._content = None
        same(bytes(p), raw, 'written back')
        return form, packet
    ck.each('length-forms', [
        (k, size, form, pos) for k in ('hashed', 'unhashed', 'attribute')
        for form, sizes in (
            (1, (1, 2, 191)),
            (2, (192, 193, 447, 448, 8383, 8384, 8400, 12345, 16319)),
            (5, (1, 2, 191, 192, 193, 8383, 8384, 16319, 16320, 50000)))
        for size in sizes for pos in ('alone', 'first', 'last')],
        length_form)

    # -- a subpacket running past its area is not accepted -----------------
    def overrun(case):
        packet, size, over, form = case
        content = pat(size - 1, 2)
        one = form_bytes(size + over, form) + b'\x64' + content
        if packet == 'attribute':
            raw = rfc.new_packet(17, one)
        else:
            h, u = (one, b'') if packet == 'hashed' else (b'', one)
            raw = rfc.new_packet(2, bytes([4, 0x13, 1, 8]) + u16(len(h)) + h
                                 + u16(len(u)) + u + b'\x12\x34'
                                 + rfc.mpi(2 ** 2000 + 1) * 2)
        try:
            list(parsers.parse_binary_packet_data(raw))
        except Exception:
            return over
        raise AssertionError('a subpacket past the end was accepted')
    ck.each('overruns', [
        (k, size, over, form) for k in ('hashed', 'unhashed', 'attribute')
        for size in (1, 2, 10, 100) for over in (1, 2, 3, 5, 50)
        for form in (1, 5)], overrun)

    def unequal(case):
        i, j = case
        a = cases[i]
        b = cases[j]
        ra, rb = raw_sub(*a[:3]), raw_sub(*b[:3])
        sa, _ = SS.signature_subpacket_from_data(bytearray(ra), 0)
        sb, _ = SS.signature_subpacket_from_data(bytearray(rb), 0)
        same(sa == sb, ra == rb, 'equality of subpackets')
        return ra == rb or 'unequal'
    step = max(1, len(cases) // 260)
    sample = range(0, len(cases), step)
    ck.each('equality', itertools.product(sample, sample), unequal)

    # -- what does not fit is refused, when it is made or when it is written --

    def notation(n, field, human):
        text = 'x' * n
        return SS.NotationSubpacket(
            False, text if field == 'name' else 'n',
            text if field == 'namespace' else None, human,
            text if field == 'value' and human else
            bytearray(text.encode()) if field == 'value' else
            'v' if human else bytearray(b'v'))
    FIELDS = {
        'creation time': (4, lambda v: SS.CreationTimeSubpacket(False, v),
                          lambda s: s.time),
        'expiration': (4, lambda v: SS.ExpirationSecondsSubpacket(False, v),
                       lambda s: s.time),
        'key expiration': (4, lambda v: SS.KeyExpirationTimeSubpacket(
            True, v), lambda s: s.time),
        'trust depth': (1, lambda v: SS.TrustSubpacket(False, v, 3),
                        lambda s: s.depth),
        'trust amount': (1, lambda v: SS.TrustSubpacket(False, 3, v),
                         lambda s: s.amount),
        'reason': (1, lambda v: SS.RevocationReasonSubpacket(False, v, 'r'),
                   lambda s: s.revocation_code),
        'cipher': (1, lambda v: SS.PreferredSymmetricAlgorithmsSubpacket(
            False, [9, v]), lambda s: s.preferred_algorithms[1]),
        'digest': (1, lambda v: SS.PreferredHashAlgorithmsSubpacket(
            False, [v, 8]), lambda s: s.preferred_algorithms[0]),
        'compression': (
            1, lambda v: SS.PreferredCompressionAlgorithmsSubpacket(
                False, [v]), lambda s: s.preferred_algorithms[0]),
        'target algorithm': (1, lambda v: SS.TargetSubpacket(
            False, v, 8, 'AB' * 32), lambda s: s.public_key_algorithm),
    }
    for field in ('name', 'namespace', 'value'):
        for human in (True, False):
            FIELDS['notation %s %s' % (field, human)] = (
                2, (lambda v, f=field, h=human: notation(v, f, h)),
                (lambda s, f=field: len(getattr(s, f) or '')))

    def limit(case):
        name, v = case
        octets, make, read = FIELDS[name]
        top = 1 << 8 * octets
        if name.startswith('notation namespace'):
            top -= 2
        try:
            raw = bytes(make(v))
        except Exception:
            expect(not 0 <= v < top, 'what fits is refused', name, v)
            return 'refused'
        got, end = SS.signature_subpacket_from_data(bytearray(raw), 0)
        same(end, len(raw), 'octets')
        same(read(got), v, 'what is written of %s' % name)
        return 'kept'
    ck.each('limits', (
        (name, v) for name in sorted(FIELDS)
        for v in ([0] if 'namespace' not in name else [])
        + [1, 100, 255, 256, 257, 65533, 65534, 65535, 65536, 65537, 70000]
        + ([-1, -256, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 40]
           if 'notation' not in name else [131072])), limit)
