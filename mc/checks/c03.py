"""C03: every packet type's fields survive parsing and serialising."""

import hashlib
import io
import itertools

from mc.core import expect, same, Mismatch
from mc.ref import rfc

LEVEL = 'exploration'
TECHNIQUE = ('bounded exhaustive enumeration of packet field values per '
             'packet type, real parser and serialiser against independent '
             'RFC 4880 layouts')
RULE = ('For each packet type the product of its field domains (boundary '
        'values of every field) in both header formats; a case is '
        'non-trivial when the parsed packet carries fields besides its tag.')
ASSUMPTIONS = ['Multiprecision integers and lengths inside the layouts come '
               'from the reference codec of C02.']

KEYIDS = ['0123456789ABCDEF', '00000000000000A1', 'FFFFFFFFFFFFFFFF']
TIMES = [0, 1, 0x7fffffff, 0x80000000, 0xffffffff]
NUMS = [1, 0x80, 0xff, 0x100, (1 << 127) + 5, (1 << 1024) - 1, 1 << 1024]


def pat(n, salt=0):
    return bytes((i * 7 + salt * 31 + 3) & 0xff for i in range(n))


def u16(n):
    return n.to_bytes(2, 'big')


def u32(n):
    return n.to_bytes(4, 'big')


def run(ck):
    from pgp import s2k
    from pgp.packets import constants as C
    from pgp.packets import packets as P
    from pgp.packets import parsers
    from pgp.packets import signature_subpackets as SS
    from pgp.packets import user_attribute_subpackets as US

    FORMATS = ((True, C.NEW_PACKET_HEADER_TYPE),
               (False, C.OLD_PACKET_HEADER_TYPE))

    def norm(v):
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        if isinstance(v, (list, tuple)):
            return [norm(x) for x in v]
        return v

    def roundtrip(cls, tag, body, attrs, make, formats=FORMATS):
        """body: reference octets; attrs: expected fields; make(fmt): the
        constructor call that must give the same packet."""
        for new, fmt in formats:
            if not new and tag > 15:
                continue
            raw = rfc.packet(new, tag, body)
            built = make(fmt)
            same(bytes(built), raw, 'serialised %s' % cls.__name__)
            for packets in (list(parsers.parse_binary_packet_data(raw)),
                            list(parsers.parse_binary_packet_stream(
                                io.BytesIO(raw)))):
                same(len(packets), 1, 'number of packets')
                p = packets[0]
                expect(type(p) is cls, 'parsed as', type(p))
                same(p.header_format, fmt, 'header format')
                same(p.type, tag, 'packet tag')
                for name, want in attrs.items():
                    same(norm(getattr(p, name)), norm(want), name)
                    same(norm(getattr(built, name)), norm(want),
                         'constructed ' + name)
                same(bytes(p), raw, 'parsed packet written back')
                same(p == built, True, 'parsed packet equals constructed')
        return repr(sorted(attrs))[:60]

    # -- session key packets ----------------------------------------------
    def pkesk(case):
        ver, kid, alg, esk = case
        body = bytes([ver]) + bytes.fromhex(kid) + bytes([alg]) + esk
        want = None if kid == '0' * 16 else kid
        return roundtrip(
            P.PublicKeyEncryptedSessionKeyPacket, 1, body,
            dict(version=ver, key_id=want, public_key_algorithm=alg,
                 encrypted_session_key=esk),
            lambda f: P.PublicKeyEncryptedSessionKeyPacket(
                f, ver, want, alg, bytearray(esk)))
    ck.each('public-key-session-key', itertools.product(
        (2, 3, 255), KEYIDS + ['0' * 16, '0' * 15 + '1'], (1, 2, 16, 99, 255),
        (b'', rfc.mpi(1), rfc.mpi(NUMS[-1]), rfc.mpi(7) + rfc.mpi(300),
         pat(260))), pkesk)

    SALT = pat(8, 5)
    s2ks = [('simple', 0, lambda h: (bytes([0, h]),
                                     lambda a: s2k.SimpleS2K(h, a))),
            ('salted', 1, lambda h: (bytes([1, h]) + SALT,
                                     lambda a: s2k.SaltedS2K(h, a, SALT)))]

    def s2k_spec(kind, h, octet, sym):
        if kind == 0:
            return bytes([0, h]), s2k.SimpleS2K(h, sym)
        if kind == 1:
            return (bytes([1, h]) + SALT,
                    s2k.SaltedS2K(h, sym, bytearray(SALT)))
        count = (16 + (octet & 15)) << ((octet >> 4) + 6)
        return (bytes([3, h]) + SALT + bytes([octet]),
                s2k.IteratedAndSaltedS2K(h, sym, bytearray(SALT), count))

    def skesk(case):
        kind, h, octet, sym, esk = case
        raw, _ = s2k_spec(kind, h, octet, sym)
        body = bytes([4, sym]) + raw + esk
        got = roundtrip(
            P.SymmetricKeyEncryptedSessionKeyPacket, 3, body,
            dict(version=4, symmetric_algorithm=sym,
                 encrypted_session_key=esk),
            lambda f: P.SymmetricKeyEncryptedSessionKeyPacket(
                f, 4, sym, s2k_spec(kind, h, octet, sym)[1], bytearray(esk)))
        p = list(parsers.parse_binary_packet_data(
            rfc.new_packet(3, body)))[0]
        same(bytes(p.s2k_specification), raw, 's2k specifier')
        same(p.s2k_specification.hash_algorithm, h, 's2k hash')
        return got
    ck.each('symmetric-key-session-key', itertools.chain(
        itertools.product((0, 1), (1, 2, 3, 8, 9, 10, 11), (0,),
                          (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13),
                          (b'', pat(17), pat(25), pat(33))),
        itertools.product((3,), (2, 8), range(256), (7, 9),
                          (b'', pat(33)))), skesk)

    # -- one-pass signatures ----------------------------------------------
    def onepass(case):
        ver, st, h, pk, kid, nested = case
        body = (bytes([ver, st, h, pk]) + bytes.fromhex(kid)
                + bytes([nested]))
        return roundtrip(
            P.OnePassSignaturePacket, 4, body,
            dict(version=ver, signature_type=st, hash_algorithm=h,
                 public_key_algorithm=pk, key_id=kid, nested=nested),
            lambda f: P.OnePassSignaturePacket(f, ver, st, h, pk, kid,
                                               nested))
    ck.each('one-pass-signature', itertools.product(
        (3,), (0, 1, 0x10, 0xff), (1, 2, 8, 255), (1, 17, 255),
        KEYIDS + ['0' * 16], (0, 1, 255)), onepass)

    # -- keys -------------------------------------------------------------
    def pub_body(ver, time, days, alg, vals):
        body = bytes([ver]) + u32(time)
        if ver < 4:
            body += u16(days)
        return body + bytes([alg]) + b''.join(rfc.mpi(v) for v in vals)

    FIELDS = {1: ('modulus', 'exponent'), 2: ('modulus', 'exponent'),
              3: ('modulus', 'exponent'),
              16: ('prime', 'group_generator', 'key_value'),
              20: ('prime', 'group_generator', 'key_value'),
              17: ('prime', 'group_order', 'group_generator', 'key_value')}

    def fingerprint(ver, body, vals):
        if ver < 4:
            raw = b''.join(v.to_bytes((v.bit_length() + 7) // 8, 'big')
                           for v in vals)
            return hashlib.md5(raw).hexdigest().upper()
        return hashlib.sha1(b'\x99' + u16(len(body)) + body) \
            .hexdigest().upper()

    def key_id(ver, body, vals):
        if ver < 4:
            return '%016X' % (vals[0] & (1 << 64) - 1)
        return fingerprint(ver, body, vals)[-16:]

    def pubkey(case):
        tag, ver, time, days, alg, vals = case
        cls = {6: P.PublicKeyPacket, 14: P.PublicSubkeyPacket}[tag]
        body = pub_body(ver, time, days, alg, vals)
        attrs = dict(version=ver, creation_time=time,
                     public_key_algorithm=alg,
                     expiration_days=days if ver < 4 else None,
                     fingerprint=fingerprint(ver, body, vals),
                     key_id=key_id(ver, body, vals))
        kw = dict(zip(FIELDS[alg], vals))
        attrs.update(kw)
        return roundtrip(
            cls, tag, body, attrs,
            lambda f: cls(f, ver, time, alg,
                          expiration_days=days if ver < 4 else None, **kw))

    def key_values(alg, dense):
        n = len(FIELDS[alg])
        # each field takes every boundary value while the others differ
        out = []
        base = [(1 << 127) + 11 * i + 3 for i in range(n)]
        for i in range(n):
            for v in NUMS:
                vals = list(base)
                vals[i] = v
                out.append(tuple(vals))
        if dense:
            out += list(itertools.product(NUMS[:4], repeat=n))
        return out
    keys = []
    for tag in (6, 14):
        for alg in FIELDS:
            for vals in key_values(alg, True):
                keys.append((tag, 4, 0x51000000, 0, alg, vals))
        for alg in FIELDS:
            vals = key_values(alg, False)[3]
            keys += [(tag, 4, t, 0, alg, vals) for t in TIMES]
        for ver in (2, 3):
            for alg in (1, 2, 3):
                for vals in key_values(alg, False):
                    keys.append((tag, ver, 0x51000000, 30, alg, vals))
                keys += [(tag, ver, t, d, alg, key_values(alg, 0)[0])
                         for t in TIMES for d in (0, 1, 255, 256, 65535)]
    ck.each('public-keys', keys, pubkey)

    def seckey(case):
        tag, ver, alg, protection, enc = case
        cls = {5: P.SecretKeyPacket, 7: P.SecretSubkeyPacket}[tag]
        vals = key_values(alg, False)[4]
        pub = pub_body(ver, 0x51000000, 9, alg, vals)
        spec = None
        checksum, hash_ = True, False
        iv = b''
        if protection[0] == 'none':
            sym = 0
            raw = b'\x00'
        elif protection[0] == 'legacy':
            sym = protection[1]
            iv = pat(16 if sym in (7, 8, 9, 10, 11, 12, 13) else 8, 2)
            raw = bytes([sym]) + iv
        else:
            usage, sym, kind, h, octet = protection[1:]
            sraw, spec = s2k_spec(kind, h, octet, sym)
            iv = pat(16 if sym in (7, 8, 9, 10, 11, 12, 13) else 8, 2)
            raw = bytes([usage, sym]) + sraw + iv
            checksum, hash_ = usage == 255, usage == 254
        body = pub + raw + enc
        attrs = dict(version=ver, public_key_algorithm=alg,
                     symmetric_algorithm=sym, iv=iv, encrypted_portion=enc,
                     checksum=checksum, hash=hash_,
                     fingerprint=fingerprint(ver, pub, vals),
                     key_id=key_id(ver, pub, vals))
        kw = dict(zip(FIELDS[alg], vals))
        attrs.update(kw)
        got = roundtrip(
            cls, tag, body, attrs,
            lambda f: cls(f, ver, 0x51000000, alg,
                          expiration_days=9 if ver < 4 else None,
                          s2k_specification=spec, symmetric_algorithm=sym,
                          iv=bytearray(iv), encrypted_portion=bytearray(enc),
                          checksum=checksum, hash_=hash_, **kw))
        # the public half of the packet is the public key packet
        p = list(parsers.parse_binary_packet_data(rfc.new_packet(tag, body)))
        same(bytes(p[0].public_content), pub, 'public part')
        return got
    prots = [('none',)]
    prots += [('legacy', s) for s in (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13)]
    prots += [('s2k', u, s, k, h, o) for u in (254, 255)
              for s in (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13)
              for k, h, o in ((0, 2, 0), (1, 8, 0), (3, 2, 96), (3, 10, 255))]
    ck.each('secret-keys', itertools.chain(
        itertools.product((5, 7), (4,), sorted(FIELDS), prots,
                          (pat(24), pat(300, 1))),
        itertools.product((5, 7), (2, 3), (1, 2, 3), prots,
                          (pat(40),))), seckey)

    def gnu_stub(case):
        tag, usage, sym, mode, serial = case
        cls = {5: P.SecretKeyPacket, 7: P.SecretSubkeyPacket}[tag]
        vals = key_values(1, False)[0]
        pub = pub_body(4, 0x51000000, 0, 1, vals)
        body = (pub + bytes([usage, sym, 101, 2]) + b'GNU'
                + bytes([mode]))
        if mode == 2:
            body += bytes([len(serial)]) + serial
        raw = rfc.new_packet(tag, body)
        p, = parsers.parse_binary_packet_data(raw)
        expect(type(p) is cls, 'parsed as', type(p))
        same(p.symmetric_algorithm, sym, 'algorithm')
        same(bytes(p), raw, 'written back')
        same((p.modulus, p.exponent), vals, 'public values')
        return mode
    ck.each('gnupg-stubs', itertools.product(
        (5, 7), (254, 255), (0, 3, 9), (1, 2),
        (pat(16), pat(1), b'')), gnu_stub)

    # -- signatures -------------------------------------------------------
    SUBS = [(b'', []),
            (b'\x05\x02' + u32(5), lambda: [
                SS.CreationTimeSubpacket(False, 5)]),
            (b'\x05\x82' + u32(0xffffffff) + b'\x09\x10' + pat(8),
             lambda: [SS.CreationTimeSubpacket(True, 0xffffffff),
                      SS.IssuerSubpacket(False, pat(8).hex().upper())])]

    def subs(i):
        raw, make = SUBS[i]
        return raw, (make() if make else [])

    def sig4(case):
        st, pk, h, hs, us, h2, vals = case
        hraw, uraw = subs(hs)[0], subs(us)[0]
        body = (bytes([4, st, pk, h]) + u16(len(hraw)) + hraw
                + u16(len(uraw)) + uraw + h2
                + b''.join(rfc.mpi(v) for v in vals))
        got = roundtrip(
            P.SignaturePacket, 2, body,
            dict(version=4, signature_type=st, public_key_algorithm=pk,
                 hash_algorithm=h, hash2=h2, signature_values=list(vals),
                 creation_time=None, key_id=None),
            lambda f: P.SignaturePacket(
                f, 4, st, pk, h, bytearray(h2), list(vals),
                hashed_subpackets=subs(hs)[1],
                unhashed_subpackets=subs(us)[1]))
        p, = parsers.parse_binary_packet_data(rfc.new_packet(2, body))
        same(b''.join(map(bytes, p.hashed_subpackets)), hraw, 'hashed')
        same(b''.join(map(bytes, p.unhashed_subpackets)), uraw, 'unhashed')
        return got
    ck.each('signatures-v4', itertools.product(
        (0, 1, 0x13, 0x50, 0xff), (1, 17, 255), (1, 8, 255), range(3),
        range(3), (b'\x00\x00', b'\x12\xff'),
        ((), (1,), (NUMS[4], 0xff), (1 << 1023,), (3, 0x8000, 5), (0,),
         (0, 7), (7, 0))), sig4)

    def sig3(case):
        ver, st, t, kid, pk, h, h2, vals = case
        body = (bytes([ver, 5, st]) + u32(t) + bytes.fromhex(kid)
                + bytes([pk, h]) + h2 + b''.join(rfc.mpi(v) for v in vals))
        return roundtrip(
            P.SignaturePacket, 2, body,
            dict(version=ver, signature_type=st, public_key_algorithm=pk,
                 hash_algorithm=h, hash2=h2, signature_values=list(vals),
                 creation_time=t, key_id=kid),
            lambda f: P.SignaturePacket(
                f, ver, st, pk, h, bytearray(h2), list(vals),
                creation_time=t, key_id=kid))
    ck.each('signatures-v3', itertools.product(
        (2, 3), (0, 0x10, 0xff), TIMES, KEYIDS + ['0' * 16], (1, 17), (1, 2),
        (b'\x00\x00', b'\xfe\x01'), ((1,), (NUMS[4], 0xff), (), (0,), (0, 7),
                                     (7, 0))), sig3)

    # -- what does not fit into its field is refused ------------------------
    kid = KEYIDS[0]

    def sig(**kw):
        args = dict(version=4, signature_type=0, public_key_algorithm=1,
                    hash_algorithm=8, hash2=bytearray(2),
                    signature_values=[5])
        args.update(kw)
        return P.SignaturePacket(C.NEW_PACKET_HEADER_TYPE, **args)

    new = C.NEW_PACKET_HEADER_TYPE
    FIELDS = {
        # name: (octets, constructor, attribute)
        'literal time': (4, lambda v: P.LiteralDataPacket(
            new, b'b', 'f', v, b'x'), 'time'),
        'signature type': (1, lambda v: sig(signature_type=v),
                           'signature_type'),
        'signature algorithm': (1, lambda v: sig(public_key_algorithm=v),
                                'public_key_algorithm'),
        'signature hash': (1, lambda v: sig(hash_algorithm=v),
                           'hash_algorithm'),
        'signature 3 time': (4, lambda v: sig(
            version=3, creation_time=v, key_id=kid), 'creation_time'),
        'signature 3 type': (1, lambda v: sig(
            version=3, creation_time=1, key_id=kid, signature_type=v),
            'signature_type'),
        'one-pass type': (1, lambda v: P.OnePassSignaturePacket(
            new, 3, v, 8, 1, kid, 1), 'signature_type'),
        'one-pass hash': (1, lambda v: P.OnePassSignaturePacket(
            new, 3, 0, v, 1, kid, 1), 'hash_algorithm'),
        'one-pass algorithm': (1, lambda v: P.OnePassSignaturePacket(
            new, 3, 0, 8, v, kid, 1), 'public_key_algorithm'),
        'session key algorithm': (
            1, lambda v: P.PublicKeyEncryptedSessionKeyPacket(
                new, 3, kid, v, bytearray(rfc.mpi(5))),
            'public_key_algorithm'),
        'session key cipher': (
            1, lambda v: P.SymmetricKeyEncryptedSessionKeyPacket(
                new, 4, v, s2k.SimpleS2K(8, v), None),
            'symmetric_algorithm'),
        'key time': (4, lambda v: P.PublicKeyPacket(
            new, 4, v, 1, modulus=33, exponent=3), 'creation_time'),
        'key 3 time': (4, lambda v: P.PublicKeyPacket(
            new, 3, v, 1, 0, modulus=33, exponent=3), 'creation_time'),
        'key 3 days': (2, lambda v: P.PublicKeyPacket(
            new, 3, 1, 1, v, modulus=33, exponent=3), 'expiration_days'),
        'subkey time': (4, lambda v: P.PublicSubkeyPacket(
            new, 4, v, 1, modulus=33, exponent=3), 'creation_time'),
        'compression': (1, lambda v: P.CompressedDataPacket(
            new, v, bytearray(b'x')), 'compression_algorithm'),
        'protected version': (
            1, lambda v:
            P.SymmetricallyEncryptedAndIntegrityProtectedDataPacket(
                new, v, bytearray(30)), 'version'),
        'signature value': (8191, lambda v: sig(signature_values=[v]),
                            'signature_values'),
        'modulus': (8191, lambda v: P.PublicKeyPacket(
            new, 4, 1, 1, modulus=v, exponent=3), 'modulus'),
    }

    def limit(case):
        name, v = case
        octets, make, attr = FIELDS[name]
        top = 1 << 8 * octets
        if octets > 8:
            top = 1 << 65535
        try:
            raw = bytes(make(v))
        except Exception:
            expect(not 0 <= v < top, 'what fits is refused', name, v)
            return 'refused'
        try:
            got, = parsers.parse_binary_packet_data(raw)
        except Exception as e:
            raise Mismatch('what is written of %s cannot be read: %r' % (
                name, e))
        value = getattr(got, attr)
        if isinstance(value, list):
            value, = value
        if value != v:
            raise Mismatch('%s %s is written as %s' % (
                name, hex(v)[:30], hex(value)[:30]))
        return 'kept'

    def limits():
        for name in sorted(FIELDS):
            octets = FIELDS[name][0]
            tops = [1 << 8 * n for n in range(1, 10)]
            if octets > 8:
                tops = [1 << n for n in (65533, 65534, 65535, 65536,
                                         65540, 65544, 131071)]
                if name == 'modulus':
                    tops = tops[2:]
            for top in tops:
                for d in (-1, 0, 1, 5):
                    if octets > 8 or top >> 8 * octets or d < 0 \
                            or 'time' in name:
                        yield name, top + d
            yield name, -1
            yield name, -top
    ck.each('limits', limits(), limit)

    def areas(case):
        hashed, unhashed = case

        def area(n):
            if not n:
                return []
            raw = rfc.new_packet(2, b'\4\0\1\x08' + u16(n % 65536)
                                 + b'\xff' + u32(n - 5) + b'\x64'
                                 + pat(n - 6) + bytes(4) + rfc.mpi(5))
            return None if n > 65535 else list(
                parsers.parse_binary_packet_data(raw))[0].hashed_subpackets
        parts = [area(n) for n in case]
        # one subpacket over the limit: two of them that fit alone
        parts = [area(n - 60000) + area(60000) if p is None else p
                 for p, n in zip(parts, case)]
        try:
            raw = bytes(sig(hashed_subpackets=parts[0],
                            unhashed_subpackets=parts[1]))
        except Exception:
            expect(max(case) > 65535, 'what fits is refused')
            return 'refused'
        got, = parsers.parse_binary_packet_data(raw)
        for g, p, n in zip((got.hashed_subpackets, got.unhashed_subpackets),
                           parts, case):
            octets = b''.join(map(bytes, p))
            same(len(octets), n, 'octets of subpackets')
            same(b''.join(map(bytes, g)), octets, 'subpackets')
        return 'kept'
    ck.each('area-limits', itertools.product(
        (0, 65534, 65535, 65536, 65537, 70000, 120000), repeat=2), areas)

    # -- data packets -----------------------------------------------------
    def literal(case):
        fmt_, name, t, data, text = case
        body = (fmt_ + bytes([len(name)]) + name + u32(t) + data)
        value = data if text is None else text
        return roundtrip(
            P.LiteralDataPacket, 11, body,
            dict(data_format=fmt_, filename=name.decode(
                'utf8', 'surrogateescape'), time=t, data=value),
            lambda f: P.LiteralDataPacket(
                f, fmt_, name.decode('utf8', 'surrogateescape'), t,
                bytearray(value) if text is None else value))
    names = [b'', b'a', b'_CONSOLE', 'n\u00e9'.encode(), b'\xff\xfe',
             b'x' * 255]
    ck.each('literal-data', itertools.product(
        (b'b', b'l', b'1'), names, TIMES,
        (b'', b'\x00', b'\r\n', pat(200), pat(600)), (None,)), literal)
    texts = [('', ''), ('a\r\nb\r\n', 0), ('line\nonly', 0), ('\r', 0),
             ('\u00e9', 0), ('tab\t \n', 0), ('x' * 600, 0)]
    ck.each('literal-text', (
        (fmt_, n, t, s.encode(enc), s)
        for fmt_, enc in ((b't', 'latin-1'), (b'u', 'utf8'))
        for n in names for t in TIMES
        for s in [x[0] for x in texts]
        + (['\u20ac \U0001f600'] if enc == 'utf8' else [])), literal)

    def opaque(case):
        tag, data = case
        if tag == 8:
            alg, rest = data[0], data[1:]
            return roundtrip(
                P.CompressedDataPacket, 8, data,
                dict(compression_algorithm=alg, compressed_data=rest),
                lambda f: P.CompressedDataPacket(f, alg, bytearray(rest)))
        if tag == 9:
            return roundtrip(
                P.SymmetricallyEncryptedDataPacket, 9, data, dict(data=data),
                lambda f: P.SymmetricallyEncryptedDataPacket(
                    f, bytearray(data)))
        if tag == 18:
            return roundtrip(
                P.SymmetricallyEncryptedAndIntegrityProtectedDataPacket, 18,
                data, dict(version=data[0], encrypted_data=data[1:]),
                lambda f: P.
                SymmetricallyEncryptedAndIntegrityProtectedDataPacket(
                    f, data[0], bytearray(data[1:])))
        if tag == 19:
            return roundtrip(
                P.ModificationDetectionCodePacket, 19, data, dict(data=data),
                lambda f: P.ModificationDetectionCodePacket(
                    f, bytearray(data)))
        if tag == 10:
            return roundtrip(
                P.MarkerPacket, 10, data,
                dict(content=data, old_literal=data != b'PGP'),
                lambda f: P.MarkerPacket(f, bytearray(data),
                                         data != b'PGP'))
        if tag == 12:
            sig = data[1] if len(data) > 1 else None
            return roundtrip(
                P.TrustPacket, 12, data,
                dict(trust_value=data[0], sig_cache=sig),
                lambda f: P.TrustPacket(f, data[0], sig))
        text = data.decode('utf8', 'surrogateescape')
        if tag == 13:
            return roundtrip(P.UserIDPacket, 13, data, dict(user_id=text),
                             lambda f: P.UserIDPacket(f, text))
        if tag == 16:
            return roundtrip(P.OldCommentPacket, 16, data,
                             dict(comment=text),
                             lambda f: P.OldCommentPacket(f, text))
        if tag == 61:
            return roundtrip(P.GpgCommentPacket, 61, data,
                             dict(comment=text),
                             lambda f: P.GpgCommentPacket(f, text))
        if tag == 63:
            return roundtrip(
                P.GpgControlPacket, 63, data,
                dict(session_marker=data[:8], control=data[8],
                     content_data=data[9:]),
                lambda f: P.GpgControlPacket(
                    f, bytearray(data[:8]), data[8], bytearray(data[9:])))
        raise AssertionError(tag)
    sizes = (1, 2, 16, 190, 191, 192, 200, 255, 256, 511, 512, 513, 1024,
             1500)
    blobs = [(t, bytes([v]) + pat(n, v)) for t in (8, 18)
             for v in (0, 1, 2, 3, 110, 255) for n in (0,) + sizes]
    blobs += [(9, pat(n)) for n in (0,) + sizes]
    blobs += [(19, pat(20, i)) for i in range(8)] + [(19, bytes(20))]
    blobs += [(10, b) for b in (b'PGP', b'', b'PG', b'PGP\x00', pat(20))]
    # a trusted key's trust octet with the signature cache
    blobs += [(12, bytes([a])) for a in range(256)]
    blobs += [(12, bytes([a, b])) for a in range(256) for b in range(256)
              if a or not b & 0x80]
    ids = [b'', b'a', b'Alice <a@example.org>', '\u00e9\u4e16'.encode(),
           b'\xff\xfe\x80', b'\x00', bytes(range(256)), b'x' * 300]
    blobs += [(t, b) for t in (13, 16, 61) for b in ids]
    blobs += [(t, bytes([a, b])) for t in (13, 61)
              for a in range(0, 256, 5) for b in range(0, 256, 3)]
    blobs += [(63, pat(8, i) + bytes([i]) + pat(n)) for i in (1, 2, 3, 255)
              for n in (0, 1, 40)]
    ck.each('other-packets', blobs, opaque)

    # -- user attributes --------------------------------------------------
    def attribute(case):
        raws, wants = [], []
        for kind, n in case:
            if kind == 'jpeg':
                c = b'\x10\x00\x01\x01' + bytes(12) + pat(n, 4)
                wants.append((1, c))
                t = 1
            else:
                c = pat(n, kind)
                t = kind
                wants.append((t, c))
            raws.append(rfc.new_length(len(c) + 1) + bytes([t]) + c)
        body = b''.join(raws)
        for new in (True, False):
            raw = rfc.packet(new, 17, body) if new else None
            if raw is None:
                continue
            p, = parsers.parse_binary_packet_data(raw)
            same([(s.sub_type, bytes(s.content)) for s in p.subpackets],
                 wants, 'subpackets')
            same(bytes(p), raw, 'written back')
            for (kind, n), s in zip(case, p.subpackets):
                if kind == 'jpeg':
                    same((s.header_version, s.header_length, s.image_format,
                          bytes(s.data)), (1, 16, 1, pat(n, 4)), 'image')
                    same(bytes(US.ImageAttributeSubpacket(
                        1, 16, 1, bytearray(pat(n, 4)))),
                        bytes(s), 'constructed image')
        return len(case)
    atoms = [('jpeg', 0), ('jpeg', 1), ('jpeg', 174), ('jpeg', 175),
             ('jpeg', 9000), (2, 0), (100, 5), (255, 190), (3, 191),
             (7, 8383)]
    ck.each('user-attributes', itertools.chain(
        itertools.product(atoms, repeat=1),
        itertools.product(atoms, repeat=2),
        itertools.product(atoms[1:3] + atoms[5:8], repeat=3)), attribute)

    # -- inequality: changing anything that the layout holds must show ----
    bodies = {
        'session key': (1, bytes([3]) + pat(8, 1) + b'\x01' + pat(12)),
        'for anyone': (1, bytes([3]) + bytes(8) + b'\x10' + pat(12)),
        'passphrase': (3, bytes([4, 9, 3, 8]) + SALT + b'\x60' + pat(17)),
        'passphrase 0': (3, bytes([4, 9, 0, 8])),
        'passphrase 1': (3, bytes([4, 9, 1, 8]) + SALT),
        'one pass': (4, bytes([3, 0, 8, 1]) + pat(8) + b'\x01'),
        'rsa': (6, pub_body(4, 5, 0, 1, ((1 << 127) + 5, 0x10001))),
        'elgamal': (6, pub_body(4, 5, 0, 16, ((1 << 127) + 5, 0x10001, 99))),
        'dsa': (14, pub_body(4, 5, 0, 17, ((1 << 127) + 5, 0x10001, 9, 99))),
        'rsa 3': (6, pub_body(3, 5, 7, 1, ((1 << 127) + 5, 0x10001))),
        'rsa sub 3': (14, pub_body(3, 5, 7, 1, ((1 << 127) + 5, 0x10001))),
        'secret': (5, pub_body(4, 5, 0, 1, ((1 << 127) + 5, 0x10001))
                   + bytes([254, 9, 3, 8]) + SALT + b'\x60' + pat(16)
                   + pat(20)),
        'secret sub': (7, pub_body(4, 5, 0, 17, ((1 << 127) + 5, 3, 9, 99))
                       + bytes([255, 3, 1, 2]) + SALT + pat(8) + pat(20)),
        'secret clear': (5, pub_body(4, 5, 0, 16, ((1 << 127) + 5, 3, 9))
                         + bytes([0]) + rfc.mpi(99) + b'\0\x6a'),
        'secret 3': (5, pub_body(3, 5, 7, 1, ((1 << 127) + 5, 3))
                     + bytes([1]) + pat(8) + pat(20)),
        'stub': (5, pub_body(4, 5, 0, 1, ((1 << 127) + 5, 0x10001))
                 + bytes([254, 0, 101, 2]) + b'GNU\2\4' + pat(4)),
        'compressed': (8, b'\x01' + pat(9)), 'encrypted': (9, pat(9)),
        'marker': (10, b'PGP'),
        'literal': (11, b'b\x01x' + u32(9) + pat(4)),
        'text': (11, b't\x01x' + u32(9) + b'a\r\nb'),
        'utf-8': (11, b'u\x02xy' + u32(9) + 'a\u00e9'.encode()),
        'trust': (12, b'\x05\x01'), 'trust 1': (12, b'\x05'),
        'user ID': (13, b'abc'), 'user ID 8': (13, 'a\u00e9'.encode()),
        'comment': (16, b'ab'), 'comment 61': (61, b'ab'),
        'image': (17, b'\x17\x01\x10\0\1\1' + bytes(12) + pat(6)),
        'attributes': (17, b'\x03\x07ab\x02\x64a'),
        'protected': (18, b'\x01' + pat(9)), 'mdc': (19, pat(20)),
        'control': (63, pat(8) + b'\x01' + pat(4)),
        'unknown': (60, pat(4)), 'nothing': (60, b''), 'unknown 62': (62, b''),
        'signature 3': (2, bytes([3, 5, 0]) + u32(9) + pat(8) + b'\x01\x02'
                        + pat(2) + rfc.mpi(300)),
        'signature 2': (2, bytes([2, 5, 0]) + u32(9) + pat(8) + b'\x11\x02'
                        + pat(2) + rfc.mpi(300) + rfc.mpi(7)),
        'signature 4': (2, bytes([4, 0x13, 1, 8, 0, 6, 5, 2]) + u32(9)
                        + bytes([0, 10, 9, 16]) + pat(8) + pat(2)
                        + rfc.mpi(300)),
    }
    # a signature with each kind of subpacket
    CONTENTS = {2: u32(9), 3: u32(9), 4: b'\1', 5: b'\1\x3c', 6: b'a\0',
                7: b'\0', 9: u32(9), 11: b'\x09\x08',
                12: b'\x80\1' + pat(20), 16: pat(8),
                20: b'\x80\0\0\0\0\3\0\2a@bcd', 21: b'\x08\2',
                22: b'\2\1', 23: b'\x80', 24: b'h://k', 25: b'\1',
                26: b'h://p', 27: b'\3', 28: b'Al', 29: b'\1x',
                30: b'\1', 31: b'\1\x08' + pat(32),
                32: bytes([3, 5, 0]) + u32(9) + pat(8) + b'\x01\x02'
                + pat(2) + rfc.mpi(300), 1: b'x',
                10: b'\x80\1' + pat(20), 100: b'ab'}
    for kind, content in CONTENTS.items():
        for area in (0, 1):
            sub = bytes([len(content) + 1, kind]) + content
            sub = [sub if i == area else b'' for i in (0, 1)]
            bodies['subpacket %d %d' % (kind, area)] = (
                2, bytes([4, 0x13, 1, 8]) + u16(len(sub[0])) + sub[0]
                + u16(len(sub[1])) + sub[1] + pat(2) + rfc.mpi(7))

    def parsed(tag, body):
        p, = parsers.parse_binary_packet_data(rfc.new_packet(tag, body))
        return p

    def subpackets(body):
        """The subpackets of both areas, in no order"""
        n = int.from_bytes(body[4:6], 'big')
        m = int.from_bytes(body[6 + n:8 + n], 'big')
        return [set(map(bytes, part)) for part in (
            parsed(2, body).hashed_subpackets,
            parsed(2, body).unhashed_subpackets)], body[8 + n + m:]

    def compare(tag, body, tag2, other):
        a = parsed(tag, body)
        try:
            b = parsed(tag2, bytes(other))
            bytes(b)
        except Exception:
            return 'refused'
        if bytes(a) == bytes(b):
            expect(a == b and not a != b, 'the same packet compares unequal')
            return 'the same numbers'
        if (tag == tag2 == 2 and body[0] == other[0] == 4
                and body[1:4] == other[1:4]
                and subpackets(body) == subpackets(other)):
            return 'the same subpackets'
        expect(not a == b and a != b, 'different packets compare equal')
        return 'differs'

    def distinguishes(case):
        name, i, change = case
        tag, body = bodies[name]
        if isinstance(change, int):
            other = bytearray(body)
            other[i] ^= 1 << change
        elif change == 'drop':
            other = body[:i] + body[i + 1:]
        elif change == 'double':
            other = body[:i] + body[i:i + 1] + body[i:]
        elif change == 'swap':
            other = body[:i] + body[i:i + 2][::-1] + body[i + 2:]
        elif change == 'zero':
            other = body[:i] + b'\0' + body[i + 1:]
        return compare(tag, body, tag, other)
    ck.each('equality', ((name, i, change) for name in bodies
                         for i in range(len(bodies[name][1]))
                         for change in (0, 1, 2, 3, 4, 5, 6, 7, 'drop',
                                        'double', 'swap', 'zero')),
            distinguishes, workers=4)
    ck.each('equality-of-kinds', itertools.product(bodies, bodies),
            lambda case: compare(*(bodies[case[0]] + bodies[case[1]])))

    def of_any_kind(case):
        """The same octets as packets of two kinds"""
        name, tag = case
        mine, body = bodies[name]
        return compare(mine, body, tag, body)
    ck.each('equality-of-tags', itertools.product(bodies, range(1, 64)),
            of_any_kind)
