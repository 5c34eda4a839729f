"""C06: string-to-key gives the key RFC 4880 defines."""

import itertools

from mc.core import expect, same, raises
from mc.ref import cipher as ref

LEVEL = 'exploration'
TECHNIQUE = ('bounded exhaustive enumeration of string-to-key specifiers and '
             'passphrases, real derivation against an independent model')
RULE = ('Every (specifier, hash, cipher) over passphrase lengths around the '
        'hashing and counting boundaries, every coded octet count up to the '
        'bound against the model and all 256 in the codec; a case is '
        'non-trivial when a key came out.')
ASSUMPTIONS = ['hashlib is the reference for the hash functions.']

CIPHERS = (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13)
HASHES = (1, 2, 3, 8, 9, 10, 11)


def phrase(n, salt=0):
    return bytes((i * 5 + salt * 17 + 0x41) & 0xff for i in range(n))


def run(ck):
    from pgp import s2k

    SALTS = [bytes(8), b'\xff' * 8, bytes(range(1, 9))]

    def derive(case):
        kind, h, sym, n, octet, salt = case
        p = phrase(n, salt)
        salt = SALTS[salt]
        if kind == 0:
            spec, raw = s2k.SimpleS2K(h, sym), bytes([0, h])
        elif kind == 1:
            spec, raw = (s2k.SaltedS2K(h, sym, bytearray(salt)),
                         bytes([1, h]) + salt)
        else:
            spec = s2k.IteratedAndSaltedS2K(h, sym, bytearray(salt),
                                            ref.s2k_count(octet))
            raw = bytes([3, h]) + salt + bytes([octet])
        want = ref.s2k(kind, h, ref.KEY[sym], p, salt, ref.s2k_count(octet))
        same(spec.to_key(p), want, 'derived key')
        same(spec.to_key(bytearray(p)), want, 'derived key, second use')
        same(bytes(spec), raw, 'specifier written')
        parsed, end = s2k.parse_s2k_bytes(sym, bytearray(b'\x07' + raw), 1)
        same(end, 1 + len(raw), 'offset after the specifier')
        same(bytes(parsed), raw, 'specifier read and written')
        expect(parsed == spec, 'read specifier differs')
        same(parsed.to_key(p), want, 'key from the read specifier')
        return kind, h, len(want)

    lengths = [0, 1, 7, 8, 9, 55, 56, 57, 63, 64, 65, 119, 120, 128, 200]
    ck.each('simple', itertools.product((0,), HASHES, CIPHERS,
                                        list(range(0, 70)) + lengths[9:],
                                        (0,), (0,)), derive)
    ck.each('salted', itertools.product((1,), HASHES, CIPHERS, range(0, 70),
                                        (0,), (0, 1, 2)), derive)
    ck.each('iterated', itertools.product(
        (3,), HASHES, CIPHERS, lengths, (0, 1, 15, 16, 17, 96), (2,)),
        derive)
    # the octet count against the length of salt and passphrase
    ck.each('count-boundary', itertools.product(
        (3,), (1, 8) if not ck.thorough else HASHES, (7, 9),
        list(range(1000, 1040)) + [1079, 1080, 1081, 2039, 2040, 2041, 5000],
        (0, 1, 2, 16), (2,)), derive)
    top = 256 if ck.thorough else 145
    ck.each('every-count', ((3, h, 9, n, octet, 2)
                            for octet in range(top) for n in (0, 5, 12)
                            for h in ((2,) if octet >= 97 else (2, 8))),
            derive)

    def codec(octet):
        for h in HASHES + (0, 100, 255):
            raw = bytes([3, h]) + SALTS[2] + bytes([octet])
            spec, end = s2k.parse_s2k_bytes(9, bytearray(raw), 0)
            same(spec.count, ref.s2k_count(octet), 'octet count')
            same(bytes(spec.salt), SALTS[2], 'salt')
            same(spec.hash_algorithm, h, 'hash')
            same(bytes(spec), raw, 'written back')
        return octet
    ck.each('specifier-codec', range(256), codec)

    def stub(case):
        h, mode, serial, offset = case
        raw = bytes([101, h]) + b'GNU' + bytes([mode])
        if mode == 2:
            raw += bytes([len(serial)]) + serial
        spec, end = s2k.parse_s2k_bytes(
            9, bytearray(bytes(offset) + raw + b'\1\2\3'), offset)
        same(end, offset + len(raw), 'offset after the specifier')
        same(spec.hash_algorithm, h, 'hash')
        same(bytes(spec), raw, 'written back')
        if mode == 2:
            same(spec.serial_number, serial.hex().upper(), 'serial number')
            same(spec.serial_number_length, len(serial), 'its length')
        same(s2k.parse_s2k_bytes(9, bytearray(bytes(spec)))[0] == spec, True,
             'read again')
        return mode
    ck.each('stubs', itertools.chain(
        itertools.product(range(256), (1, 2), (b'', b'\0', b'\xd2\x76'),
                          (0, 7)),
        itertools.product((0, 2), (2,), [
            phrase(n, 1) for n in range(256)] + [
            bytes(n) for n in range(256)], (0, 1))), stub)

    def unknown(kind):
        raises(lambda: s2k.parse_s2k_bytes(
            9, bytearray([kind, 2]) + bytearray(20), 0))
        return True
    ck.each('unknown-specifiers', [k for k in range(256)
                                   if k not in (0, 1, 3, 101)], unknown)

    # distinct inputs to the derivation give distinct keys (no input is
    # ignored): all pairs over a small alphabet
    def distinct(case):
        a, b = case

        def key(x):
            kind, h, p, salt, octet = x
            if kind == 1:
                spec = s2k.SaltedS2K(h, 9, bytearray(salt))
            else:
                spec = s2k.IteratedAndSaltedS2K(h, 9, bytearray(salt),
                                                ref.s2k_count(octet))
            return bytes(spec.to_key(p))
        same(key(a) == key(b), a == b or (
            (a[0], a[1]) == (b[0], b[1]) == (1, a[1])
            and (a[2], a[3]) == (b[2], b[3])), 'keys equal')
        return a == b or 'distinct'
    alphabet = list(itertools.product(
        (1, 3), (2, 8), (b'', b'a', b'b', b'ab', b'ba'), SALTS[:2], (0, 1)))
    ck.each('distinct', itertools.product(alphabet, alphabet), distinct)
