"""C02: scalar codecs (MPI, fixed-width, hex, lengths, S2K counts)."""

import io
import itertools

from mc.core import expect, same, raises
from mc.ref import rfc

LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of scalar encodings (whole domain where '
             'finite, all bit-boundaries otherwise) against integer '
             'arithmetic references')
RULE = ('All 16-bit values, every value within 3 of 2**k for every k up to '
        'the bound, every one-octet S2K count and every integer around each '
        'decodable count, every packet length up to 70000 and around each '
        'boundary; non-trivial when the value is not zero.')
ASSUMPTIONS = ['MPI magnitudes above the bound (16384 bits quick, 65535 '
               'thorough) are not enumerated.']


def run(ck):
    from pgp import utils as U

    bits = 65535 if ck.thorough else 16384
    near = sorted({(1 << k) + d for k in range(0, 1100)
                   for d in (-3, -2, -1, 0, 1, 2, 3) if (1 << k) + d >= 0}
                  | {(1 << k) + d for k in range(1100, 4097, 37)
                     for d in (-1, 0, 1)}
                  | {(1 << k) + d for b in (4096, 8192, bits)
                     for k in range(b - 18, b) for d in (-1, 0, 1)}
                  | {(1 << bits) - 1, (1 << 65535) - 1, 1 << 65534}
                  | {(1 << k) + 1 for k in range(4133, bits, 997)}
                  | {(1 << k) - (1 << j) for k in range(1, 200)
                     for j in range(0, k)})

    def mpi(n):
        enc = bytes(U.int_to_mpi(n))
        same(enc, rfc.mpi(n), 'MPI of %s' % hex(n)[:40])
        for prefix in (b'', b'\xff\x00\x10'):
            data = bytearray(prefix + enc + b'\xaa\xbb')
            value, off = U.mpi_to_int(data, len(prefix))
            same(value, n, 'MPI value read back')
            same(off, len(prefix) + len(enc), 'offset after the MPI')
            same(U.mpi_length(data, len(prefix)), len(enc) - 2, 'MPI length')
        return n and n.bit_length()

    def to_bytes(n):
        want = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        same(bytes(U.int_to_bytes(n)), want, 'octets of %s' % hex(n)[:40])
        same(U.bytes_to_int(bytearray(b'\x99' + want + b'\x99'), 1,
                            len(want)), n, 'integer read back')
        return n.bit_length()

    ck.each('mpi-16bit', range(0, 65536 + 2), mpi)
    ck.each('mpi-boundaries', near, mpi)
    ck.each('octets-16bit', range(1, 65536 + 2), to_bytes)
    ck.each('octets-boundaries', (n for n in near if n), to_bytes)

    def mpi_sequence(values):
        data = bytearray(b''.join(bytes(U.int_to_mpi(v)) for v in values))
        off, got = 0, []
        while off < len(data):
            v, off = U.mpi_to_int(data, off)
            got.append(v)
        same(tuple(got), values, 'sequence of MPIs')
        return True
    alphabet = [0, 1, 127, 128, 255, 256, (1 << 64) - 1, 1 << 64,
                (1 << 160) - 1]
    ck.each('mpi-sequences', itertools.product(alphabet, repeat=4),
            mpi_sequence)

    # declared bit counts that disagree with the leading octet still consume
    # ceil(bits / 8) octets
    def mpi_len(b):
        data = bytearray([b >> 8, b & 255])
        same(U.mpi_length(data, 0), (b + 7) // 8, 'octets of a %d-bit MPI' % b)
        return b
    ck.each('mpi-bit-counts', range(65536), mpi_len)

    def width(case):
        w, n = case
        fn = {2: U.int_to_2byte, 4: U.int_to_4byte, 8: U.int_to_8byte}[w]
        same(bytes(fn(n)), n.to_bytes(w, 'big'), '%d-octet integer' % w)
        data = bytearray(b'\x55' + bytes(fn(n)) + b'\x55')
        same(U.bytes_to_int(data, 1, w), n, 'read back')
        if w == 2:
            same(U.short_to_int(data, 1), n, 'two-octet read')
        if w == 4:
            same(U.long_to_int(data, 1), n, 'four-octet read')
        return n
    ck.each('fixed-2', ((2, n) for n in range(65536)), width)
    for w in (4, 8):
        vals = sorted({min(max((1 << k) + d, 0), (1 << 8 * w) - 1)
                       for k in range(8 * w + 1) for d in (-2, -1, 0, 1, 2)}
                      | {int.from_bytes(bytes(p), 'big') for p in
                         itertools.product((0, 1, 0x7f, 0x80, 0xff),
                                           repeat=min(w, 4))})
        ck.each('fixed-%d' % w, ((w, n) for n in vals), width)

    # what has more octets than there are is refused
    def too_big(case):
        w, n = case
        fn = {2: U.int_to_2byte, 4: U.int_to_4byte, 8: U.int_to_8byte,
              'mpi': U.int_to_mpi}[w]
        raises(lambda: fn(n))
        return w
    ck.each('too-big', itertools.chain((
        (w, n + d) for w in (2, 4, 8)
        for n in [1 << k for k in range(8 * w, 80)] + [
            -(1 << k) for k in range(0, 80)]
        for d in (0, 1 if n > 0 else -1, 255 if n > 0 else -255)),
        (('mpi', n) for n in [1 << k for k in (65535, 65536, 65537, 65543,
                                               131072, 131080)]
         + [-(1 << k) for k in range(300)])), too_big)

    # -- S2K counts -------------------------------------------------------
    decoded = {}

    def count(c):
        want = (16 + c % 16) * 2 ** (c // 16 + 6)
        same(U.s2k_count_to_int(c), want, 'count octet %d' % c)
        same(bytes(U.int_to_s2k_count(want)), bytes([c]), 'count encoded')
        decoded[want] = c
        return want
    ck.each('s2k-count', range(256), count)

    def not_count(n):
        if n in valid:
            same(bytes(U.int_to_s2k_count(n)), bytes([valid[n]]), 'encoded')
        else:
            raises(lambda: U.int_to_s2k_count(n), ValueError)
        return True
    valid = {(16 + c % 16) * 2 ** (c // 16 + 6): c for c in range(256)}
    ck.each('s2k-count-neighbours',
            sorted({v + d for v in valid for d in
                    (-64, -3, -2, -1, 0, 1, 2, 3, 64)}
                   | {v + (1 << j) for v in valid for j in range(26)}
                   | set(range(-3, 5000 if not ck.thorough else 140000))),
            not_count)

    # -- hexadecimal ------------------------------------------------------
    def hexes(case):
        data, off, n = case
        arr = bytearray(data)
        text = U.bytearray_to_hex(arr, off, n)
        want = bytes(data[off:] if n is None else data[off:off + n // 2])
        same(text, want.hex().upper(), 'hex text')
        same(bytes(U.hex_to_bytes(text)), want, 'hex read back')
        same(bytes(U.hex_to_bytes(text.lower())), want, 'lower case hex')
        for size in (len(want), len(want) + 1, len(want) + 4):
            same(bytes(U.hex_to_bytes(text, size)),
                 want.rjust(size, b'\0') if size else want, 'padded octets')
        return text
    pool = bytes([0, 1, 0x0f, 0x10, 0x7f, 0x80, 0xab, 0xff, 0, 9, 0x90, 0xfe])
    cases = [(bytes([b]), 0, None) for b in range(256)]
    cases += [(bytes([a, b]), 0, 4) for a in range(256)
              for b in (0, 1, 0x80, 0xff)]
    cases += [(pool, o, n) for o in range(len(pool))
              for n in [None] + list(range(0, 2 * (len(pool) - o) + 1, 2))]
    ck.each('hex', [c for c in cases if c[0][c[1]:] and c[2] != 0], hexes)

    def hexint(case):
        n, size = case
        same(U.int_to_hex(n, size), ('%X' % n).rjust(size or 0, '0'), 'hex')
        return n
    ck.each('int-hex', ((n, s) for k in range(0, 65)
                        for n in ((1 << k) - 1, 1 << k)
                        for s in (None, 8, 16, 20)
                        if s is None or n < 16 ** s), hexint)

    # -- packet lengths ---------------------------------------------------
    def new_len(n):
        enc, rest = U.new_packet_length_to_bytes(n, False)
        same((bytes(enc), rest), (rfc.new_length(n), 0), 'new length')
        for allow in (True,):
            same((bytes(U.new_packet_length_to_bytes(n, allow)[0]),
                  U.new_packet_length_to_bytes(n, allow)[1]),
                 (rfc.new_length(n), 0), 'new length, partials allowed')
        data = bytearray(b'\x01' + enc + b'\x02')
        same(tuple(U.new_packet_length(data, 1)), (1 + len(enc), n, False),
             'new length read')
        fh = io.BytesIO(bytes(data))
        fh.seek(1)
        same(tuple(U.new_packet_length_from_stream(fh)), (n, False),
             'new length read from file')
        same(fh.tell(), 1 + len(enc), 'file position')
        return len(enc)

    big = sorted({(1 << k) + d for k in range(13, 33)
                  for d in (-2, -1, 0, 1, 2) if (1 << k) + d < 1 << 32}
                 | {0xffffffff, 0xfffffffe, 0x01020304, 0xfefdfcfb})
    ck.each('new-length', itertools.chain(range(70000), big), new_len)

    def old_len(n):
        kind, enc = U.old_packet_length_to_bytes(n)
        same((kind, bytes(enc)), rfc.old_length(n), 'old length')
        data = bytearray(bytes([0x80 + kind]) + bytes(enc) + b'\x02')
        same(tuple(U.old_packet_length(data, 0)), (1 + len(enc), n),
             'old length read')
        fh = io.BytesIO(bytes(data))
        same(U.old_packet_length_from_stream(fh), n,
             'old length read from file')
        same(fh.tell(), 1 + len(enc), 'file position')
        return len(enc)
    ck.each('old-length', itertools.chain(range(70000), big), old_len)

    def too_long(n):
        raises(lambda: U.new_packet_length_to_bytes(n, False), ValueError)
        enc, rest = U.new_packet_length_to_bytes(n, True)
        off, size, partial = U.new_packet_length(bytearray(enc), 0)
        same((off, partial, rest), (1, True, n - size), 'partial length')
        return True
    ck.each('partial-needed', [(1 << 32), (1 << 32) + 1, (1 << 33) + 12345],
            too_long)

    def partial(k):
        same(tuple(U.new_packet_length(bytearray([224 + k]), 0)),
             (1, 1 << k, True), 'partial length octet')
        same(tuple(U.new_packet_length_from_stream(
            io.BytesIO(bytes([224 + k])))), (1 << k, True), 'from file')
        return True
    ck.each('partial-octets', range(31), partial)
