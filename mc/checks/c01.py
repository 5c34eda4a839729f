"""C01: packet framing is lossless, and both parsers read the same packets."""

import io
import itertools

from mc.core import expect, same, raises
from mc.ref import rfc

LEVEL = 'exploration'
TECHNIQUE = ('bounded exhaustive enumeration of packet streams against an '
             'independent RFC 4880 framing model, on the real parsers')
RULE = ('Every (header format, tag, body length) over all tags and every '
        'length within 2 of a length-encoding boundary, every body split '
        'into partial chunks, every sequence of framings up to the depth, '
        'every proper prefix (truncation) of each; a case is non-trivial '
        'when its body is not empty or it joins several packets.')
ASSUMPTIONS = ['Bodies of unknown packet types are opaque; their content is a '
               'position-dependent pattern, so shifted or swapped octets '
               'show.']

NEW, OLD = 1, 0


def body(n, salt=0):
    if n > 4096:
        unit = bytes((i * 7 + (i >> 8) * 13 + salt) & 0xff
                     for i in range(4099))
        return (unit * (n // 4099 + 1))[:n]
    return bytes((i * 7 + (i >> 8) * 13 + salt) & 0xff for i in range(n))


def run(ck):
    from pgp.packets import constants
    from pgp.packets import packets as P
    from pgp.packets import parsers

    FMT = {NEW: constants.NEW_PACKET_HEADER_TYPE,
           OLD: constants.OLD_PACKET_HEADER_TYPE}

    def parse_data(raw):
        return [(p.header_format, p.type, bytes(p.content), bytes(p))
                for p in parsers.parse_binary_packet_data(raw)]

    def parse_stream(raw):
        return [(p.header_format, p.type, bytes(p.content), bytes(p))
                for p in parsers.parse_binary_packet_stream(io.BytesIO(raw))]

    def agree(raw, want):
        """Both parsers return want: [(new?, tag, body)]."""
        got = parse_data(raw)
        same([g[:3] for g in got], [(FMT[n], t, b) for n, t, b in want],
             'packets parsed from memory')
        same(parse_data(bytearray(raw)), got, 'packets from a bytearray')
        same(parse_stream(raw), got, 'packets parsed from a file')
        for (n, t, b), g in zip(want, got):
            same(g[3], rfc.packet(n, t, b), 'packet written back')
        return got

    # Tags whose bodies the library treats as opaque octets.
    known = set(P.PACKET_TYPES)
    opaque_new = [t for t in range(1, 64) if t not in known]
    opaque_old = [t for t in range(1, 16) if t not in known]
    opaque_old = opaque_old or [15]

    marks = [0, 191, 192, 255, 256, 447, 448, 8383, 8384, 65535, 65536]
    lengths = sorted({m + d for m in marks for d in (-2, -1, 0, 1, 2)
                      if m + d >= 0})
    dense = range(0, 8700 if not ck.thorough else 66000)

    def single(case):
        new, tag, n = case
        b = body(n, tag)
        raw = bytes(P.Packet(FMT[new], tag, bytearray(b)))
        same(raw, rfc.packet(new, tag, b), 'serialised packet')
        agree(raw, [(new, tag, b)])
        return n and 'len%d' % len(rfc.packet(new, tag, b)[:6])

    ck.each('every-length-new', ((NEW, opaque_new[0], n) for n in dense),
            single)
    ck.each('every-length-old', ((OLD, opaque_old[0], n) for n in dense
                                 if n < 300 or n % 17 == 0 or ck.thorough),
            single)
    ck.each('tags-x-boundaries-new',
            itertools.product([NEW], opaque_new, lengths), single)
    ck.each('tags-x-boundaries-old',
            itertools.product([OLD], opaque_old, lengths), single)
    ck.each('large', [(NEW, opaque_new[0], 16777215),
                      (NEW, opaque_new[0], 16777216),
                      (OLD, opaque_old[0], 16777215),
                      (OLD, opaque_old[0], 16777216)], single)

    # Known types with free-form bodies: literal header then text; user id.
    def known_body(tag, n):
        if tag == 13:
            return bytes(0x61 + (i * 3) % 26 for i in range(n))
        if tag == 11:
            return b'b\x00\x00\x00\x00\x00' + body(n)
        if tag == 18:
            return b'\x01' + body(n)
        if tag == 8:
            return b'\x00' + body(n)
        return body(n)

    # -- sequences of framings --------------------------------------------
    def framings(tags, sizes):
        out = []
        for n in sizes:
            for tag in tags:
                out.append(('new', tag, n))
                if tag < 16:
                    out.append(('old', tag, n))
                    out.append(('old1', tag, n))
                    out.append(('old2', tag, n))
                out.append(('new5', tag, n))
        return out

    def build(fr, i):
        kind, tag, n = fr[:3]
        b = known_body(tag, n) if tag in known else body(n, i * 31)
        if kind == 'new':
            return rfc.new_packet(tag, b), (NEW, tag, b)
        if kind == 'new5':
            return (bytes([0xc0 + tag, 255]) + len(b).to_bytes(4, 'big') + b,
                    (NEW, tag, b))
        if kind == 'old':
            return rfc.old_packet(tag, b), (OLD, tag, b)
        if kind == 'old1':
            return rfc.old_packet(tag, b, 1), (OLD, tag, b)
        if kind == 'old2':
            return rfc.old_packet(tag, b, 2), (OLD, tag, b)
        if kind == 'oldI':
            return rfc.old_packet(tag, b, 3), (OLD, tag, b)
        if kind == 'part':
            chunks, pos = [], 0
            for e in fr[3]:
                chunks.append(b[pos:pos + (1 << e)])
                pos += 1 << e
            return (rfc.partial_packet(tag, chunks, b[pos:]), (NEW, tag, b))
        raise AssertionError(kind)

    def seq_check(seq):
        raws, wants = [], []
        for i, fr in enumerate(seq):
            r, w = build(fr, i)
            raws.append(r)
            wants.append(w)
        raw = b''.join(raws)
        same([(t, b) for _, t, b in wants], rfc.split_packets(raw),
             'reference self-check')
        agree(raw, wants)
        return len(seq) > 1 and repr([f[0] for f in seq])

    def size_of(tag, n):
        return len(known_body(tag, n)) if tag in known else n

    partials = []
    for exps in [e for k in (1, 2, 3) for e in
                 itertools.product((0, 1, 2, 9), repeat=k)]:
        for rest in (0, 1, 191, 192, 8384):
            partials.append(('part', 60, sum(1 << e for e in exps) + rest,
                             exps))
    for e in range(0, 17):
        for rest in (0, 5):
            partials.append(('part', 60, (1 << e) + rest, (e,)))
    # data packets the format allows partial lengths for
    for tag in (8, 11, 9, 18):
        for exps in ((9,), (9, 9), (10, 9), (9, 10, 11)):
            n = sum(1 << e for e in exps) + 40
            n -= n and len(known_body(tag, 0))
            partials.append(('part', tag, n, exps))
    ck.each('partial-bodies', ((p,) for p in partials), seq_check)

    alphabet = (framings([60, 15], [0, 3, 200]) + framings([13], [5])
                + [('part', 60, 20, (4,)), ('part', 61, 3, (0, 1)),
                   ('part', 11, 520, (9,))])
    small = [('new', 60, 0), ('new', 61, 200), ('old', 15, 3),
             ('old1', 15, 0), ('old2', 14 if 14 not in known else 15, 260),
             ('part', 60, 20, (4,)), ('part', 11, 520, (9,)),
             ('new5', 60, 2), ('new', 13, 5), ('old', 13, 7)]
    ck.each('sequences-2', itertools.product(alphabet, repeat=2), seq_check)
    ck.each('sequences-3', itertools.product(small, repeat=3), seq_check)
    if ck.thorough:
        ck.each('sequences-4', itertools.product(small, repeat=4), seq_check)
    # an indeterminate length may only be last
    ck.each('indeterminate-last',
            ((f, ('oldI', 15, n)) for f in small for n in (0, 1, 200, 70000)),
            seq_check)

    # -- truncation -------------------------------------------------------
    def trunc(case):
        fr, cut = case
        raw, want = build(fr, 0)
        short = raw[:cut]
        raises(lambda: parse_data(short))
        raises(lambda: parse_stream(short))
        return 'cut'

    cases = []
    for fr in [('new', 60, 5), ('new', 60, 191), ('new', 60, 192),
               ('new', 61, 450), ('new5', 60, 10), ('old', 15, 5),
               ('old', 15, 255), ('old', 15, 256), ('old1', 15, 10),
               ('old2', 15, 10), ('new', 13, 4), ('part', 60, 20, (4,)),
               ('part', 60, 7, (0, 1, 2)), ('part', 60, 16, (4,)),
               ('part', 11, 520, (9,))]:
        size = len(build(fr, 0)[0])
        cases += [(fr, c) for c in range(1, size)]
    ck.each('truncation', cases, trunc)

    # Concatenation is a homomorphism: parsing a+b is parsing a then b, also
    # when reading starts mid-file.
    def offset_read(case):
        a, b = case
        ra, wa = build(a, 0)
        rb, wb = build(b, 1)
        fh = io.BytesIO(ra + rb)
        p = P.packet_from_packet_stream(fh)
        same((p.type, bytes(p.content)), wa[1:], 'first packet of the file')
        same(fh.tell(), len(ra), 'file position after the packet')
        p = P.packet_from_packet_stream(fh)
        same((p.type, bytes(p.content)), wb[1:], 'second packet')
        same(fh.tell(), len(ra) + len(rb), 'file position at the end')
        off, p = P.packet_from_packet_data(ra + rb, len(ra))
        same((off, p.type, bytes(p.content)),
             (len(ra) + len(rb), wb[1], wb[2]), 'packet at an offset')
        return True
    ck.each('positions', itertools.product(small, repeat=2), offset_read)
