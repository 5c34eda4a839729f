"""Independent reference encoders, written from RFC 4880 alone."""


def mpi(n):
    bits = len(bin(n)) - 2 if n else 0
    return bytes([bits // 256, bits % 256]) + n.to_bytes((bits + 7) // 8, 'big')


def read_mpi(data, pos):
    bits = data[pos] * 256 + data[pos + 1]
    size = (bits + 7) // 8
    body = data[pos + 2:pos + 2 + size]
    if len(body) != size:
        raise ValueError('short mpi')
    return int.from_bytes(body, 'big'), pos + 2 + size


def new_length(n):
    if n <= 191:
        return bytes([n])
    if n <= 8383:
        n -= 192
        return bytes([n // 256 + 192, n % 256])
    return b'\xff' + n.to_bytes(4, 'big')


def old_length(n):
    """(length type, octets), shortest form."""
    if n < 1 << 8:
        return 0, n.to_bytes(1, 'big')
    if n < 1 << 16:
        return 1, n.to_bytes(2, 'big')
    return 2, n.to_bytes(4, 'big')


def new_packet(tag, body):
    return bytes([0xc0 + tag]) + new_length(len(body)) + bytes(body)


def old_packet(tag, body, length_type=None):
    if length_type is None:
        length_type, octets = old_length(len(body))
    elif length_type == 3:
        octets = b''
    else:
        octets = len(body).to_bytes(1 << length_type, 'big')
    return bytes([0x80 + tag * 4 + length_type]) + octets + bytes(body)


def partial_packet(tag, chunks, last):
    """chunks: bodies whose lengths are powers of two."""
    out = bytearray([0xc0 + tag])
    for c in chunks:
        power = len(c).bit_length() - 1
        assert len(c) == 1 << power
        out.append(224 + power)
        out += c
    out += new_length(len(last)) + last
    return bytes(out)


def packet(new, tag, body):
    return new_packet(tag, body) if new else old_packet(tag, body)


def split_packets(data):
    """Reference parser -> [(tag, body)] for a complete packet stream."""
    return [(tag, body) for tag, body, _, _ in packet_spans(data)]


def packet_spans(data):
    """[(tag, body, start, end)]"""
    out = []
    pos = 0
    while pos < len(data):
        start = pos
        first = data[pos]
        pos += 1
        assert first & 0x80
        if first & 0x40:
            tag = first & 0x3f
            body = bytearray()
            while True:
                b = data[pos]
                pos += 1
                partial = False
                if b < 192:
                    n = b
                elif b < 224:
                    n = (b - 192) * 256 + data[pos] + 192
                    pos += 1
                elif b == 255:
                    n = int.from_bytes(data[pos:pos + 4], 'big')
                    pos += 4
                else:
                    n = 1 << (b - 224)
                    partial = True
                assert pos + n <= len(data), 'short packet'
                body += data[pos:pos + n]
                pos += n
                if not partial:
                    break
        else:
            tag = (first >> 2) & 0xf
            kind = first & 3
            if kind == 3:
                n = len(data) - pos
            else:
                size = 1 << kind
                n = int.from_bytes(data[pos:pos + size], 'big')
                pos += size
            assert pos + n <= len(data), 'short packet'
            body = data[pos:pos + n]
            pos += n
        out.append((tag, bytes(body), start, pos))
    return out


def crc24(data):
    """Bit-serial CRC-24 as a polynomial remainder (section 6.1)."""
    crc = 0xb704ce
    for octet in data:
        for bit in range(7, -1, -1):
            feedback = (crc >> 23) ^ ((octet >> bit) & 1)
            crc = (crc << 1) & 0xffffff
            if feedback:
                crc ^= 0x864cfb
    return crc
