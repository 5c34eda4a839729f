"""Reference block-cipher modes, IDEA and string-to-key, from the standards."""

import hashlib

# -- IDEA (Lai & Massey), in the words of its definition -----------------


def idea_mul(a, b):
    a = a or 65536
    b = b or 65536
    return (a * b % 65537) & 0xffff


def idea_subkeys(key):
    n = int.from_bytes(key, 'big')
    out = []
    while len(out) < 52:
        for i in range(8):
            out.append((n >> (112 - 16 * i)) & 0xffff)
        n = ((n << 25) | (n >> 103)) & ((1 << 128) - 1)
    return out[:52]


def idea_block(block, k):
    x1, x2, x3, x4 = [int.from_bytes(block[i:i + 2], 'big')
                      for i in (0, 2, 4, 6)]
    for r in range(8):
        k1, k2, k3, k4, k5, k6 = k[6 * r:6 * r + 6]
        x1, x4 = idea_mul(x1, k1), idea_mul(x4, k4)
        x2, x3 = (x2 + k2) & 0xffff, (x3 + k3) & 0xffff
        p = idea_mul(x1 ^ x3, k5)
        q = idea_mul((p + (x2 ^ x4)) & 0xffff, k6)
        p = (p + q) & 0xffff
        x1, x2, x3, x4 = x1 ^ q, x3 ^ q, x2 ^ p, x4 ^ p
    k1, k2, k3, k4 = k[48:]
    # the swap of the last round is undone
    out = (idea_mul(x1, k1), (x3 + k2) & 0xffff, (x2 + k3) & 0xffff,
           idea_mul(x4, k4))
    return b''.join(v.to_bytes(2, 'big') for v in out)


# -- single block functions ----------------------------------------------

KEY = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32, 11: 16,
       12: 24, 13: 32}
BLOCK = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16, 11: 16, 12: 16,
         13: 16}
_cache = {}


def block_pair(alg, key):
    """(encrypt block, decrypt block) of an OpenPGP cipher number."""
    got = _cache.get((alg, key))
    if got is not None:
        return got
    if alg == 1:
        k = idea_subkeys(key)
        enc, dec = (lambda b: idea_block(b, k)), None
    elif alg in (2, 3, 4, 7, 8, 9):
        from Crypto.Cipher import AES, Blowfish, CAST, DES3
        mod = {2: DES3, 3: CAST, 4: Blowfish}.get(alg, AES)
        c = mod.new(key, mod.MODE_ECB)
        enc, dec = c.encrypt, c.decrypt
    elif alg == 10:
        import twofish
        t = twofish.Twofish(key)
        enc, dec = t.encrypt, t.decrypt
    else:
        import camcrypt
        from pgp.cipher import camcrypt_kwargs
        c = camcrypt.CamCrypt(**camcrypt_kwargs)
        c.keygen(len(key) * 8, key)
        enc, dec = c.encrypt, c.decrypt
    if len(_cache) > 400:
        _cache.clear()
    _cache[(alg, key)] = enc, dec
    return enc, dec


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def cfb(enc, iv, data, decrypt=False, segment=None):
    """CFB over any number of octets; the last segment may be short."""
    bs = len(iv)
    segment = segment or bs
    reg = bytes(iv)
    out = b''
    for i in range(0, len(data), segment):
        chunk = bytes(data[i:i + segment])
        got = xor(enc(reg), chunk)
        out += got
        reg = (reg + (chunk if decrypt else got))[-bs:]
    return out


def cbc(enc, iv, data):
    out, prev = b'', bytes(iv)
    for i in range(0, len(data), len(iv)):
        prev = bytes(enc(xor(prev, data[i:i + len(iv)])))
        out += prev
    return out


def ofb(enc, iv, data):
    out, reg = b'', bytes(iv)
    for i in range(0, len(data), len(iv)):
        reg = bytes(enc(reg))
        out += xor(reg, data[i:i + len(iv)])
    return out


def ctr(enc, bs, start, data):
    out = b''
    for n, i in enumerate(range(0, len(data), bs)):
        block = (start + n).to_bytes(bs, 'big')
        out += xor(enc(block), data[i:i + bs])
    return out


def openpgp_cfb(enc, bs, prefix, data, resync):
    """RFC 4880 section 13.9; prefix: block size random octets."""
    prefix = prefix + prefix[-2:]
    if not resync:
        return cfb(enc, bytes(bs), prefix + data)
    head = cfb(enc, bytes(bs), prefix)
    return head + cfb(enc, head[2:], data)


# -- string-to-key -------------------------------------------------------

HASHES = {1: 'md5', 2: 'sha1', 3: 'ripemd160', 8: 'sha256', 9: 'sha384',
          10: 'sha512', 11: 'sha224'}


def digest(hash_alg, data):
    return hashlib.new(HASHES[hash_alg], bytes(data)).digest()


def s2k(kind, hash_alg, size, passphrase, salt=b'', count=0):
    data = bytes(salt) + bytes(passphrase) if kind else bytes(passphrase)
    if kind == 3 and count > len(data):
        whole, rest = divmod(count, len(data))
        data = data * whole + data[:rest]
    out = b''
    preload = 0
    while len(out) < size:
        out += digest(hash_alg, bytes(preload) + data)
        preload += 1
    return out[:size]


def s2k_count(octet):
    return (16 + (octet & 15)) << ((octet >> 4) + 6)
