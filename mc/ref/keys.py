"""Reference public-key side of OpenPGP: key packets, signatures, session
keys, built and checked with nothing but integer arithmetic and hashlib."""

import hashlib
import json
import os

from mc.ref import cipher
from mc.ref import rfc

_PATH = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'data', 'keys.json')
with open(_PATH) as _fh:
    NUM = {name: {a: (v if a == 'kind' else int(v, 16))
                  for a, v in d.items()}
           for name, d in json.load(_fh).items()}

# keys of the sizes that are in use
with open(os.path.join(os.path.dirname(_PATH), 'big.json')) as _fh:
    BIG = {name: {a: (v if a == 'kind' else int(v, 16))
                  for a, v in d.items()}
           for name, d in json.load(_fh).items()}

ALG = {'rsa': 1, 'dsa': 17, 'elg': 16}
PUBLIC = {'rsa': 'ne', 'dsa': 'pqgy', 'elg': 'pgy'}
SECRET = {'rsa': 'dpqu', 'dsa': 'x', 'elg': 'x'}


class Key(object):
    """One key packet's worth of numbers."""

    def __init__(self, name, version=4, created=1000000000, days=0,
                 alg=None):
        self.name = name
        self.num = NUM[name] if name in NUM else BIG[name]
        self.kind = self.num['kind']
        self.version = version
        self.created = created
        self.days = days
        self.alg = ALG[self.kind] if alg is None else alg

    @property
    def public_body(self):
        out = bytes([self.version]) + self.created.to_bytes(4, 'big')
        if self.version < 4:
            out += self.days.to_bytes(2, 'big')
        out += bytes([self.alg])
        for a in PUBLIC[self.kind]:
            out += rfc.mpi(self.num[a])
        return out

    @property
    def secret_mpis(self):
        return [rfc.mpi(self.num[a]) for a in SECRET[self.kind]]

    def secret_body(self, protect=None):
        """protect: None or a dict(usage, alg, passphrase, iv, s2k=(kind,
        hash, salt, octet)) ; usage 254, 255 or 'legacy'; or
        dict(usage='gnu', mode=1|2, serial=b'')."""
        plain = b''.join(self.secret_mpis)
        total = (sum(plain) & 0xffff).to_bytes(2, 'big')
        if protect is None:
            return self.public_body + b'\0' + plain + total
        usage = protect['usage']
        if usage == 'gnu':
            out = (self.public_body + bytes([255, protect.get('alg', 9), 101,
                                             2]) + b'GNU'
                   + bytes([protect['mode']]))
            if protect['mode'] == 2:
                out += bytes([len(protect['serial'])]) + protect['serial']
            return out
        alg, iv = protect['alg'], protect['iv']
        if usage == 'legacy':
            head = bytes([alg])
            key = cipher.s2k(0, 1, cipher.KEY[alg], protect['passphrase'])
        else:
            kind, h, salt, octet = protect['s2k']
            head = bytes([usage, alg, kind, h])
            if kind:
                head += salt
            if kind == 3:
                head += bytes([octet])
            key = cipher.s2k(kind, h, cipher.KEY[alg],
                             protect['passphrase'], salt,
                             cipher.s2k_count(octet))
        enc, _ = cipher.block_pair(alg, key)
        if self.version >= 4:
            tail = hashlib.sha1(plain).digest() if usage == 254 else total
            body = cipher.cfb(enc, iv, plain + tail)
        else:
            body, state = b'', bytes(iv)
            for m in self.secret_mpis:
                part = cipher.cfb(enc, state, m[2:])
                body += m[:2] + part
                state = (state + part)[-len(iv):]
            body += total
        return self.public_body + head + iv + body

    @property
    def fingerprint(self):
        if self.version < 4:
            h = hashlib.md5()
            for a in PUBLIC[self.kind]:
                h.update(rfc.mpi(self.num[a])[2:])
            return h.hexdigest().upper()
        body = self.public_body
        return hashlib.sha1(b'\x99' + len(body).to_bytes(2, 'big')
                            + body).hexdigest().upper()

    @property
    def key_id(self):
        if self.version < 4:
            n = self.num['n' if self.kind == 'rsa' else 'p']
            return '%016X' % (n & (1 << 64) - 1)
        return self.fingerprint[-16:]

    @property
    def hashed(self):
        """The key as it goes into a signature."""
        body = self.public_body
        return b'\x99' + len(body).to_bytes(2, 'big') + body


# -- raw signatures --------------------------------------------------------

DIGEST_INFO = {
    1: '3020300c06082a864886f70d020505000410',
    2: '3021300906052b0e03021a05000414',
    3: '3021300906052b2403020105000414',
    8: '3031300d060960864801650304020105000420',
    9: '3041300d060960864801650304020205000430',
    10: '3051300d060960864801650304020305000440',
    11: '302d300d06096086480165030402040500041c',
}


def emsa(hash_alg, digest, size):
    t = bytes.fromhex(DIGEST_INFO[hash_alg]) + digest
    if size < len(t) + 11:
        raise ValueError('modulus too short')
    return b'\0\1' + b'\xff' * (size - len(t) - 3) + b'\0' + t


def sign_digest(num, hash_alg, digest, k=None):
    """Signature values, as a list of integers."""
    if num['kind'] == 'rsa':
        size = (num['n'].bit_length() + 7) // 8
        m = int.from_bytes(emsa(hash_alg, digest, size), 'big')
        return [pow(m, num['d'], num['n'])]
    q = num['q']
    z = dsa_z(q, digest)
    if k is None:
        k = int.from_bytes(hashlib.sha512(
            b'k' + digest + str(num['x']).encode()).digest() * 2, 'big') \
            % (q - 1) + 1
    r = pow(num['g'], k, num['p']) % q
    s = pow(k, -1, q) * (z + num['x'] * r) % q
    return [r, s]


def dsa_z(q, digest):
    size = q.bit_length()
    z = int.from_bytes(digest, 'big')
    extra = len(digest) * 8 - size
    return z >> extra if extra > 0 else z


def check_digest(num, hash_alg, digest, values):
    if num['kind'] == 'rsa':
        size = (num['n'].bit_length() + 7) // 8
        if len(values) != 1 or not 0 <= values[0] < num['n']:
            return False
        return pow(values[0], num['e'], num['n']).to_bytes(size, 'big') \
            == emsa(hash_alg, digest, size)
    r, s = values
    q = num['q']
    if not (0 < r < q and 0 < s < q):
        return False
    w = pow(s, -1, q)
    z = dsa_z(q, digest)
    v = pow(num['g'], z * w % q, num['p']) \
        * pow(num['y'], r * w % q, num['p']) % num['p'] % q
    return v == r


# -- signature packets -----------------------------------------------------


def subpacket(kind, body, critical=False):
    return rfc.new_length(len(body) + 1) + bytes([kind | (
        0x80 if critical else 0)]) + bytes(body)


def created(t):
    return subpacket(2, t.to_bytes(4, 'big'))


def issuer(key_id):
    return subpacket(16, bytes.fromhex(key_id))


def signature_body(key, kind, hash_alg, data, time=1000000100, version=4,
                   hashed=None, unhashed=None, k=None, corrupt=False):
    """data: the octets signed, before the trailer of the signature."""
    if version == 4:
        if hashed is None:
            hashed = created(time)
        if unhashed is None:
            unhashed = issuer(key.key_id)
        head = bytes([4, kind, key.alg, hash_alg]) \
            + len(hashed).to_bytes(2, 'big') + hashed
        trailer = head + b'\x04\xff' + len(head).to_bytes(4, 'big')
    else:
        trailer = bytes([kind]) + time.to_bytes(4, 'big')
    digest = cipher.digest(hash_alg, bytes(data) + trailer)
    values = sign_digest(key.num, hash_alg, digest, k)
    if corrupt:
        values[-1] ^= 2
    mpis = b''.join(map(rfc.mpi, values))
    if version == 4:
        return (head + len(unhashed).to_bytes(2, 'big') + unhashed
                + digest[:2] + mpis)
    return (bytes([version, 5]) + trailer + bytes.fromhex(key.key_id)
            + bytes([key.alg, hash_alg]) + digest[:2] + mpis)


def read_signature(body):
    """-> dict of the fields of a signature packet body."""
    out = {'version': body[0]}
    if body[0] == 4:
        n = int.from_bytes(body[4:6], 'big')
        out.update(kind=body[1], alg=body[2], hash=body[3],
                   hashed=body[6:6 + n], trailer=body[:6 + n] + b'\x04\xff'
                   + (6 + n).to_bytes(4, 'big'))
        pos = 6 + n
        m = int.from_bytes(body[pos:pos + 2], 'big')
        out['unhashed'] = body[pos + 2:pos + 2 + m]
        pos += 2 + m
    else:
        assert body[1] == 5
        out.update(kind=body[2], time=int.from_bytes(body[3:7], 'big'),
                   key_id=body[7:15].hex().upper(), alg=body[15],
                   hash=body[16], trailer=body[2:7])
        pos = 17
    out['left'] = body[pos:pos + 2]
    pos += 2
    out['values'] = []
    while pos < len(body):
        v, pos = rfc.read_mpi(body, pos)
        out['values'].append(v)
    return out


def read_subpackets(data):
    """[(type, critical, body)]"""
    out, pos = [], 0
    while pos < len(data):
        n = data[pos]
        pos += 1
        if 192 <= n < 255:
            n = (n - 192) * 256 + data[pos] + 192
            pos += 1
        elif n == 255:
            n = int.from_bytes(data[pos:pos + 4], 'big')
            pos += 4
        out.append((data[pos] & 0x7f, bool(data[pos] & 0x80),
                    bytes(data[pos + 1:pos + n])))
        pos += n
    return out


def verify_body(key, body, data):
    s = read_signature(body)
    digest = cipher.digest(s['hash'], bytes(data) + s['trailer'])
    return (s['alg'] == key.alg and s['left'] == digest[:2]
            and check_digest(key.num, s['hash'], digest, s['values']))


def on_user_id(primary, uid, version=4):
    if version < 4:
        return primary.hashed + uid
    return primary.hashed + b'\xb4' + len(uid).to_bytes(4, 'big') + uid


def on_attribute(primary, body, version=4):
    if version < 4:
        return primary.hashed + body
    return primary.hashed + b'\xd1' + len(body).to_bytes(4, 'big') + body


# -- encrypted session keys ------------------------------------------------


def session_block(alg, key):
    return bytes([alg]) + key + (sum(key) & 0xffff).to_bytes(2, 'big')


def pkesk_body(key, alg, session, hidden=False, filler=0x41, k=12345677,
               block=None):
    """Public-key encrypted session key (fixed padding)."""
    m = session_block(alg, session) if block is None else block
    num = key.num
    mod = num['n'] if key.kind == 'rsa' else num['p']
    size = (mod.bit_length() + 7) // 8
    em = b'\0\2' + bytes([filler]) * (size - len(m) - 3) + b'\0' + m
    assert len(em) == size, 'modulus too short'
    m = int.from_bytes(em, 'big')
    if key.kind == 'rsa':
        values = [pow(m, num['e'], mod)]
    else:
        values = [pow(num['g'], k, mod), m * pow(num['y'], k, mod) % mod]
    return (b'\3' + (bytes(8) if hidden else bytes.fromhex(key.key_id))
            + bytes([key.alg]) + b''.join(map(rfc.mpi, values)))


def read_pkesk(key, body):
    """-> (key id, cipher, session key); raises ValueError."""
    num = key.num
    pos, values = 10, []
    while pos < len(body):
        v, pos = rfc.read_mpi(body, pos)
        values.append(v)
    if key.kind == 'rsa':
        mod = num['n']
        m = pow(values[0], num['d'], mod)
    else:
        mod = num['p']
        m = values[1] * pow(pow(values[0], num['x'], mod), -1, mod) % mod
    size = (mod.bit_length() + 7) // 8
    em = m.to_bytes(size, 'big')
    if em[:2] != b'\0\2' or 0 not in em[2:]:
        raise ValueError('padding')
    end = em.index(0, 2)
    if end < 10:
        raise ValueError('padding too short')
    block = em[end + 1:]
    session = block[1:-2]
    if (sum(session) & 0xffff).to_bytes(2, 'big') != block[-2:]:
        raise ValueError('checksum')
    return body[1:9].hex().upper(), block[0], session


def skesk_body(alg, kind, hash_alg, passphrase, salt=b'', octet=96,
               session_alg=None, session=None):
    head = bytes([4, alg, kind, hash_alg])
    if kind:
        head += salt
    if kind == 3:
        head += bytes([octet])
    if session is None:
        return head
    kek = cipher.s2k(kind, hash_alg, cipher.KEY[alg], passphrase, salt,
                     cipher.s2k_count(octet))
    enc, _ = cipher.block_pair(alg, kek)
    return head + cipher.cfb(enc, bytes(cipher.BLOCK[alg]),
                             bytes([session_alg]) + session)


def read_skesk(body, passphrase):
    """-> (cipher, session key)"""
    alg, kind, hash_alg = body[1], body[2], body[3]
    pos = 4
    salt, octet = b'', 0
    if kind:
        salt = body[pos:pos + 8]
        pos += 8
    if kind == 3:
        octet = body[pos]
        pos += 1
    key = cipher.s2k(kind, hash_alg, cipher.KEY[alg], passphrase, salt,
                     cipher.s2k_count(octet))
    if pos == len(body):
        return alg, key
    enc, _ = cipher.block_pair(alg, key)
    block = cipher.cfb(enc, bytes(cipher.BLOCK[alg]), body[pos:],
                       decrypt=True)
    return block[0], block[1:]


# -- encrypted data --------------------------------------------------------


def sed_body(alg, session, plain, prefix):
    enc, _ = cipher.block_pair(alg, session)
    return cipher.openpgp_cfb(enc, cipher.BLOCK[alg], prefix, plain, True)


def seipd_body(alg, session, plain, prefix, mdc=None):
    enc, _ = cipher.block_pair(alg, session)
    if mdc is None:
        head = prefix + prefix[-2:]
        mdc = b'\xd3\x14' + hashlib.sha1(
            head + plain + b'\xd3\x14').digest()
    return b'\1' + cipher.openpgp_cfb(enc, cipher.BLOCK[alg], prefix,
                                      plain + mdc, False)


def open_sed(alg, session, body):
    enc, _ = cipher.block_pair(alg, session)
    bs = cipher.BLOCK[alg]
    head = cipher.cfb(enc, bytes(bs), body[:bs + 2], decrypt=True)
    if head[-2:] != head[-4:-2]:
        raise ValueError('quick check')
    return head[:bs], cipher.cfb(enc, body[2:bs + 2], body[bs + 2:],
                                 decrypt=True)


def open_seipd(alg, session, body):
    enc, _ = cipher.block_pair(alg, session)
    bs = cipher.BLOCK[alg]
    if body[:1] != b'\1':
        raise ValueError('version')
    plain = cipher.cfb(enc, bytes(bs), body[1:], decrypt=True)
    if plain[bs - 2:bs] != plain[bs:bs + 2]:
        raise ValueError('quick check')
    if (plain[-22:-20] != b'\xd3\x14'
            or hashlib.sha1(plain[:-20]).digest() != plain[-20:]):
        raise ValueError('modification detection code')
    return plain[:bs], plain[bs + 2:-22]


def literal_body(fmt, name, time, data):
    return (fmt + bytes([len(name)]) + name + time.to_bytes(4, 'big')
            + bytes(data))


# -- transferable keys -----------------------------------------------------


def certificate(primary, uids=(b'Test <test@example.org>',), subkeys=(),
                secret=False, protect=None, hash_alg=8, new=False,
                direct=(), kind=0x13, sub_protect=None, extra_uid=None,
                times=None):
    """Octets of a transferable key with genuine self-signatures.

    subkeys: Key objects; direct: hashed areas of direct-key signatures.
    """
    t = times or 1000000100

    def emit(tag, body):
        return rfc.packet(new, tag, body)

    def key_packet(key, sub):
        if secret:
            p = sub_protect if sub and sub_protect is not None else protect
            return emit(7 if sub else 5, key.secret_body(p))
        return emit(14 if sub else 6, key.public_body)
    out = key_packet(primary, False)
    for area in direct:
        out += emit(2, signature_body(primary, 0x1f, hash_alg,
                                      primary.hashed, hashed=area))
    v = 3 if primary.version < 4 else 4
    for uid in uids:
        out += emit(13, uid)
        out += emit(2, signature_body(
            primary, kind, hash_alg, on_user_id(primary, uid, v), t, v,
            hashed=extra_uid))
    for sub in subkeys:
        out += key_packet(sub, True)
        out += emit(2, signature_body(primary, 0x18, hash_alg,
                                      primary.hashed + sub.hashed, t))
    return out
