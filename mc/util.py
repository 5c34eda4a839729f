"""Helpers around the public interface of the package under test."""

import hashlib

from mc.ref import keys as refkeys
from mc.ref import rfc


def parse(data):
    from pgp.packets import parse_binary_packet_data
    return list(parse_binary_packet_data(bytes(data)))


def read_key(data):
    import pgp
    return pgp.read_key(bytes(data))


def read_message(data):
    import pgp
    return pgp.read_message(bytes(data))


def octets(obj):
    """What a message or key is written as."""
    return b''.join(bytes(p) for p in obj.to_packets())


_keys = {}


def secret(primary, subkeys=(), protect=None, passphrase='', fresh=False,
           **kw):
    """An unlocked secret key of the package for reference key objects."""
    ident = (primary.name, primary.version, primary.created,
             tuple((s.name, s.created) for s in subkeys), repr(kw))
    if fresh or ident not in _keys:
        key = read_key(refkeys.certificate(primary, subkeys=subkeys,
                                           secret=True, protect=protect,
                                           **kw))
        key.unlock(passphrase)
        if fresh:
            return key
        _keys[ident] = key
    return _keys[ident]


def public(primary, subkeys=(), **kw):
    return read_key(refkeys.certificate(primary, subkeys=subkeys, **kw))


def pattern(n, salt=0):
    """n octets without a short period."""
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b'%d/%d' % (salt, i)).digest()
        i += 1
    return out[:n]
