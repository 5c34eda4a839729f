"""C15: the attributes of signatures and keys are what the subpackets say."""

import datetime
import itertools
import re

from mc import util
from mc.core import expect, same, raises, Mismatch
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of sequences of attribute '
             'assignments on real signatures from several initial ones, '
             'every state compared with a reference model of the attributes '
             'and with an independent parser of the signature written; '
             'exhaustive enumeration of subpacket placements and of '
             'histories of self-signatures')
RULE = ('All attribute subpackets of RFC 4880 5.2.3.4-26 in all values of '
        'the domain, hashed, unhashed, critical and repeated; all single '
        'assignments from each initial signature and all sequences up to '
        'the depth; all histories of up to three signatures on keys, '
        'subkeys, user IDs and user attributes.')
ASSUMPTIONS = ['Times are compared in UTC (time zones: C14 and C19).',
               'The order of list attributes after an assignment, whether '
               'repeated subpackets remain repeated, and which '
               'of two signatures of the same second is the more recent, '
               'are not specified.',
               'Assignments to signatures of version 3 are not explored.']

TIME = 1000000100
UTC = datetime.datetime.utcfromtimestamp


def t4(n):
    return n.to_bytes(4, 'big')


FLAGS = ['may_certify_others', 'may_sign_data', 'may_encrypt_comms',
         'may_encrypt_storage', 'may_have_been_split',
         'may_be_used_for_auth', 'may_have_multiple_owners']
BITS = dict(zip(FLAGS, [1, 2, 4, 8, 16, 32, 128]))

# what an attribute reads as when there is no subpacket for it
LISTS = ['regular_expressions', 'notations', 'embedded_signatures',
         'revocation_keys', 'issuer_key_ids']
SCALARS = ['creation_time', 'signature_expiration_time', 'exportable',
           'trust_amount', 'trust_depth', 'revocable', 'issuer_user_id',
           'revocation_reason', 'revocation_code', 'key_expiration_time',
           'preferred_compression_algorithms', 'preferred_hash_algorithms',
           'preferred_symmetric_algorithms', 'key_server_should_not_modify',
           'preferred_key_server', 'primary_user_id', 'policy_uri',
           'supports_modification_detection'] + FLAGS
ABSENT = dict([(a, []) for a in LISTS] + [(a, None) for a in SCALARS])

KIND = {'creation_time': 2, 'signature_expiration_time': 3, 'exportable': 4,
        'trust_amount': 5, 'trust_depth': 5, 'regular_expressions': 6,
        'revocable': 7, 'key_expiration_time': 9,
        'preferred_symmetric_algorithms': 11, 'revocation_keys': 12,
        'issuer_key_ids': 16, 'notations': 20,
        'preferred_hash_algorithms': 21,
        'preferred_compression_algorithms': 22,
        'key_server_should_not_modify': 23, 'preferred_key_server': 24,
        'primary_user_id': 25, 'policy_uri': 26, 'issuer_user_id': 28,
        'revocation_reason': 29, 'revocation_code': 29,
        'supports_modification_detection': 30, 'embedded_signatures': 32}
KIND.update((f, 27) for f in FLAGS)

FPR = '0123456789ABCDEF0123456789ABCDEF01234567'
FPR2 = 'FEDCBA9876543210FEDCBA9876543210FEDCBA98'


def notation(name, value, human=True):
    return (bytes([128 if human else 0, 0, 0, 0])
            + len(name).to_bytes(2, 'big') + len(value).to_bytes(2, 'big')
            + name + value)


def embedded(n):
    return (b'\x04\x19\x01\x02' + b'\x00\x06' + R.created(TIME + n)
            + b'\x00\x00' + b'\xab\xcd' + rfc.mpi(0x1234567 + n))


def flags(octet):
    return {f: bool(octet & BITS[f]) for f in FLAGS}


# -- the reference meaning of one subpacket --------------------------------


def meaning(kind, body, created, key_created):
    """{attribute: value} ; list attributes as one-element lists."""
    if kind == 2:
        return {'creation_time': UTC(int.from_bytes(body, 'big'))}
    if kind in (3, 9):
        n = int.from_bytes(body, 'big')
        base = created if kind == 3 else key_created
        return {'signature_expiration_time' if kind == 3
                else 'key_expiration_time': UTC(base + n) if n else None}
    if kind in (4, 7, 25):
        return {{4: 'exportable', 7: 'revocable',
                 25: 'primary_user_id'}[kind]: body == b'\1'}
    if kind == 5:
        return {'trust_depth': body[0], 'trust_amount': body[1]}
    if kind == 6:
        return {'regular_expressions': [body[:-1].decode('latin-1')]}
    if kind in (11, 21, 22):
        return {{11: 'preferred_symmetric_algorithms',
                 21: 'preferred_hash_algorithms',
                 22: 'preferred_compression_algorithms'}[kind]: list(body)}
    if kind == 12:
        return {'revocation_keys': [(body[1], body[2:].hex().upper(),
                                     bool(body[0] & 64))]}
    if kind == 16:
        return {'issuer_key_ids': [body.hex().upper()]}
    if kind == 20:
        n = int.from_bytes(body[4:6], 'big')
        return {'notations': [(body[8:8 + n], body[8 + n:],
                               bool(body[0] & 128))]}
    if kind == 23:
        return {'key_server_should_not_modify': bool(body[0] & 128)}
    if kind == 24:
        return {'preferred_key_server': body.decode()}
    if kind == 26:
        return {'policy_uri': body.decode()}
    if kind == 27:
        return flags(body[0])
    if kind == 28:
        return {'issuer_user_id': body.decode()}
    if kind == 29:
        return {'revocation_code': body[0],
                'revocation_reason': body[1:].decode()}
    if kind == 30:
        return {'supports_modification_detection': bool(body[0] & 1)}
    if kind == 32:
        return {'embedded_signatures': [body]}
    return {}


def attributes(hashed, unhashed, key_created):
    """Reference attributes of a version 4 signature."""
    subs = R.read_subpackets(hashed) + R.read_subpackets(unhashed)
    made = [b for k, _, b in subs if k == 2]
    made = int.from_bytes(made[0], 'big') if made else None
    out = dict((a, list(v) if v == [] else v) for a, v in ABSENT.items())
    seen = set()
    for kind, _, body in subs:
        for a, v in meaning(kind, body, made, key_created).items():
            if a in LISTS:
                out[a] = out[a] + v
            elif (kind, a) not in seen:
                seen.add((kind, a))
                out[a] = v
    return out


# -- the same from the package ---------------------------------------------


def plain(attr, value):
    """A value of the package as the reference has it."""
    if attr == 'regular_expressions':
        return [r.pattern for r in value]
    if attr == 'notations':
        out = []
        for n in value:
            name, ns, v = [x.encode('utf-8') if isinstance(x, str)
                           else bytes(x) for x in
                           (n.name, n.namespace or '', n.value)]
            out.append((name + (b'@' + ns if ns else b''), v,
                        n.is_human_readable()))
        return out
    if attr == 'revocation_keys':
        return [(k.public_key_algorithm, k.fingerprint, k.sensitive)
                for k in value]
    if attr == 'embedded_signatures':
        return [bytes(s.to_packet().content) for s in value]
    if attr.startswith('preferred_') and attr.endswith('algorithms') \
            and value is not None:
        return [int(x) for x in value]
    return value


def read_all(sig):
    return {a: plain(a, getattr(sig, a)) for a in ABSENT}


def compare(got, want, what, unordered=False):
    for a in sorted(want):
        g, w = got[a], want[a]
        if unordered and a in LISTS:
            g, w = sorted(set(g)), sorted(set(w))
        same(g, w, '%s of %s' % (a, what))


# -- domains ---------------------------------------------------------------

BODIES = {
    2: [t4(TIME), t4(TIME + 86400), t4(1), t4(0x7fffffff), t4(0xfffffffe)],
    3: [t4(0), t4(1), t4(3600), t4(0x01020304), t4(0x7fffffff)],
    4: [b'\0', b'\1'],
    5: [b'\2\x78', b'\0\0', b'\xff\xff', b'\0\x3c', b'\1\0'],
    6: [b'<[^>]+[@.]example\\.com>$\0', b'a|b\0', b'^x*\0'],
    7: [b'\0', b'\1'],
    9: [t4(0), t4(1), t4(86400 * 365), t4(0x7fffffff)],
    11: [b'', b'\x09', b'\x09\x08\x07\x03\x02', bytes(range(11))],
    12: [b'\x80\x11' + bytes.fromhex(FPR), b'\xc0\x01' + bytes.fromhex(FPR2),
         b'\x80\x03' + bytes(20)],
    16: [bytes.fromhex('0123456789ABCDEF'), bytes(8), b'\xff' * 8,
         bytes.fromhex('00000000DEADBEEF')],
    20: [notation(b'a@example.org', b'value'),
         notation(b'b@example.org', b'', True),
         notation(b'a@example.org', b'v\xc3\xa9'),
         notation(b'bin@example.org', b'\x00\xff\x80', False)],
    21: [b'', b'\x08', b'\x0a\x09\x08\x0b\x02\x01'],
    22: [b'', b'\x02', b'\x02\x03\x01', b'\0'],
    23: [b'\x80', b'\0', b'\x80\x01'],
    24: [b'hkp://keys.example.org', b'ldap://x/?y=z#%20'],
    25: [b'\0', b'\1'],
    26: [b'http://example.org/policy', b'http://example.org/p\xc3\xa9'],
    27: [bytes([x]) for x in range(256) if not x & 64] + [
        b'\x03\x00', b'\x20\x80\x01'],
    28: [b'Issuer (at work) <issuer@example.org>', b'Issu\xc3\xa9r'],
    29: [b'\0', b'\0why', b'\1superseded', b'\2gone \xc3\xa9', b'\3',
         b'\x20left', b'\x64private'],
    30: [b'\1', b'\0', b'\1\1', b'\3'],
    32: [embedded(0), embedded(1)],
}

KEY_CREATED = 1000000000
UID = b'Attr <attr@example.org>'


def run(ck):
    import pgp
    from pgp import exceptions
    from pgp.packets import constants as C

    prim = R.Key('rsa_s1', created=KEY_CREATED)
    prim3 = R.Key('rsa_s1', version=3, created=KEY_CREATED)
    other = R.Key('rsa_s2', created=KEY_CREATED)
    sub = R.Key('dsa_small', created=KEY_CREATED + 7)
    image = b'\x10\x00\x01\x01' + bytes(12) + b'\xff\xd8image'
    attr_body = bytes([len(image) + 1, 1]) + image

    def raw_sig(kind, hashed, unhashed=b''):
        return (bytes([4, kind, 1, 2]) + len(hashed).to_bytes(2, 'big')
                + hashed + len(unhashed).to_bytes(2, 'big') + unhashed
                + b'\x12\x34' + rfc.mpi(0x1234567890abcdef))

    def v3_sig(kind, time, key_id):
        return (b'\3\5' + bytes([kind]) + t4(time) + bytes.fromhex(key_id)
                + b'\1\2\x12\x34' + rfc.mpi(0x1234567890abcdef))

    HOLDERS = {'key': (0x1f, 0x20), 'uid': (0x13, 0x30),
               'attribute': (0x12, 0x30), 'subkey': (0x18, 0x28)}

    def key_with(holder, bodies, primary=prim):
        """-> (key, the part of it that has the signatures)"""
        sigs = b''.join(rfc.new_packet(2, b) for b in bodies)
        out = rfc.new_packet(6, primary.public_body)
        if holder == 'key':
            out += sigs
        out += rfc.new_packet(13, UID)
        if holder == 'uid':
            out += sigs
        if holder == 'attribute':
            out += rfc.new_packet(17, attr_body) + sigs
        if holder == 'subkey':
            out += rfc.new_packet(14, sub.public_body) + sigs
        key = util.read_key(out)
        part = {'key': lambda: key, 'uid': lambda: key.user_ids[0],
                'attribute': lambda: key.user_attributes[0],
                'subkey': lambda: key.subkeys[0]}[holder]()
        return key, part

    def on_user_id(hashed, unhashed=b''):
        key, part = key_with('uid', [raw_sig(0x13, hashed, unhashed)])
        return key, part.signatures[0]

    def key_time(holder):
        return sub.created if holder == 'subkey' else KEY_CREATED

    # -- reading -----------------------------------------------------------

    BASE = R.created(TIME)
    ISS = R.issuer(prim.key_id)

    PLACES = ['hashed', 'unhashed', 'critical', 'both', 'twice', 'first',
              'two-octet', 'four-octet', 'thrice']

    def longer(kind, body, size):
        n = len(body) + 1
        if size == 5:
            return b'\xff' + n.to_bytes(4, 'big') + bytes([kind]) + body
        if n < 192:
            return None
        return rfc.new_length(n) + bytes([kind]) + body

    def place(kind, body, body2, where):
        sp = R.subpacket
        one, two = sp(kind, body), sp(kind, body2)
        base = BASE if kind != 2 else b''
        return {
            'hashed': (base + one, ISS), 'unhashed': (base, one + ISS),
            'critical': (base + sp(kind, body, True), ISS),
            'both': (base + one, two + ISS),
            'twice': (base + one + two, ISS),
            'first': (one + base, ISS),
            'two-octet': (base + sp(100, bytes(200)) + one, ISS),
            'four-octet': (base + longer(kind, body, 5), ISS),
            'thrice': (base + two + one, one + two + ISS),
        }[where]

    def read_case(case):
        holder, kind, i, j, where = case
        hashed, unhashed = place(kind, BODIES[kind][i], BODIES[kind][j],
                                 where)
        key, part = key_with(holder, [raw_sig(HOLDERS[holder][0], hashed,
                                              unhashed)])
        sig = part.signatures[0]
        if kind == 20 and where == 'critical':
            raises(lambda: sig.notations)
            return 'critical notation'
        want = attributes(hashed, unhashed, key_time(holder))
        compare(read_all(sig), want, '%s %d' % (where, kind))
        same(sig.to_packet().content,
             raw_sig(HOLDERS[holder][0], hashed, unhashed), 'octets')
        return '%d %s' % (kind, where)

    def read_cases():
        for kind, bodies in sorted(BODIES.items()):
            for where in PLACES:
                for i in range(len(bodies)):
                    if len(bodies) > 20 and where not in ('hashed', 'both') \
                            and i % 37:
                        continue
                    js = range(len(bodies)) if where in (
                        'both', 'twice', 'thrice') and len(bodies) < 20 \
                        else [(i + 1) % len(bodies)]
                    for j in js:
                        for holder in HOLDERS:
                            if holder != 'uid' and (
                                    where not in ('hashed', 'twice')
                                    or len(bodies) > 20 and i % 5):
                                continue
                            yield holder, kind, i, j, where
    ck.each('read', read_cases(), read_case)

    def v3_case(case):
        holder, which, time, key_id = case
        kind = HOLDERS[holder][which]
        key, part = key_with(holder, [v3_sig(kind, time, key_id)]
                             if holder != 'subkey' or not which else
                             [v3_sig(0x18, time, key_id),
                              v3_sig(kind, time, key_id)])
        sig = part.signatures[-1]
        want = dict(ABSENT)
        want['creation_time'] = UTC(time)
        want['issuer_key_ids'] = [key_id]
        compare(read_all(sig), want, 'version 3')
        return 'v3'
    ck.each('read-v3', itertools.product(
        sorted(HOLDERS), [0, 1], [1, TIME, 0x7fffffff, 0xfffffffe],
        [prim.key_id, '00000000DEADBEEF', 'F' * 16]), v3_case)

    # -- assignments -------------------------------------------------------

    from pgp.signature import Notation, RevocationKeyInfo

    def note(body):
        """A notation of the package for a notation body."""
        key, sig = on_user_id(BASE + R.subpacket(20, body), ISS)
        return sig.notations[0]

    def embed(body):
        key, sig = on_user_id(BASE + R.subpacket(32, body), ISS)
        return sig.embedded_signatures[0]

    NOTE = [note(b) for b in BODIES[20]]
    EMBED = [embed(b) for b in BODIES[32]]
    EMBED_KEEP = EMBED  # their target is only weakly referenced
    dt = UTC

    VALUES = {
        'creation_time': [dt(TIME - 500), dt(TIME + 10), dt(TIME + 5000),
                          dt(TIME + 3600)],
        'signature_expiration_time': [
            None, dt(TIME + 1), dt(TIME + 3600), dt(TIME), dt(TIME - 7),
            dt(TIME + 10)],
        'exportable': [False, True],
        'trust_amount': [0, 60, 255],
        'trust_depth': [0, 1, 255],
        'regular_expressions': [[], ['a|b'], ['^x*', 'y$']],
        'revocable': [False, True],
        'notations': [[], [0], [1, 3], [2]],
        'issuer_user_id': ['Someone <s@example.org>', 'Andr\xe9'],
        'revocation_reason': ['', 'compromised \xe9'],
        'revocation_code': [0, 2, 100],
        'embedded_signatures': [[], [0], [1, 0]],
        'key_expiration_time': [None, dt(KEY_CREATED + 1),
                                dt(KEY_CREATED + 86400 * 400),
                                dt(KEY_CREATED), dt(KEY_CREATED - 1)],
        'preferred_compression_algorithms': [[2, 1], []],
        'preferred_hash_algorithms': [[10, 8], [2]],
        'preferred_symmetric_algorithms': [[9, 7, 3], []],
        'revocation_keys': [[], [(17, FPR, False)],
                            [(1, FPR2, True), (17, FPR, False)]],
        'key_server_should_not_modify': [False, True],
        'preferred_key_server': ['hkp://a.example.org', 'ldap://b'],
        'primary_user_id': [False, True],
        'policy_uri': ['http://p.example.org/x', 'ftp://q'],
        'supports_modification_detection': [False, True],
        'issuer_key_ids': [[prim.key_id], ['00000000DEADBEEF'],
                           ['F' * 16, prim.key_id]],
    }
    for f in FLAGS:
        VALUES[f] = [False, True]

    def assigned(attr, i):
        """(value to assign, value it reads as)"""
        v = VALUES[attr][i]
        if attr == 'regular_expressions':
            return [re.compile(x) for x in v], v
        if attr == 'notations':
            return [NOTE[n] for n in v], [
                meaning(20, BODIES[20][n], 0, 0)['notations'][0] for n in v]
        if attr == 'embedded_signatures':
            return [EMBED[n] for n in v], [BODIES[32][n] for n in v]
        if attr == 'revocation_keys':
            return [RevocationKeyInfo(*x) for x in v], v
        if isinstance(v, list):
            return list(v), v
        return v, v

    # attributes of one subpacket, as they are when one of them is set first
    SHARED = [dict.fromkeys(FLAGS, False),
              {'trust_amount': 0, 'trust_depth': 0},
              {'revocation_code': 0, 'revocation_reason': ''}]

    def reference_set(model, attr, value, key_created):
        """-> new model, or None: refused."""
        new = dict(model)
        if attr == 'creation_time':
            exp = model['signature_expiration_time']
            if exp is not None and exp <= value:
                return None
        if attr == 'signature_expiration_time' and value is not None \
                and value <= model['creation_time']:
            return None
        if attr == 'key_expiration_time' and value is not None \
                and value <= UTC(key_created):
            return None
        for group in SHARED:
            if attr in group and model[attr] is None:
                new.update(group)
        new[attr] = value
        return new

    def everything(n, critical=False, kinds=None):
        """All subpackets but the creation time, in their nth value."""
        return b''.join(
            R.subpacket(k, b[n % len(b)],
                        critical and k != 20)
            for k, b in sorted(BODIES.items())
            if k not in (2, 3, 16) and (kinds is None or k in kinds)
            ) + R.subpacket(3, t4(3600 + n), critical)

    UNKNOWN = R.subpacket(100, b'unknown') + R.subpacket(33, b'\4'
                                                         + bytes(20)) \
        + R.subpacket(37, b'') + R.subpacket(110, bytes(300))
    TARGET = R.subpacket(31, b'\1\2' + bytes(20))
    STARTS = {
        'bare': (BASE, ISS),
        'hashed': (BASE + everything(0) + TARGET, ISS),
        'unhashed': (BASE, everything(1) + TARGET + ISS),
        'critical': (R.subpacket(2, t4(TIME), True)
                     + everything(1, True)
                     + R.subpacket(16, bytes.fromhex(prim.key_id), True),
                     b''),
        'twice': (BASE + everything(0) + everything(1) + ISS,
                  everything(2) + ISS),
        'same twice': (BASE + everything(0) * 2 + ISS * 2,
                       everything(1) * 2 + ISS * 2),
        'unknown': (UNKNOWN + BASE + UNKNOWN, UNKNOWN + ISS + UNKNOWN),
        'long': (b'\xff' + bytes([0, 0, 0, 5, 2]) + t4(TIME)
                 + b'\xff\0\0\0\2\x04\1' + b'\xff\0\0\0\3\x05\1\x78',
                 b'\xff\0\0\0\x09\x10' + bytes.fromhex(prim.key_id)
                 + b'\xff\0\0\0\5\3' + t4(60)),
    }

    def others(data, kinds):
        return [s for s in R.read_subpackets(data) if s[0] not in kinds]

    def check_state(sig, model, start, touched, key_created, what):
        got = read_all(sig)
        compare(got, model, what, unordered=True)
        body = bytes(sig.to_packet().content)
        s = R.read_signature(body)
        same((s['version'], s['alg'], s['hash'], s['left']),
             (4, 1, 2, b'\x12\x34'), 'rest of the signature')
        # what is written means the same
        compare(attributes(s['hashed'], s['unhashed'], key_created), model,
                'what is written', unordered=True)
        # what was not assigned is written as it was
        for area, before in zip(('hashed', 'unhashed'), start):
            same(others(s[area], touched), others(before, touched),
                 'other subpackets ' + area)
        return body

    def build(hist, start, holder):
        hashed, unhashed = STARTS[start]
        kind = HOLDERS[holder][0]
        key, part = key_with(holder, [raw_sig(kind, hashed, unhashed)])
        sig = part.signatures[0]
        made = key_time(holder)
        model = attributes(hashed, unhashed, made)
        touched = set()
        for attr, i in hist:
            value, reads = assigned(attr, i)
            new = reference_set(model, attr, reads, made)
            if new is None:
                raises(lambda: setattr(sig, attr, value), ValueError)
            else:
                setattr(sig, attr, value)
                model = new
                touched.add(KIND[attr])
                if attr == 'creation_time':
                    touched.add(3)
        body = check_state(sig, model, (hashed, unhashed), touched, made,
                           'after %r' % (hist,))
        return key, sig, model, body

    def reread(world, holder):
        key, sig, model, body = world
        # and is read back as the same
        key2, part = key_with(holder, [body])
        compare(read_all(part.signatures[0]), model, 'read back',
                unordered=True)

    EVENTS = [(a, i) for a in sorted(VALUES) for i in range(len(VALUES[a]))]

    def single(case):
        start, holder, attr, i = case
        world = build([(attr, i)], start, holder)
        reread(world, holder)
        return '%s %s %d' % (start, attr, i)
    ck.each('assign', (
        (start, holder, a, i) for start in sorted(STARTS)
        for holder in sorted(HOLDERS) for a, i in EVENTS), single)

    # times that cannot be written are refused, now or when they are written
    def no_time(case):
        start, holder, history = case
        hashed, unhashed = STARTS[start]
        key, part = key_with(holder, [raw_sig(HOLDERS[holder][0], hashed,
                                              unhashed)])
        sig = part.signatures[0]
        try:
            for attr, seconds in history:
                setattr(sig, attr, UTC(0) + datetime.timedelta(
                    seconds=seconds))
            body = bytes(sig.to_packet().content)
        except Exception:
            return 'refused'
        key2, part = key_with(holder, [body])
        for attr, seconds in history:
            same(getattr(part.signatures[0], attr),
                 UTC(0) + datetime.timedelta(seconds=seconds),
                 '%s read back' % attr)
        return 'kept'
    far = [-1, -86400, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + TIME, 2 ** 33]
    ck.each('times-far', [
        (start, holder, h) for start in sorted(STARTS)
        for holder in sorted(HOLDERS) for h in
        [[(a, t)] for a in ('creation_time', 'signature_expiration_time',
                            'key_expiration_time') for t in far]
        + [[('signature_expiration_time', t), ('creation_time', u)]
           for t in far + [TIME + 5000] for u in [1, 1000, TIME + 1]]],
        no_time)

    # what is less than a second is dropped
    def fraction(case):
        start, holder, history = case
        hashed, unhashed = STARTS[start]
        key, part = key_with(holder, [raw_sig(HOLDERS[holder][0], hashed,
                                              unhashed)])
        sig = part.signatures[0]
        want = {}
        for attr, seconds, micro in history:
            setattr(sig, attr, UTC(seconds) + datetime.timedelta(
                microseconds=micro))
            want[attr] = UTC(seconds)
        key2, part = key_with(holder, [bytes(sig.to_packet().content)])
        for when, s in (('', sig), (' read back', part.signatures[0])):
            for attr in want:
                same(getattr(s, attr), want[attr], attr + when)
        return 'floor'
    micros = (0, 1, 499999, 500000, 999999)
    ck.each('fractions', [
        (start, holder, h) for start in ('bare',)
        for holder in sorted(HOLDERS) for h in
        [[('creation_time', TIME + 7, m), (a, TIME + 5000, n)]
         for a in ('signature_expiration_time', 'key_expiration_time')
         for m in micros for n in micros]
        + [[('signature_expiration_time', TIME + 5000, n),
            ('creation_time', TIME + 7, m)] for m in micros for n in micros]],
        fraction)

    def canon(world):
        return world[3]

    small = [e for e in EVENTS if e[1] < 2]
    ck.bfs('assignments', [], lambda h: EVENTS,
           lambda h: build(h, 'bare', 'uid'), canon,
           lambda w: reread(w, 'uid'), 2)
    # attributes that share subpackets or depend on each other
    near = [e for e in EVENTS if KIND[e[0]] in (2, 3, 5, 29)]
    few = [(f, i) for f in FLAGS for i in (0, 1)] + [
        ('supports_modification_detection', 1)]
    deep = 4 if ck.thorough else 3
    for start in ('bare', 'long'):
        ck.bfs('times-' + start, [], lambda h: near,
               lambda h: build(h, start, 'uid'), canon,
               lambda w: reread(w, 'uid'), deep)
    ck.bfs('flags', [], lambda h: few, lambda h: build(h, 'bare', 'key'),
           canon, lambda w: reread(w, 'key'), 7 if ck.thorough else 4)
    lists = [e for e in EVENTS if e[0] in LISTS and e[0] != 'issuer_key_ids']
    ck.bfs('lists', [], lambda h: lists,
           lambda h: build(h, 'bare', 'subkey'), canon,
           lambda w: reread(w, 'subkey'), 4 if ck.thorough else 3)
    if ck.thorough:
        for start in sorted(STARTS):
            if start != 'bare':
                ck.bfs('assignments-' + start, [], lambda h: EVENTS,
                       lambda h: build(h, start, 'uid'), canon,
                       lambda w: reread(w, 'uid'), 2)
        ck.bfs('assignments-3', [], lambda h: small,
               lambda h: build(h, 'bare', 'uid'), canon,
               lambda w: reread(w, 'uid'), 3)

    # -- signatures the key itself makes ------------------------------------

    # -- attributes of keys ------------------------------------------------

    # attribute of the part -> attribute of its signature
    OF_PARTS = {a: a for a in FLAGS + [
        'preferred_compression_algorithms', 'preferred_hash_algorithms',
        'preferred_symmetric_algorithms', 'revocation_keys',
        'key_server_should_not_modify', 'preferred_key_server',
        'primary_user_id', 'policy_uri', 'supports_modification_detection']}
    OF_PARTS['expiration_time'] = 'key_expiration_time'
    OF_REVOCATIONS = ['revocation_reason', 'revocation_code']
    EMPTY = ('preferred_compression_algorithms', 'preferred_hash_algorithms',
             'preferred_symmetric_algorithms', 'revocation_keys')

    def rich(n, time):
        area = R.created(time)
        for k in (9, 11, 12, 21, 22, 23, 24, 25, 26, 30):
            area += R.subpacket(k, BODIES[k][(n + 1) % len(BODIES[k])])
        area += R.subpacket(27, bytes([[3, 12, 160][n % 3]]))
        return area

    def reasons(n, time):
        return R.created(time) + R.subpacket(29, bytes([n]) + b'why %d' % n)

    def sigs_of(holder, word):
        """word: ((letter, time), ...); letters s: by the key, o: by
        another, r: revocation by the key, x: revocation by another,
        e: by the key without preferences, 3: version 3 by the key."""
        out = []
        own, rev = HOLDERS[holder]
        for n, (letter, time) in enumerate(word):
            by = other if letter in 'ox' else prim
            kind = rev if letter in 'rx' else own
            if letter == '3':
                out.append(v3_sig(own, TIME + time, prim.key_id))
                continue
            if holder in ('uid', 'attribute') and letter in 'so':
                kind = 0x10 + n
            if letter in 'rx':
                hashed = reasons(n + 1, TIME + time)
            elif letter == 'e':
                hashed = R.created(TIME + time)
            else:
                hashed = rich(n, TIME + time)
            out.append(raw_sig(kind, hashed, R.issuer(by.key_id)))
        return out

    def valid_word(holder, word):
        if len(set(t for _, t in word)) != len(word):
            return False
        if holder == 'subkey':
            return any(x in 'soe3' for x, _ in word) and word \
                and word[0][0] in 'soe3'
        return True

    def expected(holder, word, letters):
        """attributes of the most recent signature of these letters"""
        mine = [(t, i) for i, (x, t) in enumerate(word) if x in letters]
        if not mine:
            return None, None
        t, i = max(mine)
        if word[i][0] == '3':
            return i, dict(ABSENT)
        s = R.read_signature(sigs_of(holder, word)[i])
        return i, attributes(s['hashed'], s['unhashed'], key_time(holder))

    def check_part(part, holder, word):
        i, want = expected(holder, word, 'se3')
        for a, of in sorted(OF_PARTS.items()):
            got = plain(of, getattr(part, a))
            if want is None:
                w = [] if a in EMPTY else None
            else:
                w = want[of]
            same(got, w, '%s of the %s' % (a, holder))
        j, want_r = expected(holder, word, 'r')
        for a in OF_REVOCATIONS:
            same(getattr(part, a), None if want_r is None else want_r[a],
                 '%s of the %s' % (a, holder))
        return i

    def words(alphabet, n):
        for size in range(n + 1):
            for w in itertools.product(alphabet, repeat=size):
                yield w

    def part_case(case):
        holder, word = case
        key, part = key_with(holder, sigs_of(holder, word))
        check_part(part, holder, word)
        if holder in ('uid', 'attribute'):
            i, want = expected(holder, word, 'se3')
            same(part.creation_time,
                 None if i is None else UTC(TIME + word[i][1]),
                 'creation time')
        else:
            same(part.creation_time, UTC(key_time(holder)), 'creation time')
        return holder, ''.join(x for x, _ in word)
    n = 4 if ck.thorough else 3
    letters = [(x, t) for x in 'sore' for t in range(1, n + 1)]
    ck.each('self-signatures', (
        (h, w) for h in sorted(HOLDERS) for w in words(letters, n)
        if valid_word(h, w)), part_case)
    ck.each('self-signatures-other', (
        (h, w) for h in sorted(HOLDERS) for w in words(
            [(x, t) for x in 'sxr3' for t in (1, 2, 3)], 3)
        if valid_word(h, w) and any(x in 'x3' for x, _ in w)), part_case)

    # an assignment changes the most recent self-signature, and only that
    PART_VALUES = [(a, i) for a in sorted(OF_PARTS)
                   for i in range(len(VALUES[OF_PARTS[a]]))]

    def assign_part(case):
        holder, word, attr, n = case
        bodies = sigs_of(holder, word)
        key, part = key_with(holder, bodies)
        i, want = expected(holder, word, 'se')
        value, reads = assigned(OF_PARTS[attr], n)
        if holder == 'subkey' and isinstance(value, datetime.datetime):
            value = reads = value + datetime.timedelta(seconds=7)
        new = reference_set(want, OF_PARTS[attr], reads, key_time(holder))
        if new is None:
            raises(lambda: setattr(part, attr, value), ValueError)
            new = want
        else:
            setattr(part, attr, value)
        for a, of in sorted(OF_PARTS.items()):
            g, w = plain(of, getattr(part, a)), new[of]
            if of in LISTS:
                g, w = sorted(set(g)), sorted(set(w))
            same(g, w, '%s of the %s' % (a, holder))
        for j, sig in enumerate(part.signatures):
            if j == i:
                compare(read_all(sig), new, 'assigned', unordered=True)
            else:
                same(sig.to_packet().content, bodies[j],
                     'another signature')
        # all the rest of the key is as it was
        tags = [t for t, _ in rfc.split_packets(util.octets(key))]
        key2 = util.read_key(util.octets(key))
        same(util.octets(key2), util.octets(key), 'read back')
        return holder, attr
    ck.each('assign-self-signature', (
        (h, w, a, k) for h in sorted(HOLDERS)
        for w in words([(x, t) for x in 'soe' for t in (1, 2)], 2)
        if valid_word(h, w) and any(x in 'se' for x, _ in w)
        for a, k in PART_VALUES), assign_part)

    # version 3 keys have no such attributes
    def v3_key(case):
        sigs, = case
        body = v3_sig(0x20, TIME, prim3.key_id)
        key, part = key_with('key', [body] * sigs, prim3)
        for a, of in sorted(OF_PARTS.items()):
            same(plain(of, getattr(key, a)), [] if a in EMPTY else None,
                 a + ' of a version 3 key')
        for a in OF_REVOCATIONS:
            same(getattr(key, a), None, a)
        same(key.creation_time, UTC(KEY_CREATED), 'creation time')
        return 'v3 key'
    ck.each('version-3-keys', [(0,), (1,), (2,)], v3_key)
