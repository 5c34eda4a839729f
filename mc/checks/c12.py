"""C12: a signature verifies exactly when the key it names made it over
that very content."""

import itertools
import time

from mc import util
from mc.core import expect, same, raises, Mismatch
from mc.env import RNG
from mc.ref import cipher
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of signatures made by an independent '
             'model over every (key, hash, version, type, target), of every '
             'single-bit fault of signature and content, and of every '
             '(signature, key, content) pairing, executed on the real code '
             'with the model as the oracle; the code\'s own signatures are '
             'replayed on the model')
RULE = ('Signatures by every key kind x hash x version x type x target in '
        'both directions; all bit flips, truncations and pairings of sample '
        'signatures; the boundary values of the signature integers.')
ASSUMPTIONS = ['Forging by breaking RSA, DSA or a hash is out of scope.',
               'A lone CR in text is ambiguous as a line ending and not '
               'enumerated.']

HASHES = (1, 2, 3, 8, 9, 10, 11)
TIME = 1000000100

SIGNERS = ('rsa_a', 'rsa_c', 'rsa_odd', 'rsa_s1', 'dsa_a', 'dsa_1k',
           'dsa_256', 'dsa_224', 'dsa_small')

UID = 'T\u00e9st <t@example.org>'.encode('utf8')
IMAGE = b'\x10\x00\x01\x01' + bytes(12) + b'\xff\xd8\xff\xe0JFIF'
ATTR = bytes([len(IMAGE) + 1, 1]) + IMAGE


def canonical(data):
    return data.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')


def run(ck):
    import datetime
    from pgp import exceptions
    from pgp import utils
    from pgp.message import BinaryMessage, TextMessage
    from pgp.signature import BaseSignature
    from pgp.detached_signature import DetachedSignature

    stamp = datetime.datetime.fromtimestamp(TIME)

    # -- the key the signatures are on --------------------------------------
    owner = R.Key('rsa_b', created=1000000000)
    owner3 = R.Key('rsa_b', version=3, created=1000000000)
    sub = R.Key('elg_a', created=1000000001)
    sub2 = R.Key('dsa_b', created=1000000002)

    def certificate(primary, subs):
        out = rfc.packet(False, 6, primary.public_body)
        v = 3 if primary.version < 4 else 4
        out += rfc.packet(False, 13, UID)
        out += rfc.packet(False, 2, R.signature_body(
            primary, 0x13, 8, R.on_user_id(primary, UID, v), version=v))
        out += rfc.packet(True, 17, ATTR)
        out += rfc.packet(False, 2, R.signature_body(
            primary, 0x13, 8, R.on_attribute(primary, ATTR, v), version=v))
        for s in subs:
            out += rfc.packet(False, 14, s.public_body)
            out += rfc.packet(False, 2, R.signature_body(
                primary, 0x18, 8, primary.hashed + s.hashed))
        return out
    cert = util.read_key(certificate(owner, [sub, sub2]))
    cert3 = util.read_key(certificate(owner3, []))

    texts = {
        'bin': bytes(range(256)).replace(b'\r', b''),
        'empty': b'',
        'crlf': b'one\r\ntwo\n\nthree \t\r\n\r\nend',
        'utf8': 'a\u00e9\u20ac\n\U0001f600'.encode('utf8'),
        'long': util.pattern(5000, 3).replace(b'\r', b'.'),
    }

    def target(name):
        """-> (item of the package, octets signed as f(kind, version))"""
        if name in texts or isinstance(name, bytes):
            data = texts.get(name, name)
            return (BinaryMessage(data, 'n', stamp),
                    lambda kind, version: canonical(data)
                    if kind == 1 else data)
        if name == 'text':
            data = texts['utf8']
            return (TextMessage(data.decode('utf8'), 'n', stamp),
                    lambda kind, version: canonical(data)
                    if kind == 1 else data)
        if name == 'uid':
            return cert.user_ids[0], lambda k, v: R.on_user_id(owner, UID, v)
        if name == 'attr':
            return (cert.user_attributes[0],
                    lambda k, v: R.on_attribute(owner, ATTR, v))
        if name == 'key':
            return cert, lambda k, v: owner.hashed
        if name == 'sub':
            return cert.subkeys[0], lambda k, v: owner.hashed + sub.hashed
        if name == 'sub2':
            return cert.subkeys[1], lambda k, v: owner.hashed + sub2.hashed
        if name == 'uid3':
            return (cert3.user_ids[0],
                    lambda k, v: R.on_user_id(owner3, UID, v))
        if name == 'attr3':
            return (cert3.user_attributes[0],
                    lambda k, v: R.on_attribute(owner3, ATTR, v))
        if name == 'key3':
            return cert3, lambda k, v: owner3.hashed
        raise KeyError(name)

    KINDS = {
        'bin': (0, 1), 'empty': (0, 1), 'crlf': (0, 1), 'utf8': (0, 1),
        'text': (0, 1), 'long': (0, 1),
        'uid': (0x10, 0x11, 0x12, 0x13, 0x30),
        'attr': (0x10, 0x13, 0x30),
        'key': (0x1f, 0x20), 'sub': (0x18, 0x28), 'sub2': (0x18, 0x19, 0x28),
        'uid3': (0x10, 0x13), 'attr3': (0x13,), 'key3': (0x20,),
    }

    publics = {}

    def public(name, version=4, alg=None):
        ident = name, version, alg
        if ident not in publics:
            key = R.Key(name, version=version, created=1000000003, alg=alg)
            publics[ident] = key, util.public(key)
        return publics[ident]

    secrets = {}

    def secret(name, version=4, alg=None):
        ident = name, version, alg
        if ident not in secrets:
            key = R.Key(name, version=version, created=1000000003, alg=alg)
            secrets[ident] = key, util.secret(key, fresh=True)
        return secrets[ident]

    def signature(body, item, cls=BaseSignature):
        pkts = util.parse(rfc.packet(True, 2, body))
        if len(pkts) != 1:
            raise ValueError('%d packets' % len(pkts))
        return cls.from_packet(pkts[0], item)

    def code_verdict(pub, body, item, cls=BaseSignature):
        """None: not even a signature; True; False"""
        try:
            sig = signature(body, item, cls)
            sig.issuer_key_ids
        except Exception:
            return None
        try:
            return pub.verify(sig, item) is True
        except exceptions.SignatureVerificationFailed:
            return False
        except AssertionError:
            raise
        except Exception:
            return False

    def model_verdict(key, body, data):
        try:
            s = R.read_signature(body)
            if s['version'] == 4:
                ids = [b.hex().upper() for t, _, b in
                       R.read_subpackets(s['hashed'])
                       + R.read_subpackets(s['unhashed']) if t == 16]
            elif s['version'] in (2, 3):
                ids = [s['key_id']]
            else:
                return False
            if key.key_id not in ids or key.kind == 'elg':
                return False
            return R.verify_body(key, body, data(s['kind'], s['version']))
        except (ValueError, IndexError, KeyError, AssertionError):
            return False

    def fits(name, h):
        num = R.Key(name).num
        if num['kind'] != 'rsa':
            return True
        size = (num['n'].bit_length() + 7) // 8
        return size >= len(R.DIGEST_INFO[h]) // 2 \
            + len(cipher.digest(h, b'')) + 11

    # -- genuine signatures verify ------------------------------------------

    def genuine(case):
        name, kver, alg, h, sver, tgt, kind = case
        key, pub = public(name, kver, alg)
        item, data = target(tgt)
        body = R.signature_body(key, kind, h, data(kind, sver), TIME, sver)
        for cls in (BaseSignature, DetachedSignature):
            sig = signature(body, item, cls)
            expect(pub.verify(sig, item) is True, 'not verified')
        return 'ok', name, h, sver, kind

    def genuine_cases():
        for name in SIGNERS:
            for h in HASHES:
                if not fits(name, h):
                    continue
                for sver in (3, 4):
                    for tgt in KINDS:
                        if tgt in ('empty', 'long', 'sub2', 'uid3') \
                                and h != 8 and not ck.thorough:
                            continue
                        for kind in KINDS[tgt]:
                            yield name, 4, None, h, sver, tgt, kind
        for name, kver, alg in (('rsa_a', 3, None), ('rsa_a', 3, 3),
                                ('rsa_a', 4, 3)):
            for h in HASHES:
                for sver in (2, 3, 4):
                    for tgt in ('bin', 'crlf', 'uid', 'uid3', 'key3',
                                'attr3'):
                        for kind in KINDS[tgt]:
                            yield name, kver, alg, h, sver, tgt, kind
    ck.each('genuine', genuine_cases(), genuine)

    # -- subpackets are signed as they were written ---------------------------

    def forms(case):
        name, size, form, where = case
        key, pub = public(name)
        item, data = target('crlf')
        content = util.pattern(size - 1, 5)
        head = {1: lambda n: bytes([n]),
                2: lambda n: bytes([((n - 192) >> 8) + 192,
                                    (n - 192) & 0xff]),
                5: lambda n: b'\xff' + n.to_bytes(4, 'big')}[form](size)
        sub_ = head + b'\x64' + content
        time_ = {1: R.created(TIME),
                 5: b'\xff\0\0\0\5\2' + TIME.to_bytes(4, 'big')}
        for t in (1, 5):
            hashed = {'first': sub_ + time_[t], 'last': time_[t] + sub_,
                      'unhashed': time_[t]}[where]
            unhashed = R.issuer(key.key_id)
            if where == 'unhashed':
                unhashed = sub_ + unhashed
            body = R.signature_body(key, 0, 8, data(0, 4), TIME, 4,
                                    hashed=hashed, unhashed=unhashed)
            sig = signature(body, item)
            expect(pub.verify(sig, item) is True, 'not verified')
            back = bytes(sig.to_packet().content)
            same(back, body, 'written back')
        return form, where
    ck.each('subpacket_lengths',
            [(n, size, form, w) for n in ('rsa_s1', 'dsa_small')
             for form, sizes in (
                 (1, (1, 2, 100, 191)),
                 (2, (192, 193, 447, 448, 8383, 8384, 9000, 16319)),
                 (5, (1, 2, 191, 192, 448, 8383, 8384, 16319, 16320,
                      40000)))
             for size in sizes for w in ('first', 'last', 'unhashed')],
            forms)

    # -- a signature that names several keys as its issuer ---------------------

    def issuers(case):
        name, other, order, places = case
        key, pub = public(name)
        okey, opub = public(other)
        item, data = target('crlf')
        areas = {'hashed': [], 'unhashed': []}
        for who, place in zip(order, places):
            areas[place].append(R.issuer(
                {'own': key.key_id, 'other': okey.key_id,
                 'none': '0' * 16}[who]))
        body = R.signature_body(
            key, 0, 8, data(0, 4), TIME, 4,
            hashed=R.created(TIME) + b''.join(areas['hashed']),
            unhashed=b''.join(areas['unhashed']))
        sig = signature(body, item)
        ids = [{'own': key.key_id, 'other': okey.key_id,
                'none': '0' * 16}[w] for w in order]
        same(sorted(sig.issuer_key_ids), sorted(ids), 'issuers')
        same(code_verdict(pub, body, item) is True, 'own' in order,
             'verdict for the key that made it')
        same(code_verdict(opub, body, item) is True, False,
             'verdict for the other key')
        return order, places
    ck.each('issuers',
            [(n, o, order, places)
             for n, o in (('rsa_a', 'rsa_b'), ('dsa_a', 'rsa_b'))
             for k in (1, 2, 3)
             for order in itertools.permutations(('own', 'other', 'none'), k)
             for places in itertools.product(('hashed', 'unhashed'),
                                             repeat=k)], issuers)

    # -- a signature does not verify for anything else -----------------------

    pool = []
    for name in ('rsa_a', 'rsa_b', 'dsa_a', 'dsa_b'):
        for sver in (3, 4):
            for tgt, kind in (('bin', 0), ('crlf', 0), ('crlf', 1),
                              ('uid', 0x13), ('uid', 0x30), ('key', 0x1f),
                              ('sub', 0x18), ('sub2', 0x18), ('sub2', 0x28),
                              ('attr', 0x13), ('uid3', 0x13)):
                pool.append((name, sver, tgt, kind))

    def pairing(case):
        (name, sver, tgt, kind), other, tgt2, spoof = case
        key, _ = public(name)
        okey, opub = public(other)
        _, data = target(tgt)
        item, odata = target(tgt2)
        if spoof:
            # names the other key as the issuer
            if sver == 4:
                body = R.signature_body(key, kind, 8, data(kind, sver), TIME,
                                        4, unhashed=R.issuer(okey.key_id))
            else:
                body = R.signature_body(key, kind, 8, data(kind, sver), TIME,
                                        3)
                body = body[:7] + bytes.fromhex(okey.key_id) + body[15:]
        else:
            body = R.signature_body(key, kind, 8, data(kind, sver), TIME,
                                    sver)
        got = code_verdict(opub, body, item)
        want = model_verdict(okey, body, odata)
        same(got is True, want, 'verdict')
        if name != other:
            expect(not got, 'accepted by a key that did not make it')
        return got, spoof, tgt == tgt2

    def pairing_cases():
        for p in pool:
            for other in ('rsa_a', 'rsa_b', 'dsa_a', 'dsa_b'):
                for tgt2 in ('bin', 'crlf', 'utf8', 'uid', 'key', 'sub',
                             'sub2', 'attr', 'uid3', 'key3'):
                    for spoof in (False, True):
                        if spoof and p[0] == other:
                            continue
                        if other != p[0] and tgt2 != p[2] \
                                and not ck.thorough:
                            continue
                        yield p, other, tgt2, spoof
    ck.each('pairing', pairing_cases(), pairing)

    # -- single faults -------------------------------------------------------

    samples = {
        'rsa4': ('rsa_s1', 4, 8, 'crlf', 0), 'rsa4t': ('rsa_a', 4, 2,
                                                       'crlf', 1),
        'rsa3': ('rsa_s1', 3, 1, 'crlf', 0), 'dsa4': ('dsa_small', 4, 8,
                                                      'crlf', 1),
        'dsa3': ('dsa_a', 3, 2, 'crlf', 1), 'cert4': ('rsa_s1', 4, 2, 'uid',
                                                      0x13),
        'bind4': ('dsa_small', 4, 9, 'sub', 0x18), 'cert3': ('rsa_s1', 3, 1,
                                                             'uid3', 0x10),
        'rev4': ('rsa_s1', 4, 8, 'sub', 0x28),
        'key4': ('dsa_small', 4, 11, 'key', 0x1f),
    }
    extra = (R.created(TIME) + R.subpacket(27, b'\x03')
             + R.subpacket(9, b'\x00\x01\x51\x80')
             + R.subpacket(20, b'\x80\0\0\0\0\3\0\2a@bcd'))
    made = {}

    def sample(which):
        if which not in made:
            name, sver, h, tgt, kind = samples[which]
            key, _ = public(name)
            _, data = target(tgt)
            kw = {}
            if sver == 4 and which in ('rsa4', 'dsa4'):
                kw['hashed'] = extra
                kw['unhashed'] = (R.issuer(key.key_id)
                                  + R.subpacket(100, b'x'))
            made[which] = R.signature_body(key, kind, h, data(kind, sver),
                                           TIME, sver, **kw)
        return made[which]

    def faulty(case):
        which, pos = case
        name, sver, h, tgt, kind = samples[which]
        key, pub = public(name)
        item, data = target(tgt)
        body = bytearray(sample(which))
        body[pos >> 3] ^= 1 << (pos & 7)
        body = bytes(body)
        got = code_verdict(pub, body, item)
        want = model_verdict(key, body, data)
        if got is True:
            expect(want, 'accepted, but the model refuses')
        elif got is False:
            expect(not want, 'refused, but the model accepts')
        return got, want

    ck.each('signature_bit_flips',
            ((w, i) for w in samples for i in range(8 * len(sample(w)))),
            faulty)

    def cut(case):
        which, n = case
        name, sver, h, tgt, kind = samples[which]
        key, pub = public(name)
        item, data = target(tgt)
        got = code_verdict(pub, sample(which)[:n], item)
        expect(not got, 'a cut signature was accepted')
        return repr(got)
    ck.each('signature_cuts',
            ((w, n) for w in samples for n in range(len(sample(w)))), cut)

    def content_flip(case):
        which, pos, how = case
        name, sver, h, tgt, kind = samples[which]
        key, pub = public(name)
        data = texts[tgt]
        if how == 'flip':
            data = bytearray(data)
            data[pos >> 3] ^= 1 << (pos & 7)
            data = bytes(data)
        elif how == 'drop':
            data = data[:pos] + data[pos + 1:]
        elif how == 'dup':
            data = data[:pos + 1] + data[pos:]
        elif how == 'cut':
            data = data[:pos]
        else:
            data = data[:pos] + how + data[pos:]
        item, odata = target(data)
        body = sample(which)
        got = code_verdict(pub, body, item)
        if data.replace(b'\r\n', b'').count(b'\r'):
            # (a lone CR)
            if kind == 1:
                return 'ambiguous'
        same(got, model_verdict(key, body, odata), 'verdict')
        return repr(got), how if type(how) is str else 'insert'

    def content_cases():
        for w in ('rsa4', 'rsa4t', 'rsa3', 'dsa4', 'dsa3'):
            data = texts[samples[w][3]]
            for i in range(8 * len(data)):
                yield w, i, 'flip'
            for i in range(len(data)):
                yield w, i, 'drop'
                yield w, i, 'dup'
                yield w, i, 'cut'
            for i in range(len(data) + 1):
                for c in (b'\0', b'\n', b'\r\n', b' ', b'\t'):
                    yield w, i, c
    ck.each('content_faults', content_cases(), content_flip)

    # -- boundary values of the integers ---------------------------------------

    def integers(case):
        name, change = case
        key, pub = public(name)
        num = key.num
        item, data = target('crlf')
        body = R.signature_body(key, 0, 8, data(0, 4), TIME)
        s = R.read_signature(body)
        values = list(s['values'])
        tail = b''.join(map(rfc.mpi, values))
        head = body[:-len(tail)]
        if key.kind == 'rsa':
            n, v = num['n'], values[0]
            new = {'zero': [0], 'one': [1], 'n': [n], 'n-1': [n - 1],
                   's+n': [v + n], 's+2n': [v + 2 * n], 'n-s': [n - v],
                   's+1': [v + 1], 's-1': [v - 1], 'same': [v],
                   'two': [v, v], 'none': [],
                   'long': [v + (n << 8)], 'swap': [v ^ (1 << 700)],
                   'padded': [v]}[change]
        else:
            q, p = num['q'], num['p']
            r, t = values
            new = {'zero': [0, 0], 'one': [1, 1], 'r0': [0, t],
                   's0': [r, 0], 'swap': [t, r], 'r+q': [r + q, t],
                   's+q': [r, t + q], 'q-s': [r, q - t], 'q-r': [q - r, t],
                   'rq': [q, t], 'sq': [r, q], 'r+p': [r + p, t],
                   's+p': [r, t + p], 'same': [r, t], 'none': [],
                   'r1': [r + 1, t], 's1': [r, t + 1], 'two': [r, t, t],
                   'r': [r], 'neg': [r, (-t) % q],
                   'padded': [r, t], '1y': [num['y'] % q, 1],
                   'g': [num['g'] % q, 1]}[change]
        if change == 'padded':
            # a leading zero octet does not change a number
            tail = b''
            for v in new:
                raw = b'\0' + v.to_bytes((v.bit_length() + 7) // 8, 'big')
                tail += (len(raw) * 8).to_bytes(2, 'big') + raw
        else:
            tail = b''.join(rfc.mpi(v) if v else b'\0\0' for v in new)
        got = code_verdict(pub, head + tail, item)
        if change in ('same', 'padded'):
            expect(got is True, 'a genuine signature was refused')
        elif key.kind == 'dsa' and change in ('q-s', 'neg'):
            # v only depends on s up to its sign?  no: refused
            same(got is True, R.check_digest(
                num, 8, cipher.digest(8, data(0, 4) + s['trailer']), new),
                'verdict')
        elif change == 'two':
            pass
        else:
            expect(not got, 'accepted', [hex(v) for v in new])
        return change, got
    RSA_CH = ('zero', 'one', 'n', 'n-1', 's+n', 's+2n', 'n-s', 's+1', 's-1',
              'same', 'two', 'none', 'long', 'swap', 'padded')
    DSA_CH = ('zero', 'one', 'r0', 's0', 'swap', 'r+q', 's+q', 'q-s', 'q-r',
              'rq', 'sq', 'r+p', 's+p', 'same', 'none', 'r1', 's1', 'two',
              'r', 'neg', 'padded', '1y', 'g')
    ck.each('signature_integers',
            [(n, c) for n in SIGNERS for c in (
                RSA_CH if R.NUM[n]['kind'] == 'rsa' else DSA_CH)], integers)

    # -- wrong padding, wrong hash identifiers -----------------------------------

    def padding(case):
        name, change = case
        key, pub = public(name)
        num = key.num
        item, data = target('crlf')
        hashed = R.created(TIME)
        head = bytes([4, 0, key.alg, 2]) + len(hashed).to_bytes(2, 'big') \
            + hashed
        trailer = head + b'\x04\xff' + len(head).to_bytes(4, 'big')
        digest = cipher.digest(2, data(0, 4) + trailer)
        size = (num['n'].bit_length() + 7) // 8
        info = bytes.fromhex(R.DIGEST_INFO[2])
        em = {
            'good': R.emsa(2, digest, size),
            'type2': b'\0\2' + b'\xff' * (size - 38) + b'\0' + info + digest,
            'type0': b'\0\0' + b'\xff' * (size - 38) + b'\0' + info + digest,
            'short': (b'\0\1' + b'\xff' * 8 + b'\0' + info + digest).ljust(
                size, b'\0'),
            'zero pad': b'\0\1' + b'\0' * (size - 38) + b'\0' + info
            + digest,
            'one pad wrong': b'\0\1' + b'\xff' * (size - 39) + b'\xfe\0'
            + info + digest,
            'no info': b'\0\1' + b'\xff' * (size - 23) + b'\0' + digest,
            'other info': b'\0\1' + b'\xff' * (
                size - 3 - len(digest) - len(R.DIGEST_INFO[3]) // 2) + b'\0'
            + bytes.fromhex(R.DIGEST_INFO[3]) + digest,
            'md5 info': b'\0\1' + b'\xff' * (
                size - 3 - len(digest) - len(R.DIGEST_INFO[1]) // 2) + b'\0'
            + bytes.fromhex(R.DIGEST_INFO[1]) + digest,
            'digest flipped': R.emsa(2, digest[:-1]
                                     + bytes([digest[-1] ^ 1]), size),
            'digest first': R.emsa(2, bytes([digest[0] ^ 1]) + digest[1:],
                                   size),
            'prefix only': R.emsa(2, digest[:2] + bytes(18), size),
            'raw': digest.rjust(size, b'\0'),
        }[change]
        if len(em) != size:
            raise AssertionError(len(em), size)
        value = pow(int.from_bytes(em, 'big'), num['d'], num['n'])
        unhashed = R.issuer(key.key_id)
        body = (head + len(unhashed).to_bytes(2, 'big') + unhashed
                + digest[:2] + rfc.mpi(value))
        got = code_verdict(pub, body, item)
        same(got is True, change == 'good', 'verdict')
        return change
    ck.each('rsa_padding',
            [(n, c) for n in ('rsa_a', 'rsa_odd', 'rsa_s1', 'rsa_c')
             for c in ('good', 'type2', 'type0', 'short', 'zero pad',
                       'one pad wrong', 'no info', 'other info', 'md5 info',
                       'digest flipped', 'digest first', 'prefix only',
                       'raw')], padding)

    # -- keys that do not sign ---------------------------------------------------

    def no_signer(case):
        name, alg, sver = case
        num = R.NUM[name]
        key = R.Key(name, created=1000000003, alg=alg)
        pub = util.read_key(rfc.packet(False, 6, key.public_body)
                            + rfc.packet(False, 13, UID))
        item, data = target('crlf')
        if num['kind'] == 'elg':
            # a "signature" shaped for the key
            fake = R.Key('dsa_a', created=1000000003)
            body = R.signature_body(fake, 0, 8, data(0, sver), TIME, sver)
        else:
            body = R.signature_body(key, 0, 8, data(0, sver), TIME, sver)
        if sver == 4:
            body = bytes([4, 0, alg]) + body[3:]
            s = R.read_signature(body)
            tail = b''.join(map(rfc.mpi, s['values']))
            ids = R.issuer(key.key_id)
            body = (body[:6 + len(s['hashed'])]
                    + len(ids).to_bytes(2, 'big') + ids
                    + cipher.digest(8, data(0, 4) + s['trailer'])[:2] + tail)
        else:
            body = body[:7] + bytes.fromhex(key.key_id) + bytes([alg]) \
                + body[16:]
        got = code_verdict(pub, body, item)
        expect(not got, 'an encryption key verified a signature')
        sec = util.read_key(rfc.packet(False, 5, key.secret_body(None))
                            + rfc.packet(False, 13, UID))
        sec.unlock('')
        raises(lambda: sec.sign(item, sver, 0, 8))
        return alg, sver
    ck.each('encryption_keys',
            [(n, a, v) for n, a in (('rsa_a', 2), ('elg_a', 16))
             for v in (3, 4)], no_signer)

    # -- what the code signs -------------------------------------------------------

    def signs(case):
        name, kver, alg, h, sver, tgt, kind = case
        key, sec = secret(name, kver, alg)
        item, data = target(tgt)
        RNG.reset(repr(case).encode())
        if not fits(name, h):
            raises(lambda: sec.sign(item, sver, kind, h))
            return 'too long'
        before = int(time.time())
        sig = sec.sign(item, sver, kind, h)
        after = int(time.time())
        body = bytes(sig.to_packet().content)
        s = R.read_signature(body)
        same((s['version'], s['kind'], s['alg'], s['hash']),
             (sver, kind, key.alg, h), 'fields')
        if sver == 4:
            subs = R.read_subpackets(s['hashed'])
            times = [int.from_bytes(b, 'big') for t, _, b in subs if t == 2]
            ids = [b.hex().upper() for t, _, b in
                   subs + R.read_subpackets(s['unhashed']) if t == 16]
            same(len(times), 1, 'creation times in the hashed area')
            when = times[0]
        else:
            when, ids = s['time'], [s['key_id']]
        same(ids, [key.key_id], 'issuer')
        expect(before <= when <= after, 'creation time', when)
        expect(R.verify_body(key, body, data(kind, sver)),
               'the model does not verify the signature')
        for v in (public(name, kver, alg)[1], sec):
            expect(v.verify(sig, item) is True, 'not verified')
            expect(v.verify(signature(body, item), item) is True,
                   'not verified when read back')
        # still genuine when written with its packet header
        back = util.parse(bytes(sig.to_packet()))
        same(len(back), 1, 'packets')
        same(bytes(back[0].content), body, 'octets')
        return 'ok', name, h, sver, kind

    def sign_cases():
        for name in SIGNERS:
            for h in HASHES:
                for sver in (3, 4):
                    for tgt in ('bin', 'text', 'crlf', 'uid', 'key', 'sub',
                                'attr', 'empty'):
                        if h not in (2, 8) and tgt in (
                                'attr', 'empty', 'key') and not ck.thorough:
                            continue
                        for kind in KINDS[tgt]:
                            if kind in (0x11, 0x12) and h != 8 \
                                    and not ck.thorough:
                                continue
                            yield name, 4, None, h, sver, tgt, kind
        for name, kver, alg in (('rsa_a', 3, None), ('rsa_a', 4, 3)):
            for h in HASHES:
                for sver in (3, 4):
                    for tgt in ('bin', 'crlf', 'uid3', 'key3'):
                        for kind in KINDS[tgt]:
                            yield name, kver, alg, h, sver, tgt, kind
    ck.each('code_signs', sign_cases(), signs)
    large = [(n, v, None, h, s, 'crlf', 1)
             for n in sorted(R.BIG) if not n.startswith('elg')
             for v in ((3, 4) if n.startswith('rsa') else (4,))
             for h in HASHES for s in (3, 4)]
    ck.each('large_genuine', large, genuine)
    ck.each('large_code_signs', large, signs)

    # -- what is not asked for ----------------------------------------------

    def unasked(case):
        """Messages are signed by the digest the key prefers."""
        name, prefs, where, fmt, sver = case
        key = R.Key(name)
        area = None if prefs is None else \
            R.created(TIME) + R.subpacket(21, bytes(prefs))
        sec = util.read_key(R.certificate(
            key, secret=True, direct=[area] if area else [],
            protect={'usage': 254, 'alg': 9, 'passphrase': b'pw',
                     'iv': bytes(16), 's2k': (3, 8, b'saltsalt', 0)}
            if where == 'pw' else None))
        sec.unlock('pw' if where == 'pw' else '')
        body = b'one\ntwo'
        m = BinaryMessage(body, 'f', stamp) if fmt == 'b' else \
            TextMessage(body.decode(), 'f', stamp)
        got = m.sign(sec) if sver is None else m.sign(sec, sver)
        (sig,) = got.signatures
        usable = [h for h in prefs or () if h in HASHES]
        same(sig.hash_algorithm, usable[0] if usable else 1, 'digest')
        same(sig.signature_type, 0, 'type')
        same(sig.version, sver or 4, 'version')
        raw = bytes(sig.to_packet().content)
        expect(R.verify_body(key, raw, body), 'not genuine')
        expect(got.one_pass, 'one pass')
        (back,) = util.read_message(util.octets(got)).signatures
        same(bytes(back.to_packet().content), raw, 'read back')
        expect(sec.verify(sig, m) is True, 'not verified')
        return sig.hash_algorithm, prefs

    ck.each('unasked', itertools.product(
        ('rsa_a', 'dsa_a', 'dsa_small'),
        [None, (), (0,), (100,), (12, 14), (4, 5, 6, 7)]
        + [(h,) for h in HASHES] + [(10, 8), (8, 10), (100, 8), (4, 9, 1),
                                    (2, 100), (12, 14, 11), (0, 255, 3)],
        ('open', 'pw'), 'bt', (None, 3, 4)), unasked)

    # -- leading zeroes of digests and values ----------------------------------------

    def leading(case):
        name, what = case
        key, pub = public(name)
        _, sec = secret(name)
        for i in range(6000):
            data = b'message %d' % i
            h = 8
            hashed = R.created(TIME)
            head = bytes([4, 0, key.alg, h]) \
                + len(hashed).to_bytes(2, 'big') + hashed
            trailer = head + b'\x04\xff' + len(head).to_bytes(4, 'big')
            digest = cipher.digest(h, data + trailer)
            if what == 'digest':
                if digest[0]:
                    continue
            elif what == 'digest2':
                if digest[0] or digest[1] & 0xf0:
                    continue
            else:
                values = R.sign_digest(key.num, h, digest)
                size = key.num['n' if key.kind == 'rsa' else 'q'] \
                    .bit_length()
                if what == 'value':
                    hit = values[-1].bit_length() <= size - 9
                else:
                    hit = values[0].bit_length() <= size - 9
                if not hit:
                    continue
            item, _ = target(data)
            body = R.signature_body(key, 0, h, data, TIME)
            expect(pub.verify(signature(body, item), item) is True,
                   'not verified', i)
            RNG.reset(b'lead')
            sig = sec.sign(item, 4, 0, h)
            expect(R.verify_body(key, bytes(sig.to_packet().content), data),
                   'model refuses', i)
            return what, i
        raise Mismatch('no example found')
    ck.each('leading_zeroes',
            [(n, w) for n in ('rsa_s1', 'dsa_a', 'dsa_small')
             for w in ('digest', 'digest2', 'value', 'first')], leading)

    # -- nonces ------------------------------------------------------------------

    def nonces(case):
        name, count = case
        key, sec = secret(name)
        num = key.num
        q = num['q']
        RNG.reset(b'nonces' + name.encode())
        seen = set()
        low = 0
        for i in range(count):
            data = b'same' if i % 2 else b'message %d' % i
            item, _ = target(data)
            body = bytes(sec.sign(item, 4, 0, 8).to_packet().content)
            s = R.read_signature(body)
            z = R.dsa_z(q, cipher.digest(8, data + s['trailer']))
            r, t = s['values']
            k = pow(t, -1, q) * (z + num['x'] * r) % q
            expect(k not in seen, 'a nonce was used twice')
            seen.add(k)
            if k.bit_length() < q.bit_length() - 24:
                low += 1
        same(low, 0, 'short nonces')
        # half of the values on either side of q / 2
        upper = sum(1 for k in seen if k > q // 2)
        expect(count // 5 <= upper <= count - count // 5,
               'nonces are not spread', upper)
        return len(seen)
    ck.each('nonces', [(n, 60) for n in ('dsa_a', 'dsa_256', 'dsa_224',
                                         'dsa_small')], nonces)

    # -- a locked key does not sign, but does verify ---------------------------------

    def locked(case):
        name, usage, sver = case
        key = R.Key(name, created=1000000003)
        protect = {'usage': usage, 'alg': 9, 'passphrase': b'pw',
                   'iv': bytes(range(16)), 's2k': (3, 8, b'saltsalt', 0)}
        sec = util.read_key(R.certificate(key, secret=True, protect=protect))
        item, data = target('crlf')
        body = R.signature_body(key, 0, 8, data(0, sver), TIME, sver)

        def check(can):
            expect(sec.verify(signature(body, item), item) is True,
                   'not verified')
            bad, _ = target(b'something else')
            raises(lambda: sec.verify(signature(body, bad), bad),
                   exceptions.SignatureVerificationFailed)
            if can:
                sig = sec.sign(item, sver, 0, 8)
                expect(R.verify_body(key, bytes(sig.to_packet().content),
                                     data(0, sver)), 'model refuses')
            else:
                raises(lambda: sec.sign(item, sver, 0, 8))
        check(False)
        try:
            sec.unlock('wrong')
        except Exception:
            pass
        else:
            raise Mismatch('unlocked with a wrong passphrase')
        check(False)
        sec.unlock('pw')
        check(True)
        sec.lock()
        check(False)
        sec.unlock('pw')
        check(True)
        return usage
    ck.each('locked', [(n, u, v) for n in ('rsa_a', 'dsa_a')
                       for u in (254, 255) for v in (3, 4)], locked)

    # -- the hash given to signatures in the packet-level helper ---------------------

    helper = getattr(utils, 'hash_packet_for_signature', None)

    def packet_hash(case):
        h, sver, tgt, kind = case
        _, data = target(tgt)
        hashed = R.created(TIME) if sver == 4 else b''
        if tgt == 'sub':
            pkts = util.parse(rfc.packet(False, 14, sub.public_body))
        elif tgt == 'uid':
            pkts = util.parse(rfc.packet(False, 13, UID))
        elif tgt == 'attr':
            pkts = util.parse(rfc.packet(True, 17, ATTR))
        else:
            pkts = util.parse(rfc.packet(False, 6, owner.public_body))
        got = helper(pkts[0], kind, sver, h, TIME, 1,
                     util.parse(rfc.packet(False, 6, owner.public_body))[0],
                     hashed).digest()
        if sver == 4:
            head = bytes([4, kind, 1, h]) + len(hashed).to_bytes(2, 'big') \
                + hashed
            trailer = head + b'\x04\xff' + len(head).to_bytes(4, 'big')
        else:
            trailer = bytes([kind]) + TIME.to_bytes(4, 'big')
        same(got, cipher.digest(h, data(kind, sver) + trailer), 'digest')
        return h, sver, kind
    if helper is not None:
        ck.each('packet_hash',
                [(h, v, t, k) for h in HASHES for v in (3, 4)
                 for t in ('key', 'sub', 'uid', 'attr') for k in KINDS[t]],
                packet_hash)

    # -- what is verified is what the objects say now ------------------------

    def changing(case):
        """The signed objects and the key are changed, one step after the
        other; every signature is verified after every step, and verifies
        exactly when it is one over the octets now written."""
        name, kver, sver, ops = case
        key = R.Key(name, version=kver, created=1000000003)
        pub = util.read_key(R.certificate(key))
        prefs = R.created(TIME) + R.subpacket(5, b'\x01\x3c') \
            + R.subpacket(26, b'http://a')

        def make(kind, data):
            return R.signature_body(
                key, kind, 8, data, TIME, sver,
                hashed=prefs if sver == 4 else None)
        mine = util.read_key(certificate(owner, [sub, sub2]))
        uid, attr = mine.user_ids[0], mine.user_attributes[0]
        part = mine.subkeys[0]
        message = TextMessage('a\nb', 'n', stamp)
        blob = BinaryMessage(b'bin', 'n', stamp)
        before = [bytes(pub.to_packet().content)]

        def head():
            body = bytes(mine.to_packet().content)
            return b'\x99' + len(body).to_bytes(2, 'big') + body

        def on(mark, item):
            body = bytes(item.to_packet().content)
            if sver == 4:
                return head() + mark + len(body).to_bytes(4, 'big') + body
            return head() + body

        def on_part():
            body = bytes(part.to_packet().content)
            return head() + b'\x99' + len(body).to_bytes(2, 'big') + body
        watched = [
            (uid, 0x13, lambda: on(b'\xb4', uid)),
            (attr, 0x10, lambda: on(b'\xd1', attr)),
            (mine, 0x1f, head),
            (part, 0x18, on_part),
            (message, 1, lambda: canonical(
                message.data.encode('utf8')
                if not isinstance(message.data, bytes)
                else message.data)),
            (blob, 0, lambda: bytes(blob.data)),
        ]
        sigs = []
        for item, kind, data in watched:
            sigs.append(signature(make(kind, data()), item))

        def assign(obj, attr, value):
            def step():
                setattr(obj, attr, value)
            return step

        def each_sig(fn):
            def step():
                for s in sigs:
                    fn(s)
            return step
        later = datetime.datetime.fromtimestamp(TIME + 5)

        def keep(obj, attr):
            return assign(obj, attr, getattr(obj, attr))
        steps = {
            'uid': assign(uid, 'user_id', 'Other <o@example.org>'),
            'uid-name': assign(uid, 'user_name', 'Tim'),
            'uid-back': assign(uid, 'user_id', UID.decode('utf8')),
            'image': assign(attr.content_items[0], 'data', b'\xff\xd8other'),
            'image-back': keep(attr.content_items[0], 'data'),
            'images': lambda: attr.content_items.append(
                attr.content_items[0]),
            'time': assign(mine, 'creation_time', later),
            'time-back': keep(mine, 'creation_time'),
            'exp': assign(mine, 'exponent_e', 17),
            'exp-back': keep(mine, 'exponent_e'),
            'sub': assign(part, 'key_value_y', 12345),
            'sub-back': keep(part, 'key_value_y'),
            'text': assign(message, 'data', 'a\nc'),
            'text-back': assign(message, 'data', 'a\nb'),
            'blob': assign(blob, 'data', b'other'),
            'blob-back': assign(blob, 'data', b'bin'),
            'sig-time': each_sig(
                lambda s: setattr(s, 'creation_time', later)),
            'sig-back': each_sig(
                lambda s: setattr(s, 'creation_time',
                                  datetime.datetime.fromtimestamp(TIME))),
            'signer-time': assign(pub, 'creation_time', later),
            'signer-back': keep(pub, 'creation_time'),
        }
        if sver == 4:
            steps['trust'] = each_sig(
                lambda s: setattr(s, 'trust_amount', 120))
            steps['trust-back'] = each_sig(
                lambda s: setattr(s, 'trust_amount', 60))
            steps['policy'] = each_sig(
                lambda s: setattr(s, 'policy_uri', 'http://b'))
            steps['values'] = each_sig(
                lambda s: setattr(s, 'signature_values',
                                  [v + 1 for v in s.signature_values]))
        if key.kind == 'rsa':
            steps['signer-e'] = assign(pub, 'exponent_e', 65539)
            steps['signer-e-back'] = keep(pub, 'exponent_e')
        else:
            steps['signer-y'] = assign(pub, 'key_value_y', 4)
            steps['signer-y-back'] = keep(pub, 'key_value_y')

        def check(where):
            now = bytes(pub.to_packet().content)
            same_key = now == before[0]
            if kver < 4:
                # the octets of the time are not part of the identity
                same_key = now[:1] + now[5:] == before[0][:1] + before[0][5:]
            verdicts = ()
            for i, (item, kind, data) in enumerate(watched):
                body = bytes(sigs[i].to_packet().content)
                expected = same_key and R.verify_body(key, body, data())
                try:
                    got = pub.verify(sigs[i], item) is True
                except exceptions.SignatureVerificationFailed:
                    got = False
                same(got, expected, 'verdict after %s of %d' % (where, i))
                verdicts += got,
            return verdicts
        expect(all(check('at first')), 'not verified at first')
        out = ()
        for op in ops:
            if op not in steps:
                return 'no such step'
            steps[op]()
            out += check(op),
        return out

    names = ('uid', 'uid-name', 'uid-back', 'image', 'image-back', 'images',
             'time', 'time-back', 'exp', 'exp-back', 'sub', 'sub-back',
             'text', 'text-back', 'blob', 'blob-back', 'sig-time',
             'sig-back', 'trust', 'trust-back', 'policy', 'values',
             'signer-time', 'signer-back', 'signer-e', 'signer-e-back',
             'signer-y', 'signer-y-back')

    def changing_cases():
        for name, kver, sver in (('rsa_a', 4, 4), ('dsa_a', 4, 4),
                                 ('rsa_a', 4, 3), ('rsa_a', 3, 3)):
            yield name, kver, sver, ()
            for a in names:
                if not ck.thorough and (name, kver, sver) != ('rsa_a', 4, 4):
                    yield name, kver, sver, (a,)
                    continue
                for b in names:
                    yield name, kver, sver, (a, b)
                    if b.endswith('-back') and ck.thorough:
                        for c in names:
                            yield name, kver, sver, (a, b, c)
    ck.each('changing', changing_cases(), changing)
