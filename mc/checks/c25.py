"""C25: asking and using objects changes neither them nor others."""

import datetime
import itertools
import re

from mc import util
from mc.core import expect, same, Mismatch
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of sequences of operations on a '
             'world of keys, signatures and messages; the canonical state is '
             'everything that can be observed of every object, which has to '
             'stay the same, and what an operation gives is compared with '
             'what it gives in a fresh world')
RULE = ('All sequences of operations that ask or use (serialise, verify, '
        'sign, encrypt, decrypt, unlock and lock, compress, compare, '
        'convert) up to the depth, in a world of thirteen objects; all pairs '
        'of an operation that changes one object and another one.')
ASSUMPTIONS = ['What can be observed are public attributes that are data, '
               'and the octets written.',
               'Lists that belong to an object (user_ids, signatures, ...) '
               'are meant to be changed.',
               'Objects made from the same packet objects may share them.']

T = 1400000000


def observe(obj, seen=None, depth=0):
    """Everything that can be seen of an object, as nested tuples."""
    seen = {} if seen is None else seen
    if obj is None or isinstance(obj, (bool, int, str, bytes,
                                       datetime.datetime)):
        return (type(obj).__name__, obj)
    if isinstance(obj, bytearray):
        return ('octets', bytes(obj))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__,) + tuple(
            observe(x, seen, depth + 1) for x in obj)
    if isinstance(obj, dict):
        return ('dict',) + tuple(sorted(
            (repr(k), observe(v, seen, depth + 1)) for k, v in obj.items()))
    if isinstance(obj, re.Pattern):
        return ('pattern', obj.pattern)
    if not type(obj).__module__.startswith('pgp'):
        try:
            return ('number', int(obj))
        except Exception:
            return ('other', type(obj).__name__)
    if id(obj) in seen:
        return ('again', seen[id(obj)])
    seen[id(obj)] = len(seen)
    out = [type(obj).__name__]
    for name in sorted(dir(obj)):
        if name.startswith('_'):
            continue
        try:
            value = getattr(obj, name)
        except Exception as e:
            out.append((name, 'raises', type(e).__name__))
            continue
        if callable(value):
            continue
        out.append((name, observe(value, seen, depth + 1)))
    return tuple(out)


def difference(a, b, path=''):
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                name = a[0] if a and isinstance(a[0], str) else i
                return difference(x, y, '%s/%s' % (path, name))
    return '%s: %r became %r' % (path, a, b)


def run(ck):
    import pgp
    from pgp import armor
    from pgp.context_managers import unlocked
    from pgp.message import BinaryMessage, TextMessage
    from pgp.packets import parse_binary_packet_data
    from pgp.packets import constants as C
    from pgp.transferrable_keys import TransferablePublicKey

    prim = R.Key('rsa_s1', created=1100000000)
    sub = R.Key('rsa_s2', created=1100000001)
    elg = R.Key('elg_a', created=1100000002)
    dsa = R.Key('dsa_a', created=1100000003)
    old = R.Key('rsa_s2', version=3, created=1000000005)
    guard = {'usage': 254, 'alg': 9, 'passphrase': b'pw',
             'iv': bytes(range(16)), 's2k': (3, 8, b'saltsalt', 0)}
    prefs = (R.created(1200000000)
             + b'\4\x0b\x09\x07\x02' + b'\3\x15\x08\x02' + b'\3\x16\x02\x01'
             + b'\2\x1b\x03' + b'\2\x1e\x01' + b'\2\x19\x01'
             + b'\5\x09' + (10 ** 9).to_bytes(4, 'big')
             + bytes([1 + 8 + 2]) + b'\x14\x80\0\0\0\0\1\0\1nv'
             + bytes([1 + 8]) + b'\x1aa://b.c/')
    photo = b'\x01\x10\0\1\1' + bytes(12) + b'JPEG'
    photo = bytes([len(photo)]) + photo

    def certificate(secret, protect, some=3):
        # Signatures not in the order of their times, issuers or kinds
        out = R.certificate(prim, [], [], secret=secret, protect=protect,
                            direct=[prefs])
        targets = [(13, b'Al (c) <a@b>', R.on_user_id(
            prim, b'Al (c) <a@b>', 4)),
            (13, b'Bo', R.on_user_id(prim, b'Bo', 4)),
            (17, photo, R.on_attribute(prim, photo))]
        for tag, body, signed in targets[:some]:
            out += rfc.packet(True, tag, body)
            for who, kind, when, area in (
                    (dsa, 0x10, 1350000000, None),
                    (prim, 0x13, 1200000000, prefs),
                    (dsa, 0x12, 1300000000, None),
                    (prim, 0x10, 1150000000, None)):
                out += rfc.packet(True, 2, R.signature_body(
                    who, kind, 8, signed, when, hashed=area, k=7))
        for k in (sub, elg):
            out += rfc.packet(True, 7 if secret else 14,
                              k.secret_body(protect) if secret
                              else k.public_body)
            out += rfc.packet(True, 2, R.signature_body(
                prim, 0x18, 8, prim.hashed + k.hashed))
        return out
    session = util.pattern(32, 5)
    literal = rfc.new_packet(11, R.literal_body(b'b', b'n', T, b'con\ntent'))
    op = rfc.new_packet(4, b'\3\1\x08\1' + bytes.fromhex(prim.key_id)
                        + b'\1')
    OCTETS = {
        'public': certificate(False, None),
        'secret': certificate(True, None),
        'locked': certificate(True, guard, 1),
        'version3': R.certificate(old, secret=True),
        'dsa': R.certificate(dsa, [b'D'], [elg], secret=True),
        'bare': rfc.new_packet(6, dsa.public_body)
        + rfc.new_packet(13, b'x'),
        'literal': literal,
        'text': rfc.new_packet(11, R.literal_body(
            b'u', b'', T, 'z\u00e9\r\nz'.encode('utf8'))),
        'signed': op + literal + rfc.new_packet(2, R.signature_body(
            prim, 1, 8, b'con\r\ntent')),
        'compressed': rfc.new_packet(8, b'\0' + literal),
        'symmetric': rfc.new_packet(3, R.skesk_body(
            9, 3, 8, b'pw', b'saltsalt', 0, 9, session))
        + rfc.new_packet(18, R.seipd_body(9, session, literal,
                                          util.pattern(16, 3))),
        'encrypted': rfc.new_packet(1, R.pkesk_body(elg, 9, session))
        + rfc.new_packet(9, R.sed_body(9, session, literal,
                                       util.pattern(16, 3))),
        'armored': armor_of(certificate(False, None, 1)),
    }
    KEYS = ['public', 'secret', 'locked', 'version3', 'dsa', 'bare']
    MESSAGES = ['literal', 'text', 'signed', 'compressed', 'symmetric',
                'encrypted']

    def world(names=KEYS + MESSAGES + ['armored']):
        w = {}
        for name in names:
            if name == 'armored':
                w[name] = pgp.read_key(OCTETS[name], armored=True)
            elif name in KEYS:
                w[name] = pgp.read_key(OCTETS[name])
            else:
                w[name] = pgp.read_message(OCTETS[name])
            if name in ('secret', 'version3', 'dsa'):
                w[name].unlock('')
        return w

    def octets_of(o):
        return b''.join(bytes(p) for p in o.to_packets())

    def snapshot(w):
        # The octets before anything is asked
        return tuple((name, octets_of(o), observe(o), octets_of(o))
                     for name, o in sorted(w.items()))

    def asked(name):
        o = world([name])[name]
        expected = certificate(False, None, 1) if name == 'armored' \
            else OCTETS[name]
        same(octets_of(o), expected, 'octets of ' + name)
        seen = observe(o)
        same(octets_of(o), expected, 'octets of %s, observed' % name)
        now = observe(o)
        expect(now == seen, 'observing ' + name, difference(seen, now))
        return name
    ck.each('asked', KEYS + MESSAGES + ['armored'], asked)

    first = snapshot(world())
    again = snapshot(world())
    expect(first == again, 'reading twice', difference(first, again))
    second = world()
    snapshot(second)
    now = snapshot(second)
    expect(first == now, 'observing', difference(first, now))

    def checked(w, what, where=first):
        now = snapshot(w)
        if now != where:
            raise Mismatch('%s changed %s' % (what, difference(where, now)))

    # -- operations that use -----------------------------------------------

    def packets_of(form):
        def go(w):
            return tuple((n, tuple(bytes(p) for p in o.to_packets(form)))
                         for n, o in sorted(w.items()))
        return go

    def made(m):
        return observe(m)

    def verify_all(w):
        out = []
        for who in ('public', 'secret', 'armored'):
            k = w[who]
            for holder in [k] + k.user_ids + k.user_attributes + k.subkeys:
                for s in holder.signatures:
                    by = k if k.key_id in s.issuer_key_ids else w['dsa']
                    out.append(by.verify(s, holder))
        m = w['signed']
        out.append(w['public'].verify(m.signatures[0], m.get_message()))
        return tuple(out)

    def refuse(w):
        """What fails leaves things alone, too."""
        out = []
        for call in (
                lambda: w['bare'].verify(w['signed'].signatures[0],
                                         w['literal']),
                lambda: w['public'].verify(w['signed'].signatures[0],
                                           w['text']),
                lambda: w['locked'].unlock('wrong'),
                lambda: w['symmetric'].get_message('wrong'),
                lambda: w['encrypted'].get_message(
                    w['dsa']),
                lambda: w['locked'].sign(w['literal'], 4, 0, 8),
                lambda: w['secret'].sign(w['literal'], 4, 0, 99),
                lambda: w['literal'].public_key_encrypt(
                    9, public_key=w['bare']),
                lambda: setattr(selfsig(w['public']),
                                'signature_expiration_time',
                                datetime.datetime(1999, 1, 1)),
                lambda: selfsig(w['public']).to_signable_data(0x10, 77, 1)):
            try:
                call()
            except Exception:
                out.append('refused')
            else:
                out.append('done')
        return tuple(out)

    def sign(w):
        out = []
        for who, version in (('secret', 4), ('secret', 3), ('version3', 3),
                             ('dsa', 4)):
            for what in ('literal', 'text'):
                for kind in (0, 1):
                    s = w[who].sign(w[what], version, kind, 2)
                    out.append(w[who].verify(s, w[what]))
        for holder in ([w['public']] + w['public'].user_ids
                       + w['public'].user_attributes):
            s = w['dsa'].sign(holder, 4, 0x10, 8)
            out.append(w['dsa'].verify(s, holder))
        m = w['literal'].sign(w['secret'], hash_algorithm=8)
        out.append(len(m.to_packets()))
        return tuple(out)

    def convert(w):
        out = []
        for who in ('secret', 'locked', 'version3', 'dsa'):
            p = w[who].to_public_key()
            out.append(tuple(bytes(x) for x in p.to_packets()))
            out.append((p.fingerprint, p.key_id, repr(p)))
        return tuple(out)

    def symmetric(w):
        m = w['text'].symmetric_encrypt(9, 'pw')
        m.to_packets()
        return made(m.get_message('pw'))

    def public(w):
        out = []
        for who in (w['public'].subkeys[1], w['public'].subkeys[0],
                    w['public']):
            m = w['literal'].public_key_encrypt(
                7, public_keys=[who], hidden_public_keys=[w['version3']],
                integrity_protect=False)
            m.to_packets()
            for s in (w['secret'].subkeys + [w['secret'], w['version3']]):
                if s.key_id in (who.key_id, w['version3'].key_id):
                    out.append(made(m.get_message(s)))
        return tuple(out)

    def decrypt(w):
        return (made(w['symmetric'].get_message('pw')),
                made(w['encrypted'].get_message(w['dsa'].subkeys[0])),
                made(w['encrypted'].get_message(w['secret'].subkeys[1])))

    def compress(w):
        out = []
        for alg in (0, 1, 2, 3):
            m = w['signed'].compress(alg, 6)
            out.append(tuple(bytes(p) for p in m.to_packets()))
            out.append(made(m.get_message()))
        return tuple(out) + (made(w['compressed'].get_message()),)

    def unlocking(w):
        out = []
        with unlocked(w['locked'], 'pw') as k:
            out.append(k.is_locked())
            s = k.sign(w['literal'], 4, 0, 8)
            out.append(k.verify(s, w['literal']))
            out.append(made(w['encrypted'].get_message(k.subkeys[1])))
        out.append(w['locked'].is_locked())
        return tuple(out)

    def compare(w):
        out = []
        names = sorted(w)
        for a, b in itertools.product(names, repeat=2):
            out.append(w[a] == w[b])
        for a in KEYS:
            for u in w[a].user_ids:
                for s in u.signatures:
                    hash(s)
                    for t in w['public'].user_ids[0].signatures:
                        out.append(s == t)
            out.append(repr(w[a]))
        return tuple(out)

    def serialise(w):
        out = []
        for who in KEYS:
            for armored in (False, True):
                for form in (0, 1):
                    out.append(pgp.serialize_key(w[who], armored, form)
                               if hasattr(pgp, 'serialize_key') else None)
        a = armor.ASCIIArmor(armor.PGP_MESSAGE, b'abc')
        out.append((str(a), bytes(a.data), str(a)))
        return tuple(out)

    def read_again(w):
        data = bytearray(OCTETS['secret'])
        packets = list(parse_binary_packet_data(data))
        keep = list(packets)
        out = [observe(p) for p in packets]
        k = pgp.read_key(bytes(data))
        data[:] = bytes(len(data))
        expect([observe(p) for p in packets] == out,
               'what was read changes with the data')
        k2 = type(w['secret']).from_packets(packets)
        expect(packets == keep, 'the list of packets')
        expect([observe(p) for p in packets] == out, 'packets')
        return observe(k), observe(k2)

    def packet_of(w):
        out = []
        for who in KEYS:
            k = w[who]
            out.append(observe(k.to_packet()))
            for form in (C.OLD_PACKET_HEADER_TYPE, C.NEW_PACKET_HEADER_TYPE):
                out.append(bytes(k.to_packet(form)))
            out.append(bytes(k.to_signable_data(0x10, 4)))
            for u in k.user_ids + k.user_attributes:
                for v in (3, 4):
                    out.append(bytes(u.to_signable_data(0x10, v)))
        return tuple(out)

    USES = [('octets', packets_of(None)),
            ('old', packets_of(C.OLD_PACKET_HEADER_TYPE)),
            ('new', packets_of(C.NEW_PACKET_HEADER_TYPE)),
            ('verify', verify_all), ('refuse', refuse), ('sign', sign),
            ('convert', convert), ('symmetric', symmetric),
            ('public', public), ('decrypt', decrypt),
            ('compress', compress), ('unlock', unlocking),
            ('compare', compare), ('serialise', serialise),
            ('read', read_again), ('packets', packet_of)]
    table = dict(USES)
    fresh = {name: go(world()) for name, go in USES}

    def using(hist):
        w = world()
        for name in hist:
            got = table[name](w)
            if got != fresh[name]:
                raise Mismatch('%s gave something else: %s' % (
                    name, difference(fresh[name], got)))
        checked(w, ' '.join(hist))
        if len(hist) == 1:
            checked(world(), 'what is read after ' + hist[0])
        return hist
    ck.each('uses', [h for n in range(1, 3 + ck.thorough)
                     for h in itertools.product([u for u, _ in USES],
                                                repeat=n)],
            using, workers=8)

    # -- operations that change --------------------------------------------

    def selfsig(k):
        return k.user_ids[0].signatures[0]

    NEW = {
        'creation_time': datetime.datetime(2012, 1, 1),
        'signature_expiration_time': datetime.datetime(2030, 1, 1),
        'exportable': False, 'trust_amount': 9, 'trust_depth': 2,
        'regular_expressions': [re.compile('a')], 'revocable': False,
        'issuer_key_ids': ['00' * 8], 'issuer_user_id': 'x',
        'key_expiration_time': datetime.datetime(2031, 1, 1),
        'preferred_compression_algorithms': [3],
        'preferred_hash_algorithms': [10],
        'preferred_symmetric_algorithms': [3],
        'key_server_should_not_modify': True,
        'preferred_key_server': 'hkp://x', 'primary_user_id': False,
        'policy_uri': 'http://y', 'supports_modification_detection': False,
        'may_certify_others': False, 'may_sign_data': False,
        'may_encrypt_comms': True, 'may_encrypt_storage': True,
        'may_be_used_for_auth': True, 'may_have_been_split': True,
        'may_have_multiple_owners': True, 'notations': [],
        'revocation_keys': [], 'embedded_signatures': [],
    }

    def changes():
        for who in ('public', 'secret', 'armored', 'locked', 'dsa'):
            for attr in sorted(NEW):
                yield 'set', who, attr
            for attr in sorted(NEW):
                if attr.startswith(('preferred_', 'may_', 'policy', 'key_s',
                                    'supports', 'primary', 'revocation_k')):
                    yield 'set-uid', who, attr
            for part in ('name', 'email', 'comment'):
                yield 'part', who, part
        for who in KEYS + ['armored']:
            for attr in sorted(NEW):
                yield 'grow', who, attr
                yield 'grow-sig', who, attr
            for what in ('signatures', 'user_ids', 'user_attributes',
                         'subkeys'):
                yield 'append', who, what
                yield 'remove', who, what
            for what in ('lock', 'unlock'):
                yield what, who, None
        for who in MESSAGES:
            for attr in ('data', 'filename', 'timestamp', 'signatures',
                         'one_pass', 'session_keys', 'message_data_obj',
                         'compression_algorithm', 'message'):
                yield 'message', who, attr

    def change(w, what, who, attr):
        o = w[who]
        if what == 'set':
            setattr(selfsig(o), attr, NEW[attr])
        elif what == 'set-uid':
            setattr(o.user_ids[0], attr, NEW[attr])
        elif what == 'part':
            setattr(o.user_ids[0], 'user_' + attr, 'x@y'
                    if attr == 'email' else 'xyz')
        elif what in ('grow', 'grow-sig'):
            # the caller changes a list that was given to it
            if what == 'grow':
                holders = [o] + o.user_ids + o.subkeys
            else:
                holders = [s for h in [o] + o.user_ids
                           for s in h.signatures]
            for h in holders:
                value = getattr(h, attr, None)
                if isinstance(value, list):
                    value.append(77)
        elif what == 'append':
            getattr(o, attr).append(7)
        elif what == 'remove':
            del getattr(o, attr)[:]
        elif what == 'lock' and hasattr(o, 'lock'):
            o.lock()
        elif what == 'unlock' and hasattr(o, 'unlock'):
            o.unlock('pw' if who == 'locked' else '')
        elif what == 'message' and hasattr(o, attr):
            value = getattr(o, attr)
            if isinstance(value, list):
                value.append(5)
            else:
                setattr(o, attr, None)
        else:
            return False
        return True

    def others(w, who):
        return {k: v for k, v in w.items() if k != who}

    def independence(case):
        who = case[1]
        w, twin = world(), world([who])
        done = change(w, *case)
        rest = tuple(x for x in first if x[0] != who)
        own = tuple(x for x in first if x[0] == who)
        checked(others(w, who), repr(case), rest)
        checked(twin, '%r of another object' % (case,), own)
        checked(world([who]), 'what is read after %r' % (case,), own)
        return done
    ck.each('changes', list(changes()), independence, workers=8)

    # what is made by one object from others does not change with them
    def derived(case):
        source, what = case
        w = world()
        m = {
            'compress': lambda: w[source].compress(2, 6),
            'symmetric': lambda: w[source].symmetric_encrypt(9, 'pw'),
            'public': lambda: w[source].public_key_encrypt(
                9, public_keys=[w['public'].subkeys[1]]),
        }[what]()

        def octets():
            return b''.join(bytes(p) for p in m.to_packets())
        before = octets()
        for attr in ('data', 'filename', 'timestamp', 'signatures',
                     'session_keys', 'message_data_obj', 'message'):
            try:
                change(w, 'message', source, attr)
            except Exception:
                pass
        change(w, 'remove', 'public', 'subkeys')
        same(octets(), before, 'made before the change')
        inner = (m.get_message() if what == 'compress' else
                 m.get_message('pw') if what == 'symmetric' else
                 m.get_message(w['dsa'].subkeys[0]))
        same(util.octets(inner), OCTETS[source], 'content')
        return what
    ck.each('derived', itertools.product(
        MESSAGES, ['compress', 'symmetric', 'public']), derived)

    # a public copy and its secret key do not change with each other
    def copies(case):
        direction, what, who, attr = case
        w = world([who])
        secret = w[who]
        copy = secret.to_public_key()
        other = secret.to_public_key()
        names = {'secret': secret, 'copy': copy, 'other': other}
        before = {n: (octets_of(o), observe(o)) for n, o in names.items()}
        expect(before['copy'] == before['other'], 'two copies')
        w[who] = names[direction]
        done = change(w, what, who, attr)
        for n, o in names.items():
            if n == direction:
                continue
            got = (octets_of(o), observe(o))
            expect(got == before[n], '%s after %r of the %s' % (
                n, case, direction), difference(before[n], got))
        return direction, done
    ck.each('copies', [
        (direction,) + c for c in changes() for direction in
        ('secret', 'copy') if c[1] in ('secret', 'locked', 'version3', 'dsa')
        and not (c[0] == 'set' and c[1] == 'version3')], copies, workers=8)

    # what was got from a message is the caller's
    def inner(case):
        name, attr, value = case
        w = world()
        m = {
            'compressed': lambda: w['compressed'],
            'zip': lambda: w['signed'].compress(1, 6),
            'bzip2': lambda: w['text'].compress(3, 9),
            'symmetric': lambda: w['symmetric'],
            'encrypted': lambda: w['encrypted'],
            'made': lambda: w['text'].symmetric_encrypt(9, 'pw'),
        }[name]()

        def get():
            return (m.get_message(w['dsa'].subkeys[0])
                    if name == 'encrypted' else m.get_message('pw')
                    if name in ('symmetric', 'made') else m.get_message())
        a = get()
        before = octets_of(a), observe(a)
        written = octets_of(m)
        b = get()
        expect((octets_of(b), observe(b)) == before, 'got again')
        if hasattr(a, 'message_data_obj') or name == 'zip':
            a = a.get_message()
        setattr(a, attr, value)
        expect((octets_of(b), observe(b)) == before,
               'what was got before shows %s' % attr)
        for _ in range(2):
            c = get()
            got = octets_of(c), observe(c)
            expect(got == before, 'got again after the first was changed',
                   difference(before, got))
        same(octets_of(m), written, 'the message itself')
        if name in ('compressed', 'zip', 'bzip2'):
            # and another content is another content
            for other in ('literal', 'text', 'signed'):
                m.set_message(w[other])
                same(octets_of(get()), OCTETS[other], 'the new content')
        return name, attr
    ck.each('inner', itertools.product(
        ['compressed', 'zip', 'bzip2', 'symmetric', 'encrypted', 'made'],
        ['data', 'filename', 'timestamp'], [None, 'x', 7]), inner)

    # -- what is given to a call belongs to the caller ---------------------

    from pgp.packets import signature_subpackets as SP

    def extra():
        return [SP.ExportableSubpacket(False, True),
                SP.PolicyURISubpacket(True, 'http://p')]

    def calls(w):
        # name: (arguments, call)
        pub, secret = w['public'], w['secret']
        to = [pub.subkeys[1]]
        hidden = [w['version3']]
        area = extra()
        packets = list(parse_binary_packet_data(OCTETS['public']))
        signed = list(parse_binary_packet_data(OCTETS['signed']))
        octets = bytearray(OCTETS['secret'])
        key9 = bytearray(session)
        word = bytearray(b'pw')
        cls = type(pub)
        from pgp.message import open_pgp_message_from_packets
        literal_packet = list(parse_binary_packet_data(OCTETS['literal']))
        return {
            'encrypt': ([to, hidden], lambda:
                        w['literal'].public_key_encrypt(
                            9, public_keys=to, hidden_public_keys=hidden)),
            'encrypt for hidden': ([hidden], lambda:
                                   w['literal'].public_key_encrypt(
                                       9, hidden_public_keys=hidden)),
            'encrypt with a session key': (
                [to, hidden, key9], lambda: w['literal'].public_key_encrypt(
                    9, public_keys=to, hidden_public_keys=hidden,
                    session_key=key9)),
            'passphrase': ([word], lambda:
                           w['text'].symmetric_encrypt(9, word)),
            'decrypt': ([word], lambda: w['symmetric'].get_message(word)),
            'sign': ([area], lambda: secret.sign(
                w['literal'], 4, 0, 8, area)),
            'certify': ([area], lambda: secret.sign(
                pub.user_ids[0], 4, 0x10, 8, area)),
            'from packets': ([packets], lambda: cls.from_packets(packets)),
            'message': ([literal_packet], lambda:
                        open_pgp_message_from_packets(literal_packet)),
            'signed message': ([signed], lambda:
                               open_pgp_message_from_packets(signed)),
            'parse': ([octets], lambda: pgp.read_key(octets)),
            'packets': ([octets], lambda: list(
                parse_binary_packet_data(octets))),
        }

    def arguments(case):
        name, times = case
        w = world()
        given, call = calls(w)[name]
        kept = [list(g) for g in given]
        seen = [observe(g) for g in given]
        results = []
        for n in range(times):
            results.append(call())
            for g, k, o in zip(given, kept, seen):
                expect(len(g) == len(k) and all(
                    x is y for x, y in zip(g, k)),
                    'argument after %s' % name,
                    '%r became %r' % (k, list(g)))
                got = observe(g)
                expect(got == o, 'argument after %s' % name,
                       difference(o, got))
        if times > 1 and name in ('sign', 'certify'):
            what = w['literal'] if name == 'sign' else \
                w['public'].user_ids[0]
            for r in results:
                same(len(r.hashed_subpackets), 2 + len(kept[0]),
                     'hashed subpackets')
                expect(w['public'].verify(r, what), 'signature')
        shown = [observe(r) for r in results]
        for g in given:
            g[:] = b'' if isinstance(g, bytearray) else []
        for r, o in zip(results, shown):
            got = observe(r)
            expect(got == o, 'result of %s after its arguments changed'
                   % name, difference(o, got))
        checked(w, name)
        return name
    ck.each('arguments', [(n, t) for n in sorted(calls(world()))
                          for t in (1, 2, 3)], arguments, workers=8)

    # -- several objects made from the same packets ------------------------

    ABSENT = ['exportable', 'policy_uri', 'revocable', 'issuer_user_id',
              'trust_amount', 'key_expiration_time',
              'regular_expressions', 'issuer_key_ids',
              'signature_expiration_time', 'preferred_key_server',
              'preferred_hash_algorithms', 'may_certify_others']

    def siblings(case):
        what, attr = case
        bare = R.certificate(prim, [b'a', b'b'], [sub], secret=True)
        packets = list(parse_binary_packet_data(
            bare if what == 'key' else OCTETS['signed']))
        octets = [bytes(p) for p in packets]

        def make():
            if what == 'key':
                cls = type(world_key)
                return cls.from_packets(packets)
            from pgp.message import open_pgp_message_from_packets
            return open_pgp_message_from_packets(list(packets))
        a, b = make(), make()
        before = observe(b)
        sigs = [s for h in [a] + list(getattr(a, 'user_ids', []))
                + list(getattr(a, 'subkeys', [])) for s in h.signatures]
        for s in sigs:
            value = NEW[attr]
            setattr(s, attr, value)
        for h in [a] + list(getattr(a, 'user_ids', [])):
            del h.signatures[:]
        if what == 'key':
            del a.user_ids[:], a.subkeys[:]
        got = observe(b)
        expect(got == before, 'made from the same packets',
               difference(before, got))
        same([bytes(p) for p in packets], octets, 'the packets')
        expect(observe(make()) == before, 'made afterwards',
               difference(before, observe(make())))
        return attr
    world_key = world()['secret']
    ck.each('siblings', [(w, a) for w in ['key', 'message'] for a in ABSENT
                         if (w, a) != ('message', 'key_expiration_time')],
            siblings)


def armor_of(octets):
    from mc.ref import armor
    return armor.write('PGP PUBLIC KEY BLOCK', octets)
