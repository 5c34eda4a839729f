"""C13: secret keys open with their passphrase only, and close again."""

import hashlib
import itertools
import math

from mc import util
from mc.core import expect, same, raises, Mismatch
from mc.ref import cipher
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of a lock/unlock model (states: '
             'which parts are open, transitions: unlock with each '
             'passphrase, lock, context managers, sign, decrypt), every '
             'trace replayed on real keys; exhaustive enumeration of '
             'protections and of single-bit faults against an independent '
             'reader')
RULE = ('All protections (usage, cipher, S2K kind, hash, count, version) x '
        'key kinds x passphrases, all bit flips of protected material, all '
        'operation sequences up to the depth bound over a key with two '
        'subkeys with other protections; states are the sets of open parts.')
ASSUMPTIONS = ['A wrong passphrase that happens to give the right two-octet '
               'checksum is not an error of the code.',
               'Version 3 keys with a SHA-1 hash are not defined by '
               'RFC 4880 and not enumerated.']

TIME = 1000000100
SECRETS = ('exponent_d', 'prime_p', 'prime_q', 'multiplicative_inverse_u',
           'exponent_x')


def open_secret(key, protect, passphrase, blob):
    """Secret integers of what follows the IV, by the reference; ValueError."""
    usage, alg = protect['usage'], protect['alg']
    if usage == 'legacy':
        k = cipher.s2k(0, 1, cipher.KEY[alg], passphrase)
    else:
        kind, h, salt, octet = protect['s2k']
        k = cipher.s2k(kind, h, cipher.KEY[alg], passphrase, salt,
                       cipher.s2k_count(octet))
    enc, _ = cipher.block_pair(alg, k)
    iv = protect['iv']
    if key.version >= 4:
        plain = cipher.cfb(enc, iv, blob, decrypt=True)
    else:
        plain, pos, state = b'', 0, bytes(iv)
        while pos < len(blob) - 2:
            n = (int.from_bytes(blob[pos:pos + 2], 'big') + 7) // 8
            part = blob[pos + 2:pos + 2 + n]
            plain += blob[pos:pos + 2] + cipher.cfb(enc, state, part,
                                                    decrypt=True)
            state = (state + part)[-len(iv):]
            pos += 2 + n
        plain += blob[-2:]
    if usage == 254:
        body, tail = plain[:-20], plain[-20:]
        if hashlib.sha1(body).digest() != tail:
            raise ValueError('hash')
    else:
        body, tail = plain[:-2], plain[-2:]
        if (sum(body) & 0xffff).to_bytes(2, 'big') != tail:
            raise ValueError('checksum')
    values, pos = [], 0
    while pos < len(body):
        v, pos = rfc.read_mpi(body, pos)
        values.append(v)
    return values


def secrets_of(key):
    num = key.num
    if key.kind == 'rsa':
        return {'exponent_d': num['d'], 'prime_p': num['p'],
                'prime_q': num['q'], 'multiplicative_inverse_u': num['u'],
                'exponent_x': None}
    return {'exponent_d': None, 'prime_p': num['p'], 'prime_q': None,
            'multiplicative_inverse_u': None, 'exponent_x': num['x']}


def no_secrets(key):
    out = dict.fromkeys(SECRETS)
    if key.kind != 'rsa':
        out['prime_p'] = key.num['p']
    return out


def run(ck):
    import datetime
    import pgp
    from pgp import context_managers
    from pgp import exceptions
    from pgp import s2k
    from pgp.message import BinaryMessage
    from pgp.packets import packets as P
    stamp = datetime.datetime.fromtimestamp(TIME)
    doc = BinaryMessage(b'document', 'n', stamp)

    def values_are(sec, want, what):
        for name in SECRETS:
            got = getattr(sec, name)
            same(None if got is None else int(got), want[name],
                 '%s %s' % (what, name))

    def is_closed(sec, key):
        expect(sec.is_locked() is True, 'not locked')
        values_are(sec, no_secrets(key), 'locked')

    def is_open(sec, key):
        expect(sec.is_locked() is False, 'locked')
        values_are(sec, secrets_of(key), 'unlocked')

    def transferable(key, body, uid=b'u'):
        return util.read_key(rfc.packet(False, 5, body)
                             + rfc.packet(False, 13, uid))

    def uses(sec, key, can):
        if key.kind == 'elg':
            return
        if can and key.alg != 2:
            sig = sec.sign(doc, 4, 0, 2)
            expect(R.verify_body(key, bytes(sig.to_packet().content),
                                 b'document'), 'signature')
        else:
            raises(lambda: sec.sign(doc, 4, 0, 2))

    WORDS = ('', 'pw', 'walter2', 'p\u00e4ssw\u00f6rt \u20ac\U0001f600',
             'x' * 200, 'trailing ')

    def near(word):
        out = {word + ' ', word + '\0', 'X' + word, word.upper() + '.',
               word.swapcase() if word.swapcase() != word else word + 'a'}
        if word:
            out |= {'', word[:-1], word[1:], word + word}
        if word.strip() != word:
            out.add(word.strip())
        out.discard(word)
        return sorted(out)

    # -- every protection opens with its passphrase, and no other ------------

    def protection(case):
        name, version, usage, alg, spec, word, new_alg = case
        key = R.Key(name, version=version, created=1000000003, alg=new_alg)
        if usage is None:
            protect = None
        else:
            protect = {'usage': usage, 'alg': alg,
                       'passphrase': word.encode('utf8'),
                       'iv': util.pattern(cipher.BLOCK[alg], 9),
                       's2k': spec}
        body = key.secret_body(protect)
        raw = rfc.packet(False, 5, body) + rfc.packet(False, 13, b'u')
        sec = util.read_key(raw)
        is_closed(sec, key)
        uses(sec, key, False)
        same(util.octets(sec), raw, 'written before')
        if protect is not None:
            blob = body[len(body) - len(key.secret_body()) + len(
                key.public_body) + 1 - (18 if usage == 254 else 0):]
            for wrong in near(word):
                try:
                    got = open_secret(key, protect, wrong.encode('utf8'),
                                      blob)
                except (ValueError, IndexError):
                    raises(lambda: sec.unlock(wrong))
                    is_closed(sec, key)
        sec.unlock(word)
        is_open(sec, key)
        uses(sec, key, True)
        same(util.octets(sec), raw, 'written while unlocked')
        pub = sec.to_public_key()
        values_are_public(pub, key)
        sec.lock()
        is_closed(sec, key)
        uses(sec, key, False)
        same(util.octets(sec), raw, 'written after')
        sec.unlock(word)
        is_open(sec, key)
        # the packet opens in the same way
        pkt = util.parse(raw)[0]
        pkt.decrypt(word.encode('utf8'))
        values_are(pkt, {n: (v if n != 'prime_p' or key.kind == 'rsa'
                             else getattr(pkt, n))
                         for n, v in secrets_of(key).items()}, 'packet')
        return usage, alg, version, name

    def values_are_public(pub, key):
        blob = util.octets(pub)
        want = rfc.packet(False, 6, key.public_body) \
            + rfc.packet(False, 13, b'u')
        same(blob, want, 'public copy')

    def specs(full):
        for kind in (0, 1, 3):
            for h in ((1, 2, 3, 8, 9, 10, 11) if full else (2, 8)):
                for octet in ((0, 1, 16, 96) if kind == 3 else (0,)):
                    if kind == 3 and octet == 96 and h not in (2, 8):
                        continue
                    yield (kind, h, b'\x01saltsal' if kind else b'', octet)

    def protections():
        names = ('rsa_s1', 'dsa_small', 'elg_a')
        for name in names + ('rsa_odd', 'elg_odd', 'dsa_256'):
            for version in (3, 4):
                yield name, version, None, 0, None, '', None
                if name in ('rsa_s1', 'rsa_odd'):
                    for a in (2, 3):
                        yield name, version, None, 0, None, 'any', a
        for name in names:
            for alg in sorted(cipher.KEY):
                if alg == 0:
                    continue
                for version in (3, 4):
                    for usage in (254, 255, 'legacy'):
                        if version == 3 and usage == 254:
                            continue
                        if usage == 'legacy':
                            yield (name, version, usage, alg, None, 'pw',
                                   None)
                            continue
                        for spec in ((3, 8, b'saltsalt', 0),
                                     (0, 2, b'', 0)):
                            yield name, version, usage, alg, spec, 'pw', None
        for spec in specs(True):
            for usage in (254, 255):
                for version in (3, 4):
                    if version == 3 and usage == 254:
                        continue
                    for alg in ((3, 9, 2) if ck.thorough else (3, 9)):
                        yield ('dsa_small', version, usage, alg, spec,
                               'walter2', None)
        for word in WORDS:
            for usage in (254, 255, 'legacy'):
                for name in ('rsa_odd', 'dsa_a', 'elg_a'):
                    yield (name, 4, usage, 7, (3, 2, b'saltsalt', 1), word,
                           None)
    ck.each('protections', protections(), protection)

    # -- every bit of the protected material matters ----------------------------

    def fault(case):
        name, version, usage, alg, bit = case
        key = R.Key(name, version=version, created=1000000003)
        protect = {'usage': usage, 'alg': alg, 'passphrase': b'pw',
                   'iv': util.pattern(cipher.BLOCK[alg], 9),
                   's2k': (1, 2, b'saltsalt', 0)}
        body = key.secret_body(protect)
        start = len(key.public_body) + (1 if usage == 'legacy' else 12)
        bad = bytearray(body)
        bad[start + (bit >> 3)] ^= 1 << (bit & 7)
        bad = bytes(bad)
        n = cipher.BLOCK[alg]
        protect['iv'] = bad[start:start + n]
        sec = transferable(key, bad)
        try:
            want = open_secret(key, protect, b'pw', bad[start + n:])
            if len(want) != len(key.secret_mpis):
                want = None
        except (ValueError, IndexError):
            want = None
        if want is None:
            raises(lambda: sec.unlock('pw'))
            is_closed(sec, key)
            return 'refused'
        sec.unlock('pw')
        names = ('exponent_d', 'prime_p', 'prime_q',
                 'multiplicative_inverse_u')[:len(want)] \
            if key.kind == 'rsa' else ('exponent_x',)
        same([int(getattr(sec, a)) for a in names], want, 'values')
        return 'opened'

    def faults():
        for name, version, usage, alg in (
                ('dsa_small', 4, 254, 3), ('dsa_small', 4, 255, 3),
                ('dsa_small', 3, 255, 9), ('dsa_small', 4, 'legacy', 7),
                ('dsa_small', 3, 'legacy', 3), ('rsa_s1', 4, 254, 9),
                ('rsa_s1', 4, 255, 9), ('rsa_s1', 3, 255, 3)):
            key = R.Key(name, version=version)
            size = (cipher.BLOCK[alg] + sum(map(len, key.secret_mpis))
                    + (20 if usage == 254 else 2))
            for bit in range(8 * size):
                yield name, version, usage, alg, bit
    ck.each('bit_flips', faults(), fault)

    def plain_fault(case):
        name, version, bit = case
        key = R.Key(name, version=version, created=1000000003)
        body = bytearray(key.secret_body())
        start = len(key.public_body) + 1
        body[start + (bit >> 3)] ^= 1 << (bit & 7)
        sec = transferable(key, bytes(body))
        raises(lambda: sec.unlock(''))
        is_closed(sec, key)
        return name
    ck.each('plain_bit_flips',
            ((n, v, b) for n in ('dsa_small', 'rsa_s1') for v in (3, 4)
             for b in range(8 * (sum(map(len, R.Key(n).secret_mpis)) + 2))),
            plain_fault)

    # -- too few or too many values ------------------------------------------------

    def count(case):
        name, version, usage, n = case
        key = R.Key(name, version=version, created=1000000003)

        class Other(R.Key):
            @property
            def secret_mpis(self):
                have = R.Key.secret_mpis.fget(self)
                return (have + [rfc.mpi(77), rfc.mpi(5)])[:n]
        other = Other(name, version=version, created=1000000003)
        protect = None if usage is None else {
            'usage': usage, 'alg': 9, 'passphrase': b'pw',
            'iv': bytes(range(16)), 's2k': (0, 2, b'', 0)}
        sec = transferable(key, other.secret_body(protect))
        if n < len(key.secret_mpis):
            raises(lambda: sec.unlock('pw'))
            is_closed(sec, key)
            uses(sec, key, False)
            return 'refused'
        try:
            sec.unlock('pw')
        except Exception:
            is_closed(sec, key)
            return 'refused more'
        is_open(sec, key)
        return 'opened'
    ck.each('value_counts',
            [(n, v, u, c) for n, m in (('rsa_s1', 4), ('dsa_small', 1),
                                       ('elg_a', 1))
             for v in (3, 4) for u in (None, 254, 255, 'legacy')
             if not (v == 3 and u == 254)
             for c in range(m + 2)], count)

    # -- keys of the sizes that are in use ----------------------------------------

    ck.each('large', [
        (n, v, u, a, (3, 8, b'saltsalt', 0), 'pw', None)
        for n in sorted(R.BIG)
        for v in ((3, 4) if n.startswith('rsa') else (4,))
        for u in (None, 254, 255, 'legacy') if not (v == 3 and u == 254)
        for a in ((3, 9) if u else (0,))], protection)

    # -- values of few octets -----------------------------------------------------

    def prime(bits):
        n = (1 << bits) - 1
        while any(pow(a, n - 1, n) != 1 for a in (2, 3, 5, 7, 11, 13, 17)) \
                or math.gcd(n - 1, 65537) > 1:
            n -= 2
        return n

    def small_value(case):
        name, version, usage, alg, bits = case
        key = R.Key(name, version=version, created=1000000003)
        num = key.num = dict(key.num)
        if key.kind == 'rsa':
            p, q = prime(bits), max(num['p'], num['q'])
            num.update(p=p, q=q, n=p * q, e=65537, u=pow(p, -1, q),
                       d=pow(65537, -1, (p - 1) * (q - 1)))
        else:
            num['x'] = (1 << bits) - 1
            num['y'] = pow(num['g'], num['x'], num['p'])
        protect = None if usage is None else {
            'usage': usage, 'alg': alg, 'passphrase': b'pw',
            'iv': util.pattern(cipher.BLOCK[alg], 9),
            's2k': (0, 2, b'', 0)}
        raw = rfc.packet(False, 5, key.secret_body(protect)) \
            + rfc.packet(False, 13, b'u')
        sec = util.read_key(raw)
        is_closed(sec, key)
        sec.unlock('pw')
        is_open(sec, key)
        if bits > 2:
            uses(sec, key, True)
        sec.lock()
        same(util.octets(sec), raw, 'written after')
        return version, usage
    ck.each('small_values',
            [(n, v, u, a, b) for n, sizes in (
                ('rsa_a', (24, 40, 56, 63, 64, 65, 72, 100, 128, 136)),
                ('dsa_small', (1, 2, 7, 8, 9, 16, 63, 64, 65, 128)),
                ('elg_a', (1, 8, 9, 64, 127, 129)))
             for v in (3, 4) for u in (None, 254, 255, 'legacy')
             for a in ((3, 9) if u else (0,)) for b in sizes
             if not (v == 3 and u == 254)], small_value)

    # -- a secret part that ends early --------------------------------------------

    def cut(case):
        name, version, usage, alg = case
        key = R.Key(name, version=version, created=1000000003)
        protect = None if usage is None else {
            'usage': usage, 'alg': alg, 'passphrase': b'pw',
            'iv': util.pattern(cipher.BLOCK[alg], 9),
            's2k': (0, 2, b'', 0)}
        body = key.secret_body(protect)
        head = len(body) - sum(map(len, key.secret_mpis)) \
            - (20 if usage == 254 else 2)
        for end in range(head, len(body)):
            sec = transferable(key, body[:end])
            by_chance = False
            if usage is not None:
                try:
                    got = open_secret(key, protect, b'pw', body[head:end])
                    by_chance = len(got) == len(key.secret_mpis)
                except (ValueError, IndexError):
                    pass
            if by_chance:
                continue
            raises(lambda: sec.unlock('pw'))
            is_closed(sec, key)
            uses(sec, key, False)
        return version, usage
    ck.each('cut_short',
            [(n, v, u, a) for n in ('rsa_s1', 'dsa_small', 'elg_a')
             for v in (3, 4) for u in (None, 254, 255, 'legacy')
             for a in ((3, 9) if u else (0,)) if not (v == 3 and u == 254)],
            cut)

    # -- what the code protects opens by the reference -----------------------------

    def protects(case):
        name, version, usage, alg, kind, h = case
        key = R.Key(name, version=version, created=1000000003)
        num = key.num
        salt = bytearray(b'saltsalt')
        spec = {0: lambda: s2k.SimpleS2K(h, alg),
                1: lambda: s2k.SaltedS2K(h, alg, salt),
                3: lambda: s2k.IteratedAndSaltedS2K(h, alg, salt, 1024),
                }[kind]()
        iv = util.pattern(cipher.BLOCK.get(alg, 0), 4)
        args = dict(version=version, creation_time=1000000003,
                    public_key_algorithm=key.alg, expiration_days=0,
                    modulus=num.get('n') if key.kind == 'rsa' else None,
                    exponent=num.get('e') if key.kind == 'rsa' else None,
                    prime=num['p'] if key.kind != 'rsa' else None,
                    group_order=num['q'] if key.kind == 'dsa' else None,
                    group_generator=num.get('g'), key_value=num.get('y'),
                    iv=bytearray(iv), encrypted_portion=b'',
                    passphrase=b'pw')
        if key.kind == 'rsa':
            args.update(exponent_d=num['d'], prime_p=num['p'],
                        prime_q=num['q'], multiplicative_inverse_u=num['u'])
        else:
            args.update(exponent_x=num['x'])
        if usage is None:
            args.update(symmetric_algorithm=0, iv=b'', checksum=True,
                        hash_=False)
            protect = None
        else:
            protect = {'usage': usage, 'alg': alg, 'passphrase': b'pw',
                       'iv': iv, 's2k': (kind, h, bytes(salt), 0)}
            args.update(symmetric_algorithm=alg, checksum=usage != 254,
                        hash_=usage == 254,
                        s2k_specification=None if usage == 'legacy'
                        else spec)
        for cls, tag in ((P.SecretKeyPacket, 5), (P.SecretSubkeyPacket, 7)):
            raw = bytes(cls(0, **args))
            same(raw, rfc.packet(False, tag, key.secret_body(protect)),
                 'protected packet')
        return usage, alg, version
    ck.each('code_protects_large', [
        (n, v, u, 9 if u else 0, 0, 2 if u in (254, 255) else 1)
        for n in sorted(R.BIG)
        for v in ((3, 4) if n.startswith('rsa') else (4,))
        for u in (None, 254, 255, 'legacy') if not (v == 3 and u == 254)],
        protects)
    ck.each('code_protects', [
        (n, v, u, a, k, h) for n in ('rsa_s1', 'dsa_small', 'elg_a')
        for v in (3, 4) for u in (None, 254, 255, 'legacy')
        for a in ((0,) if u is None else (1, 2, 3, 4, 7, 8, 9, 10, 11, 13))
        for k, h in (((0, 1),) if u in (None, 'legacy')
                     else ((0, 1), (1, 2), (3, 8)))
        if not (v == 3 and u == 254)], protects)

    # -- stubs -------------------------------------------------------------------

    def stub(case):
        name, mode, sub_open, order = case
        key = R.Key(name, created=1000000003)
        sub = R.Key('elg_a', created=1000000004)
        sign_sub = R.Key('dsa_b', created=1000000005)
        protect = {'usage': 'gnu', 'mode': mode, 'serial': b'\1\2\3\4'}
        have = {'usage': 254, 'alg': 9, 'passphrase': b'pw',
                'iv': bytes(range(16)), 's2k': (3, 8, b'saltsalt', 0)}
        raw = R.certificate(key, subkeys=[sub, sign_sub], secret=True,
                            protect=protect,
                            sub_protect=have if sub_open else protect)
        sec = util.read_key(raw)
        expect(sec.is_stub(), 'not a stub')
        is_closed(sec, key)
        for op in order:
            if op == 'unlock':
                sec.unlock('pw')
                is_closed(sec, key)
                for s, k in zip(sec.subkeys, (sub, sign_sub)):
                    (is_open if sub_open else is_closed)(s, k)
            elif op == 'wrong':
                if sub_open:
                    raises(lambda: sec.unlock('no'))
                else:
                    sec.unlock('no')
                for s, k in zip(sec.subkeys, (sub, sign_sub)):
                    if not sub_open:
                        is_closed(s, k)
            else:
                sec.lock()
                for s, k in zip(sec.subkeys, (sub, sign_sub)):
                    is_closed(s, k)
            is_closed(sec, key)
            uses(sec, key, False)
        raises(lambda: super(type(sec), sec).unlock('pw'))
        same(util.octets(sec), raw, 'written')
        return mode, sub_open
    ck.each('stubs', [
        (n, m, s, o) for n in ('rsa_a', 'dsa_a') for m in (1, 2)
        for s in (False, True) for k in (1, 2, 3)
        for o in itertools.product(('unlock', 'wrong', 'lock'), repeat=k)],
        stub)

    # -- sequences of operations ------------------------------------------------------

    prim = R.Key('rsa_s1', created=1000000003)
    subs = (R.Key('dsa_small', created=1000000004),
            R.Key('elg_a', created=1000000005))
    parts = (prim,) + subs

    def protect_for(word, usage, alg):
        return {'usage': usage, 'alg': alg,
                'passphrase': word.encode('utf8'),
                'iv': util.pattern(cipher.BLOCK[alg], 2),
                's2k': (1, 2, b'saltsalt', 0)}

    CONFIGS = {
        'same': (('a', 254, 9), ('a', 255, 3), ('a', 254, 7)),
        'mixed': (('a', 254, 9), ('b', 254, 3), ('a', 255, 7)),
        'plain': (('a', 254, 9), None, ('a', 254, 7)),
        'open': (None, ('a', 254, 9), ('b', 255, 7)),
    }
    raws = {}
    for cname, config in CONFIGS.items():
        raw = b''
        for i, (key, c) in enumerate(zip(parts, config)):
            raw += rfc.packet(False, 7 if i else 5, key.secret_body(
                c and protect_for(*c)))
            if not i:
                raw += rfc.packet(False, 13, b'u')
                raw += rfc.packet(False, 2, R.signature_body(
                    prim, 0x13, 2, R.on_user_id(prim, b'u')))
            else:
                raw += rfc.packet(False, 2, R.signature_body(
                    prim, 0x18, 2, prim.hashed + key.hashed))
        raws[cname] = raw

    session = util.pattern(16, 3)
    secret_msg = rfc.packet(True, 1, R.pkesk_body(subs[1], 7, session)) \
        + rfc.packet(True, 18, R.seipd_body(
            7, session, rfc.packet(True, 11, R.literal_body(
                b'b', b'n', TIME, b'inner')), util.pattern(16, 1)))

    EVENTS = [('unlock', 'a'), ('unlock', 'b'), ('unlock', 'c'),
              ('lock', None), ('sub', 0, 'a'), ('sub', 0, 'b'),
              ('sub', 1, 'a'), ('sub', 1, 'b'), ('sublock', 0),
              ('sublock', 1), ('with', 'a', None), ('with', 'c', None),
              ('with', 'b', 'sub0'), ('with', 'a', 'raise'),
              ('with', 'a', 'lock'), ('with', 'a', 'wrong')]

    def machine(cname):
        config = CONFIGS[cname]

        def opens(i, word):
            return config[i] is None or config[i][0] == word

        def build(history):
            sec = util.read_key(raws[cname])
            state = [False, False, False]
            objs = [sec] + list(sec.subkeys)

            def do_unlock(word, fails_ok=True):
                good = all(opens(i, word) for i in range(3))
                if good:
                    sec.unlock(word)
                else:
                    raises(lambda: sec.unlock(word))
                # parts that were not opened before the failure may or may
                # not be open, but never with a wrong passphrase
                for i in range(3):
                    now = not objs[i].is_locked()
                    if good:
                        expect(now, 'part still locked', i)
                    elif not opens(i, word):
                        same(now, state[i], 'part %d with a wrong '
                             'passphrase' % i)
                    else:
                        expect(now or not state[i], 'part was closed', i)
                    state[i] = now
                return good
            for ev in history:
                if ev[0] == 'unlock':
                    do_unlock(ev[1])
                elif ev[0] == 'lock':
                    sec.lock()
                    state[:] = [False] * 3
                elif ev[0] == 'sub':
                    i = ev[1] + 1
                    if opens(i, ev[2]):
                        objs[i].unlock(ev[2])
                        state[i] = True
                    else:
                        raises(lambda: objs[i].unlock(ev[2]))
                elif ev[0] == 'sublock':
                    objs[ev[1] + 1].lock()
                    state[ev[1] + 1] = False
                else:
                    if ev[2] == 'sub0':
                        i, thing = 1, objs[1]
                        good = opens(1, ev[1])
                    else:
                        i, thing = None, sec
                        good = all(opens(j, ev[1]) for j in range(3))
                    inside = []
                    try:
                        with context_managers.unlocked(thing, ev[1]) as got:
                            inside.append(1)
                            expect(got is thing, 'what is unlocked')
                            for j in range(3):
                                if i is None or i == j:
                                    is_open(objs[j], parts[j])
                            if ev[2] == 'raise':
                                raise KeyError('inside')
                            elif ev[2] == 'lock':
                                thing.lock()
                            elif ev[2] == 'wrong':
                                try:
                                    thing.unlock('wrong')
                                except Exception:
                                    pass
                    except KeyError:
                        expect(good and ev[2] == 'raise', 'exception')
                    except Mismatch:
                        raise
                    except Exception:
                        expect(not good, 'not unlocked')
                    else:
                        expect(good, 'unlocked with a wrong passphrase')
                        expect(ev[2] != 'raise', 'exception swallowed')
                    same(bool(inside), good, 'body was run')
                    for j in range(3):
                        if i is None or i == j:
                            state[j] = False
            return sec, objs, state

        def invariant(world):
            sec, objs, state = world
            for o, k, s in zip(objs, parts, state):
                (is_open if s else is_closed)(o, k)
            same(util.octets(sec), raws[cname], 'written')
            uses(sec, parts[0], state[0])
            uses(objs[1], parts[1], state[1])
            msg = util.read_message(secret_msg)
            if state[2]:
                same(bytes(msg.get_message(objs[2]).data), b'inner',
                     'decrypted')
            else:
                raises(lambda: msg.get_message(objs[2]))

        ck.bfs('sequences_' + cname, None, lambda h: EVENTS, build,
               lambda w: tuple(w[2]), invariant,
               6 if ck.thorough else 4)
        # (every history, not only the first to each state)
        ck.each('histories_' + cname,
                itertools.product(EVENTS, repeat=4 if ck.thorough else 3),
                lambda h: (invariant(build(list(h))), repr(h[-1]))[1])
    for cname in CONFIGS:
        machine(cname)
