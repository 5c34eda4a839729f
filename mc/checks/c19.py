"""C19: which signatures are expired or revoked, and what they revoke."""

import datetime
import itertools
import time

from mc import util
from mc.core import expect, same
from mc.ref import cipher
from mc.ref import keys as R
from mc.ref import rfc
from mc.zones import in_zone

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of histories of certifications and '
             'revocations on keys, user IDs, user attributes and subkeys, '
             'executed on the real code under a controlled clock and time '
             'zone and compared with a reference model of validity')
RULE = ('All sequences up to the length over the alphabet of signatures '
        '(type, issuer, time, expiration, revocability, target); all '
        'combinations of creation time, validity period and present time '
        'around the changes of summer time of the listed zones.')
ASSUMPTIONS = ['Whether a signature is expired in the very second it '
               'expires is not specified.',
               'Whether an expired revocation still revokes, and whether '
               'one by another issuer does that names its target (it might '
               'be an authorised revoker), is not specified.',
               'Signatures that are revoked or expired are not required to '
               'verify: validity in time and cryptographic validity (C12) '
               'are separate.',
               'The target of a revocation is hashed with the hash '
               'algorithm of the target signature, including what that '
               'signature is on and its trailer.']

T0 = 1000000100
CERTS = {'key': 0x1f, 'uid': 0x13, 'attribute': 0x10, 'subkey': 0x18}
REVS = {'key': 0x20, 'uid': 0x30, 'attribute': 0x30, 'subkey': 0x28}
UID = b'Test <test@example.org>'
# one image subpacket
IMAGE = b'\x10\x00\x01\x01' + bytes(12) + b'\xff\xd8\xff\xe0JFIF'
ATTRIBUTE = rfc.new_length(len(IMAGE) + 1) + b'\x01' + IMAGE


class Clock(object):
    """time.time() says what the case wants."""

    def __init__(self):
        self.real = time.time
        self.now = None

    def __enter__(self):
        time.time = lambda: self.real() if self.now is None else self.now
        return self

    def __exit__(self, *exc):
        time.time = self.real

    def at(self, now, fn):
        self.now = now
        try:
            return fn()
        finally:
            self.now = None


def run(ck):
    prim = R.Key('rsa_s1', created=1000000000)
    sub = R.Key('rsa_s2', created=1000000000)
    other = R.Key('dsa_small', created=1000000000)
    ISSUER = {'own': prim.key_id, 'sub': sub.key_id, 'other': other.key_id}
    clock = Clock()

    def signed(holder, version=4):
        """What a signature of the holder is on."""
        if holder == 'key':
            return prim.hashed
        if holder == 'uid':
            return R.on_user_id(prim, UID, version)
        if holder == 'attribute':
            return R.on_attribute(prim, ATTRIBUTE, version)
        return prim.hashed + sub.hashed

    def body(kind, hash_alg, hashed, unhashed, alg=1):
        return (bytes([4, kind, alg, hash_alg])
                + len(hashed).to_bytes(2, 'big') + hashed
                + len(unhashed).to_bytes(2, 'big') + unhashed
                + b'\xab\xcd' + b''.join(map(rfc.mpi, [0x1234567]
                                             if alg == 1 else [99, 101])))

    def body3(kind, created, key_id, hash_alg=2):
        return (bytes([3, 5, kind]) + created.to_bytes(4, 'big')
                + bytes.fromhex(key_id) + bytes([1, hash_alg])
                + b'\xab\xcd' + rfc.mpi(0x1234567))

    def target(holder, of, alg=None):
        s = R.read_signature(of)
        digest = cipher.digest(s['hash'], signed(holder, s['version'])
                               + s['trailer'])
        return R.subpacket(31, bytes([s['alg'] if alg is None else alg,
                                      s['hash']]) + digest)

    class Sig(object):
        """One letter of a history.  rev: a revocation, t: seconds after
        T0, exp: seconds it is valid, to: target: None, the index of a
        certification, 'nothing', or ('alg', index) with an algorithm that
        is not the one of the certification."""

        def __init__(self, rev, by, t, exp=None, revocable=None, to=None,
                     v=4, hash_alg=2):
            self.rev, self.by, self.t, self.exp = rev, by, t, exp
            self.revocable, self.to, self.v = revocable, to, v
            self.hash_alg = hash_alg
            self.ident = (rev, by, t, exp, revocable, to, v, hash_alg)

        def __repr__(self):
            return 'Sig%r' % (self.ident,)

    def bodies(holder, word):
        out = []

        def build(i):
            s = word[i]
            kind = (REVS if s.rev else CERTS)[holder]
            if s.v == 3:
                return body3(kind, T0 + s.t, ISSUER[s.by], s.hash_alg)
            hashed = R.created(T0 + s.t)
            if s.exp is not None:
                hashed += R.subpacket(3, s.exp.to_bytes(4, 'big'))
            if s.revocable is not None:
                hashed += R.subpacket(7, bytes([s.revocable]))
            if s.to is not None:
                index, alg = s.to, None
                if isinstance(s.to, tuple):
                    index, alg = s.to[1], 17
                if index == 'nothing' or index >= len(word) \
                        or word[index].rev:
                    hashed += R.subpacket(31, b'\1\2' + bytes(20))
                else:
                    hashed += target(holder, build(index), alg)
            # hashed, so that the digests of different issuers differ
            return body(kind, s.hash_alg,
                        hashed + R.issuer(ISSUER[s.by]), b'')
        for i in range(len(word)):
            out.append(build(i))
        return out

    def key_with(holder, sigs):
        """(key, part)"""
        def packets(tag, data, of):
            # subkeys have to be bound first
            own = sigs if holder == of else []
            if of == 'subkey':
                own = [body(0x18, 2, R.created(T0 - 50),
                            R.issuer(prim.key_id))] + own
            return rfc.packet(True, tag, data) + b''.join(
                rfc.packet(True, 2, b) for b in own)
        key = util.read_key(
            packets(6, prim.public_body, 'key') + packets(13, UID, 'uid')
            + packets(17, ATTRIBUTE, 'attribute')
            + packets(14, sub.public_body, 'subkey'))
        part = {'key': lambda: key, 'uid': lambda: key.user_ids[0],
                'attribute': lambda: key.user_attributes[0],
                'subkey': lambda: key.subkeys[0]}[holder]()
        return key, part

    # -- the reference -----------------------------------------------------

    BINDING = Sig(False, 'own', -50)

    def is_expired(s, now):
        if not s.exp or s.v == 3:
            return False
        return now > T0 + s.t + s.exp

    def targets(holder, word):
        """index of a revocation -> indexes of equal signatures, for those
        that name their target"""
        blobs = bodies(holder, word)
        out = {}
        for i, s in enumerate(word):
            if s.to is None or s.v == 3:
                continue
            t = s.to
            out[i] = set()
            if not isinstance(t, tuple) and t != 'nothing' \
                    and t < len(word) and not word[t].rev:
                out[i] = {j for j in range(len(word))
                          if blobs[j] == blobs[t]}
        return out

    def revokers(word, j, named):
        if word[j].rev:
            return []
        if word[j].revocable is False and word[j].v == 4:
            return []
        out = []
        for i, r in enumerate(word):
            if not r.rev:
                continue
            if i in named:
                if j in named[i]:
                    out.append(i)
            elif r.by == word[j].by and word[j].t <= r.t:
                out.append(i)
        return out

    def check(holder, word, now, flags=None):
        full = [BINDING] + list(word) if holder == 'subkey' else list(word)
        sigs = bodies(holder, word)
        key, part = key_with(holder, sigs)
        offset = len(full) - len(word)
        named = {i + offset: {j + offset for j in js}
                 for i, js in targets(holder, word).items()}
        same(len(part.signatures), len(full), 'signatures')
        if flags:
            for i, attr in flags:
                setattr(part.signatures[i + offset], attr, True)

        def checks():
            unclear = set()
            revoked = []
            for j, s in enumerate(full):
                by = revokers(full, j, named)
                firm = [i for i in by if not is_expired(full[i], now)
                        and full[i].by == s.by]
                revoked.append(bool(by))
                if by and not firm:
                    unclear.add(j)
            for j, (s, sig) in enumerate(zip(full, part.signatures)):
                same(bool(sig.expired), is_expired(s, now),
                     'expired %d' % j)
                same(sig.revocation, s.rev, 'revocation %d' % j)
                if j not in unclear:
                    same(bool(sig.revoked), revoked[j], 'revoked %d' % j)
                if j in named:
                    got = sig.target
                    if named[j]:
                        expect(got is not None and any(
                            got is part.signatures[k] for k in named[j]),
                            'target of', j, got)
                    else:
                        same(got, None, 'target of %d' % j)
                elif s.rev:
                    # the only one it can be
                    alike = [k for k, x in enumerate(full)
                             if k != j and x.by == s.by]
                    got = sig.target
                    if len(alike) == 1:
                        expect(got is part.signatures[alike[0]],
                               'target of', j, got)
                    else:
                        expect(got is None, 'target of', j, got)

            def ids(found):
                return [[x is y for y in part.signatures].index(True)
                        for x in found]
            own = [j for j, s in enumerate(full) if s.by != 'other']
            same(ids(part.self_signatures), own, 'self-signatures')
            bad = set() if not flags else {i + offset for i, _ in flags}
            good = [j for j in own if not is_expired(full[j], now)
                    and j not in bad]
            cur = [j for j in good if not full[j].rev and not revoked[j]
                   and j not in unclear]
            same([j for j in ids(part.current_self_signatures)
                  if j not in unclear], cur, 'current self-signatures')
            rev = [j for j in good if full[j].rev]
            same(ids(part.revocation_signatures), rev,
                 'revocation signatures')
            same(bool(part.revoked), bool(rev), 'revoked')
            return (tuple(own), tuple(cur), tuple(rev))
        return clock.at(now, checks)

    # -- histories ---------------------------------------------------------

    ALPHABET = [
        Sig(False, 'own', 0), Sig(False, 'own', 2), Sig(False, 'own', 4),
        Sig(False, 'own', 0, exp=100), Sig(False, 'own', 0, exp=2000),
        Sig(False, 'own', 0, revocable=False),
        Sig(False, 'own', 2, revocable=True, hash_alg=8),
        Sig(False, 'other', 0), Sig(False, 'sub', 0),
        Sig(False, 'own', 2, v=3),
        Sig(True, 'own', 1), Sig(True, 'own', 2), Sig(True, 'own', 3),
        Sig(True, 'other', 3), Sig(True, 'sub', 3),
        Sig(True, 'own', 3, exp=100), Sig(True, 'own', 3, exp=2000),
        Sig(True, 'own', 3, v=3),
        Sig(True, 'own', 3, to=0), Sig(True, 'own', 3, to=1),
        Sig(True, 'own', 3, to=2), Sig(True, 'own', 1, to=1),
        Sig(True, 'other', 3, to=0), Sig(True, 'own', 3, to='nothing'),
        Sig(True, 'own', 3, to=('alg', 0)),
    ]
    SMALL = [ALPHABET[i] for i in (0, 2, 3, 5, 7, 10, 12, 13, 18, 19)]
    NOW = T0 + 1000

    def history(case):
        holder, word = case
        return check(holder, [ALPHABET[i] for i in word], NOW)

    def histories():
        n = range(len(ALPHABET))
        for holder in sorted(CERTS):
            for size in range(3):
                for word in itertools.product(n, repeat=size):
                    yield holder, word
        for holder in sorted(CERTS):
            for word in itertools.product(n, repeat=3):
                if ck.thorough or holder == 'uid' or all(
                        ALPHABET[i] in SMALL for i in word):
                    yield holder, word
        if ck.thorough:
            few = [ALPHABET.index(s) for s in SMALL]
            for word in itertools.product(few, repeat=4):
                yield 'key', word
                yield 'attribute', word
                yield 'subkey', word
            for word in itertools.product(n, repeat=4):
                yield 'uid', word

    with clock:
        ck.each('histories', histories(), history, workers=8)

        # what the verification found out about the issuer
        def flagged(case):
            holder, word, flags = case
            return check(holder, [ALPHABET[i] for i in word], NOW, flags)
        ck.each('issuers', (
            (h, w, f) for h in sorted(CERTS)
            for w in itertools.product([0, 1, 8, 12, 14], repeat=2)
            for f in [((i, a),) for i in range(2) for a in (
                'issuer_key_expired', 'issuer_key_revoked')] + [
                ((0, 'issuer_key_expired'), (1, 'issuer_key_revoked'))]),
            flagged)

        # -- targets -------------------------------------------------------

        def target_case(case):
            holder, hashes, which, alg, long = case
            sigs = []
            for n, h in enumerate(hashes):
                hashed = R.created(T0 + n)
                if long:
                    hashed += R.subpacket(20, bytes(4) + b'\0\4' + b'\1\x90'
                                          + b'n@ex' + b'x' * 400)
                sigs.append(body(CERTS[holder], h, hashed,
                                 R.issuer(prim.key_id),
                                 alg=[1, 17][n % 2]))
            sub_ = target(holder, sigs[which], alg)
            real = alg in (None, [1, 17][which % 2])
            sigs.append(body(REVS[holder], 2, R.created(T0 + 9) + sub_,
                             R.issuer(prim.key_id)))
            key, part = key_with(holder, sigs)
            mine = part.signatures[-len(sigs):]
            rev = mine.pop()
            expect(rev.target is (mine[which] if real else None), 'target')
            same([bool(s.revoked) for s in mine],
                 [real and n == which for n in range(len(mine))], 'revoked')
            return real
        ck.each('targets', (
            (h, hs, n, alg, long) for h in sorted(CERTS)
            for hs in itertools.product([1, 2, 3, 8, 9, 10, 11], repeat=2)
            for n in range(2) for alg in (None, 17) for long in (0, 1)),
            target_case)

        # -- time ----------------------------------------------------------

        ZONES = ['GMT0BST,M3.5.0/1,M10.5.0', 'EST5EDT,M3.2.0,M11.1.0',
                 'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'IST-5:30', 'UTC',
                 '<+1345>-13:45<+1445>,M9.5.0/2:45,M4.1.0/3:45',
                 'Europe/Berlin']

        def changes(zone):
            """The changes of this zone's offset in 2001 and 2021."""
            def find():
                out = []
                for year in (2001, 2021):
                    t = int((datetime.datetime(year, 1, 1) - datetime.
                             datetime(1970, 1, 1)).total_seconds())
                    end = t + 366 * 86400
                    off = time.localtime(t).tm_gmtoff
                    while t < end:
                        if time.localtime(t + 86400).tm_gmtoff != off:
                            a, b = t, t + 86400
                            while b - a > 1:
                                m = (a + b) // 2
                                if time.localtime(m).tm_gmtoff == off:
                                    a = m
                                else:
                                    b = m
                            out.append(b)
                            off = time.localtime(b).tm_gmtoff
                        t += 86400
                return out
            return in_zone(zone, find)

        def message_with(created, seconds):
            """A signed message, its signature"""
            area = R.created(created) + (
                b'' if seconds is None
                else R.subpacket(3, seconds.to_bytes(4, 'big')))
            s = body(0, 8, area, R.issuer(prim.key_id))
            lit = b'b\0' + bytes(4) + b'text'
            m = util.read_message(
                rfc.packet(True, 4, b'\3\0\x08\1' + bytes.fromhex(
                    prim.key_id) + b'\1') + rfc.packet(True, 11, lit)
                + rfc.packet(True, 2, s))
            return m, m.signatures[0]

        def expiry(case):
            zone, holder, created, seconds, now = case

            def go():
                if holder == 'message':
                    m, sig = message_with(created, seconds)
                else:
                    area = R.created(created) + (
                        b'' if seconds is None
                        else R.subpacket(3, seconds.to_bytes(4, 'big')))
                    m, part = key_with(holder, [body(
                        CERTS[holder], 8, area, R.issuer(prim.key_id))])
                    sig = part.signatures[-1]
                want = bool(seconds) and now > created + seconds
                same(bool(clock.at(now, lambda: sig.expired)), want,
                     'expired')
                t = sig.signature_expiration_time
                same(None if t is None else int(t.timestamp()),
                     created + seconds if seconds else None, 'expires')
                same(int(sig.creation_time.timestamp()), created, 'created')
                if holder != 'message':
                    cur = clock.at(now,
                                   lambda: part.current_self_signatures)
                    same(any(x is sig for x in cur), not want, 'current')
                return want
            return in_zone(zone, go)

        def expiries():
            near = [-5400, -3600, -1801, -1, 0, 1, 1800, 3601, 5400]
            for zone in ZONES:
                points = changes(zone) or [T0]
                for c in points:
                    for a in near:
                        for seconds in (None, 0, 1, 1799, 3600, 7201,
                                        86400, 86400 * 200):
                            end = c + a + (seconds or 0)
                            for now in {end - 3601, end - 1800, end - 1,
                                        end + 1, end + 1.5, end + 1800,
                                        end + 3599, end + 3600 * 24}:
                                yield zone, 'uid', c + a, seconds, now
            for holder in ['message'] + sorted(CERTS):
                for created in (1, T0, 0x7fffffff, 0xfffffffe):
                    for seconds in (None, 0, 1, 65536, 0x7fffffff,
                                    0xffffffff):
                        end = created + (seconds or 0)
                        for now in (1, end - 1, end + 1, end + 10 ** 7):
                            yield 'UTC', holder, created, seconds, now
        ck.each('expiration', expiries(), expiry, workers=8)

        # the order of revocation and certification, and of the most recent
        # self-signature, in local time
        def order(case):
            zone, holder, cert, rev = case

            def go():
                one = Sig(False, 'own', cert - T0)
                two = Sig(True, 'own', rev - T0)
                check(holder, [one, two], max(cert, rev) + 86400)
                check(holder, [two, one], max(cert, rev) + 86400)
                if holder in ('uid', 'key') and cert != rev:
                    sigs = [body(CERTS[holder], 8, R.created(t)
                                 + R.subpacket(26, b'http://%d' % t),
                                 R.issuer(prim.key_id))
                            for t in (cert, rev)]
                    key, part = key_with(holder, sigs)
                    same(part.policy_uri, 'http://%d' % max(cert, rev),
                         'most recent')
                return cert <= rev
            return in_zone(zone, go)

        def orders():
            near = [-7200, -3601, -3600, -1800, -1, 0, 1, 1800, 3599, 3600,
                    7200]
            for zone in ZONES:
                for c in (changes(zone) or [T0])[:None if ck.thorough
                                                 else 2]:
                    for holder in sorted(CERTS):
                        for a, b in itertools.product(near, repeat=2):
                            yield zone, holder, c + a, c + b
        ck.each('order', orders(), order, workers=8)

        # validity set by hand
        def setting(case):
            zone, what, created, end = case

            def go():
                key, part = key_with('uid', [body(
                    0x13, 8, R.created(created), R.issuer(prim.key_id))])
                sig = part.signatures[0]
                at = datetime.datetime.fromtimestamp(end)
                attr = ('signature_expiration_time' if what == 3
                        else 'key_expiration_time')
                base = created if what == 3 else prim.created
                if end <= base:
                    try:
                        setattr(sig, attr, at)
                    except ValueError:
                        return 'refused'
                    expect(False, 'accepted', case)
                setattr(sig, attr, at)
                s = R.read_signature(sig.to_packet().content)
                same([b for k, _, b in R.read_subpackets(s['hashed'])
                      if k == what], [(end - base).to_bytes(4, 'big')],
                     'seconds')
                same(int(getattr(sig, attr).timestamp()), end, 'read')
                return 'set'
            return in_zone(zone, go)
        ck.each('set', (
            (zone, what, c + a, c + b) for zone in ZONES
            for c in (changes(zone) or [T0])[:2] for what in (3, 9)
            for a in (-3600, -1, 0, 1800, 3600)
            for b in (-3601, -1800, 0, 1799, 1800, 3599, 3601, 86400,
                      86400 * 180)), setting)

    # -- what speaks against a signature -----------------------------------

    from pgp import exceptions
    from pgp.signature import BaseSignature
    try:
        from pgp.signature_verification import check_signature_values
    except ImportError:
        check_signature_values = None

    def against(case):
        """Times of the key and the signature, and whether the key is
        expired or revoked: refused if strict, else told."""
        holder, made, at, expires, revoked, now, strict = case
        key = R.Key('rsa_s2' if holder == 'subkey' else 'rsa_s1',
                    created=T0 + made)
        sigs = []
        binding = R.created(T0 + made)
        if expires is not None:
            binding += R.subpacket(9, expires.to_bytes(4, 'big'))
        sigs.append(body(CERTS[holder], 8, binding, R.issuer(prim.key_id)))
        for by, when in revoked:
            sigs.append(body(REVS[holder], 8, R.created(T0 + when),
                             R.issuer(ISSUER[by])))
        if holder == 'key':
            # (the issuer is the key itself, whenever it was made)
            sigs = [s.replace(bytes.fromhex(prim.key_id),
                              bytes.fromhex(key.key_id)) for s in sigs]
        packets = b''.join(rfc.packet(True, 2, s) for s in sigs)
        if holder == 'key':
            cert = util.read_key(rfc.packet(True, 6, key.public_body)
                                 + packets + rfc.packet(True, 13, UID))
            obj = cert
        else:
            cert = util.read_key(rfc.packet(True, 6, prim.public_body)
                                 + rfc.packet(True, 13, UID)
                                 + rfc.packet(True, 14, key.public_body)
                                 + packets)
            obj = cert.subkeys[0]
        sig = BaseSignature.from_packet(util.parse(rfc.packet(True, 2, body(
            0, 8, R.created(T0 + at), R.issuer(key.key_id))))[0], None)

        past = expires and T0 + now > T0 + made + expires
        own = [w for b, w in revoked if b == 'own']
        if made > at:
            want = 'SignatureCreatedBeforeContent'
        elif made > now:
            want = 'SigningKeyCreatedInTheFuture'
        elif at > now:
            want = 'SignatureCreatedInTheFuture'
        elif past and strict:
            want = 'SigningKeyHasExpired'
        elif own and strict:
            want = 'SigningKeyHasBeenRevoked'
        else:
            want = bool(past), bool(own)
        try:
            got = check_signature_values(
                obj, sig, datetime.datetime.fromtimestamp(T0 + now), strict)
        except (exceptions.SignatureTimeConflict,
                exceptions.SignatureWarning) as e:
            got = type(e).__name__
        same(got, want, 'verdict')
        return str(want)

    def against_cases():
        times = (-10, 0, 10)
        for holder in ('key', 'subkey'):
            for made, at, now in itertools.product(times, repeat=3):
                for expires in (None, 1, 9, 11, 19, 21):
                    for revoked in ((), (('own', 5),), (('other', 5),),
                                    (('other', 5), ('own', 5)),
                                    (('own', 20),)):
                        if any(w < made for _, w in revoked):
                            # (revoked before it was made)
                            continue
                        for strict in (False, True):
                            yield (holder, made, at, expires, revoked, now,
                                   strict)
    if check_signature_values is not None:
        in_zone('UTC', lambda: ck.each('against', against_cases(), against))
