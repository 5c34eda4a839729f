"""C07: cipher modes compute the standard transformation in any chunking."""

import itertools

from mc.core import expect, same
from mc.ref import cipher as ref

LEVEL = 'exploration'
TECHNIQUE = ('bounded exhaustive enumeration of cipher call sequences '
             '(algorithm, mode, chunking, direction) on the real ciphers '
             'against reference modes over the single-block function')
RULE = ('Every cipher number with every mode, every way of cutting up to '
        'the bounded number of blocks into successive calls, both '
        'directions; IDEA additionally against an independent '
        'implementation over boundary words in every key and data position; '
        'a case is non-trivial when at least one block is processed.')
ASSUMPTIONS = ['The single-block functions of PyCrypto, camcrypt and twofish '
               'are trusted; IDEA and all modes are checked against their '
               'definition.']


def pat(n, salt=0):
    return bytes((i * 7 + salt * 37 + 11) & 0xff for i in range(n))


def compositions(n):
    """All ways of writing n as an ordered sum."""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


def run(ck):
    from pgp import utils
    from pgp.cipher import aidea, camellia, twofish, wrapper

    ALGS = (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13)

    def key_of(alg, salt=0):
        return pat(ref.KEY[alg], alg + salt * 3)

    def lengths(alg):
        same(utils.symmetric_cipher_block_lengths[alg], ref.BLOCK[alg],
             'block length')
        same(utils.symmetric_cipher_key_lengths[alg], ref.KEY[alg],
             'key length')
        return alg
    ck.each('lengths', ALGS, lengths)

    # -- the cipher the library selects for OpenPGP's CFB ------------------
    def selected(case):
        alg, syncable, cuts, decrypt, salt = case
        bs = ref.BLOCK[alg]
        key, iv = key_of(alg, salt), pat(bs, salt + 1)
        enc, _ = ref.block_pair(alg, key)
        data = pat(sum(cuts) * bs, salt + 2)
        c = utils.get_symmetric_cipher(alg, bytearray(key), utils.CFB,
                                       bytearray(iv), syncable=syncable)
        out, pos = b'', 0
        for n in cuts:
            chunk = data[pos:pos + n * bs]
            out += bytes((c.decrypt if decrypt else c.encrypt)(chunk))
            pos += n * bs
        same(out, ref.cfb(enc, iv, data, decrypt), 'CFB')
        return alg, decrypt
    depth = 6 if ck.thorough else 5
    cuts = [c for n in range(0, depth + 1) for c in compositions(n)]
    ck.each('selected-cfb', itertools.product(
        ALGS, (False, True), cuts, (False, True), (0, 1)), selected)

    def long_data(case):
        alg, n = case
        bs = ref.BLOCK[alg]
        key, iv = key_of(alg), pat(bs, 9)
        enc, _ = ref.block_pair(alg, key)
        data = pat(n * bs, 5)
        c = utils.get_symmetric_cipher(alg, key, utils.CFB, iv)
        ct = bytes(c.encrypt(data))
        same(ct, ref.cfb(enc, iv, data), 'CFB')
        c = utils.get_symmetric_cipher(alg, key, utils.CFB, iv)
        same(bytes(c.decrypt(ct)), data, 'CFB decrypted')
        return n and alg
    ck.each('long', itertools.product(ALGS, (0, 1, 63, 64, 65, 257)),
            long_data)

    def ecb(case):
        alg, n, salt = case
        bs = ref.BLOCK[alg]
        key = key_of(alg, salt)
        enc, _ = ref.block_pair(alg, key)
        data = pat(n * bs, salt)
        mode = utils.ECB
        from Crypto.Cipher import AES, Blowfish, CAST, DES3
        mod = {1: aidea, 10: twofish, 11: camellia, 12: camellia,
               13: camellia}.get(alg)
        if mod is None:
            mod = {2: DES3, 3: CAST, 4: Blowfish}.get(alg, AES)
            c = wrapper.new(mod, key, mode)
        else:
            c = mod.new(key, mode)
        want = b''.join(bytes(enc(data[i:i + bs]))
                        for i in range(0, len(data), bs))
        same(bytes(c.encrypt(data)), want, 'ECB')
        same(bytes(c.decrypt(want)), data, 'ECB decrypted')
        return n and alg
    ck.each('ecb', itertools.product(ALGS, range(5), range(6)), ecb)

    # -- the generic modes over our ciphers --------------------------------
    def make(alg, key, mode, **kw):
        from Crypto.Cipher import AES, Blowfish, CAST, DES3
        mod = {1: aidea, 10: twofish, 11: camellia, 12: camellia,
               13: camellia}.get(alg)
        if mod is not None:
            return mod.new(key, mode, **kw)
        mod = {2: DES3, 3: CAST, 4: Blowfish}.get(alg, AES)
        return wrapper.new(mod, key, mode, **kw)

    def stream(case):
        alg, mode, cuts_, decrypt = case
        bs = ref.BLOCK[alg]
        key, iv = key_of(alg), pat(bs, 3)
        enc, _ = ref.block_pair(alg, key)
        plain = pat(sum(cuts_), 4)
        if mode == 'ofb':
            c = make(alg, key, utils.OFB, IV=iv)
            cipher_text = ref.ofb(enc, iv, plain)
        elif mode == 'ctr':
            state = [(1 << (bs * 8 - 1)) - 2]

            def counter():
                v = state[0]
                state[0] += 1
                return v.to_bytes(bs, 'big')
            cipher_text = ref.ctr(enc, bs, state[0], plain)
            c = make(alg, key, utils.CTR, counter=counter)
        elif mode == 'cbc':
            c = make(alg, key, utils.CBC, IV=iv)
            cipher_text = ref.cbc(enc, iv, plain)
        else:
            seg = mode
            c = make(alg, key, utils.CFB, IV=iv, segment_size=seg * 8)
            cipher_text = ref.cfb(enc, iv, plain, False, seg)
        src, dst = ((cipher_text, plain) if decrypt
                    else (plain, cipher_text))
        out, pos = b'', 0
        for n in cuts_:
            f = c.decrypt if decrypt else c.encrypt
            out += bytes(f(src[pos:pos + n]))
            pos += n
        same(out, dst, '%s decrypt=%s' % (mode, decrypt))
        return mode, decrypt
    octets = list(itertools.product((0, 1, 7, 8, 9, 15, 16, 17, 33),
                                    repeat=3))
    octets += list(itertools.product((0, 1, 7, 8, 16, 17), repeat=4))
    algs = (1, 7, 10, 11, 2) if not ck.thorough else ALGS
    ck.each('ofb', itertools.product(algs, ('ofb',), octets, (0, 1)), stream)
    ck.each('ctr', itertools.product(algs, ('ctr',), octets, (0, 1)), stream)
    ck.each('cfb8', itertools.product(algs, (1,), octets, (0, 1)), stream)
    for bs in (8, 16):
        some = [a for a in algs if ref.BLOCK[a] == bs]
        whole = [tuple(n * bs for n in c) for c in cuts if c]
        ck.each('cbc-%d' % bs, itertools.product(
            some, ('cbc',), whole, (0, 1)), stream)
        segs = [s for s in range(2, bs + 1)]
        ck.each('cfb-segments-%d' % bs, (
            (a, s, tuple(n * s for n in c), d) for a in some for s in segs
            for c in cuts if 0 < sum(c) <= 4 for d in (0, 1)), stream)

    # an object keeps neither what it was given nor what it gave
    def arguments(case):
        alg, mode, decrypt, kinds, touched, cuts_ = case
        bs = ref.BLOCK[alg]
        key, iv = (kind(v) for kind, v in zip(kinds, (key_of(alg), pat(bs, 3))))
        before = bytes(key), bytes(iv)
        enc, _ = ref.block_pair(alg, before[0])
        plain = pat(sum(cuts_) * bs, 4)
        seg = {'cfb': bs}.get(mode, 1)
        mode_, ct = {
            'cbc': (utils.CBC, lambda: ref.cbc(enc, before[1], plain)),
            'ofb': (utils.OFB, lambda: ref.ofb(enc, before[1], plain)),
            'cfb8': (utils.CFB, lambda: ref.cfb(enc, before[1], plain,
                                                False, 1)),
            'cfb': (utils.CFB, lambda: ref.cfb(enc, before[1], plain, False,
                                               bs))}[mode]
        kw = {'segment_size': seg * 8} if mode_ == utils.CFB else {}
        src, dst = (ct(), plain) if decrypt else (plain, ct())
        c = make(alg, key, mode_, IV=iv, **kw)
        if touched:
            for given in (key, iv):
                if isinstance(given, bytearray):
                    given[:] = bytes(len(given))
        out, pos, outs = b'', 0, []
        for n in cuts_:
            data = kinds[2](src[pos:pos + n * bs])
            got = (c.decrypt if decrypt else c.encrypt)(data)
            same(bytes(data), src[pos:pos + n * bs], 'data given')
            out += bytes(got)
            outs.append((got, bytes(got)))
            if isinstance(data, bytearray):
                data[:] = bytes(len(data))
            if touched and isinstance(got, bytearray):
                got[:] = bytes(len(got))
                outs.pop()
            pos += n * bs
        same(out, dst, 'result')
        for got, was in outs:
            same(bytes(got), was, 'an earlier result')
        if not touched:
            same((bytes(key), bytes(iv)), before, 'key and IV given')
        return mode, decrypt, touched
    ck.each('arguments', itertools.product(
        (1, 7, 10, 11), ('cbc', 'ofb', 'cfb8', 'cfb'), (0, 1),
        itertools.product((bytes, bytearray), repeat=3), (False, True),
        ((1,), (1, 1), (2, 1, 1))), arguments)

    # two cipher objects never share state
    def independent(case):
        alg, order = case
        bs = ref.BLOCK[alg]
        objs = []
        for s in (0, 1):
            key, iv = key_of(alg, s), pat(bs, s)
            objs.append([utils.get_symmetric_cipher(alg, key, utils.CFB, iv),
                         ref.block_pair(alg, key)[0], iv, b'', b''])
        for n, who in enumerate(order):
            o = objs[who]
            data = pat(bs, n)
            o[3] += bytes(o[0].encrypt(data))
            o[4] += data
        for o in objs:
            same(o[3], ref.cfb(o[1], o[2], o[4]), 'interleaved objects')
        return alg
    ck.each('interleaved-objects', itertools.product(
        ALGS, itertools.product((0, 1), repeat=6)), independent)

    # -- IDEA --------------------------------------------------------------
    WORDS = (0, 1, 2, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff)

    def idea_case(case):
        key, block = case
        enc, _ = ref.block_pair(1, key)
        want = enc(block)
        c = aidea.new(key, aidea.MODE_ECB)
        same(bytes(c.encrypt(block)), want, 'IDEA encryption')
        same(bytes(c.decrypt(want)), block, 'IDEA decryption')
        same(bytes(c.encrypt(c.decrypt(block))), block, 'IDEA inverse')
        return True

    def words(ws):
        return b''.join(w.to_bytes(2, 'big') for w in ws)

    def idea_cases():
        base = [0x1234, 0, 0x9abc, 0xffff, 1, 0x8000, 0x4321, 0x00ff]
        for pos in range(8):
            for w in range(0, 65536, 1 if ck.thorough else 5):
                k = list(base)
                k[pos] = w
                yield words(k), words((w, 1, 0xffff ^ w, 0))
        for pair in itertools.combinations(range(8), 2):
            for a, b in itertools.product(WORDS, repeat=2):
                k = list(base)
                k[pair[0]], k[pair[1]] = a, b
                yield words(k), words((a, b, 0, 0x5555))
        for blk in itertools.product(WORDS, repeat=4):
            yield words(base), words(blk)
            yield bytes(16), words(blk)
        for a, b in itertools.product(WORDS, repeat=2):
            for blk in itertools.product(WORDS[::3], repeat=4):
                yield words([a, b] * 4), words(blk)
        for bit in range(128):
            yield (1 << bit).to_bytes(16, 'big'), bytes(8)
            for b2 in range(64):
                yield ((1 << bit).to_bytes(16, 'big'),
                       (1 << b2).to_bytes(8, 'big'))
    ck.each('idea', idea_cases(), idea_case)

    # The multiplication and inversion modulo 65537 IDEA is built of.
    mul = getattr(aidea, 'mul', None)
    inv = getattr(aidea, 'mul_inv', None)

    def mul_row(y):
        yy = y or 65536
        for x in range(65536):
            if mul(x, y) & 0xffff != ((x or 65536) * yy % 65537) & 0xffff:
                expect(False, 'product', x, y, mul(x, y))
        ck.alive()
        return y
    if mul is not None:
        rows = sorted({1 << i for i in range(16)}
                      | {(1 << i) - 1 for i in range(17)}
                      | {65536 - (1 << i) for i in range(16)}
                      | set(range(0, 65536, 97)))
        if ck.thorough:
            rows = range(65536)
        ck.each('idea-mul', rows, mul_row)
        ck.note(idea_products=len(list(rows)) * 65536)

    def inverse(x):
        got = inv(x) & 0xffff
        same((x or 65536) * (got or 65536) % 65537, 1, 'inverse product')
        return x
    if inv is not None:
        ck.each('idea-inverse', range(65536), inverse)
