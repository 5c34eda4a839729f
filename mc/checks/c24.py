"""C24: signatures over text cover everything but the kind of line ends."""

import itertools

from mc import util
from mc.core import expect, same
from mc.env import RNG
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all short texts over an alphabet of '
             'line ends, white space and characters of several encodings, '
             'in every literal format, signature type and message form; '
             'signatures are made by an independent model and verified by '
             'the code on the text and on every text one edit away, and '
             'made by the code and verified by the model')
RULE = ('All texts of up to five characters (six when thorough) over an '
        'alphabet of six, in three literal formats, two signature types, '
        'two signature versions and two message forms; all texts one edit '
        'away; all sequences of line ends around the sizes of buffers.')
ASSUMPTIONS = ['Whether a CR that is not followed by LF ends a line is not '
               'specified: such texts are only signed and verified by the '
               'code itself.']

TIME = 1000000100
ALPHABET = 'a\r\n\xe9 \t'


def lone(text):
    return '\r' in text.replace('\r\n', '')


def canonical(data):
    return data.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')


def signed(data, kind):
    return canonical(data) if kind == 1 else data


def encode(text, fmt):
    return text.encode('latin-1' if fmt == 't' else 'utf8')


def edits(text):
    """All texts one edit away."""
    out = set()
    for i in range(len(text) + 1):
        for c in ALPHABET + 'b':
            out.add(text[:i] + c + text[i:])
            if i < len(text):
                out.add(text[:i] + c + text[i + 1:])
        if i < len(text):
            out.add(text[:i] + text[i + 1:])
    # all line ends at once
    out.add(text.replace('\r\n', '\n'))
    out.add(text.replace('\r\n', '\n').replace('\n', '\r\n'))
    out.add(text.replace('\n', '\r'))
    out.add(text.rstrip())
    out.add(text + '\r\n')
    out.discard(text)
    return sorted(out)


def run(ck):
    import datetime
    from pgp import exceptions
    from pgp.message import BinaryMessage, TextMessage
    key = R.Key('dsa_small', created=1000000001)
    pub = util.public(key, hash_alg=2)
    sec = util.secret(key, hash_alg=2)
    stamp = datetime.datetime.fromtimestamp(TIME)

    def message(fmt, text, body, form):
        """Read by the code: (signature, message)"""
        literal = rfc.new_packet(11, R.literal_body(
            fmt.encode(), b'n', TIME, encode(text, fmt)))
        sig = rfc.new_packet(2, body)
        if form == 'prefix':
            raw = sig + literal
        else:
            s = R.read_signature(body)
            raw = rfc.new_packet(4, bytes([3, s['kind'], s['hash'],
                                           s['alg']])
                                 + bytes.fromhex(key.key_id) + b'\1') \
                + literal + sig
        msg = util.read_message(raw)
        inner = msg.message
        want = encode(text, fmt)
        got = inner.data
        same(got, want if fmt == 'b' else want.decode(
            'latin-1' if fmt == 't' else 'utf8'), 'content')
        same(util.octets(msg), raw, 'octets of the message')
        return msg.signatures[0], inner

    def verdict(sig, inner):
        try:
            return pub.verify(sig, inner) is True
        except exceptions.SignatureVerificationFailed:
            return False

    bodies = {}

    def sign(data, kind, version):
        ident = data, kind, version
        if ident not in bodies:
            if len(bodies) > 5000:
                bodies.clear()
            bodies[ident] = R.signature_body(key, kind, 2, data, TIME,
                                             version)
        return bodies[ident]

    # -- the model signs ---------------------------------------------------

    def texts(n):
        for length in range(n + 1):
            for c in itertools.product(ALPHABET, repeat=length):
                yield ''.join(c)

    def verify_case(text):
        n = 0
        for fmt in 'btu':
            data = encode(text, fmt)
            for kind in (0, 1):
                if kind and lone(text):
                    continue
                for version in (3, 4):
                    body = sign(signed(data, kind), kind, version)
                    for form in ('prefix', 'one-pass'):
                        sig, inner = message(fmt, text, body, form)
                        expect(verdict(sig, inner), 'not verified', fmt,
                               kind, version, form)
                        n += 1
        return n
    ck.each('verify', texts(5 + ck.thorough), verify_case, workers=8)

    def edit_case(text):
        n = 0
        for fmt in 'btu':
            data = encode(text, fmt)
            for kind in (0, 1):
                if kind and lone(text):
                    continue
                want = signed(data, kind)
                body = sign(want, kind, 4)
                for other in edits(text):
                    if kind and lone(other):
                        continue
                    sig, inner = message(fmt, other, body, 'one-pass')
                    same(verdict(sig, inner),
                         signed(encode(other, fmt), kind) == want,
                         'verdict on %r as %s, type %d' % (other, fmt, kind))
                    n += 1
        return n
    ck.each('edits', texts(3 + ck.thorough), edit_case, workers=8)

    # -- the code signs ----------------------------------------------------

    def sign_case(case):
        text, fmt, kind, version = case
        data = encode(text, fmt)
        RNG.reset(repr(case).encode())
        if fmt == 'b':
            msg = BinaryMessage(data, 'n', stamp)
        else:
            msg = TextMessage(text, 'n', stamp)
        whole = msg.sign(sec, signature_version=version,
                         signature_type=kind, hash_algorithm=2)
        raw = util.octets(whole)
        packets = rfc.split_packets(raw)
        same([t for t, _ in packets], [4, 11, 2], 'packets')
        if not (kind and lone(text)):
            expect(R.verify_body(key, packets[2][1], signed(data, kind)),
                   'the model does not verify')
        same(packets[1][1], R.literal_body(fmt.encode(), b'n', TIME, data),
             'literal')
        back = util.read_message(raw)
        expect(verdict(back.signatures[0], back.message), 'not verified')
        same(back.message.data, data if fmt == 'b' else text, 'content')
        return fmt, kind
    ck.each('sign', itertools.product(
        texts(4 + ck.thorough), 'bu', (0, 1), (3, 4)), sign_case, workers=8)

    # -- where buffers could divide line ends ------------------------------

    def boundary(case):
        size, shift, end, kind, fmt = case
        text = 'x' * (size - shift) + end + 'y' * 5 + end
        data = encode(text, fmt)
        body = sign(signed(data, kind), kind, 4)
        sig, inner = message(fmt, text, body, 'one-pass')
        expect(verdict(sig, inner), 'not verified')
        for other in ('\n', '\r\n', '\n\n'):
            changed = text.replace(end, other)
            sig, inner = message(fmt, changed, body, 'one-pass')
            same(verdict(sig, inner), signed(encode(changed, fmt), kind)
                 == signed(data, kind), 'verdict')
        return size, kind
    ck.each('boundaries', itertools.product(
        (64, 128, 512, 1024, 4096, 8192, 16384, 65536), (0, 1, 2, 3),
        ('\n', '\r\n', '\n\n', '\r\n\r\n', '\n\r\n', '\r\n\n'), (0, 1),
        'btu'), boundary, workers=8)

    # -- encodings ---------------------------------------------------------

    CHARS = ['\u2028', '\u2029', '\x85', '\x0b', '\x0c', '\x1c', '\x1d',
             '\x1e', '\0', '\u20ac', '\U0001f600', '\xff', '\x7f', '\ufeff',
             '\x1a', '\x8d', '\x8a', '\u010a', '\u0a0d', '\u0d0a',
             'e\u0301']

    def char_case(case):
        c, around, kind, fmt = case
        text = around.replace('*', c)
        try:
            data = encode(text, fmt)
        except UnicodeEncodeError:
            return 'not in the character set'
        body = sign(signed(data, kind), kind, 4)
        sig, inner = message(fmt, text, body, 'one-pass')
        expect(verdict(sig, inner), 'not verified')
        changed = around.replace('*', '\n')
        sig, inner = message(fmt, changed, body, 'one-pass')
        expect(not verdict(sig, inner), 'verified')
        return c, kind
    ck.each('characters', itertools.product(
        CHARS, ['*', 'a*b', '*\n', '\n*', '*\r\n', '*' * 3, '\n*\r\n*\n'],
        (0, 1), 'btu'), char_case)
