"""C22: key servers."""

import datetime
import itertools
from urllib.parse import parse_qs, urlsplit

from mc import util
from mc.core import expect, same, Mismatch
from mc.ref import armor
from mc.ref import keys as R
from mc.ref import rfc
from mc.zones import in_zone, instants

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the answers of a key server and of '
             'the keys, signatures and requests given to the client over a '
             'recorded HTTP transport, compared with a reference reader of '
             'the index format and with an independent parser of what was '
             'submitted')
RULE = ('All sequences of up to four lines (five when thorough) over an '
        'alphabet of ten, all combinations of values of the fields of pub '
        'and uid lines with every number of trailing colons left off; '
        'submissions of all combinations of kinds of keys, protection, '
        'subkeys and of up to two exportable or local certifications on '
        'each kind of holder; all schemes, ports and statuses listed.')
ASSUMPTIONS = ['The transport is that of the requests package; what is '
               'recorded is the prepared request.',
               'Times are local times.']

TIME = 1000000100
EXPORT, LOCAL = b'\2\4\1', b'\2\4\0'


class Server(object):
    """Answers the requests of the client and records them."""

    def __init__(self):
        import requests
        self.requests = requests
        self.seen = []
        self.answer = b''
        self.status = 200
        self.content_type = 'text/plain; charset=utf-8'

        def send(adapter, request, **kw):
            self.seen.append(request)
            r = requests.Response()
            r.status_code = self.status
            r._content = self.answer
            if self.content_type is not None:
                r.headers['content-type'] = self.content_type
            r.encoding = requests.utils.get_encoding_from_headers(r.headers)
            r.url = request.url
            r.request = request
            return r
        requests.adapters.HTTPAdapter.send = send

    def take(self):
        seen, self.seen = self.seen, []
        same(len(seen), 1, 'requests sent')
        return seen[0]


def query(request):
    return {k: v[0] if len(v) == 1 else v for k, v in parse_qs(
        urlsplit(request.url).query, keep_blank_values=True,
        encoding='utf8', strict_parsing=True).items()}


def form(request):
    body = request.body
    if isinstance(body, bytes):
        body = body.decode('ascii')
    return {k: v[0] if len(v) == 1 else v for k, v in parse_qs(
        body, keep_blank_values=True, strict_parsing=True).items()}


def when(field):
    if not field:
        return None
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(
        seconds=int(field))


def percent(text, style):
    out = ''
    for b in text.encode('utf8'):
        c = chr(b)
        if style == 'all' or b >= 128 or c in ':%\r\n' or b < 32:
            out += '%%%02x' % b if style == 'lower' else '%%%02X' % b
        else:
            out += c
    return out


def reference_index(lines):
    """[(fields of a key, [fields of its user IDs])]"""
    out = []
    for line in lines:
        fields = line.split(':') + [''] * 7
        if fields[0] == 'pub':
            out.append((fields[1:7], []))
        elif fields[0] == 'uid' and out:
            out[-1][1].append(fields[1:5])
    return out


def run(ck):
    from pgp.keyserver import get_keyserver
    server = Server()
    client = get_keyserver('hkp://keys.example.org')

    def check_flags(result, flags):
        same((result.revoked, result.disabled, result.expired),
             ('r' in flags, 'd' in flags, 'e' in flags), 'flags')

    def check_index(results, want, texts=None):
        same(len(results), len(want), 'number of keys')
        for result, (fields, uids) in zip(results, want):
            key_id, alg, bits, created, expires, flags = fields
            same(result.key_id, key_id, 'key ID')
            same(result.public_key_algorithm, int(alg) if alg else None,
                 'algorithm')
            same(result.bit_length, int(bits) if bits else None, 'length')
            same(result.created, when(created), 'creation')
            same(result.expires, when(expires), 'expiration')
            check_flags(result, flags)
            same(len(result.user_ids), len(uids), 'user IDs')
            for uid, (text, created, expires, flags) in zip(
                    result.user_ids, uids):
                from urllib.parse import unquote
                same(uid.user_id, texts[text] if texts else unquote(text),
                     'user ID')
                same(uid.created, when(created), 'creation of user ID')
                same(uid.expires, when(expires), 'expiration of user ID')
                check_flags(uid, flags)
                expect(uid.result is result, 'key of user ID')
            expect(key_id in repr(result), 'repr')

    # -- indexes -----------------------------------------------------------

    LINES = ['pub:0123456789ABCDEF:1:2048:1000000000::',
             'pub:8000000000000001:17:1024:999999999:1999999999:r',
             'pub:00000000AAAAAAAA', 'uid:Al <a%40b.org>:1000000001::',
             'uid:Bo%3A (%C3%A9)::1000000002:e', 'uid:', 'info:1:2', '',
             'uat:::', '<pre>']

    def index_case(first):
        n = 0
        for length in range(4 + ck.thorough):
            for rest in itertools.product(LINES, repeat=length):
                lines = ([first] if first is not None else []) + list(rest)
                if first is None and lines:
                    continue
                for eol in ('\n', '\r\n'):
                    for end in (eol, ''):
                        server.answer = (eol.join(lines) + end).encode()
                        server.status = 200
                        results = client.search('x')
                        check_index(results, reference_index(lines))
                        server.seen[:] = []
                        n += 1
        return first, n
    ck.each('lines', [None] + LINES, index_case, workers=8)

    FLAGS = ['', 'r', 'd', 'e', 'rd', 're', 'de', 'rde', 'er']

    def pub_case(case):
        fields = ('pub',) + case
        text = ':'.join(fields)
        while True:
            server.answer = (text + '\nuid:A::').encode()
            check_index(client.search('x'),
                        reference_index([text, 'uid:A::']))
            server.seen[:] = []
            if not text.endswith(':'):
                return case
            text = text[:-1]
    ck.each('pub', itertools.product(
        ['0123456789abcdef', '89ABCDEF',
         '0123456789ABCDEF0123456789ABCDEF01234567'],
        ['', '1', '17', '22'], ['', '512', '2048', '16384'],
        ['', '0', '1000000000', '2147483648', '4294967295'],
        ['', '0', '1000000000', '4294967295'], FLAGS), pub_case, workers=8)

    TEXTS = ['', 'A', 'Al Bo <a@b.org>', 'é <é@é>', 'a:b', '100%', '%41',
             ':' * 9, 'a\nuid:b', '\u65e5\u672c', 'r', '\U0001f600', 'a+b',
             'a\r\npub:0123456789ABCDEF']

    def uid_case(case):
        text, style, created, expires, flags = case
        raw = percent(text, style)
        line = ':'.join(('uid', raw, created, expires, flags))
        while True:
            server.answer = ('pub:89ABCDEF:\n%s\nuid:A' % line).encode()
            check_index(client.search('x'), [
                (['89ABCDEF', '', '', '', '', ''],
                 [[raw, created, expires, flags], ['A', '', '', '']])],
                {raw: text, 'A': 'A'})
            server.seen[:] = []
            if not line.endswith(':') or line == 'uid:':
                return case
            line = line[:-1]
    ck.each('uid', itertools.product(
        TEXTS, ['upper', 'lower', 'all'], ['', '0', '1000000000'],
        ['', '1', '4294967295'], FLAGS), uid_case, workers=8)

    # what not every server puts in escape codes
    def raw_case(case):
        text, content_type, charset, eol = case
        lines = ['info:1:1', 'pub:89ABCDEF', 'uid:%s:1:2:r' % text, 'uid:A']
        try:
            server.answer = eol.join(lines).encode(charset)
        except UnicodeEncodeError:
            return 'not in this character set'
        server.content_type = content_type
        try:
            check_index(client.search('x'), [
                (['89ABCDEF', '', '', '', '', ''],
                 [[text, '1', '2', 'r'], ['A', '', '', '']])],
                {text: text, 'A': 'A'})
        finally:
            server.content_type = 'text/plain; charset=utf-8'
            server.seen[:] = []
        return repr(case)
    SIGNS = [chr(n) for n in range(1, 0x100) if chr(n) not in ':%\r\n'] + [
        '\u2028', '\u2029', '\u3000', '\ufeff', '\u65e5\u672c', '\U0001f600']
    ck.each('raw', itertools.product(
        ['A%sB' % c for c in SIGNS] + SIGNS,
        ['text/plain'], ['utf8'], ['\n', '\r\n']), raw_case)
    ck.each('character-sets', itertools.product(
        ['é', 'Al é <é@é>', '\u20ac', '\u65e5\u672c', 'A\x0bB', '\u2028'],
        ['text/plain', None, 'application/octet-stream', 'text/html',
         'text/plain; charset=UTF-8', 'application/pgp-keys'], ['utf8'],
        ['\n', '\r\n']), raw_case)
    ck.each('other-character-sets', itertools.product(
        ['é', 'Al é <é@é>', 'A'],
        ['text/plain; charset=iso-8859-1', 'Text/Plain; Charset=latin1'],
        ['latin1'], ['\n', '\r\n']), raw_case)

    def clock(case):
        zone, t, what = case
        fields = ['', '']
        fields[what] = str(t)
        server.answer = ('pub:89ABCDEF:1:2:%s:%s:\nuid:A:%s:%s:' % tuple(
            fields * 2)).encode()

        def go():
            result, = client.search('x')
            for r in (result, result.user_ids[0]):
                got = [r.created, r.expires]
                same(got[1 - what], None, 'the other time')
                same(got[what], datetime.datetime.fromtimestamp(t), 'time')
                same(int(got[what].timestamp()), t, 'instant')
            server.seen[:] = []
            return zone
        return in_zone(zone, go)
    ck.each('clocks', ((z, t, w) for z, t in instants() for w in (0, 1)),
            clock)

    # -- requests ----------------------------------------------------------

    NAMES = [('hkp://k.example', 'http', 'k.example', 11371),
             ('hkp://k.example:80', 'http', 'k.example', 80),
             ('hkp://k.example:11371/', 'http', 'k.example', 11371),
             ('HKP://k.example', 'http', 'k.example', 11371),
             ('hkps://k.example', 'https', 'k.example', 443),
             ('hkps://k.example:444/', 'https', 'k.example', 444),
             ('http://k.example', 'http', 'k.example', 80),
             ('http://k.example:8080', 'http', 'k.example', 8080),
             ('https://k.example', 'https', 'k.example', 443),
             ('https://k.example:8443', 'https', 'k.example', 8443),
             ('HTTPS://k.example', 'https', 'k.example', 443),
             ('hkps://127.0.0.1:1', 'https', '127.0.0.1', 1),
             ('hkp://[::1]:5', 'http', '::1', 5),
             ('hkp://[::1]', 'http', '::1', 11371)]
    alice = R.certificate(R.Key('dsa_small', created=1000000001),
                          [b'Al <a@b.org>'], hash_alg=2)
    armored = armor.write('PGP PUBLIC KEY BLOCK', alice).encode()

    def check_url(request, method, name, path):
        _, scheme, host, port = name
        parts = urlsplit(request.url)
        same(request.method, method, 'method')
        same((parts.scheme, parts.hostname, parts.port or {
            'http': 80, 'https': 443}[parts.scheme]),
            (scheme, host, port), 'server')
        same(parts.path, path, 'path')

    def request_case(case):
        name, op, exact, term = case
        c = get_keyserver(name[0])
        server.status = 200
        if op == 'submit':
            server.answer = b''
            c.submit(util.read_key(alice), no_modify=exact)
            r = server.take()
            check_url(r, 'POST', name, '/pks/add')
            f = form(r)
            same(sorted(f), ['keytext', 'options'], 'form')
            same(sorted(f['options'].split(',')),
                 ['mr', 'nm'] if exact else ['mr'], 'options')
            return 'submit'
        if op == 'get':
            server.answer = armored
            key = c.get(term, exact)
            same(util.octets(key), util.octets(util.read_key(alice)), 'key')
            r = server.take()
            want = '0x' + term
        else:
            server.answer = b'info:1:0\n'
            same(c.search(term, exact), [], 'results')
            r = server.take()
            want = term
        check_url(r, 'GET', name, '/pks/lookup')
        q = query(r)
        same(q, {'op': 'get' if op == 'get' else 'index', 'options': 'mr',
                 'search': want, 'exact': 'yes' if exact else 'no'}, 'query')
        return op
    TERMS = ['a', 'Al Bo', 'a@b.org', '0x89ABCDEF', 'é', 'a&op=get', 'a=b',
             '100%', 'a+b', '#x', '%41', 'a;b', '?', '/../x', '"q"', '<a@b>']
    ck.each('search', itertools.product(NAMES, ['search'], [False, True],
                                        TERMS), request_case)
    ck.each('get', itertools.product(
        NAMES, ['get'], [False, True],
        ['89ABCDEF', '0123456789ABCDEF', '0123456789abcdef01234567'
         '89abcdef01234567']), request_case)
    ck.each('submit-to', itertools.product(NAMES, ['submit'], [False, True],
                                           ['']), request_case)

    def result_get(name):
        c = get_keyserver(name[0])
        server.status = 200
        server.answer = '\n'.join(LINES[:3]).encode()
        found = c.search('x')
        server.take()
        for result, line in zip(found, LINES[:3]):
            server.answer = armored
            key = result.get()
            same(util.octets(key), util.octets(util.read_key(alice)), 'key')
            r = server.take()
            check_url(r, 'GET', name, '/pks/lookup')
            same(query(r)['search'], '0x' + line.split(':')[1], 'key ID')
        return name
    ck.each('get-found', NAMES, result_get)

    def failure(case):
        status, op = case
        server.status, server.answer = status, {
            'get': armored, 'search': LINES[0].encode(), 'submit': b''}[op]
        try:
            if op == 'submit':
                r = client.submit(util.read_key(alice))
            else:
                r = getattr(client, op)('89ABCDEF')
        except server.requests.HTTPError as e:
            same(e.response.status_code, status, 'status')
        else:
            raise Mismatch('%s with status %d gave %r' % (op, status, r))
        finally:
            server.seen[:] = []
        return op
    ck.each('failure', itertools.product(
        [400, 401, 403, 404, 405, 408, 410, 413, 422, 429, 500, 501, 502,
         503, 504], ['get', 'search', 'submit']), failure)

    # -- submissions -------------------------------------------------------

    primary = {4: R.Key('dsa_small', created=1000000001),
               3: R.Key('rsa_s2', version=3, created=1000000005)}
    subs = [R.Key('rsa_c', created=1000000009),
            R.Key('dsa_a', created=1000000010)]
    other = R.Key('rsa_s1', created=1000000002)
    photo = b'\x01\x10\0\1\1' + bytes(12) + b'JPEG'
    photo = bytes([len(photo)]) + photo
    # certifications: (by, version 4, subpackets)
    CERTS = {
        'own': ('own', b''), 'export': ('other', EXPORT),
        'other': ('other', b''), 'local': ('other', LOCAL),
        'own-local': ('own', LOCAL),
        'critical-local': ('other', b'\2\x84\0'),
        'local-last': ('other', b'\2\7\1' + LOCAL),
        'v3': ('other', None),
    }
    cache = {}

    def certify(version, kind, data, what):
        ident = version, kind, data, what
        if ident not in cache:
            by, area = CERTS[what]
            by = primary[version] if by == 'own' else other
            cache[ident] = R.signature_body(
                by, kind, 2, data, TIME,
                3 if area is None else 4,
                hashed=None if area is None else R.created(TIME) + area)
        return cache[ident]

    def submission(case):
        version, secret, protect, unlock, n_subs, where, certs, new = case
        p = primary[version]
        v = 3 if version == 3 else 4
        uid = b'Al <a@b.org>'
        packets = [(6, p, None)]
        holders = {'key': (0x1f, p.hashed), 'uid': (
            0x13, R.on_user_id(p, uid, v)), 'attribute': (
            0x13, R.on_attribute(p, photo, v))}

        def signed(holder):
            kind, data = holders[holder]
            if kind == 0x18 and where == holder:
                packets.append((2, certify(version, kind, data, 'own'),
                                'own'))
            if where == holder:
                for c in certs:
                    packets.append((2, certify(version, kind, data, c), c))
            elif holder != 'key':
                packets.append((2, certify(version, kind, data, 'own'),
                                'own'))
        signed('key')
        packets.append((13, uid, None))
        signed('uid')
        packets.append((17, photo, None))
        signed('attribute')
        for i, s in enumerate(subs[:n_subs]):
            packets.append((14, s, None))
            holders[i] = (0x18, p.hashed + s.hashed)
            signed(i)
        guard = {'none': None, 's2k': dict(
            usage=254, alg=9, passphrase=b'x', iv=util.pattern(16),
            s2k=(3, 8, b'saltsalt', 0)), 'checksum': dict(
                usage=255, alg=3, passphrase=b'x', iv=util.pattern(8),
                s2k=(0, 2, b'', 0)),
            'gnu': dict(usage='gnu', mode=1)}[protect]
        octets = b''
        want = []
        for tag, body, what in packets:
            if tag in (6, 14):
                want.append((tag, body.public_body))
                if secret:
                    octets += rfc.packet(new, {6: 5, 14: 7}[tag],
                                         body.secret_body(guard))
                    continue
                body = body.public_body
            elif what is None or 'local' not in what:
                want.append((tag, body))
            octets += rfc.packet(new or tag > 15, tag, body)
        key = util.read_key(octets)
        if secret and unlock:
            key.unlock('' if protect == 'none' else 'x')
        server.status, server.answer = 200, b''
        before = util.octets(key)
        client.submit(key)
        f = form(server.take())
        label, _, data = armor.read(f['keytext'])
        same(label, 'PGP PUBLIC KEY BLOCK', 'label')
        same(rfc.split_packets(data), want, 'submitted')
        same(util.octets(key), before, 'key after it was submitted')
        return where, certs
    SEQUENCES = [()] + [(c,) for c in CERTS] + list(
        itertools.product(CERTS, repeat=2))
    ck.each('submit', [
        (version, secret, protect, unlock, n, where, certs, new)
        for version in (4, 3) for secret, protect, unlock in (
            (False, 'none', False), (True, 'none', False),
            (True, 'none', True), (True, 's2k', False), (True, 's2k', True),
            (True, 'checksum', False), (True, 'checksum', True),
            (True, 'gnu', False))
        if version == 4 or protect not in ('gnu', 's2k')
        for n in (0, 1, 2) if version == 4 or not n
        for where in ('key', 'uid', 'attribute') + (0, 1)[:n]
        for certs in SEQUENCES for new in (False, True)
        if ck.thorough or (n != 2 or len(certs) < 2) and (
            new or not secret)], submission, workers=8)
