"""C21: the parts of user IDs."""

import itertools

from mc import util
from mc.core import expect, same
from mc.ref import keys as R
from mc.ref import rfc

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of user IDs written from their parts, '
             'of all short texts, and explicit-state exploration of '
             'sequences of changes of the parts, each state compared with '
             'the parts set last')
RULE = ('All names of up to four characters (five when thorough) over an '
        'alphabet of ten, quoted where RFC 2822 says so, with and without '
        'comments and addresses; all comments of the same kind; all texts '
        'of up to five (six) characters over an alphabet of specials; all '
        'sequences of up to four (six) changes.')
ASSUMPTIONS = ['Names with special characters are quoted, as RFC 2822 '
               'requires; what the parts of other texts are is not '
               'specified, only that reading them comes to an end with '
               'three texts.',
               'Runs of white space are not told apart.']

SPECIAL = set('()<>@,:;\\"[]')


def quoted(name):
    return '"%s"' % name.replace('\\', '\\\\').replace('"', '\\"')


def escaped(comment, nested=False):
    """The comment with quoted pairs for what would end it. Parentheses that
    belong together may also stay."""
    if nested:
        return comment
    return ''.join('\\' + c if c in '()\\' else c for c in comment)


def nests(comment):
    depth = 0
    for c in comment:
        depth += {'(': 1, ')': -1}.get(c, 0)
        if depth < 0:
            return False
    return not depth and '\\' not in comment


def written(name, comment, email, style, nested=False):
    """A user ID by the conventions of RFC 2822 and GnuPG."""
    parts = []
    if name:
        special = bool(SPECIAL & set(name))
        parts.append(quoted(name) if special or style == 'quoted' else name)
    if comment is not None:
        parts.insert(0 if style == 'before' else len(parts),
                     '(%s)' % escaped(comment, nested))
    if email:
        parts.append('<%s>' % email if parts or style == 'angle' else email)
        if style == 'after' and comment is not None:
            parts.append(parts.pop(-2))
    return ('' if style == 'tight' else ' ').join(parts)


def run(ck):
    from pgp.transferrable_keys import UserID
    primary = R.Key('dsa_small', created=1000000001)
    key = util.read_key(R.certificate(primary, [b'A <a@b>'], [],
                                      hash_alg=2))

    def parts(uid):
        return uid.user_name, uid.user_comment, uid.user_email

    def words(alphabet, n):
        for length in range(n + 1):
            for c in itertools.product(alphabet, repeat=length):
                text = ''.join(c)
                if text == text.strip() and '  ' not in text:
                    yield text

    def of_key(text):
        return UserID(key, text, [])

    # -- reading -----------------------------------------------------------

    def check_written(name, comment, email, style, nested=False):
        text = written(name, comment, email, style, nested)
        uid = of_key(text)
        same(parts(uid), (name, comment or '', email), 'parts of ' + text)
        same(uid.user_id, text, 'text')
        same(rfc.split_packets(bytes(uid.to_packet(0))),
             [(13, text.encode('utf8'))], 'packet')

    deep = ck.thorough

    def name_case(first):
        n = 0
        for rest in words('aé .,"\\(<@', 3 + deep):
            name = first + rest
            if name != name.strip() or '  ' in name:
                continue
            for comment in (None, 'a', name if not set('()\\') & set(name)
                            and name else 'c d'):
                for email in ('', 'a@b.org'):
                    for style in ('plain', 'quoted', 'angle'):
                        if style == 'quoted' and not name:
                            continue
                        check_written(name, comment, email, style)
                        n += 1
        return first, n
    ck.each('names', 'aé.,"\\(<@:;[])>\'-&', name_case, workers=8)

    def comment_case(first):
        n = 0
        for rest in words('aé .,"@<:()\\', 3 + deep):
            comment = first + rest
            if comment != comment.strip() or '  ' in comment:
                continue
            for name in ('', 'a', 'Al', 'a, b', comment.replace('"', '')):
                for email in ('', 'a@b.org'):
                    for style in ('plain', 'before', 'after', 'tight'):
                        if style == 'tight' and not name and not email:
                            continue
                        check_written(name.strip(), comment, email, style)
                        n += 1
                        if '(' in comment and nests(comment):
                            check_written(name.strip(), comment, email,
                                          style, True)
                            n += 1
        return first, n
    ck.each('comments', 'aé.,@<>:;[]"\'-&1()\\', comment_case, workers=8)

    EMAILS = ['a@b', 'a.b@c.d', 'a+b@c-d.example', 'a@[1.2.3.4]', 'é@é.é',
              'a_b@c', "o'b@c", 'A@B', '0@1', 'a.b.c@d.e.f.g', 'a=b@c',
              '#@!', 'a/b@c', 'x--y@z', '"a"@b', '"a b"@c', '"a\\"b"@c',
              '"a\\\\b"@c', '"a@b"@c', '"(a)"@c', '"<a>"@c', '"a,b;:"@c',
              '"é%"@c', '"a"."b"@c', 'a."b c"@[IPv6:::1]']

    def email_case(case):
        name, comment, email, style = case
        check_written(name, comment, email, style)
        return email
    ck.each('addresses', itertools.product(
        ['', 'Al', 'Al Bo', 'J. R. T', 'Doe, J', 'a@b', 'c'],
        [None, '', 'c', 'c d', 'a@b'], EMAILS,
        ['plain', 'quoted', 'angle', 'before', 'after', 'tight']),
        email_case)

    # -- white space and comments wherever RFC 2822 has them ---------------

    SPACES = ['', ' ', '\t ', '\r\n ', '(x)', ' (x y) ']

    def spaced(case):
        """[words, the '<', local part, '.', local part, '@', domain, '>']
        with something between them"""
        shape, gaps = case
        gaps = [SPACES[g] for g in gaps]
        tokens = {
            'angle': ['Al', ' "B, C"', '<', 'a', '@', 'd', '>'],
            'dots': ['<', 'a', '.', '"b c"', '@', 'd', '.', 'e', '>'],
            'bare': ['a', '.', 'b', '@', 'd', '.', 'e'],
            'literal': ['Al', '<', 'a', '@', '[1.2]', '>'],
            'route': ['Al', '<', '@', 'r.s', ':', 'a', '@', 'd', '>'],
            'routes': ['<', '@', 'r', ',', '@', 's', ':', 'a', '@', 'd',
                       '>'],
        }[shape]
        n = len(tokens)
        text = ''.join(g + t for g, t in zip(gaps, tokens)) + gaps[n]
        want = {'angle': ('Al B, C', 'a@d'), 'dots': ('', 'a."b c"@d.e'),
                'bare': ('', 'a.b@d.e'), 'literal': ('Al', 'a@[1.2]'),
                'route': ('Al', 'a@d'), 'routes': ('', 'a@d')}[shape]
        comments = ' '.join(g.strip(' ()') for g in gaps if '(' in g)
        uid = of_key(text)
        same(parts(uid), (want[0], comments, want[1]), 'parts of %r' % text)
        same(uid.user_id, text, 'text')
        return shape, comments

    def gaps_of(n, most):
        for k in range(most + 1):
            for where in itertools.combinations(range(n), k):
                for what in itertools.product(range(1, len(SPACES)),
                                              repeat=k):
                    out = [0] * n
                    for i, w in zip(where, what):
                        out[i] = w
                    yield tuple(out)
    ck.each('spaced', ((shape, g) for shape, n in (
        ('angle', 8), ('dots', 10), ('bare', 8), ('literal', 7),
        ('route', 10), ('routes', 12))
        for g in gaps_of(n, 3 + deep)), spaced, workers=8)

    # -- whatever the text is ----------------------------------------------

    def text_case(first):
        n = 0
        for rest in itertools.product('a()<>@,"\\.: \n',
                                      repeat=4 + deep):
            text = (first + ''.join(rest)).rstrip('\n')
            uid = of_key(text)
            got = parts(uid)
            expect(all(type(x) is str for x in got), 'not text', text, got)
            expect('(' in text or sum(
                x.count('a') for x in got) <= text.count('a'),
                'invented', text, got)
            same(uid.user_id, text, 'text')
            if not set(text) - set('a. '):
                same(got, (' '.join(text.split()), '', ''),
                     'parts of a plain name ' + repr(text))
            n += 1
        return first, n
    ck.each('texts', ['a', '(', ')', '<', '>', '@', ',', '"', '\\', '.',
                      ':', ';', '[', ']', ' ', '\n', ''], text_case,
            workers=8)

    # -- of signatures -----------------------------------------------------

    def signer_case(case):
        name, comment, email = case
        text = written(name, comment, email, 'plain')
        body = (b'\4\0\1\2' + (len(text.encode('utf8')) + 8).to_bytes(
            2, 'big') + b'\5\2\x3b\x9a\xca\0'
            + bytes([len(text.encode('utf8')) + 1, 28])
            + text.encode('utf8') + b'\0\0ab' + rfc.mpi(5))
        sig = util.read_message(
            rfc.new_packet(4, b'\3\0\2\1' + bytes(8) + b'\1')
            + rfc.new_packet(11, b'b\0\0\0\0\0x')
            + rfc.new_packet(2, body)).signatures[0]
        same(sig.issuer_user_id, text, 'user ID of the issuer')
        same((sig.issuer_user_name, sig.issuer_user_comment,
              sig.issuer_user_email), (name, comment or '', email),
             'parts')
        return text
    NAMES = ['', 'Al', 'Al Bo', 'J. R. T', 'Doe, J', 'A "N" B', 'é', 'a\\b',
             'Al (x) B', 'x@y', '<z>']
    ck.each('signer', itertools.product(
        NAMES, [None, 'c', 'Al', 'c d', 'a@b', 'c (d)', ')\\'],
        ['', 'a@b', 'é@x.y', '"a b"@c']),
        signer_case)

    # -- changing ----------------------------------------------------------

    CHANGES = [('name', v) for v in ('', 'Al', 'Al Bo', 'Doe, J', 'A "N" \\',
                                     'c', 'a@b', '(c)')] \
        + [('comment', v) for v in ('', 'c', 'Al', 'a@b', 'c d, é',
                                        '\\(c) d')] \
        + [('email', v) for v in ('', 'a@b', 'Al@x.y', 'é@z',
                                      '"(A, b"@c')]
    if deep:
        CHANGES += [('name', None), ('comment', None), ('email', None),
                    ('name', 'J. R. T'), ('comment', 'Doe, J'),
                    ('email', 'c@c')]
    START = ['', 'Al <a@b>', 'Al (c) <a@b>', 'a@b', '"Doe, J" (c d)',
             'a@b (c)', '(c) Al Bo <a@b>', 'Al', '(c) Al (d) <a@b> (e)',
             'a(c).b@d']

    def build(hist, start):
        uid = of_key(start)
        want = dict(zip(('name', 'comment', 'email'), parts(uid)))
        for part, value in hist:
            setattr(uid, 'user_' + part, value)
            want[part] = value or ''
            same(parts(uid), (want['name'], want['comment'], want['email']),
                 'after setting the ' + part)
            same(rfc.split_packets(bytes(uid.to_packet(0))),
                 [(13, uid.user_id.encode('utf8'))], 'packet')
        again = of_key(uid.user_id)
        same(parts(again), parts(uid), 'of the text')
        return repr((uid.user_id, sorted(want.items())))
    for start in START:
        ck.bfs('set %r' % start, [], lambda h: CHANGES,
               lambda h: build(h, start), str, lambda w: None,
               6 if deep else 4)
