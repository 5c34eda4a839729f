"""C20: the syntax of regular expressions of trust signatures."""

import itertools

from mc.core import Mismatch, same

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of texts over the characters the syntax '
             'tells apart, and of sequences of pieces of expressions, each '
             'judged by an independent state machine of the grammar of RFC '
             '4880 section 8')
RULE = ('All texts of up to five characters (six when thorough) over an '
        'alphabet of thirteen, of up to seven (eight) over one of eight; '
        'all sequences of up to four (five) of twenty pieces; all pairs of '
        'prefixes and suffixes around every Unicode character up to '
        'U+02FF; groups and ranges up to depth forty.')
ASSUMPTIONS = ['Texts in which a closing bracket closes nothing are not '
               'judged from there on: whether it has other significance is '
               'not clear from RFC 4880.']


def judge(text):
    """(where it stops being the beginning of any expression or None,
        whether something is left open); None: not judged"""
    depth = 0
    closed = False      # is there an atom that may be repeated?
    inside = None       # what a range has so far
    escape = False
    for i, c in enumerate(text):
        if inside is not None:
            if c == ']' and inside not in ('', '^'):
                inside, closed = None, True
            else:
                inside += c
        elif escape:
            escape, closed = False, True
        elif c == '\\':
            escape = True
        elif c == '[':
            inside = ''
        elif c == ']':
            return None
        elif c == '(':
            depth += 1
            closed = False
        elif c == ')':
            if not depth:
                return i, False
            depth -= 1
            closed = True
        elif c == '|':
            closed = False
        elif c in '*+?':
            if not closed:
                return i, False
            closed = False
        else:
            closed = True
    return None, bool(depth or inside is not None or escape)


def run(ck):
    from pgp.exceptions import RegexValueError
    from pgp.regex import validate_subpacket_regex
    deep = ck.thorough

    def check(text):
        verdict = judge(text)
        if verdict is None:
            return
        position, is_open = verdict
        if is_open:
            position = len(text) - 1
        try:
            validate_subpacket_regex(text)
        except RegexValueError as e:
            if position is None:
                raise Mismatch('%r was refused: %s' % (text, e))
            same(e.position, position, 'position of %r' % text)
            same(e.string, text, 'text of the error')
            lines = str(e).split('\n')
            same(lines[-1], ' ' * position + '^', 'mark')
        else:
            if position is not None:
                raise Mismatch('%r was accepted' % text)

    def all_of(case):
        alphabet, start, length = case
        n = 0
        for rest in itertools.product(alphabet, repeat=length):
            check(start + ''.join(rest))
            n += 1
        return start, n

    def family(name, alphabet, longest):
        ck.each(name, [(alphabet, '', n) for n in range(min(3, longest + 1))]
                + [(alphabet, a + b + c, n) for n in range(longest - 2)
                   for a in alphabet for b in alphabet for c in alphabet],
                all_of, workers=8)
    family('texts', 'a|*+?()[]^\\.$', 6 if deep else 5)
    family('short', 'a|*()[]\\', 8 if deep else 7)
    family('ranges', '^[]a-\\', 9 if deep else 7)
    family('groups', '(a|)*', 10 if deep else 8)

    PIECES = ['a', 'ab', '.', '^', '$', '\\.', '\\\\', '\\)', '[a-z]', '[]a]',
              '[^]]', '[\\]', '[|*]', '[(]', '(', ')', '|', '*', '?', '(a|b)']

    def sequence(start):
        n = 0
        for length in range(5 if deep else 4):
            for rest in itertools.product(PIECES, repeat=length):
                check(start + ''.join(rest))
                n += 1
        return n
    ck.each('pieces', [a + b for a in PIECES for b in PIECES] if deep
            else PIECES, sequence, workers=8)

    AROUND = ['', 'a', '(', ')', '[', ']', '[^', '\\', '|', '*', 'a*', '()',
              '[a]', '[a', '<[^>]+[@.]', '>$']

    def character(c):
        for a, b in itertools.product(AROUND, repeat=2):
            check(a + chr(c) + b)
            check(a + chr(c) * 2 + b)
        return 'judged'
    ck.each('characters', list(range(0x300)) + [
        0x2028, 0x20ac, 0xd7ff, 0xfffd, 0x1f600], character, workers=8)

    def nested(case):
        depth, left, middle, right = case
        check(left * depth + middle + right * depth)
        return left, middle
    ck.each('depth', itertools.product(
        list(range(41)), ['(', '(a|', '([)]', '((', '([a]*', '\\(', '[(]',
                          'a', 'a|', '[a]|'],
        ['', 'a', 'a*', '*', '[a', '|'], [')', ')*', 'b)', '|)', '))', ')?',
                                          '\\)', ']', '|a', '[^]]+']),
        nested, workers=8)
