"""C23: passphrases from an agent or a terminal."""

import collections
import fcntl
import itertools
import os
import socket
import struct
import termios
import threading
import time

from mc import scratch
from mc.core import expect, raises, same, Mismatch

LEVEL = 'fault_enumeration'
TECHNIQUE = ('explicit-state exploration of operation sequences against a '
             'reference agent on a real socket, with exhaustive enumeration '
             'of its replies, of their division into chunks and of the '
             'points at which it fails')
RULE = ('All replies of up to three lines (four when thorough) over an '
        'alphabet of data, status, comment and final lines; all divisions '
        'of replies into up to three chunks; all prefixes after which the '
        'agent goes away; all combinations of parameters; all sequences of '
        'up to five (six) operations on the cache; all sequences of up to '
        'seven (nine) answers on the terminal.')
ASSUMPTIONS = ['The agent is a reference implementation of the '
               'GET_PASSPHRASE and CLEAR_PASSPHRASE commands of gpg-agent.',
               'Cache IDs do not start with a hyphen.']

GREETING = b'OK Pleased to meet you\n'


def unescape(text):
    """Arguments of Assuan commands."""
    out = bytearray()
    i = 0
    while i < len(text):
        if text[i] == '%':
            out.append(int(text[i + 1:i + 3], 16))
            i += 3
        else:
            out += b' ' if text[i] == '+' else text[i].encode('ascii')
            i += 1
    return out.decode('utf8')


def escape(data, style='least'):
    """Data lines of Assuan."""
    out = b''
    for b in data:
        if style == 'all' or b in b'%\r\n' or style == 'ascii' and b > 126:
            out += b'%%%02X' % b
        else:
            out += bytes([b])
    return out


class Agent(object):
    """Answers one connection after the other in a thread."""

    def __init__(self, path):
        self.path = path
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.bind(path)
        self.sock.listen(5)
        self.queue = collections.deque()
        self.wake = threading.Semaphore(0)
        self.finished = threading.Semaphore(0)
        self.result = None
        t = threading.Thread(target=self.loop)
        t.daemon = True
        t.start()

    def loop(self):
        while True:
            self.wake.acquire()
            session = self.queue.popleft()
            try:
                self.result = session()
            except Exception as e:
                self.result = e
            self.finished.release()

    def session(self, fn):
        """Runs fn(lines to read, chunks to send) for one connection."""
        def run():
            self.sock.settimeout(20)
            conn, _ = self.sock.accept()
            conn.settimeout(20)
            try:
                return fn(conn)
            finally:
                conn.close()
        self.queue.append(run)
        self.wake.release()

    def done(self):
        expect(self.finished.acquire(timeout=30), 'the agent waits')
        if isinstance(self.result, Exception):
            raise self.result
        return self.result


def send(conn, chunks):
    """Send the chunks so that each is read before the next."""
    for n, chunk in enumerate(chunks):
        if n:
            for i in range(20000):
                left = fcntl.ioctl(conn.fileno(), termios.TIOCOUTQ,
                                   b'\0' * 4)
                if not struct.unpack('i', left)[0]:
                    break
                time.sleep(0 if i < 50 else 0.0002)
        try:
            conn.sendall(chunk)
        except (BrokenPipeError, ConnectionResetError):
            return


def read_line(conn):
    out = b''
    while not out.endswith(b'\n'):
        b = conn.recv(1)
        if not b:
            return None
        out += b
    return out[:-1].decode('ascii')


def closed(conn):
    """Whether the client closes its side, having sent nothing more"""
    try:
        rest = conn.recv(100)
    except ConnectionResetError:
        return b''
    except socket.timeout:
        return None
    return rest


def parse_command(line):
    """What gpg-agent understands."""
    words = [w for w in line.split(' ') if w]
    command, words = words[0], words[1:]
    options = {}
    while words and words[0].startswith('--'):
        name, _, value = words.pop(0)[2:].partition('=')
        expect(name not in options, 'option given twice', line)
        options[name] = value
    return command, options, words


def run(ck):
    from pgp.pinentry.gpg_agent import GPGAgentPinentry
    base = scratch.new('c23')
    state = {}

    def agent():
        """Every process has its own."""
        if state.get('pid') != os.getpid():
            state['pid'] = os.getpid()
            state['agent'] = Agent(os.path.join(
                base, 'S%d' % os.getpid()))
        return state['agent']

    def converse(call, greeting, reply, end='wait'):
        """call(pinentry) with an agent that sends the chunks ->
        (result or exception, command line)"""
        a = agent()

        def fn(conn):
            send(conn, greeting)
            line = None
            if reply is not None:
                line = read_line(conn)
                send(conn, reply)
            if end == 'close':
                return line, b''
            return line, closed(conn)
        a.session(fn)
        pinentry = GPGAgentPinentry(socket_path=a.path)
        try:
            result = call(pinentry)
        except Exception as e:
            result = e
        line, rest = a.done()
        expect(rest is not None, 'the connection is left open')
        same(rest, b'', 'sent after the command')
        return result, line

    def get(p):
        return p.get_passphrase(cache_id='id')

    def clear(p):
        return p.clear_passphrase('id')

    # -- replies -----------------------------------------------------------

    LINES = [b'D abc', b'D %25%0A+', b'D \xc3\xa9', b'D %C3%a9', b'D OK',
             b'D ERR 1', b'S PROGRESS 1', b'# D no', b'D ', b'D  x ',
             b'S ', b'D %E6%97', b'D \xa5', b'D ' + b'x' * 990]
    LAST = [b'OK', b'OK done', b'ERR 83886179 canceled <Pinentry>',
            b'ERR 1']

    def from_hex(data):
        out, i = bytearray(), 0
        while i < len(data):
            if data[i:i + 1] == b'%':
                out.append(int(data[i + 1:i + 3], 16))
                i += 3
            else:
                out += data[i:i + 1]
                i += 1
        return bytes(out)

    def reply_case(lines):
        n = 0
        for last in LAST:
            text = b''.join(l + b'\n' for l in lines + (last,))
            data = from_hex(b''.join(l[2:] for l in lines
                                     if l.startswith(b'D ')))
            try:
                want = data.decode('utf8')
            except UnicodeDecodeError:
                continue
            got, line = converse(get, [GREETING], [text])
            expect(line is not None, 'no command')
            if last.startswith(b'ERR'):
                expect(isinstance(got, Exception), 'error ignored', got)
            else:
                same(got, want, 'passphrase')
            n += 1
        return n
    ck.each('replies', [c for n in range(4 + ck.thorough)
                        for c in itertools.product(LINES, repeat=n)
                        if ck.thorough or len(set(c)) == n],
            reply_case, workers=8)

    # -- chunks ------------------------------------------------------------

    REPLIES = {
        'plain': (b'D secret\nOK\n', 'secret'),
        'two': (b'D sec\nD ret\nOK\n', 'secret'),
        'escaped': (b'D %25\xc3\xa9%0a\nOK\n', '%\xe9\n'),
        'status': (b'S x y\nD O\nD K\nOK 1\n', 'OK'),
        'none': (b'OK\n', ''),
        'error': (b'ERR 9 x\n', None),
    }

    def chunk_case(case):
        what, name, cuts = case
        text, want = (GREETING, 'x') if what == 'greeting' else (
            REPLIES[name])
        chunks = [text[i:j] for i, j in zip((0,) + cuts,
                                            cuts + (len(text),))]
        if what == 'greeting':
            got, _ = converse(get, chunks, [b'D x\nOK\n'])
        elif what == 'clear':
            got, _ = converse(clear, [GREETING], chunks)
            if want is not None:
                same(got, None, 'result')
        else:
            got, _ = converse(get, [GREETING], chunks)
        if want is None:
            expect(isinstance(got, Exception), 'error ignored', got)
        elif what != 'clear':
            same(got, want, 'passphrase')
        return what, name

    def chunk_cases():
        for n in (1, 2) if not ck.thorough else (1, 2, 3):
            for cuts in itertools.combinations(range(1, len(GREETING)), n):
                if n < 3:
                    yield 'greeting', '', cuts
            for name, (text, _) in sorted(REPLIES.items()):
                for cuts in itertools.combinations(range(1, len(text)), n):
                    yield 'get', name, cuts
                    if name in ('none', 'error'):
                        yield 'clear', name, cuts
        for name, (text, _) in sorted(REPLIES.items()):
            yield 'get', name, tuple(range(1, len(text)))
    ck.each('chunks', chunk_cases(), chunk_case, workers=8)

    # -- an agent that goes away -------------------------------------------

    def gone(case):
        what, name, n = case
        if what == 'greeting':
            got, _ = converse(get if name == 'get' else clear,
                              [GREETING[:n]] if n else [], None, 'close')
        elif what == 'refused':
            got, _ = converse(get if name == 'get' else clear,
                              [b'ERR 67108922 no\n'], None)
        else:
            text = REPLIES[name][0][:n]
            got, line = converse(get if what == 'get' else clear,
                                 [GREETING], [text] if n else [], 'close')
        expect(isinstance(got, Exception), 'gave a result', got)
        return what
    ck.each('gone', [('greeting', op, n) for op in ('get', 'clear')
                     for n in range(len(GREETING))]
            + [('refused', op, 0) for op in ('get', 'clear')]
            + [(op, name, n) for op in ('get', 'clear')
               for name in sorted(REPLIES)
               for n in range(len(REPLIES[name][0]))], gone, workers=8)

    def missing(case):
        op, kind = case
        path = os.path.join(base, 'none' + kind)
        if kind == 'file':
            open(path, 'w').close()
        p = GPGAgentPinentry(socket_path=path)
        raises(lambda: (get if op == 'get' else clear)(p), OSError)
        return case
    ck.each('missing', itertools.product(['get', 'clear'], ['', 'file']),
            missing)

    # -- commands ----------------------------------------------------------

    TEXTS = [None, 'Enter', 'Two words', 'a+b', '100%', 'x%20y', 'é', 'X y',
             'a\nb', '--data', '\u65e5\u672c', "'\"\\", 'a/b?c=d&e', '~']

    def command_case(case):
        cache_id, use, error, prompt, description, no_ask, bar, repeat = case
        got, line = converse(lambda p: p.get_passphrase(
            prompt=prompt, error_message=error, description=description,
            cache_id=cache_id, use_cache=use, no_ask=no_ask, qualitybar=bar,
            repeat=repeat), [GREETING], [b'D x\nOK\n'])
        same(got, 'x', 'passphrase')
        command, options, words = parse_command(line)
        same(command, 'GET_PASSPHRASE', 'command')
        if options.get('repeat') == '':
            options['repeat'] = '1'
        want = {'data': ''}
        if no_ask:
            want['no-ask'] = ''
        if bar:
            want['qualitybar'] = ''
        if repeat:
            want['repeat'] = str(repeat)
        same(options, want, 'options')
        same([None if w == 'X' else unescape(w) for w in words],
             [cache_id if use else None, error, prompt, description],
             'arguments')
        return 'command'
    ck.each('texts', itertools.chain(
        itertools.product(['id'], [True], TEXTS, TEXTS, TEXTS, [False],
                          [False], [0]),
        itertools.product([t for t in TEXTS if t and t[0] != '-'],
                          [True, False], [None, 'e'],
                          [None, 'p'], [None], [False], [False], [0])),
        command_case, workers=8)
    ck.each('options', itertools.product(
        [None, 'id'], [True, False], [None, 'bad'], [None, 'prompt'],
        [None, 'what for'], [False, True], [False, True], [0, 1, 2, 3, 10]),
        command_case, workers=8)

    def clear_command(cache_id):
        got, line = converse(lambda p: p.clear_passphrase(cache_id),
                             [GREETING], [b'OK\n'])
        same(got, None, 'result')
        command, options, words = parse_command(line)
        same((command, options, [unescape(w) for w in words]),
             ('CLEAR_PASSPHRASE', {}, [cache_id]), 'command')
        return cache_id
    ck.each('clear', [t for t in TEXTS if t and t[0] != '-'], clear_command)

    # -- histories of the cache --------------------------------------------

    IDS = ['a', 'b', None]
    EVENTS = [('get', i, use, no_ask) for i in IDS for use in (True, False)
              for no_ask in (False, True)] \
        + [('clear', i) for i in ('a', 'b')] + [('get', 'a', True, 'cancel')]
    PHRASES = ['', 'p', '%41', 'é ü', 'a+b', 'OK', '\u65e5']

    class Model(object):
        """What a user expects of a cache of passphrases."""

        def __init__(self):
            self.cache = {}
            self.asked = 0

        def apply(self, event):
            """-> passphrase, or None if there is none to be had"""
            if event[0] == 'clear':
                self.cache.pop(event[1], None)
                return None
            _, cache_id, use, no_ask = event
            if use and cache_id in self.cache:
                return self.cache[cache_id]
            if no_ask:
                return None
            phrase = PHRASES[self.asked % len(PHRASES)]
            self.asked += 1
            if use and cache_id:
                self.cache[cache_id] = phrase
            return phrase

    def through_agent(hist):
        model, real = Model(), Model()
        kept = GPGAgentPinentry(socket_path=agent().path)

        def serve(conn):
            send(conn, [GREETING])
            command, options, words = parse_command(read_line(conn))
            words = [None if w == 'X' else unescape(w) for w in words]
            if command == 'CLEAR_PASSPHRASE':
                real.apply(('clear', words[0]))
                send(conn, [b'OK\n'])
            else:
                no_ask = 'no-ask' in options or event[-1] == 'cancel'
                phrase = real.apply(('get', words[0], True, no_ask))
                if phrase is None:
                    send(conn, [b'ERR 67108922 No data <GPG Agent>\n'])
                else:
                    send(conn, [b'D ' + escape(phrase.encode('utf8'))
                                + b'\nOK\n'])
            return closed(conn)
        for event in hist:
            want = model.apply(event)
            agent().session(serve)
            if event[0] == 'clear':
                kept.clear_passphrase(event[1])
            else:
                try:
                    got = kept.get_passphrase(
                        cache_id=event[1], use_cache=event[2],
                        no_ask=event[3] is True)
                except Exception as e:
                    if want is not None:
                        raise Mismatch('%s: %s' % (type(e).__name__, e))
                else:
                    same(got, want, 'passphrase')
            same(agent().done(), b'', 'connection')
            same(real.cache, model.cache, 'cache of the agent')
        return repr((sorted(model.cache.items()), model.asked))

    ck.bfs('agent-history', [], lambda h: EVENTS, through_agent, str,
           lambda w: None, 5 + ck.thorough)

    # -- the terminal ------------------------------------------------------

    from pgp.pinentry import getpass as module
    import getpass as library
    import io

    class Terminal(object):

        def __init__(self, answers):
            self.answers = list(answers)
            self.used = []

        def __call__(self, prompt='Password: ', stream=None):
            if not self.answers:
                raise EOFError('no more answers')
            a = self.answers.pop(0)
            self.used.append(a)
            if a is KeyboardInterrupt:
                raise a()
            return a

        def __enter__(self):
            self.saved = module.getpass, library.getpass
            module.getpass = library.getpass = self
            return self

        def __exit__(self, *exc):
            module.getpass, library.getpass = self.saved

    def terminal_history(hist):
        model = Model()
        p = module.GetPassPinentry()
        for event in hist:
            cancel = event[-1] == 'cancel'
            upcoming = PHRASES[model.asked % len(PHRASES)]
            want = model.apply(event)
            if event[0] == 'clear':
                p.clear_passphrase(event[1])
                continue
            with Terminal([KeyboardInterrupt] if cancel else [upcoming]) \
                    as t:
                try:
                    got = p.get_passphrase(
                        cache_id=event[1], use_cache=event[2],
                        no_ask=event[3] is True, stream=io.StringIO())
                except (KeyError, KeyboardInterrupt) as e:
                    if want is not None:
                        raise Mismatch('%s: %s' % (type(e).__name__, e))
                    if event[3] is True:
                        same(t.used, [], 'asked')
                else:
                    same(got, want, 'passphrase')
        return repr((sorted(model.cache.items()), model.asked))
    ck.bfs('terminal-history', [], lambda h: EVENTS, terminal_history, str,
           lambda w: None, 6 + ck.thorough)

    # cache IDs that have something in common
    PAIRS = [('k1', 'k10'), ('1k', '01k'), ('k', 'K'), ('k', 'k '),
             ('k/a', 'k/b'), ('k', 'k:x'), ('\u00e9', 'e\u0301'), ('1', '01')]

    def alike(case):
        one, two, order = case
        events = []
        for what in order:
            kind, i, use = what
            i = (one, two)[i]
            events.append(('clear', i) if kind == 'clear'
                          else ('get', i, use, kind == 'no'))
        terminal_history(events)
        through_agent(events)
        return order
    STEPS = [(k, i, True) for k in ('get', 'clear', 'no') for i in (0, 1)]
    ck.each('alike', ((a, b, o) for a, b in PAIRS for n in (3, 4)
                      for o in itertools.product(STEPS, repeat=n)
                      if o[0][0] == 'get' and (ck.thorough or n < 4)),
            alike)

    def repeat_case(case):
        repeat, answers = case
        p = module.GetPassPinentry()
        out = io.StringIO()
        with Terminal(answers) as t:
            try:
                got = p.get_passphrase(repeat=repeat, cache_id='a',
                                       stream=out)
            except (EOFError, KeyboardInterrupt):
                # nothing is kept
                raises(lambda: p.get_passphrase(cache_id='a', no_ask=True,
                                                stream=out), KeyError)
                # some round of agreeing answers was not accepted
                n = repeat + 1
                rounds = [answers[i:i + n]
                          for i in range(0, len(answers) - n + 1, n)]
                for r in rounds:
                    if KeyboardInterrupt in r:
                        break
                    expect(len(set(r)) > 1, 'not accepted', answers)
                    if r[:-1] != r[:1] * repeat:
                        # may have started over within the round
                        break
                return 'refused'
            same(t.used[-repeat - 1:], [got] * (repeat + 1), 'answers')
            same(p.get_passphrase(cache_id='a', no_ask=True, stream=out),
                 got, 'kept')
            shown = out.getvalue()
            expect('hunter2' not in shown, 'shown')
        return len(t.used)
    ck.each('repeat', [
        (repeat, answers) for repeat in (0, 1, 2, 3)
        for n in range(1, 8 + 2 * ck.thorough)
        for answers in itertools.product(
            ['hunter2', 'hunter2x', ''] + [KeyboardInterrupt] * (n < 5),
            repeat=n)], repeat_case, workers=8)

    # the texts that are shown before an answer
    TEXTS = [None, 'X', '', 'Alike', 'Text %s', 'two %s\nlines', '\u00e9\u4e2d %s']

    def shown(case):
        texts, repeat, answers = case
        given = {}
        for name, text in zip(('prompt', 'error_message', 'description'),
                              texts):
            given[name] = text.replace('%s', name) if text else text
        out = io.StringIO()
        at = []

        class Watching(Terminal):
            def __call__(self, *args, **kwargs):
                at.append(out.getvalue())
                return Terminal.__call__(self, *args, **kwargs)
        p = module.GetPassPinentry()
        with Watching(answers):
            try:
                p.get_passphrase(repeat=repeat, stream=out, **given)
            except EOFError:
                pass
        for name, text in given.items():
            if text not in (None, 'X', ''):
                expect(text in at[0], '%s was not shown' % name,
                       '%r in %r' % (text, at[0]))
                expect(at[0].count(text) >= list(given.values()).count(text),
                       '%s was not shown' % name, at[0])
            elif text == '':
                expect(name not in out.getvalue(), name)
        if given['prompt'] == given['error_message'] == \
                given['description'] == '':
            same(at[0], '', 'nothing to show')
        # what was entered again differently is told before the next
        n = repeat + 1
        rounds = [answers[i:i + n] for i in range(0, len(answers), n)]
        if repeat and len(set(rounds[0])) > 1 and len(at) > n:
            expect(at[n] != at[n - 1], 'a difference is not told', at)
        for a in answers:
            expect(a not in out.getvalue(), 'the passphrase is shown')
        return tuple(len(x) for x in at)
    ck.each('shown', [
        (texts, repeat, answers)
        for texts in itertools.product(TEXTS, repeat=3)
        for repeat, answers in ((0, ['pass1']), (1, ['pass1', 'pass1']),
                                (1, ['pass1', 'pass2', 'pass3', 'pass3']),
                                (2, ['pass1', 'pass1', 'pass2'] * 2))],
        shown)
