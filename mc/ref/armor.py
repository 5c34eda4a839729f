"""Reference ASCII armor writer and strict reader (RFC 4880 section 6)."""

import base64
import re

from mc.ref import rfc

LABELS = ('PGP MESSAGE', 'PGP PUBLIC KEY BLOCK', 'PGP PRIVATE KEY BLOCK',
          'PGP SIGNATURE')


def crc_text(data):
    return base64.b64encode(rfc.crc24(data).to_bytes(3, 'big')).decode()


def write(label, data, headers=(), width=64, eol='\n', blank='', lead=0,
          crc=None):
    text = base64.b64encode(data).decode()
    lines = [blank] * lead + ['-----BEGIN %s-----' % label]
    lines += ['%s: %s' % h for h in headers]
    lines.append(blank)
    lines += [text[i:i + width] for i in range(0, len(text), width)]
    lines.append('=' + (crc_text(data) if crc is None else crc))
    lines.append('-----END %s-----' % label)
    return eol.join(lines) + eol


def read(text):
    """Strict reader of written armor -> (label, headers, data)."""
    assert text.endswith('\n')
    lines = text[:-1].split('\n')
    m = re.match('^-----BEGIN ([A-Z0-9 ,/]+)-----$', lines[0])
    assert m, lines[0]
    label = m.group(1)
    assert lines[-1] == '-----END %s-----' % label, lines[-1]
    blank = lines.index('')
    headers = [tuple(l.split(': ', 1)) for l in lines[1:blank]]
    body = lines[blank + 1:-2]
    for l in body:
        assert re.match(r'^[A-Za-z0-9+/]+={0,2}$', l), l
        assert len(l) <= 76, 'line of %d characters' % len(l)
    assert not any('=' in l for l in body[:-1])
    data = base64.b64decode(''.join(body), validate=True)
    assert base64.b64encode(data).decode() == ''.join(body)
    assert lines[-2] == '=' + crc_text(data), 'checksum line'
    return label, headers, data
