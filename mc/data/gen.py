"""Development script: makes the static key numbers of keys.json (not run by
any check)."""

import json
import random

from Crypto.PublicKey import DSA, ElGamal
from Crypto.Util import number

R = random.Random(20240607)


def rand(n):
    return bytes(R.randrange(256) for _ in range(n))


def rsa(bits, e=65537):
    half = bits // 2
    while True:
        p = number.getPrime(half, rand)
        q = number.getPrime(bits - half, rand)
        n = p * q
        if p == q or n.bit_length() != bits:
            continue
        try:
            d = pow(e, -1, (p - 1) * (q - 1))
        except ValueError:
            continue
        if p > q:
            p, q = q, p
        return dict(kind='rsa', n=n, e=e, d=d, p=p, q=q, u=pow(p, -1, q))


def dsa(pbits, qbits):
    q = number.getPrime(qbits, rand)
    while True:
        x = number.getRandomNBitInteger(pbits, rand)
        p = x - (x % (2 * q)) + 1
        if p.bit_length() == pbits and number.isPrime(p, randfunc=rand):
            break
    h = 2
    while pow(h, (p - 1) // q, p) == 1:
        h += 1
    g = pow(h, (p - 1) // q, p)
    x = R.randrange(2, q - 1)
    return dict(kind='dsa', p=p, q=q, g=g, y=pow(g, x, p), x=x)


def elg(bits):
    # safe prime, generator of the whole group
    while True:
        q = number.getPrime(bits - 1, rand)
        p = 2 * q + 1
        if number.isPrime(p, randfunc=rand) and p.bit_length() == bits:
            break
    g = 2
    while pow(g, 2, p) == 1 or pow(g, q, p) == 1:
        g += 1
    x = R.randrange(2 ** (bits - 2), p - 2)
    return dict(kind='elg', p=p, g=g, y=pow(g, x, p), x=x)


keys = {
    'rsa_a': rsa(768), 'rsa_b': rsa(768), 'rsa_c': rsa(1024),
    'rsa_odd': rsa(761, 17), 'rsa_s1': rsa(512), 'rsa_s2': rsa(512, 257),
    'dsa_a': dsa(512, 160), 'dsa_b': dsa(512, 160), 'dsa_1k': dsa(1024, 160),
    'dsa_256': dsa(1024, 256), 'dsa_224': dsa(768, 224),
    'dsa_small': dsa(512, 64),
    'elg_a': elg(512), 'elg_b': elg(512), 'elg_odd': elg(509),
    'elg_c': elg(768),
}
with open('/verif/mc/data/keys.json', 'w') as fh:
    json.dump({k: {a: (v if isinstance(v, str) else hex(v))
                   for a, v in d.items()} for k, d in keys.items()}, fh,
              indent=1, sort_keys=True)
