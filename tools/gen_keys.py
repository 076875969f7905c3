#!/usr/bin/env python3
"""Writes harness/keys.h: fixed RSA keys (PKCS#8 DER) for the histories that run without OpenSSL."""
import os, random
r = random.Random(20240607)
def isp(n):
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0: return n == q
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for _ in range(24):
        x = pow(r.randrange(2, n - 1), d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def prime(b):
    while True:
        p = r.getrandbits(b) | 3 << (b - 2) | 1
        if isp(p): return p
def ln(n):
    if n < 128: return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big'); return bytes([0x80 | len(b)]) + b
def tlv(t, c): return bytes([t]) + ln(len(c)) + c
def num(x): return tlv(2, x.to_bytes(x.bit_length() // 8 + 1, 'big'))
def key(pb, qb, e):
    while True:
        p, q = prime(pb), prime(qb)
        if p != q and (p - 1) % e and (q - 1) % e: break
    d = pow(e, -1, (p - 1) * (q - 1)); n = p * q
    inner = tlv(0x30, b''.join(map(num, (0, n, e, d, p, q, d % (p - 1), d % (q - 1), pow(q, -1, p)))))
    alg = bytes.fromhex('300d06092a864886f70d0101010500')
    return tlv(0x30, num(0) + alg + tlv(4, inner))
ks = [key(20, 20, 65537), key(64, 64, 65537), key(128, 128, 17), key(100, 190, 3), key(256, 256, 65537), key(48, 48, 65537)]
o = '/* generated by tools/gen_keys.py */\n'
for i, k in enumerate(ks): o += 'static const uint8_t hkey%d[%d] = { %s };\n' % (i, len(k), ','.join('%d' % b for b in k))
o += '#define HKEYS %d\nstatic const struct { const uint8_t *d; int n; } hkeys[HKEYS] = { %s };\n' % (len(ks), ', '.join('{ hkey%d, %d }' % (i, len(k)) for i, k in enumerate(ks)))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'keys.h'), 'w').write(o)
