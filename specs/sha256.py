"""FIPS 180-4 SHA-256, generic over ints and symbolic words (constants computed from the definition)."""
from vc import terms as T


def _primes(n):
    p = []
    k = 2
    while len(p) < n:
        if all(k % q for q in p):
            p.append(k)
        k += 1
    return p


def _frac(x, root):
    # first 32 bits of the fractional part of the root-th root of x
    lo, hi = 0, 1 << 40
    v = x << (32 * root)
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** root <= v:
            lo = m
        else:
            hi = m
    return lo & 0xFFFFFFFF


H0 = [_frac(p, 2) for p in _primes(8)]
K = [_frac(p, 3) for p in _primes(64)]
assert H0[0] == 0x6A09E667 and K[63] == 0xC67178F2


def _rotr(x, n):
    return T.wrotl(x, 32 - n, 32)


def _x3(a, b, c):
    return T.wxor(T.wxor(a, b, 32), c, 32)


def compress(H, M):
    """H: 8 words, M: 16 big-endian message words"""
    W = list(M)
    for t in range(16, 64):
        s0 = _x3(_rotr(W[t - 15], 7), _rotr(W[t - 15], 18), T.wlshr(W[t - 15], 3, 32))
        s1 = _x3(_rotr(W[t - 2], 17), _rotr(W[t - 2], 19), T.wlshr(W[t - 2], 10, 32))
        W.append(T.wadd(T.wadd(T.wadd(s1, W[t - 7], 32), s0, 32), W[t - 16], 32))
    a, b, c, d, e, f, g, h = H
    for t in range(64):
        S1 = _x3(_rotr(e, 6), _rotr(e, 11), _rotr(e, 25))
        ch = T.wxor(T.wand(e, f, 32), T.wand(T.wnot(e, 32), g, 32), 32)
        t1 = T.wadd(T.wadd(T.wadd(T.wadd(h, S1, 32), ch, 32), K[t], 32), W[t], 32)
        S0 = _x3(_rotr(a, 2), _rotr(a, 13), _rotr(a, 22))
        maj = _x3(T.wand(a, b, 32), T.wand(a, c, 32), T.wand(b, c, 32))
        t2 = T.wadd(S0, maj, 32)
        h, g, f, e, d, c, b, a = g, f, e, T.wadd(d, t1, 32), c, b, a, T.wadd(t1, t2, 32)
    return [T.wadd(x, y, 32) for x, y in zip(H, (a, b, c, d, e, f, g, h))]


def sha256(msg):
    n = len(msg)
    p = msg + b"\x80" + b"\0" * ((55 - n) % 64) + (8 * n).to_bytes(8, "big")
    H = H0
    for i in range(0, len(p), 64):
        H = compress(H, [int.from_bytes(p[i + 4 * t:i + 4 * t + 4], "big") for t in range(16)])
    return b"".join(int(x).to_bytes(4, "big") for x in H)
