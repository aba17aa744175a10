"""Sosemanuk (eSTREAM portfolio specification), over ints or symbolic words."""
from vc import terms as T
from specs import serpent as P


def _gf(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x1A9                   # x^8 + x^7 + x^5 + x^3 + 1
        b >>= 1
    return r


def _pow(n):
    r = 1
    for _ in range(n % 255):
        r = _gf(r, 2)
    return r


# alpha is a root of X^4 + b^23 X^3 + b^245 X^2 + b^48 X + b^239
ALPHA = tuple(sum(_gf(c, _pow(e)) << 8 * k for k, e in enumerate((239, 48, 245, 23))) for c in range(256))
INVAL = tuple(sum(_gf(c, _pow(e)) << 8 * k for k, e in enumerate((64, 6, 39, 16))) for c in range(256))


def tab(t, i):
    return t[i] if isinstance(i, int) else T.wtable(t, T.bits(i, 8), 32)


def mula(w):
    return T.wxor(T.wshl(w, 8, 32), tab(ALPHA, T.wslice(w, 24, 8)), 32)


def diva(w):
    return T.wxor(T.wlshr(w, 8, 32), tab(INVAL, T.wslice(w, 0, 8)), 32)


class St:
    def __init__(self, s, r1, r2):
        self.s, self.r1, self.r2 = list(s), r1, r2


def mux(bit, x, y):
    """y if bit else x"""
    if isinstance(bit, int):
        return y if bit else x
    return T.wite(bit[0], y, x, 32)


def step(S):
    """one step: (next state, f, dropped LFSR word)"""
    s = S.s
    r1 = T.wadd(S.r2, mux(T.wslice(S.r1, 0, 1), s[1], T.wxor(s[1], s[8], 32)), 32)
    r2 = T.wrotl(T.wmul(S.r1, 0x54655307, 32), 7, 32)
    f = T.wxor(T.wadd(s[9], r1, 32), r2, 32)
    n = P.xor(s[9], diva(s[3]), mula(s[0]))
    return St(s[1:] + [n], r1, r2), f, s[0]


def block(S):
    """four steps: (next state, four keystream words)"""
    f, d = [], []
    for _ in range(4):
        S, a, b = step(S)
        f.append(a)
        d.append(b)
    return S, [T.wxor(a, b, 32) for a, b in zip(P.sbox(2, f), d)]


def ivsetup(rk, iv):
    a, b, c = P.sosemanuk_rounds(rk, iv)
    return St([c[3], c[2], c[1], c[0], b[1], b[3], a[3], a[2], a[1], a[0]], b[0], b[2])


class Cipher:
    def __init__(self, key):
        self.rk = P.schedule(P.words(bytes(P.pad(key))), 25)

    def iv(self, iv):
        self.S = ivsetup(self.rk, P.words(iv))

    def packet(self, data):
        """one block of state is used after every run of whole blocks"""
        out = bytearray()
        for j in range(0, len(data) // 16 * 16 + 1, 16):
            self.S, z = block(self.S)
            ks = b"".join(w.to_bytes(4, "little") for w in z)
            out += bytes(a ^ b for a, b in zip(data[j:j + 16], ks))
        return bytes(out)
