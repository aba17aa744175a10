"""Rabbit (RFC 4503); octet strings are read as little-endian integers, as in the eSTREAM submission.
Generic over ints and symbolic words."""
from vc import terms as T

A = [0x4D34D34D, 0xD34D34D3, 0x34D34D34] * 3


class St:
    def __init__(self, X, C, b):
        self.X, self.C, self.b = list(X), list(C), b


def g(u, v):
    s = T.wzext(T.wadd(u, v, 32), 32, 64)
    q = T.wmul(s, s, 64)
    return T.wxor(T.wslice(q, 0, 32), T.wslice(q, 32, 32), 32)


def sl(w, lo, n):
    return T.wslice(w, lo, n)


def cat(*parts):
    """least significant first, 16-bit parts"""
    return T.wconcat([(p, 16) for p in parts])


def counters(C, b):
    R = []
    for j in range(8):
        t = T.wadd(T.wadd(T.wzext(C[j], 32, 64), A[j], 64), T.wzext(b, 1, 64), 64)
        R.append(sl(t, 0, 32))
        b = sl(t, 32, 1)
    return R, b


def nextstate(S):
    C, b = counters(S.C, S.b)
    G = [g(x, c) for x, c in zip(S.X, C)]
    add = lambda *a: a[0] if len(a) == 1 else T.wadd(add(*a[:-1]), a[-1], 32)
    rot = lambda w, n: T.wrotl(w, n, 32)
    X = []
    for j in range(8):
        if j % 2 == 0:
            X.append(add(G[j], rot(G[(j - 1) % 8], 16), rot(G[(j - 2) % 8], 16)))
        else:
            X.append(add(G[j], rot(G[(j - 1) % 8], 8), G[(j - 2) % 8]))
    return St(X, C, b)


def keysetup(k):
    """k: eight 16-bit words"""
    X, C = [], []
    for j in range(8):
        if j % 2 == 0:
            X.append(cat(k[j], k[(j + 1) % 8]))
            C.append(cat(k[(j + 5) % 8], k[(j + 4) % 8]))
        else:
            X.append(cat(k[(j + 4) % 8], k[(j + 5) % 8]))
            C.append(cat(k[(j + 1) % 8], k[j]))
    S = St(X, C, 0)
    for _ in range(4):
        S = nextstate(S)
    S.C = [T.wxor(S.C[j], S.X[(j + 4) % 8], 32) for j in range(8)]
    return S


def ivsetup(S, v):
    """v: four 16-bit words"""
    I = [cat(v[0], v[1]), cat(v[1], v[3]), cat(v[2], v[3]), cat(v[0], v[2])]
    S = St(S.X, [T.wxor(S.C[j], I[j % 4], 32) for j in range(8)], S.b)
    for _ in range(4):
        S = nextstate(S)
    return S


def output(S):
    """128-bit keystream word of state S as eight 16-bit words"""
    lo = lambda j: sl(S.X[j], 0, 16)
    hi = lambda j: sl(S.X[j], 16, 16)
    return [T.wxor(lo(0), hi(5), 16), T.wxor(hi(0), lo(3), 16), T.wxor(lo(2), hi(7), 16), T.wxor(hi(2), lo(5), 16),
            T.wxor(lo(4), hi(1), 16), T.wxor(hi(4), lo(7), 16), T.wxor(lo(6), hi(3), 16), T.wxor(hi(6), lo(1), 16)]


class Cipher:
    def __init__(self, key):
        self.M = self.S = keysetup([int.from_bytes(key[2 * i:2 * i + 2], "little") for i in range(8)])

    def iv(self, iv):
        self.S = ivsetup(self.M, [int.from_bytes(iv[2 * i:2 * i + 2], "little") for i in range(4)])

    def packet(self, data):
        out = bytearray()
        for j in range(0, len(data), 16):
            self.S = nextstate(self.S)
            ks = b"".join(w.to_bytes(2, "little") for w in output(self.S))
            out += bytes(a ^ b for a, b in zip(data[j:j + 16], ks))
        return bytes(out)
