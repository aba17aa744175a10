"""RFC 1321 MD5, generic over ints and symbolic words."""
import math

from vc import terms as T

K = [int(abs(math.sin(i + 1)) * 4294967296) & 0xFFFFFFFF for i in range(64)]
SH = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4
H0 = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476]


def compress(H, X):
    a, b, c, d = H
    for i in range(64):
        if i < 16:
            f, g = T.wor(T.wand(b, c, 32), T.wand(T.wnot(b, 32), d, 32), 32), i
        elif i < 32:
            f, g = T.wor(T.wand(b, d, 32), T.wand(c, T.wnot(d, 32), 32), 32), (5 * i + 1) % 16
        elif i < 48:
            f, g = T.wxor(T.wxor(b, c, 32), d, 32), (3 * i + 5) % 16
        else:
            f, g = T.wxor(c, T.wor(b, T.wnot(d, 32), 32), 32), (7 * i) % 16
        s = T.wadd(T.wadd(T.wadd(a, f, 32), X[g], 32), K[i], 32)
        a, d, c, b = d, c, b, T.wadd(b, T.wrotl(s, SH[i], 32), 32)
    return [T.wadd(x, y, 32) for x, y in zip(H, (a, b, c, d))]


def md5(msg):
    n = len(msg)
    p = msg + b"\x80" + b"\0" * ((55 - n) % 64) + ((8 * n) & ((1 << 64) - 1)).to_bytes(8, "little")
    H = H0
    for i in range(0, len(p), 64):
        H = compress(H, [int.from_bytes(p[i + 4 * t:i + 4 * t + 4], "little") for t in range(16)])
    return b"".join(int(x).to_bytes(4, "little") for x in H)
