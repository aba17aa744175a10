"""HC-128 (eSTREAM portfolio specification), over ints or symbolic words."""
from vc import terms as T


def rotr(x, n):
    return T.wrotl(x, 32 - n, 32)


def rotl(x, n):
    return T.wrotl(x, n, 32)


def add(*ws):
    r = ws[0]
    for w in ws[1:]:
        r = T.wadd(r, w, 32)
    return r


def xor(*ws):
    r = ws[0]
    for w in ws[1:]:
        r = T.wxor(r, w, 32)
    return r


def f1(x):
    return xor(rotr(x, 7), rotr(x, 18), T.wlshr(x, 3, 32))


def f2(x):
    return xor(rotr(x, 17), rotr(x, 19), T.wlshr(x, 10, 32))


def g1(x, y, z):
    return add(xor(rotr(x, 10), rotr(z, 23)), rotr(y, 8))


def g2(x, y, z):
    return add(xor(rotl(x, 10), rotl(z, 23)), rotl(y, 8))


def sel(t, i):
    return t[i] if isinstance(i, int) else T.wselect(tuple(t[:256]), T.bits(i, 8), 32)


def h(t, x):
    return add(sel(t[:256], T.wslice(x, 0, 8)), sel(t[256:], T.wslice(x, 16, 8)))


def update(P, Q, j, g):
    return add(P[j], g(P[(j - 3) % 512], P[(j - 10) % 512], P[(j - 511) % 512]))


def setup(key, iv):
    """key, iv: four words each -> (P, Q)"""
    W = list(key) * 2 + list(iv) * 2
    for i in range(16, 1280):
        W.append(add(f2(W[i - 2]), W[i - 7], f1(W[i - 15]), W[i - 16], i))
    P, Q = W[256:768], W[768:1280]
    for j in range(512):
        P[j] = xor(update(P, Q, j, g1), h(Q, P[(j - 12) % 512]))
    for j in range(512):
        Q[j] = xor(update(Q, P, j, g2), h(P, Q[(j - 12) % 512]))
    return P, Q


def step(P, Q, i):
    """in place; the keystream word of step i"""
    j = i % 512
    if i % 1024 < 512:
        P[j] = update(P, Q, j, g1)
        return xor(h(Q, P[(j - 12) % 512]), P[j])
    Q[j] = update(Q, P, j, g2)
    return xor(h(P, Q[(j - 12) % 512]), Q[j])


def words(b):
    return [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]


class Cipher:
    def __init__(self, key, iv):
        self.P, self.Q = setup(words(key), words(iv))

    def packet(self, data):
        """the step counter starts again with every packet, as in the library"""
        out = bytearray()
        for i in range((len(data) + 3) // 4):
            ks = step(self.P, self.Q, i).to_bytes(4, "little")
            out += bytes(a ^ b for a, b in zip(data[4 * i:4 * i + 4], ks))
        return bytes(out)
