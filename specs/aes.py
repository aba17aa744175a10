"""FIPS 197 AES-128, generic over ints and symbolic bytes (column-major byte order)."""
from vc import terms as T
from vc import intrin as I

RCON = [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x1B, 0x36]


def expand(key):
    """16 key bytes -> 11 round keys of 16 bytes"""
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    for i in range(4, 44):
        t = w[i - 1]
        if i % 4 == 0:
            t = [I.sub_byte(b) for b in t[1:] + t[:1]]
            t[0] = T.wxor(t[0], RCON[i // 4 - 1], 8)
        w.append([T.wxor(a, b, 8) for a, b in zip(w[i - 4], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(11)]


def addkey(s, k):
    return [T.wxor(a, b, 8) for a, b in zip(s, k)]


def block(rk, s, rounds=range(1, 10)):
    """rk: 11 lists of 16 bytes; s: 16 bytes"""
    s = addkey(s, rk[0])
    for r in rounds:
        s = addkey(I.mixcolumns([I.sub_byte(b) for b in I.shiftrows(s)]), rk[r])
    return addkey([I.sub_byte(b) for b in I.shiftrows(s)], rk[10])


def encrypt(key, b):
    return bytes(block(expand(list(key)), list(b)))


class CTR:
    """reference sender state: 12-byte nonce, 32-bit big-endian counter from 1"""

    def __init__(self, key, nonce):
        self.rk = expand(list(key))
        self.load_iv(nonce)

    def load_iv(self, nonce):
        self.nonce, self.c = bytes(nonce), 1

    def packet(self, data):
        out = bytearray()
        for j in range(0, len(data), 16):
            ks = block(self.rk, list(self.nonce + self.c.to_bytes(4, "big")))
            self.c = (self.c + 1) & 0xFFFFFFFF
            out += bytes(a ^ b for a, b in zip(data[j:j + 16], ks))
        return bytes(out)


class CFB:
    """CFB-128 on whole blocks"""

    def __init__(self, key, iv):
        self.rk, self.r = expand(list(key)), list(iv)

    def packet(self, data, dec):
        out = bytearray()
        for j in range(0, len(data), 16):
            b = list(data[j:j + 16])
            o = [x ^ y for x, y in zip(b, block(self.rk, self.r))]
            self.r = b if dec else o
            out += bytes(o)
        return bytes(out)
