"""RFC 7539 ChaCha block function (section 2.3), generic over ints and symbolic words."""
from vc import terms as T

CONST = (0x61707865, 0x3320646E, 0x79622D32, 0x6B206574)


def rounds(x, n):
    x = list(x)

    def qr(a, b, c, d):
        x[a] = T.wadd(x[a], x[b], 32)
        x[d] = T.wrotl(T.wxor(x[d], x[a], 32), 16, 32)
        x[c] = T.wadd(x[c], x[d], 32)
        x[b] = T.wrotl(T.wxor(x[b], x[c], 32), 12, 32)
        x[a] = T.wadd(x[a], x[b], 32)
        x[d] = T.wrotl(T.wxor(x[d], x[a], 32), 8, 32)
        x[c] = T.wadd(x[c], x[d], 32)
        x[b] = T.wrotl(T.wxor(x[b], x[c], 32), 7, 32)
    for _ in range(n // 2):
        qr(0, 4, 8, 12)
        qr(1, 5, 9, 13)
        qr(2, 6, 10, 14)
        qr(3, 7, 11, 15)
        qr(0, 5, 10, 15)
        qr(1, 6, 11, 12)
        qr(2, 7, 8, 13)
        qr(3, 4, 9, 14)
    return x


def block(state, counter, n):
    """16 state words -> 16 keystream words"""
    s = list(state)
    s[12] = counter
    return [T.wadd(a, b, 32) for a, b in zip(rounds(s, n), s)]


def encrypt(key, nonce, data, n=20, counter=1):
    """concrete RFC 7539 encryption (nonce 12 bytes)"""
    w = lambda b: [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]
    st = list(CONST) + w(key) + [0] + w(nonce)
    out = bytearray()
    for j in range(0, len(data), 64):
        ks = b"".join(int(x).to_bytes(4, "little") for x in block(st, (counter + j // 64) & 0xFFFFFFFF, n))
        out += bytes(a ^ b for a, b in zip(data[j:j + 64], ks))
    return bytes(out)
