"""AEGIS-128 (CAESAR submission v1.1), generic over ints and symbolic bytes."""
from vc import terms as T
from vc import intrin as I

C0 = list(bytes.fromhex("000101020305080d1522375990e97962"))
C1 = list(bytes.fromhex("db3d18556dc22ff12011314273b528dd"))


def xor(*xs):
    r = list(xs[0])
    for x in xs[1:]:
        r = [T.wxor(a, b, 8) for a, b in zip(r, x)]
    return r


def aesround(s, k):
    return xor(I.mixcolumns([I.sub_byte(b) for b in I.shiftrows(s)]), k)


def update(S, m):
    """S: five lists of 16 bytes, m: 16 bytes"""
    return [aesround(S[4], xor(S[0], m))] + [aesround(S[i - 1], S[i]) for i in range(1, 5)]


def init(key, iv, update=update):
    ki = xor(key, iv)
    S = [ki, C1, C0, xor(key, C0), xor(key, C1)]
    for i in range(5):
        S = update(S, key)
        S = update(S, ki)
    return S


def ks(S):
    return xor(S[1], S[4], [T.wand(a, b, 8) for a, b in zip(S[2], S[3])])


def tag(S, lens, update=update):
    """lens: 16 bytes = bit lengths of associated data and message, 64-bit little-endian each"""
    m = xor(S[3], lens)
    for _ in range(7):
        S = update(S, m)
    return xor(*S)


def pad(b):
    return list(b) + [0] * (-len(b) % 16)


def encrypt(key, iv, ad, pt):
    S = init(list(key), list(iv))
    for j in range(0, len(ad), 16):
        S = update(S, pad(ad[j:j + 16]))
    ct = bytearray()
    for j in range(0, len(pt), 16):
        b = list(pt[j:j + 16])
        ct += bytes(x ^ y for x, y in zip(b, ks(S)))
        S = update(S, pad(b))
    return bytes(ct), bytes(tag(S, list((8 * len(ad)).to_bytes(8, "little") + (8 * len(pt)).to_bytes(8, "little"))))


def decrypt(key, iv, ad, ct):
    """-> plaintext and the tag it should carry"""
    S = init(list(key), list(iv))
    for j in range(0, len(ad), 16):
        S = update(S, pad(ad[j:j + 16]))
    pt = bytearray()
    for j in range(0, len(ct), 16):
        b = [x ^ y for x, y in zip(ct[j:j + 16], ks(S))]
        pt += bytes(b)
        S = update(S, pad(b))
    return bytes(pt), bytes(tag(S, list((8 * len(ad)).to_bytes(8, "little") + (8 * len(ct)).to_bytes(8, "little"))))
