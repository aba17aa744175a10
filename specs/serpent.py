"""Serpent (bitslice form of the AES submission), over ints or symbolic words.
Sosemanuk uses 24 rounds of it and 25 subkeys."""
from vc import terms as T

SBOX = [[3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12], [15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4],
        [8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2], [0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14],
        [1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13], [15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1],
        [7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0], [1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6]]
LEAST = 1
PHI = 0x9E3779B9


def _anf(bits):
    a = list(bits)
    for i in range(4):
        for m in range(16):
            if m >> i & 1:
                a[m] ^= a[m ^ (1 << i)]
    return [m for m in range(16) if a[m]]


ANF = [[_anf([(v >> b) & 1 for v in S]) for b in range(4)] for S in SBOX]


def rot(w, n):
    return T.wrotl(w, n, 32)


def xor(*ws):
    r = ws[0]
    for w in ws[1:]:
        r = T.wxor(r, w, 32)
    return r


def sbox(n, x):
    """bitsliced S-box number n on four words"""
    x = [T.wname(w, 32, LEAST) if not isinstance(w, int) else w for w in x]
    mono = {0: 0xFFFFFFFF}
    for m in range(1, 16):
        low = (m & -m).bit_length() - 1
        mono[m] = x[low] if m == 1 << low else T.wand(mono[m & (m - 1)], x[low], 32)
    out = []
    for b in range(4):
        r = 0
        for m in ANF[n % 8][b]:
            r = T.wxor(r, mono[m], 32)
        out.append(r)
    return out


def lt(x):
    a, b, c, d = x
    a, c = rot(a, 13), rot(c, 3)
    b, d = xor(b, a, c), xor(d, c, T.wshl(a, 3, 32))
    b, d = rot(b, 1), rot(d, 7)
    a, c = xor(a, b, d), xor(c, d, T.wshl(b, 7, 32))
    return [rot(a, 5), b, rot(c, 22), d]


def pad(key):
    """key octets (least significant first) -> 256 bits: a one bit, then zeros"""
    key = list(key)
    if len(key) < 32:
        key = key + [1] + [0] * (31 - len(key))
    return key


def schedule(kw, n):
    """the first n subkeys (four words each) from eight key words"""
    w = list(kw)
    for i in range(4 * n):
        v = rot(xor(w[i], w[i + 3], w[i + 5], w[i + 7], PHI ^ i), 11)
        w.append(v if isinstance(v, int) else T.wname(v, 32, LEAST))
    w = w[8:]
    return [sbox((3 - i) % 8, w[4 * i:4 * i + 4]) for i in range(n)]


def sosemanuk_rounds(rk, x):
    """outputs of rounds 12 and 18 (after the linear transformation) and of the 24th
    round followed by the 25th subkey"""
    out = []
    for r in range(24):
        x = lt(sbox(r, [xor(a, k) for a, k in zip(x, rk[r])]))
        if r in (11, 17):
            out.append(x)
    out.append([xor(a, k) for a, k in zip(x, rk[24])])
    return out


def encrypt(rk, x):
    """full 32-round Serpent (used to validate the specification itself)"""
    for r in range(31):
        x = lt(sbox(r, [xor(a, k) for a, k in zip(x, rk[r])]))
    x = sbox(31, [xor(a, k) for a, k in zip(x, rk[31])])
    return [xor(a, k) for a, k in zip(x, rk[32])]


def words(bs):
    return [int.from_bytes(bs[i:i + 4], "little") for i in range(0, len(bs), 4)]
