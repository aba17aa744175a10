"""ChaCha20/12/8 = RFC 7539 for every key, nonce and packet length."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.harness import *
from vc.replay import Driver, Replay
from specs import chacha as S

ID = "C01"
TITLE = "ChaCha20/12/8 packet encryption equals RFC 7539 for every length"
SRC = "StreamCiphers/ChaCha/chacha.cpp"
VARIANTS = {"20": (), "12": ("-DTWELVE_ROUNDS",), "8": ("-DEIGHT_ROUNDS",)}
MODULES = [(SRC, f) for f in VARIANTS.values()]
TRUSTED = ["IEEE double arithmetic of (double)size/4 and ceil is exact below 2^53 (modelled as exact rationals)",
           "operator new returns fresh memory of the requested size"]
ASSUMPTIONS = ["packet size < 2^31 - 4 (the code keeps the length in an int)", "output and input do not overlap"]


def cases(tier):
    return ["init-%s" % v for v in VARIANTS] + ["packet-%s-%d" % (v, b) for v in VARIANTS for b in range(4)]


def prove(key, out):
    p = key.split("-")
    m = build.module(SRC, VARIANTS[p[1]])
    C = Case([m], key)
    out.append(C)
    E = C.E
    if p[0] == "init":
        cs, k, n = C.obj("cs", 64), C.obj("key", 32, ro=True), C.obj("nonce", 12, ro=True)
        for st, _ in C.exits(C.call(build.find([m], "chacha_initialize"), [cs, k, n])):
            want = []
            for w in S.CONST:
                want += wordbytes(w)
            want += inbytes("key", 0, 32) + [1, 0, 0, 0] + inbytes("nonce", 0, 12)
            got = getbytes(st, "cs", 0, 64)
            cmp_bytes(E, st, "state", key, got[:48], want[:48])
            cmp_bytes(E, st, "state", key, got[52:], want[52:])
            C.refute(st, got[16], want[16])
        return
    b = int(p[2])
    q = C.size("q", 0, (1 << 29) - 2)
    size = L.add(L.scale(q, 4), b)
    cs, o, i = C.obj("cs", 64), C.obj("out", size), C.obj("in", size, ro=True)
    outs = C.call(build.find([m], "chacha_process_packet"), [cs, o, i, size])
    s0 = [lew(inbytes("cs", 4 * i, 4)) for i in range(16)]
    cache = {}

    def want(j, n):
        if j not in cache:
            cache[j] = sum([wordbytes(w) for w in S.block(s0, T.lin_bits(L.add(j, 1), 32) if not isinstance(j, int) else j + 1, int(p[1]))], [])
        return [T.wxor(a, x, 8) for a, x in zip(cache[j], inbytes("in", L.scale(j, 64) if not isinstance(j, int) else 64 * j, n))]
    for st, _ in C.exits(outs):
        def cmp(s, e=None, parts="t"):
            cmp_stream(C, s, "out", s.objs["out"].size, 64, want, where="chacha_process_packet", parts=parts)
            got = getbytes(s, "cs", 0, 64)
            cmp_bytes(E, s, "frame", "chacha_process_packet: state", got[:48], inbytes("cs", 0, 48))
            cmp_bytes(E, s, "frame", "chacha_process_packet: state", got[52:], inbytes("cs", 52, 12))
        if "q" in st.cons.bounds:
            cmp(st, parts="f")
            splitmod(st, "q", 16, cmp)
        else:
            cmp(st)


def big(k, iv, n, rounds):
    """ciphertext of the patterned message z<n> of harness/util.h, all blocks at once"""
    import numpy as np
    nb = -(-n // 64)
    u = np.uint32
    init = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + [int.from_bytes(k[i:i + 4], "little") for i in range(0, 32, 4)]
    init = [np.full(nb, c, u) for c in init] + [np.arange(1, nb + 1, dtype=np.uint64).astype(u)]
    init += [np.full(nb, int.from_bytes(iv[i:i + 4], "little"), u) for i in range(0, 12, 4)]
    x = [c.copy() for c in init]

    def rot(v, r):
        return (v << u(r)) | (v >> u(32 - r))
    for r in range(rounds):
        for q in range(4):
            a, b, c, d = (q, 4 + q, 8 + q, 12 + q) if r % 2 == 0 else (q, 4 + (q + 1) % 4, 8 + (q + 2) % 4, 12 + (q + 3) % 4)
            x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 16)
            x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 12)
            x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 8)
            x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 7)
    ks = np.stack([v + w for v, w in zip(x, init)], axis=1).astype("<u4").reshape(-1).view(np.uint8)[:n]
    i = np.arange(n, dtype=np.uint64)
    return (ks ^ ((i * np.uint64(7) + (i >> np.uint64(8))) & np.uint64(255)).astype(np.uint8)).tobytes()


def gen(rng, hints):
    rs = [20, 12, 8]
    first = True
    sizes = list(range(0, 140)) + [255, 256, 257, 1000, 4096, 16449]
    for h in hints.get("q", ()):
        for b in range(4):
            if 4 * h + b < 200000:
                sizes.insert(0, 4 * h + b)
    while True:
        for ix, n in enumerate(sizes):
            if first and ix == 100:
                # block counters beyond 2^8 and 2^16
                first = False
                for n2 in (16449, (1 << 22) + 70):
                    k, iv = rng.randbytes(32), rng.randbytes(12)
                    yield (0, "%s %s z%d 00" % (k.hex(), iv.hex(), n2),
                           lambda k=k, iv=iv, n2=n2: big(k, iv, n2, 20).hex() + " " + S.encrypt(k, iv, bytes(1), 20).hex(),
                           "ChaCha20: key nonce packet1 packet2 (one state) -> ciphertexts")
            for d, r in enumerate(rs):
                k, iv, x = rng.randbytes(32), rng.randbytes(12), rng.randbytes(n)
                y = rng.randbytes(n // 2 + 1)
                yield (d, "%s %s %s %s" % (k.hex(), iv.hex(), x.hex() or "-", y.hex()),
                       lambda k=k, iv=iv, x=x, y=y, r=r: (S.encrypt(k, iv, x, r).hex() or "-") + " " + S.encrypt(k, iv, y, r).hex(),
                       "ChaCha%d: key nonce packet1 packet2 (one state) -> ciphertexts" % r)
        sizes = [rng.randrange(0, 3000) for _ in range(60)] + [rng.randrange(60000, 300000)]


REPLAY = Replay([Driver("chacha", [SRC], f) for f in VARIANTS.values()], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
