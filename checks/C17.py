"""DES counter mode: block i is the data XOR DES(counter block + i)."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.induct import Spec
from vc.exec import Chained
from vc.harness import *
from vc.replay import Driver, Replay
from specs import des as S
from checks import C16

ID = "C17"
TITLE = "DES counter mode uses a fresh keystream block per block and inverts"
SRC = C16.SRC
MODULES = [(SRC, ())]
ASSUMPTIONS = C16.ASSUMPTIONS + [
    "the counter block is the first 64 bits of the nonce, high word first, incremented modulo 2^64 (the code as repaired; the interface does not document it)",
    "recovery follows: the XOR mask is proved independent of the data, so applying the function twice gives the data back"]
words, flat = C16.words, C16.flat
_n = itertools.count()


def cases(tier):
    return ["packet", "fresh"]


def step(s, pos, E, st):
    lo = T.wadd(s[1], 1, 32)
    z = T.weq(lo, 0, 32)
    return [T.wadd(s[0], z if z <= 1 else T.norm((z,) + (0,) * 31), 32), lo]


def prove(key, out):
    T.LUTAFFINE = False
    m = build.module(SRC)
    C = Case([m], key)
    out.append(C)
    E = C.E
    des = S.Cipher(words("key", 0, 2))
    if key == "fresh":
        # lemma over the specification: counter blocks i and j differ whenever i != j modulo 2^64
        C.paths += 1
        n, i, j = (T.varword(x, 64) for x in "nij")
        d = T.weq(i, j, 64)
        same = T.weq(T.wadd(n, i, 64), T.wadd(n, j, 64), 64)
        cmp_bytes(E, C.st, "lemma", "counter blocks of different indices differ", [T.norm((same,) + (0,) * 7)], [T.norm((d,) + (0,) * 7)])
        C.refute(C.st, T.norm((same,) + (0,) * 7), T.norm((d,) + (0,) * 7))
        return
    size = L.scale(C.size("q", 0, 1 << 59), 8)
    cs, k, o, i, nn = C.obj("cs", 128), C.obj("key", 8, ro=True), C.obj("out", size), C.obj("in", size, ro=True), C.obj("nonce", 12, ro=True)
    spec = Spec("desctr%d" % next(_n), [32, 32], words("nonce", 0, 2), step, strides=(1, 2, 4))
    E.specs.append(spec)
    ch = Chained(spec, E, C.st)
    cache = {}

    def want(j, n):
        off = 8 * j if isinstance(j, int) else L.scale(j, 8)
        c = ch(j) if isinstance(j, int) else spec.atoms(j)
        kk = tuple(c)
        if kk not in cache:
            cache[kk] = flat(des.words(list(c)))
        return [T.wxor(a, b, 8) for a, b in zip(inbytes("in", off, n), cache[kk])]
    for st, _ in C.exits(C.call(build.find([m], "des_key_schedule_encrypt"), [cs, k])):
        C.st = st
        subkeys = getbytes(st, "cs", 0, 128)
        for st, _ in C.exits(C.call(build.find([m], "des_process_packet_ctr"), [cs, o, i, nn, size])):
            cmp_stream(C, st, "out", st.objs["out"].size, 8, want, where="des_process_packet_ctr")
            splitting(E, st, lambda s, sub: cmp_bytes(E, s, "state", "des_process_packet_ctr keeps the subkeys", getbytes(s, "cs", 0, 128), subkeys))


def gen(rng, hints):
    sizes = [1, 2, 3, 0, 4, 5, 9, 33]
    for h in hints.get("q", ()):
        if h < 5000:
            sizes.insert(0, h)
    while True:
        for n in sizes:
            k, x = rng.randbytes(8), rng.randbytes(8 * n)
            iv = rng.randbytes(12)
            t = rng.randrange(6)
            if t == 0:
                iv = iv[:4] + (2 ** 32 - rng.randrange(1, 4)).to_bytes(4, "little") + iv[8:]
            elif t == 1:
                iv = b"\xff" * 4 + (2 ** 32 - rng.randrange(1, 4)).to_bytes(4, "little") + iv[8:]
            kw = [int.from_bytes(k[:4], "little"), int.from_bytes(k[4:], "little")]
            e = S.Cipher(kw).ctr(x, iv)
            yield (0, "C %s %s %s" % (k.hex(), iv.hex(), x.hex() or "-"), "%s %s" % (e.hex() or "-", x.hex() or "-"),
                   "DES-CTR: key, 12 octet nonce, data -> encrypted, and encrypted again")
        sizes = [rng.randrange(0, 20) for _ in range(60)]


REPLAY = Replay([Driver("des", [SRC])], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
