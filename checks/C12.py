import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.induct import Spec
from vc.exec import Chained
from vc.harness import *
from vc.replay import Driver, Replay
from specs import hc128 as S

ID = "C12"
TITLE = "HC-128 keystream equals the eSTREAM specification"
SRC = "StreamCiphers/HC-128/hc128.cpp"
MODULES = [(SRC, ())]
SZ = 4096
LEVEL = "other"
LEVEL_NOTE = "hc128_initialize is proved for every key and IV. hc128_process_packet is decided for every state, key stream and data but only for the packet lengths listed in the evidence (bounded: 0..44, every tail at 512-step boundaries up to 12 kB; the step index is symbolic nowhere): BOUNDED in the length, not proved for all lengths. Trusts clang's front end, the verifier /verif/vc and z3, and the transcription of the specification."
ASSUMPTIONS = ["output and input do not overlap",
               "the library restarts the HC-128 step index with every packet: the standard's keystream is claimed for the first packet after initialisation, later packets for staying in step"]
QUICK = [list(range(0, 45)), list(range(60, 69)) + list(range(1020, 1030)), list(range(2040, 2056)), [3071, 4090, 4093], [4094, 4095], [4096, 4097], [4098, 4100],
         [6143, 6145], [8191], [8194], [10242], [12291]]
THOROUGH = [[k] for k in (12288, 12289, 12290, 16381, 16386, 20483, 32769)] + [list(range(a, a + 60)) for a in range(45, 1020, 60)]


def cases(tier):
    g = QUICK + (THOROUGH if tier == "thorough" else [])
    return ["init"] + ["packet-" + ",".join(map(str, x)) for x in sorted(g, key=lambda x: -sum(x))]


def words(obj, off, n):
    return [lew(inbytes(obj, off + 4 * i, 4)) for i in range(n)]


def flat(ws):
    return sum([wordbytes(w, 4) for w in ws], [])


def prove(key, out):
    m = build.module(SRC)
    if key != "init":
        for n in key.split("-")[1].split(","):
            packet(m, int(n), out)
        return
    C = Case([m], key)
    out.append(C)
    E = C.E
    if key == "init":
        P, Q = S.setup(words("key", 0, 4), words("iv", 0, 4))
        cs, k, i = C.obj("cs", SZ), C.obj("key", 16, ro=True), C.obj("iv", 16, ro=True)
        for st, _ in C.exits(C.call(build.find([m], "hc128_initialize"), [cs, k, i])):
            got = getbytes(st, "cs", 0, SZ)
            cmp_bytes(E, st, "state", "hc128_initialize", got, flat(P + Q))
            C.refute(st, got[0], flat(P[:1])[0])


def packet(m, n, out):
    C = Case([m], "packet-%d" % n)
    out.append(C)
    E = C.E
    P, Q = words("cs", 0, 512), words("cs", 2048, 512)
    cs, o, i = C.obj("cs", SZ), C.obj("out", n), C.obj("in", n, ro=True)
    ks = flat([S.step(P, Q, t) for t in range((n + 3) // 4)])
    for st, _ in C.exits(C.call(build.find([m], "hc128_process_packet"), [cs, o, i, n])):
        got = getbytes(st, "out", 0, n)
        cmp_bytes(E, st, "output", "hc128_process_packet", got, [T.wxor(a, b, 8) for a, b in zip(inbytes("in", 0, n), ks)])
        cmp_bytes(E, st, "state", "hc128_process_packet", getbytes(st, "cs", 0, SZ), flat(P + Q))
        C.refute(st, getbytes(st, "cs", 0, 1)[0], inbytes("in", 0, 1)[0])


def gen(rng, hints):
    sizes = list(range(0, 50)) + [100, 1000, 2047, 2048, 2049, 2052, 4095, 4096, 4097, 4100, 8193, 10243]
    hx = lambda b: b.hex() or "-"
    while True:
        for n in sizes:
            k, v = rng.randbytes(16), rng.randbytes(16)
            c, line, e = S.Cipher(k, v), [k.hex(), v.hex()], []
            for i in range(rng.choice((1, 2, 4))):
                x = rng.randbytes(n if i == 0 else rng.choice((n, rng.randrange(0, 40))))
                line.append(hx(x))
                e.append(hx(c.packet(x)))
            yield (0, " ".join(line), " ".join(e), "HC-128: key, IV, packets -> ciphertexts")
        sizes = [rng.randrange(0, 400) for _ in range(20)] + [rng.randrange(0, 9000) for _ in range(3)]


REPLAY = Replay([Driver("hc128", [SRC])], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
