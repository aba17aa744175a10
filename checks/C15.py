"""Serpent key schedule and rounds = Serpent specification (the reduced form built here for Sosemanuk)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T
from vc.harness import *
from vc.replay import Driver, Replay
from specs import serpent as S

ID = "C15"
TITLE = "Serpent key schedule and block encryption equal the Serpent specification"
SRCS = {"block": "BlockCiphers/Serpent/serpent.cpp", "sose": "StreamCiphers/Sosemanuk/serpent.cpp"}
MODULES = [(s, ()) for s in SRCS.values()]
ASSUMPTIONS = ["input and output do not overlap",
               "the header defines SOSEMANUK_H unconditionally, so rounds 24 to 31 of full Serpent and its subkeys 25 to 32 are not compiled and not covered"]
NRK = 25


def cases(tier):
    return ["%s-%s" % (f, k) for f in SRCS for k in ["rounds", "serpent1"] + ["key-%d" % n for n in range(33)]]


def lewords(bs):
    return [lew(bs[i:i + 4]) for i in range(0, len(bs), 4)]


def flat(ws):
    return sum([wordbytes(w, 4) for w in ws], [])


def prove(key, out):
    p = key.split("-")
    m = build.module(SRCS[p[0]])
    C = Case([m], key)
    out.append(C)
    if p[1] == "key":
        n = int(p[2])
        S.LEAST = {1: 16, 2: 3}.get(n, 1)
        want = sum(S.schedule(lewords(S.pad(inbytes("key", 0, n))), NRK), [])
        cs, k = C.obj("cs", 16 * NRK), C.obj("key", n, ro=True)
        for st, _ in C.exits(C.call(build.find([m], "serpent_key_schedule"), [cs, k, n])):
            got = getbytes(st, "cs", 0, 16 * NRK)
            cmp_bytes(C.E, st, "subkeys", "serpent_key_schedule (%d octet key)" % n, got, flat(want))
            C.refute(st, got[0], wordbytes(want[0], 4)[0])
    elif p[1] == "rounds":
        rk = lewords(inbytes("cs", 0, 16 * NRK))
        want = sum(S.sosemanuk_rounds([rk[4 * i:4 * i + 4] for i in range(NRK)], lewords(inbytes("in", 0, 16))), [])
        cs, o, i = C.obj("cs", 16 * NRK, ro=True), C.obj("out", 48), C.obj("in", 16, ro=True)
        for st, _ in C.exits(C.call(build.find([m], "serpent_process_packet"), [cs, o, i, 16])):
            got = getbytes(st, "out", 0, 48)
            cmp_bytes(C.E, st, "output", "serpent_process_packet: rounds 12, 18, 24", got, flat(want))
            C.refute(st, got[0], wordbytes(want[0], 4)[0])
    else:
        want = S.sbox(2, [lew(inbytes("r%d" % i, 0, 4)) for i in range(4)])
        ps = [C.obj("r%d" % i, 4) for i in range(4)]
        for st, _ in C.exits(C.call(build.find([m], "serpent1"), ps)):
            for i in range(4):
                got = getbytes(st, "r%d" % i, 0, 4)
                cmp_bytes(C.E, st, "output", "serpent1 word %d" % i, got, wordbytes(want[i], 4))
                C.refute(st, got[0], wordbytes(want[i], 4)[0])


def gen(rng, hints):
    while True:
        for n in list(range(33)):
            k = rng.randbytes(n) if rng.random() < 0.9 else bytes([rng.choice((0, 255))] * n)
            x = rng.randbytes(16)
            w = S.words(rng.randbytes(16))
            rk = S.schedule(S.words(bytes(S.pad(k))), NRK)
            b = lambda ws: b"".join(v.to_bytes(4, "little") for v in ws).hex()
            for d in (0, 1):
                yield (d, "%s %s %s" % (k.hex() or "-", x.hex(), b(w)),
                       "%s %s %s" % (b(sum(rk, [])), b(sum(S.sosemanuk_rounds(rk, S.words(x)), [])), b(S.sbox(2, w))),
                       "Serpent: key, block, words for serpent1 -> subkeys, outputs of rounds 12, 18 and 24, S2 of the words")


REPLAY = Replay([Driver("serpent", [s]) for s in SRCS.values()], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
