"""Hex encoding: two upper-case digits per byte, NUL; decoding inverts it."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.harness import *
from vc.replay import Driver, Replay

ID = "C18"
TITLE = "Hex encoding is two upper-case digits per byte and decoding inverts it"
SRC = "Encoders/Hex/encoder.cpp"
MODULES = [(SRC, ())]
TRUSTED = ["sprintf with the constant format %02X writes the two upper-case digits of a byte value and a NUL (assumed contract of the C library)"]
ASSUMPTIONS = ["sizes < 2^30 (the code keeps lengths in an int)", "output and input do not overlap"]
DIG = tuple(b"0123456789ABCDEF")


def cases(tier):
    return ["encode", "decode"]


def digit(b, hi):
    return T.wtable(DIG, T.bits(T.wslice(b, 4 if hi else 0, 4), 4), 8)


def prove(key, out):
    m = build.module(SRC)
    C = Case([m], key)
    out.append(C)
    E = C.E
    n = C.size("n", 0, (1 << 30) - 2)
    if key == "encode":
        o, i = C.obj("out", L.add(L.scale(n, 2), 1)), C.obj("in", n, ro=True)

        def want(j, k):
            b = T.varword(("m", "in", j), 8)
            return [digit(b, 1), digit(b, 0)]
        for st, _ in C.exits(C.call(build.find([m], "hex_encode"), [o, i, n])):
            tot = L.sub(st.objs["out"].size, 1)
            cmp_stream(C, st, "out", tot, 2, want, where="hex_encode")
            splitting(E, st, lambda s, sub: cmp_bytes(E, s, "output", "hex_encode: NUL", getbytes(s, "out", L.sub(s.objs["out"].size, 1), 1), [0]))
        return
    o, i = C.obj("out", n), C.obj("in", L.scale(n, 2), ro=True)
    for st, _ in C.exits(C.call(build.find([m], "hex_decode"), [o, i, L.scale(n, 2)])):
        s2 = st.copy()
        j = fresh_lin(s2)
        tot = s2.objs["out"].size
        if not (s2.cons.add("ge", L.sub(tot, L.add(j, 1))) and s2.cons.feasible()):
            continue

        def f(s, sub):
            jj = L.subst(j, sub)
            got = getbytes(s, "out", jj, 1)
            names = [("m", "in", L.add(L.scale(jj, 2), k)) for k in range(2)]
            src = T.varword("byte", 8)
            sub2 = {nm: T.bits(digit(src, k == 0), 8) for k, nm in enumerate(names)}
            g = T.substvars(got[0], 8, lambda p: sub2[p[0]][p[1]] if p[0] in sub2 else None)
            cmp_bytes(E, s, "output", "hex_decode of the digits of a byte", [g], [src])
            C.refute(s, g, src)
        splitting(E, s2, f)


def gen(rng, hints):
    first = [bytes([b]) for b in range(256)] + [b"", bytes(range(256)), bytes(range(255, -1, -1)) * 9]
    for h in hints.get("n", ()):
        if h < 100000:
            first.insert(0, rng.randbytes(h))
    while True:
        for x in first:
            yield (0, x.hex() or "-", ((x.hex().upper().encode() + b"\0").hex() + " " + (x.hex() or "-") + " " + (x.hex() or "-")),
                   "hex_encode then hex_decode of %d bytes (text, decoded, input afterwards)" % len(x))
        first = [rng.randbytes(rng.randrange(0, 300)) for _ in range(100)] + [rng.randbytes(rng.randrange(0, 70000))]


REPLAY = Replay([Driver("hex", [SRC])], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
