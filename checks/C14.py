"""Sosemanuk = eSTREAM specification; IV reloads restart the cipher."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.induct import Spec
from vc.exec import Chained
from vc.harness import *
from vc.replay import Driver, Replay
from specs import serpent as P, sosemanuk as S

ID = "C14"
TITLE = "Sosemanuk keystream equals the eSTREAM specification"
SRC = ["StreamCiphers/Sosemanuk/sosemanuk.cpp", "StreamCiphers/Sosemanuk/serpent.cpp"]
MODULES = [(s, ()) for s in SRC]
ASSUMPTIONS = ["output and input do not overlap"]
RK, LF, R1, R2, SZ = 0, 400, 440, 444, 448

_n = itertools.count()


def cases(tier):
    return ["key-%d" % n for n in range(33)] + ["iv"] + ["packet-%d" % r for r in range(0, 16, 2)]


def words(obj, off, n):
    return [lew(inbytes(obj, off + 4 * i, 4)) for i in range(n)]


def flat(ws):
    return sum([wordbytes(w, 4) for w in ws], [])


def comps_of(s):
    return list(s.s) + [s.r1, s.r2]


def st_of(c):
    return S.St(c[:10], c[10], c[11])


def prove(key, out):
    ms = [build.module(s) for s in SRC]
    p = key.split("-")
    if p[0] == "packet":
        for r in range(int(p[1]), int(p[1]) + 2):
            packet("%s+%d" % (key, r), out, ms, r)
        return
    C = Case(ms, key)
    out.append(C)
    if p[0] == "key":
        n = int(p[1])
        P.LEAST = {1: 16, 2: 3}.get(n, 1)
        want = sum(P.schedule([lew(b) for b in (lambda k: [k[4 * i:4 * i + 4] for i in range(8)])(P.pad(inbytes("key", 0, n)))], 25), [])
        cs, k = C.obj("cs", SZ), C.obj("key", n, ro=True)
        for st, _ in C.exits(C.call(build.find(ms, "sosemanuk_load_key"), [cs, k, n])):
            got = getbytes(st, "cs", 0, SZ)
            cmp_bytes(C.E, st, "state", "sosemanuk_load_key (%d octet key): subkeys" % n, got[:400], flat(want))
            C.refute(st, got[0], wordbytes(want[0], 4)[0])
    else:
        rk = words("cs", RK, 100)
        want = S.ivsetup([rk[4 * i:4 * i + 4] for i in range(25)], words("iv", 0, 4))
        cs, k = C.obj("cs", SZ), C.obj("iv", 16, ro=True)
        for st, _ in C.exits(C.call(build.find(ms, "sosemanuk_load_iv"), [cs, k])):
            got = getbytes(st, "cs", 0, SZ)
            cmp_bytes(C.E, st, "state", "sosemanuk_load_iv: subkeys unchanged", got[:LF], inbytes("cs", 0, LF))
            cmp_bytes(C.E, st, "state", "sosemanuk_load_iv: LFSR and registers", got[LF:], flat(comps_of(want)))
            C.refute(st, got[LF], wordbytes(want.s[0], 4)[0])


def off(j):
    return 16 * j if isinstance(j, int) else L.scale(j, 16)


def packet(key, out, ms, r):
    """from any state: out = in xor keystream of the successive four-step blocks"""
    C = Case(ms, key)
    out.append(C)
    E = C.E
    q = C.size("q", 0, 1 << 59)
    size = L.add(L.scale(q, 16), r)
    cs, o, i = C.obj("cs", SZ), C.obj("out", size), C.obj("in", size, ro=True)
    start = words("cs", LF, 12)
    spec = Spec("sosemanuk%d" % next(_n), [32] * 12, start, lambda s, pos, E, st: comps_of(S.block(st_of(s))[0]), strides=(1, 2, 4))
    E.specs.append(spec)
    ch = Chained(spec, E, C.st)

    def ks(j):
        return flat(S.block(st_of(ch(j) if isinstance(j, int) else spec.atoms(j)))[1])
    S.block(st_of(start))
    for st, _ in C.exits(C.call(build.find(ms, "sosemanuk_process_packet"), [cs, o, i, size])):
        cmp_stream(C, st, "out", st.objs["out"].size, 16, lambda j, n: [T.wxor(a, b, 8) for a, b in zip(inbytes("in", off(j), n), ks(j))],
                   where="sosemanuk_process_packet")
        splitting(E, st, lambda s, sub: cmp_bytes(E, s, "state", "sosemanuk_process_packet: subkeys", getbytes(s, "cs", 0, LF), inbytes("cs", 0, LF)))


def gen(rng, hints):
    sizes = list(range(0, 50)) + [63, 64, 65, 100, 255, 256, 257, 1000]
    for h in hints.get("q", ()):
        for b in range(16):
            if 16 * h + b < 100000:
                sizes.insert(0, 16 * h + b)
    hx = lambda b: b.hex() or "-"
    while True:
        for n in sizes:
            k = rng.randbytes(rng.choice((16, 32, rng.randrange(33))))
            c, line, e = S.Cipher(k), [hx(k)], []
            for i in range(rng.choice((1, 2, 4))):
                v = rng.randbytes(16)
                c.iv(v)
                line.append("i" + v.hex())
                x = rng.randbytes(rng.choice((n, n, rng.randrange(0, 40))))
                line.append(hx(x))
                e.append(hx(c.packet(x)))
            yield (0, " ".join(line), " ".join(e), "Sosemanuk: key, then i<IV> and a packet each -> ciphertexts")
        sizes = [rng.randrange(0, 400) for _ in range(60)]


REPLAY = Replay([Driver("sosemanuk", SRC)], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
