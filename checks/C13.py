"""Rabbit = RFC 4503, IV reloads independent of history."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.induct import Spec
from vc.exec import Chained
from vc.harness import *
from vc.replay import Driver, Replay
from specs import rabbit as S

ID = "C13"
TITLE = "Rabbit keystream equals RFC 4503, and IV reloads are independent"
SRC = "StreamCiphers/Rabbit/rabbit.cpp"
MODULES = [(SRC, ())]
ASSUMPTIONS = ["output and input do not overlap", "the state was set up by rabbit_load_key (the carries it stores are 0 or 1: proved for both loading functions)"]
MX, MC, X, CC, B, MB, SZ = 0, 32, 64, 96, 128, 129, 132

_n = itertools.count()


def cases(tier):
    return ["key", "iv"] + ["packet-%d" % r for r in range(0, 16, 2)]


def words(obj, off):
    return [lew(inbytes(obj, off + 4 * i, 4)) for i in range(8)]


def half(bs):
    return [lew(bs[2 * i:2 * i + 2]) for i in range(len(bs) // 2)]


def flat(ws, n=4):
    return sum([wordbytes(w, n) for w in ws], [])


def state(C, name="cs"):
    """any state whose carries are 0 or 1"""
    p = C.obj(name, SZ)
    for off in (B, MB):
        C.poke(name, off, 1, T.wzext(T.varword(("bit", name, off), 1), 1, 8))
    return p


def carry(name="cs", off=B):
    return T.varword(("bit", name, off), 1)


def byte(b):
    return T.wzext(b, 1, 8)


def cmp_state(C, st, where, want, what="working"):
    got = getbytes(st, "cs", 0, SZ)
    x, c, b = (X, CC, B) if what == "working" else (MX, MC, MB)
    cmp_bytes(C.E, st, "state", where + ": " + what + " X", got[x:x + 32], flat(want.X))
    cmp_bytes(C.E, st, "state", where + ": " + what + " counters", got[c:c + 32], flat(want.C))
    cmp_bytes(C.E, st, "state", where + ": " + what + " carry", got[b:b + 1], [byte(want.b)])
    C.refute(st, got[x], wordbytes(want.X[0])[0])


def master():
    return S.St(words("cs", MX), words("cs", MC), carry(off=MB))


def prove(key, out):
    m = build.module(SRC)
    p = key.split("-")
    if p[0] == "packet":
        for r in range(int(p[1]), int(p[1]) + 2):
            packet("%s+%d" % (key, r), out, m, r)
        return
    C = Case([m], key)
    out.append(C)
    if key == "key":
        cs, k = C.obj("cs", SZ), C.obj("key", 16, ro=True)
        want = S.keysetup(half(inbytes("key", 0, 16)))
        for st, _ in C.exits(C.call(build.find([m], "rabbit_load_key"), [cs, k])):
            cmp_state(C, st, "rabbit_load_key", want)
            cmp_state(C, st, "rabbit_load_key", want, "master")
    else:
        cs, k = state(C), C.obj("iv", 8, ro=True)
        want = S.ivsetup(master(), half(inbytes("iv", 0, 8)))
        for st, _ in C.exits(C.call(build.find([m], "rabbit_load_iv"), [cs, k])):
            cmp_state(C, st, "rabbit_load_iv", want)
            cmp_state(C, st, "rabbit_load_iv", master(), "master")


def st_of(comps):
    return S.St(comps[:8], comps[8:16], comps[16])


def comps_of(s):
    return list(s.X) + list(s.C) + [s.b]


def off(j):
    return 16 * j if isinstance(j, int) else L.scale(j, 16)


def packet(key, out, m, r):
    C = Case([m], key)
    out.append(C)
    E = C.E
    q = C.size("q", 0, 1 << 59)
    size = L.add(L.scale(q, 16), r)
    cs, o, i = state(C), C.obj("out", size), C.obj("in", size, ro=True)
    name = "rabbit%d" % next(_n)
    spec = Spec(name, [32] * 16 + [1], comps_of(S.St(words("cs", X), words("cs", CC), carry())),
                lambda s, pos, E, st: comps_of(S.nextstate(st_of(s))), strides=(1, 2, 4))
    E.specs.append(spec)
    ch = Chained(spec, E, C.st)

    def at(j):
        return ch(j) if isinstance(j, int) else spec.atoms(j)

    def ks(j):
        return flat(S.output(S.nextstate(st_of(at(j)))), 2)
    for st, _ in C.exits(C.call(build.find([m], "rabbit_process_packet"), [cs, o, i, size])):
        cmp_stream(C, st, "out", st.objs["out"].size, 16, lambda j, n: [T.wxor(a, b, 8) for a, b in zip(inbytes("in", off(j), n), ks(j))], where="rabbit_process_packet")

        def f(s, sub):
            nb = L.floordiv(L.sub(s.objs["out"].size, r), 16)
            pos, comps = s.ghost.get(name, (0, spec.start))
            d = L.sub(nb, pos)
            if not isinstance(d, int) or not 0 <= d <= 64:
                raise Unsupported("block count mismatch %r" % (d,))
            w = st_of(comps)
            for _ in range(d + (1 if r else 0)):
                w = S.nextstate(w)
            cmp_state(C, s, "rabbit_process_packet: state afterwards", w)
            cmp_state(C, s, "rabbit_process_packet", master(), "master")
        splitting(E, st, f)


def gen(rng, hints):
    sizes = list(range(0, 50)) + [63, 64, 65, 100, 255, 256, 257, 1000]
    for h in hints.get("q", ()):
        for b in range(16):
            if 16 * h + b < 100000:
                sizes.insert(0, 16 * h + b)
    hx = lambda b: b.hex() or "-"
    while True:
        for n in sizes:
            k = rng.randbytes(16) if rng.random() < 0.8 else bytes(rng.choice((0, 255)) for _ in range(16))
            c, line, e = S.Cipher(k), [k.hex()], []
            for i in range(rng.choice((1, 3, 6))):
                if rng.random() < 0.6:
                    v = rng.randbytes(8)
                    c.iv(v)
                    line.append("i" + v.hex())
                x = rng.randbytes(rng.choice((n, n, rng.randrange(0, 40))))
                line.append(hx(x))
                e.append(hx(c.packet(x)))
            yield (0, " ".join(line), " ".join(e), "Rabbit: key, then i<IV> and packets -> ciphertexts")
        sizes = [rng.randrange(0, 400) for _ in range(60)]


REPLAY = Replay([Driver("rabbit", [SRC])], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
