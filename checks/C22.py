"""Stream ciphers: mask and next state never depend on the data."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.induct import Spec
from vc.exec import Unsupported
from vc.harness import *
from vc.replay import Driver, Replay
from checks import C06

ID = "C22"
TITLE = "Stream-cipher packets decrypt with an identically keyed receiver, always"
LEVEL = "other"
LEVEL_NOTE = "Non-interference of the packet data is proved for every state, data and packet length for ChaCha, Rabbit, Sosemanuk and the five AES-CTR builds; for HC-128 it is decided for every state and data but only for the packet lengths listed in the evidence (BOUNDED in the length). Trusts clang's front end, the verifier /verif/vc and z3."
D = "StreamCiphers/"
CH, RB, SO = D + "ChaCha/chacha.cpp", D + "Rabbit/rabbit.cpp", [D + "Sosemanuk/sosemanuk.cpp", D + "Sosemanuk/serpent.cpp"]
HC = D + "HC-128/hc128.cpp"
# name: (sources with flags, function, size of the state, block, extract a step?, largest number of blocks)
CIPHERS = {"chacha20": ([(CH, ())], "chacha_process_packet", 64, 64, False, (1 << 29) - 2),
           "chacha12": ([(CH, ("-DTWELVE_ROUNDS",))], "chacha_process_packet", 64, 64, False, (1 << 29) - 2),
           "chacha8": ([(CH, ("-DEIGHT_ROUNDS",))], "chacha_process_packet", 64, 64, False, (1 << 29) - 2),
           "rabbit": ([(RB, ())], "rabbit_process_packet", 132, 16, True, 1 << 59),
           "sosemanuk": ([(x, ()) for x in SO], "sosemanuk_process_packet", 448, 16, True, 1 << 59)}
for _b, _m in C06.BUILDS.items():
    CIPHERS["aesctr_" + _b] = ([_m], "aes_ctr_process_packet", 192, 16, False, (1 << 27) - 1)
MODULES = [m for c in CIPHERS.values() for m in c[0]] + [(HC, ())]
TRUSTED = C06.TRUSTED + ["IEEE double arithmetic of ChaCha's block count is exact below 2^53 (modelled as exact rationals)"]
ASSUMPTIONS = ["output and input do not overlap", "ChaCha packets shorter than 2^30, AES-CTR packets shorter than 2^31 - 16 bytes",
               "recovery follows from non-interference: with equal states both sides apply the same mask and reach equal states, and x ^ m ^ m = x"]
HCSIZES = [list(range(0, 24)), [61, 63, 1027, 2047, 2048], [2051, 4095], [4096], [4101]]
_n = itertools.count()


def cases(tier):
    r = ["hc128-" + ",".join(map(str, x)) for x in HCSIZES[::-1]]
    for c, (_, _, _, B, _, _) in CIPHERS.items():
        r += ["%s-%d" % (c, b) for b in (range(4) if B == 64 else range(0, 16, 4))]
    return r


def okname(n):
    """may the mask or the next state depend on this atom?"""
    if isinstance(n, tuple) and n:
        if n[0] in ("m", "bit"):
            return n[1] == "cs" and n[2] not in DEAD or str(n[1]).startswith("@")
        return n[0] == "S"
    return False


PURE = set()      # nodes whose whole support is allowed
# state bytes that nothing may depend on (and that may therefore end up with anything): ChaCha's block counter is
# set at the start of every packet, so what a packet leaves there is immaterial
DEAD = ()


def foreign(word):
    out, seen = set(), set()
    st = [l >> 1 for l in (T.bits(word, 8) if isinstance(word, int) else word)]
    ws = set()
    while st:
        n = st.pop()
        if n in seen or n in PURE:
            continue
        seen.add(n)
        k = T.kind[n]
        if k == T.K_VAR:
            if not okname(T.args[n][0]):
                out.add(T.args[n][0])
        elif k in (T.K_XOR, T.K_AND):
            st.extend([x >> 1 for x in T.args[n]])
        elif k == T.K_WB:
            wn = T.args[n][0]
            if wn not in ws:
                ws.add(wn)
                st.extend([x >> 1 for x in T.wdeps(wn)])
    if not out:
        PURE.update(seen)
    return out


def pure(E, st, kind, where, what, v):
    """obligation: the byte v is a function of the state and the length only"""
    E.ob(kind)
    f = foreign(v)
    if not f:
        return
    v2 = T.substvars(v, 8, lambda p: T.var((("other", p[0]), p[1])) if p[0] in f else None)
    if not E.equal(v, v2, 8, st):
        E.fail(kind, where, "%s depends on %s" % (what, sorted(map(str, f))[0][:60]), st)


def step_of(ms, fn, SZ, n):
    """the code's own state transition for a packet of n bytes: comps [(offset, bytes)] and their next values, or None"""
    C = Case(ms, "step")
    a = [C.obj("cs", SZ), C.obj("out", n), C.obj("in", n, ro=True), n]
    try:
        ex = [st for st, _ in C.call(fn, a) if st.cons.feasible()]
        if len(ex) != 1 or ex[0].dcond:
            return None
        new = getbytes(ex[0], "cs", 0, SZ)
    except Exception:
        return None
    old = inbytes("cs", 0, SZ)
    comps = []
    for i in range(0, SZ, 4):
        d = [k for k in range(min(4, SZ - i)) if T.bits(new[i + k], 8) != T.bits(old[i + k], 8)]
        if len(d) == 1 and d[0] == 0 and i + 4 >= SZ:
            comps.append((i, 1))
        elif d:
            comps.append((i, min(4, SZ - i)))
    nxt = [T.wconcat([(b, 8) for b in new[o:o + k]]) for o, k in comps]
    if any(foreign(b) for b in new):
        return None
    return comps, nxt


def prove(key, out):
    global DEAD
    c, r = key.split("-")
    if c == "hc128":
        m = build.module(HC)
        for n in map(int, r.split(",")):
            one(key, out, [m], "hc128_process_packet", 4096, n, n, max(n, 1), None)
        return
    srcs, fname, SZ, B, ext, top = CIPHERS[c]
    if B == 64:
        DEAD = range(48, 52)
    ms = [build.module(*s) for s in srcs]
    fn = build.find(ms, fname)
    steps = [None]
    if ext:
        steps = [s for s in (step_of(ms, fn, SZ, 1), step_of(ms, fn, SZ, B)) if s] or [None]
    for b in range(int(r), int(r) + (4 if B == 16 else 1)):
        for k, s in enumerate(steps):
            t = []
            last = k == len(steps) - 1
            try:
                one("%s+%d" % (c, b), t, ms, fname, SZ, None, b, B, s, top)
            except Exception:
                if last:
                    out.extend(t)
                    raise
                continue
            if last or not t[0].E.fails:
                out.extend(t)
                break


def one(name, out, ms, fname, SZ, n, b, B, step, top=0):
    C = Case(ms, name)
    out.append(C)
    E = C.E
    unit = 4 if B == 64 else B      # ChaCha: the code's loop counts words
    size = n if n is not None else L.add(L.scale(C.size("q", 0, top), unit), b)
    cs, o, i = C.obj("cs", SZ), C.obj("out", size), C.obj("in", size, ro=True)
    if step:
        comps, nxt = step
        start = [lew(inbytes("cs", x, k)) for x, k in comps]
        pos = {("m", "cs", x + j): (c, 8 * j) for c, (x, k) in enumerate(comps) for j in range(k)}
        widths = [8 * k for _, k in comps]

        def go(s, p, E, st):
            sb = [T.bits(v, w) for v, w in zip(s, widths)]
            memo, wmemo = {}, {}

            def leaf(kind, q):
                if kind == "var" and q[0] in pos:
                    c, d = pos[q[0]]
                    return sb[c][d + q[1]]
            return [T.norm(tuple(T.rebuild(T.bits(v, w), leaf, memo, wmemo))) for v, w in zip(nxt, widths)]
        E.specs.append(Spec("own%d" % next(_n), widths, start, go, strides=(1, 2)))
    for st, _ in C.exits(C.call(build.find(ms, fname), [cs, o, i, size])):
        if unit != B and "q" in st.cons.bounds:
            judge(C, st, fname, SZ, B, n, "f")
            splitmod(st, "q", B // unit, lambda s, e: judge(C, s, fname, SZ, B, n, "t"))
        else:
            judge(C, st, fname, SZ, B, n)


def judge(C, st, fname, SZ, B, n, parts="ft"):
    E = C.E
    for d in st.dcond:
        E.ob("branch")
        if foreign((d,) if isinstance(d, int) else d):
            E.fail("branch", fname, "a branch depends on the packet", st)

    def f(s, sub):
        for k, v in enumerate(getbytes(s, "cs", 0, SZ)):
            if k not in DEAD:
                pure(E, s, "state", fname + ": state afterwards", "byte %d of the state" % k, v)
    if "t" in parts:
        splitting(E, st, f)
    total = st.objs["out"].size

    def block(s0, jj, cnt):
        def f(s, sb):
            j = L.subst(jj, sb) if not isinstance(jj, int) else jj
            off = j * B if isinstance(j, int) else L.scale(j, B)
            for k, (g, x) in enumerate(zip(getbytes(s, "out", off, cnt), inbytes("in", off, cnt))):
                pure(E, s, "mask", fname + ": mask", "mask byte %d of the block" % k, T.wxor(g, x, 8))
                if k == 0:
                    C.refute(s, g, x)
        splitting(E, s0, f)
    if parts == "f":
        q = rr = None
    elif isinstance(total, int):
        q, rr = divmod(total, B)
    else:
        rr = total.c % B
        q = L.floordiv(L.sub(total, rr), B)
    if q != 0 and "f" in parts:
        if isinstance(q, int) and n is not None:
            for j in range(q):
                block(st.copy(), j, B)
        else:
            s2 = st.copy()
            jj = fresh_lin(s2)
            if s2.cons.add("ge", L.sub(total, L.add(L.scale(jj, B), B))) and s2.cons.feasible():
                block(s2, jj, B)
    if rr and "t" in parts:
        block(st.copy(), q, rr)


CTR = [C06.PLAIN, C06.X86, C06.ARM]
DRV = [Driver("sync", [CH], ["-DSYNC_CHACHA", '-DSYNC_H="chacha.h"'] + f) for f in ([], ["-DTWELVE_ROUNDS"], ["-DEIGHT_ROUNDS"])]
DRV += [Driver("sync", [HC], ["-DSYNC_HC", '-DSYNC_H="hc128.h"']), Driver("sync", [RB], ["-DSYNC_RABBIT", '-DSYNC_H="rabbit.h"']),
        Driver("sync", SO, ["-DSYNC_SOSE", '-DSYNC_H="sosemanuk.h"'])]
DRV += [Driver("sync", [x], ['-DSYNC_H="aes_ctr.h"']) for x in CTR] + [Driver("sync", [C06.X86], ['-DSYNC_H="aes_ctr.h"'] + build.X86),
        Driver("sync", [C06.ARM], ['-DSYNC_H="aes_ctr.h"', "-DARM_INTRINSICS", "-march=armv8-a+crypto"], arm=True)]


def gen(rng, hints):
    sizes = list(range(0, 40)) + [63, 64, 65, 100, 255, 256, 257, 1000, 2048, 4097, 5000]
    for h in hints.get("q", ()):
        for m in (16, 64):
            for b in range(16):
                if m * h + b < 20000:
                    sizes.insert(0, m * h + b)
    while True:
        for n in sizes:
            for d in range(len(DRV)):
                k, v = rng.randbytes(16), rng.randbytes(16)
                ps = [rng.randbytes(rng.choice((n, n, rng.randrange(0, 80)))) for _ in range(rng.choice((1, 2, 4)))]
                t = rng.randrange(6)
                if t == 0:
                    ps = [bytes(len(p)) for p in ps]
                elif t == 1:
                    ps = [bytes([rng.choice((0, 255, 1, 128))]) * len(p) for p in ps]
                elif t == 2:
                    ps = [bytes(b if rng.random() < 0.6 else 0 for b in p) for p in ps]
                yield (d, "%s %s %s" % (k.hex(), v.hex(), " ".join(p.hex() or "-" for p in ps)), "SAME",
                       "key, IV, packets: two senders with different data and a receiver, all keyed alike")
        sizes = [rng.randrange(0, 400) for _ in range(30)]


REPLAY = Replay(DRV, gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
