"""MD5 = RFC 1321 for any chunking."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.exec import Obj, Cells, Range
from vc.induct import Spec
from vc.harness import *
from vc.replay import Driver, Replay
from specs import md5 as S

ID = "C05"
TITLE = "MD5 digest equals RFC 1321 for any chunking of the message"
SRC = "Legacy/MD5/md5.cpp"
MODULES = [(SRC, ())]
ASSUMPTIONS = ["each chunk is shorter than 2^32 - 128 bytes", "context, input and digest do not overlap"]
NMAX = (1 << 32) - 129


def cases(tier):
    return ["packet-%d" % (8 * i) for i in range(8)] + ["update-%d" % i for i in range(64)] + ["final-%d" % (16 * i) for i in range(4)] + ["transform", "init"]


def uf(H, by):
    p = (("w", T.wconcat([(w, 32) for w in H])), ("w", T.wconcat([(b, 8) for b in by])))
    return [T.wuf("md5T%d" % i, p, 32) for i in range(4)]


def transform_name(m):
    try:
        return build.find([m], "MD5Transform")
    except build.BuildError:
        try:
            return build.find([m], "L12MD5Transform")
        except build.BuildError:
            c = [n for n in m.funcs if "MD5Transform" in n]
            return c[0] if len(c) == 1 else None


def use_contract(C, m):
    """MD5Transform(state, block): state' = F(state, block), block unchanged (discharged by case `transform`)"""
    tn = transform_name(m)
    if tn is None or len(m.funcs[tn].params) != 2:
        return None

    def h(E, st, args, where):
        s, b = args
        o1, o2 = E.bounds(st, s, 16, where, "write"), E.bounds(st, b, 64, where, "read")
        if s.sym is not None or b.sym is not None:
            return NotImplemented
        t, c = linsplit(s.off)
        H = [valbits(read(o1, st.cons, t, c + 4 * i, 4), 4) for i in range(4)]
        t2, c2 = linsplit(b.off)
        by = [valbits(read(o2, st.cons, t2, c2 + i, 1), 1) for i in range(64)]
        for i, w in enumerate(uf(H, by)):
            E.store(st, Ptr(s.obj, L.add(s.off, 4 * i)), 4, w, where)
        return [(st, None)]
    C.E.contracts[tn] = h
    return tn


def step(C, tn):
    def f(H, by):
        if tn:
            return uf(H, by)
        return S.compress(H, [lew(by[4 * i:4 * i + 4]) for i in range(16)])
    return f


def sbytes(st, pos, n=64, ab=False, R=None):
    o = st.objs["$s"]
    t, c = linsplit(L.scale(pos, 64) if not isinstance(pos, int) else 64 * pos)
    by = [valbits(read(o, st.cons, t, c + i, 1), 1) for i in range(n)]
    if ab:
        R = Resolver()
        by = [T.norm(absbyte(resolve_vs(b, st.cons, strict=True, R=R), linjoin(t, c + i))) for i, b in enumerate(by)]
    return by


def stream(C, idx, total, parts):
    o = Obj("$s", total, "zero", ro=True)
    o.layers = parts
    C.st.objs["$s"] = o


def context(C, m, idx, sym=True):
    sz = build.sizeof(m, "MD5_CTX")
    cs = C.obj("cs", sz)
    # bit count: 8 * (64 * anything + idx)
    cnt = T.bits(T.varword("count", 64), 64)
    cnt = tuple(((8 * idx) >> b) & 1 if b < 9 else cnt[b] for b in range(64))
    for k in range(2):
        C.poke("cs", 16 + 4 * k, 4, T.wslice(cnt, 32 * k, 32))
    return cs, sz, T.norm(cnt)


def addcount(cnt, n32):
    """64-bit count + 8n as two 32-bit words (equal to the 64-bit sum: lemma in case `init`)"""
    lo, hi = T.wslice(cnt, 0, 32), T.wslice(cnt, 32, 32)
    a = T.wshl(n32, 3, 32)
    l2 = T.wadd(lo, a, 32)
    h2 = T.wadd(T.wadd(hi, T.wlshr(n32, 29, 32), 32), T.norm((T.wult(l2, a, 32),) + (0,) * 31), 32)
    return l2, h2


def state_after(C, st, f, H0, ab):
    """spec state after all whole blocks of $s; and their number"""
    pos, comps = st.ghost.get("md5", (0, H0))
    total = st.objs["$s"].size
    nb = L.floordiv(L.sub(total, (total if isinstance(total, int) else total.c) % 64), 64)
    left = L.sub(nb, pos)
    if not isinstance(left, int) or not 0 <= left <= 4:
        raise Unsupported("block count mismatch %r" % (left,))
    H = list(comps)
    for i in range(left):
        H = f(H, sbytes(st, L.add(pos, i), 64, ab))
    R = Resolver(ab)
    return nb, [resolve_vs(w, st.cons, strict=True, R=R) for w in H]


def prove(key, out):
    m = build.module(SRC)
    if key == "init":
        C = Case([m], key)
        out.append(C)
        cs = C.obj("cs", build.sizeof(m, "MD5_CTX"))
        for st, _ in C.exits(C.call(build.find([m], "MD5Init"), [cs])):
            w = sum([wordbytes(x) for x in S.H0], []) + [0] * 8
            g = getbytes(st, "cs", 0, 24)
            cmp_bytes(C.E, st, "state", key, g, w)
            C.refute(st, g[0], w[0])
        c64, n = T.varword("c64", 64), T.varword("n32", 32)
        lo, hi = addcount(c64, n)
        cmp_word(C.E, st, "lemma", "two-word bit count is the 64-bit sum", T.wconcat([(lo, 32), (hi, 32)]),
                 T.wadd(c64, T.wshl(T.wzext(n, 32, 64), 3, 64), 64), 64)
        return
    if key == "transform":
        tn = transform_name(m)
        C = Case([m], key)
        out.append(C)
        if tn is None or len(m.funcs[tn].params) != 2:
            # no separate transform: nothing is assumed about it either
            C.E.ob("contract-unused")
            C.paths = C.canary = 1
            return
        s, b = C.obj("s", 16), C.obj("b", 64, ro=True)
        for st, _ in C.exits(C.call(tn, [s, b])):
            H = [lew(inbytes("s", 4 * i, 4)) for i in range(4)]
            w = sum([wordbytes(x) for x in S.compress(H, [lew(inbytes("b", 4 * i, 4)) for i in range(16)])], [])
            g = getbytes(st, "s", 0, 16)
            cmp_bytes(C.E, st, "contract", "MD5Transform", g, w)
            C.refute(st, g[0], w[0])
        return
    kind, p = key.split("-")
    p = int(p)
    if kind == "update":
        for r in range(64):
            C = Case([m], "%s residue %d" % (key, r))
            out.append(C)
            E = C.E
            f = step(C, use_contract(C, m))
            q = C.size("q%d" % r, 0, (NMAX - r) // 64)
            n = L.add(L.scale(q, 64), r)
            cs, sz, cnt = context(C, m, p)
            i = C.obj("in", n, ro=True)
            stream(C, p, L.add(n, p), [Cells((), {k: (1, b) for k, b in enumerate(inbytes("cs", 24, p))})] * (p > 0) + [Range(p, n, C.st.objs["in"], 0)])
            H0 = [lew(inbytes("cs", 4 * k, 4)) for k in range(4)]
            E.specs.append(Spec("md5", [32] * 4, H0, lambda H, pos, E, st: f(H, sbytes(st, pos)), strides=(1,)))
            C.obj("$n", n)
            for st, _ in C.exits(C.call(build.find([m], "MD5Update"), [cs, i, n])):
                def chk(s, sub):
                    def want(ab):
                        nb, H = state_after(C, s, f, H0, ab)
                        return sum([wordbytes(w) for w in H], [])
                    nb, _ = state_after(C, s, f, H0, True)
                    C.refute(s, *cmp_abs(E, s, "state", "MD5Update: chaining state", lambda R: getbytes(s, "cs", 0, 16, R=R), want))
                    rem = (p + r) % 64
                    R = Resolver()
                    tail = [resolve_vs(b, s.cons, strict=True, R=R) for b in sbytes(s, nb, rem)]
                    cmp_bytes(E, s, "state", "MD5Update: buffered bytes", getbytes(s, "cs", 24, rem), tail)
                    cmp_bytes(E, s, "state", "MD5Update: bit count", getbytes(s, "cs", 16, 8), sum([wordbytes(x) for x in addcount(cnt, T.lin_bits(s.objs["$n"].size, 32))], []))
                splitting(E, st, chk)
        return
    if kind == "final":
        for idx in range(p, p + 16):
            C = Case([m], "%s index %d" % (key, idx))
            out.append(C)
            E = C.E
            f = step(C, use_contract(C, m))
            cs, sz, cnt = context(C, m, idx)
            d = C.obj("digest", 16)
            pad = 56 - idx if idx < 56 else 120 - idx
            by = inbytes("cs", 24, idx) + [0x80] + [0] * (pad - 1) + wordbytes(cnt, 8)
            H = [lew(inbytes("cs", 4 * k, 4)) for k in range(4)]
            for b in range(len(by) // 64):
                H = f(H, by[64 * b:64 * b + 64])
            w = sum([wordbytes(x) for x in H], [])
            for st, _ in C.exits(C.call(build.find([m], "MD5Final"), [d, cs])):
                def chk(s, sub):
                    g = getbytes(s, "digest", 0, 16)
                    cmp_bytes(E, s, "digest", "MD5Final", g, w)
                    C.refute(s, g[0], w[0])
                splitting(E, st, chk)
        return
    # one-shot wrapper
    for r in range(p, p + 8):
        C = Case([m], "%s residue %d" % (key, r))
        out.append(C)
        E = C.E
        f = step(C, use_contract(C, m))
        q = C.size("q%d" % r, 0, (NMAX - r) // 64)
        n = L.add(L.scale(q, 64), r)
        cs, d, i = C.obj("cs", build.sizeof(m, "MD5_CTX")), C.obj("digest", 16), C.obj("in", n, ro=True)
        ext = (56 - r if r < 56 else 120 - r) + 8
        pb = [0x80] + [0] * (ext - 9) + wordbytes(T.lin_bits(L.scale(n, 8), 64), 8)
        t, c = linsplit(n)
        stream(C, 0, L.add(n, ext), [Range(0, n, C.st.objs["in"], 0), Cells(t, {c + k: (1, b) for k, b in enumerate(pb)})])
        E.specs.append(Spec("md5", [32] * 4, list(S.H0), lambda H, pos, E, st: f(H, sbytes(st, pos)), strides=(1,)))
        for st, _ in C.exits(C.call(build.find([m], "MD5_process_packet"), [cs, d, i, n])):
            def chk(s, sub):
                def want(ab):
                    return sum([wordbytes(w) for w in state_after(C, s, f, list(S.H0), ab)[1]], [])
                C.refute(s, *cmp_abs(E, s, "digest", "MD5_process_packet", lambda R: getbytes(s, "digest", 0, 16, R=R), want))
            splitting(E, st, chk)


def gen(rng, hints):
    todo = [[n] for n in list(range(0, 140)) + [1000, 4159]] + [[a, b] for a in (0, 1, 55, 56, 63, 64, 65) for b in (0, 1, 8, 9, 63, 64, 65, 127, 128, 129)]
    todo += [[a, b, c] for a in range(0, 64, 7) for b in (1, 57, 64, 71) for c in (0, 55, 200)]
    for h in hints.get("q", ()):
        if h < 3000:
            todo = [[64 * h + r] for r in range(64)] + todo
    while True:
        for ns in todo:
            ch = [rng.randbytes(n) for n in ns]
            a = b"".join(ch)
            yield (0, " ".join(c.hex() or "-" for c in ch), lambda a=a, ch=ch: S.md5(a).hex() + " " + "".join(c.hex() or "-" for c in ch),
                   "MD5Init, MD5Update of chunks of %s bytes, MD5Final" % ns)
            if len(ns) == 1:
                yield (0, ". " + (a.hex() or "-"), lambda a=a: S.md5(a).hex() + " " + (a.hex() or "-"), "MD5_process_packet of %d bytes" % len(a))
        todo = [[rng.randrange(0, rng.choice((3, 70, 300))) for _ in range(rng.randrange(1, 8))] for _ in range(80)]


REPLAY = Replay([Driver("md5", [SRC])], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
