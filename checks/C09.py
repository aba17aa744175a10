"""AEGIS-128 encryption = specification, every length."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import build, check, terms as T, lin as L
from vc.induct import Spec
from vc.exec import Chained, read, valbits
from vc.harness import *
from vc.replay import Driver, Replay
from specs import aegis as S

ID = "C09"
TITLE = "AEGIS-128 encryption equals the specification for all lengths"
D = "StreamCiphers/AEGIS/"
PLAIN, X86, ARM = D + "AEGIS/aegis_128.cpp", D + "AEGIS_x86/aegis_128.cpp", D + "AEGIS_ARM/aegis_128.cpp"
BUILDS = {"portable": (PLAIN, ()), "x86": (X86, ()), "x86ni": (X86, tuple(build.X86)), "arm": (ARM, ()), "armce": (ARM, tuple(build.ARM))}
MODULES = list(BUILDS.values())
TRUSTED = ["AES-NI and ARMv8 crypto instructions behave as documented by Intel and Arm (modelled in vc/intrin.py)"]
ASSUMPTIONS = ["output and input do not overlap", "associated data shorter than 2^33 - 16 bytes (int block counter), messages shorter than 2^60 bytes"]
ST, SZ = 16, 112                  # offset of s0..s4 and size of aegis_state
ADMAX = ((1 << 29) - 2) * 16

_n = itertools.count()


def cases(tier):
    return ["packet-%s-%d" % (b, r) for b in BUILDS for r in range(0, 16, 4)] + ["%s-%s" % (k, b) for k in ("update", "key") for b in BUILDS] + ["ad-%s-%d" % (b, r) for b in BUILDS for r in range(0, 16, 8)]


# ---------------------------------------------------------------- ghost state: five 16-byte lists
def ubytes(w):
    b = wordbytes(w, 80)
    return [b[16 * i:16 * i + 16] for i in range(5)]


def ufupdate(s, m):
    """the AEGIS state update as an uninterpreted function (its definition: case update-*)"""
    p = tuple(("w", lew(x)) for x in s) + (("w", lew(m)),)
    return ubytes(T.wuf("AEGIS", p, 640))


def fn(m, name, nargs):
    try:
        n = build.find([m], name)
    except build.BuildError:
        return None
    return n if len(m.funcs[n].params) == nargs else None


def stateof(st, cs):
    t, c = linsplit(cs.off)
    o = st.objs[cs.obj]
    by = [valbits(read(o, st.cons, t, c + ST + i, 1), 1) for i in range(80)]
    return [by[16 * i:16 * i + 16] for i in range(5)]


def setstate(E, st, cs, s, where):
    flat = sum(s, [])
    for i in range(20):
        E.store(st, Ptr(cs.obj, L.add(cs.off, ST + 4 * i)), 4, lew(flat[4 * i:4 * i + 4]), where)


def use_update(C, m):
    """aegis_state_update(cs, msg): s0..s4 become update(s0..s4, msg); nothing else changes (except scratch w)"""
    n = fn(m, "aegis_state_update", 2)
    if n is None:
        return S.update

    def h(E, st, args, where):
        cs, msg = args
        E.bounds(st, cs, SZ, where, "read")
        o = E.bounds(st, msg, 16, where, "read")
        if cs.sym is not None or msg.sym is not None or cs.obj == msg.obj:
            return NotImplemented
        t, c = linsplit(msg.off)
        mb = [valbits(read(o, st.cons, t, c + i, 1), 1) for i in range(16)]
        setstate(E, st, cs, ufupdate(stateof(st, cs), mb), where)
        return [(st, None)]
    C.E.contracts[n] = h
    return ufupdate


def prove_update(key, out, m):
    n = fn(m, "aegis_state_update", 2)
    if n is None:
        return
    C = Case([m], key)
    out.append(C)
    E = C.E
    cs, b = C.obj("cs", SZ), C.obj("m", 16, ro=True)
    s0 = [inbytes("cs", ST + 16 * i, 16) for i in range(5)]
    for st, _ in C.exits(C.call(n, [cs, b])):
        w = sum(S.update(s0, inbytes("m", 0, 16)), [])
        got = getbytes(st, "cs", 0, SZ)
        cmp_bytes(E, st, "callee-contract", "aegis_state_update", got[ST:ST + 80], w)
        C.refute(st, got[ST], w[0])
        cmp_bytes(E, st, "callee-contract", "aegis_state_update: key", got[:ST], inbytes("cs", 0, ST))


def use_ad(C, m, upd):
    """aegis_process_ad(cs, ad, adlen): s0..s4 become AD(s0..s4) for this packet's associated data (cases ad-*)"""
    n = fn(m, "aegis_process_ad", 3)
    if n is None:
        return None

    def h(E, st, args, where):
        cs, ad, ln = args
        E.bounds(st, cs, SZ, where, "read")
        if cs.sym is not None:
            return NotImplemented
        E.ob("callee-argument")
        ok = isinstance(ad, Ptr) and ad.sym is None and ad.obj == "ad" and ad.off == 0 and not isinstance(ln, tuple)
        if ok:
            d = L.sub(E.uval(st, ln, 64), st.objs["ad"].size)
            ok = d == 0 or (not isinstance(d, int) and st.cons.decide_eq(d) is True)
        if not ok:
            E.fail("callee-argument", where, "aegis_process_ad is not given the packet's associated data", st)
            raise Unsupported("associated data arguments")
        setstate(E, st, cs, adstate(stateof(st, cs)), where)
        return [(st, None)]
    C.E.contracts[n] = h
    return adstate


def adstate(s):
    return ubytes(T.wuf("AEGISAD", tuple(("w", lew(x)) for x in s), 640))


class Chain:
    """ghost: the AEGIS state before block j; msg(state, j) or block(st, j) is the 16-byte block"""

    def __init__(self, C, upd, start, msg, block=None):
        self.upd, self.msg, self.block, self.st = upd, msg, block, C.st
        self.name = "aegis%d" % next(_n)
        self.spec = Spec(self.name, [128] * 5, [lew(x) for x in start], self.step, strides=(1, 2, 4))
        C.E.specs.append(self.spec)
        Chained(self.spec, C.E, C.st)
        self.chain = [start]

    def next(self, s, pos, st):
        return self.upd(s, self.block(st, pos) if self.block else self.msg(s, pos))

    def step(self, s, pos, E, st):
        return [lew(x) for x in self.next([wordbytes(x, 16) for x in s], pos, st)]

    def at(self, j):
        if isinstance(j, int):
            while len(self.chain) <= j:
                self.chain.append(self.next(self.chain[-1], len(self.chain) - 1, self.st))
            return self.chain[j]
        return [wordbytes(x, 16) for x in self.spec.atoms(j)]

    def exit(self, st, j):
        """state before block j in exit state st"""
        pos, comps = st.ghost.get(self.name, (0, self.spec.start))
        d = L.sub(j, pos)
        if not isinstance(d, int) or not 0 <= d <= 64:
            raise Unsupported("block count mismatch %r" % (d,))
        s = [wordbytes(x, 16) for x in comps]
        for i in range(d):
            s = self.next(s, L.add(pos, i), st)
        return s


def off(j):
    return 16 * j if isinstance(j, int) else L.scale(j, 16)


def adcase(key, out, m, r):
    n = fn(m, "aegis_process_ad", 3)
    if n is None:
        return
    C = Case([m], key)
    out.append(C)
    E = C.E
    upd = use_update(C, m)
    q = C.size("q", 0, ADMAX // 16)
    size = L.add(L.scale(q, 16), r)
    nb = L.add(q, 1 if r else 0)
    cs, ad = C.obj("cs", SZ), C.obj("ad", size, ro=True)
    # ghost: the associated data padded with zeros to whole blocks
    g = C.obj("padded", off(nb))
    if r:
        E.memset(C.st, g, 0, off(nb), "<ghost>")
        E.memcpy(C.st, g, ad, size, "<ghost>")
    C.st.objs["padded"].ro = True
    s0 = [inbytes("cs", ST + 16 * i, 16) for i in range(5)]

    def block(st, j):
        t, c = linsplit(off(j))
        return [valbits(read(st.objs["padded"], st.cons, t, c + i, 1), 1) for i in range(16)]
    ch = Chain(C, upd, s0, None, block) if r else Chain(C, upd, s0, lambda s, j: inbytes("ad", off(j), 16))
    for st, _ in C.exits(C.call(n, [cs, ad, size])):
        def f(s, sub):
            w = ch.exit(s, L.floordiv(s.objs["padded"].size, 16))
            got = getbytes(s, "cs", 0, SZ)
            R = Resolver()
            w = [resolve_vs(b, s.cons, strict=True, R=R) for x in w for b in x]
            cmp_bytes(E, s, "state", "aegis_process_ad", got[ST:ST + 80], w)
            C.refute(s, got[ST], w[0])
            cmp_bytes(E, s, "state", "aegis_process_ad: key", got[:ST], inbytes("cs", 0, ST))
        splitting(E, st, f)


def setup(C, m, r, dec=False):
    """arguments of a packet function with message length 16*q+r, and the state before the message"""
    upd = use_update(C, m)
    adst = use_ad(C, m, upd)
    if adst is None:
        raise Unsupported("aegis_process_ad(state, ad, adlen) not found: the combined proof over both lengths is not attempted")
    q = C.size("q", 0, 1 << 56)
    size = L.add(L.scale(q, 16), r)
    an = C.size("adlen", 0, ADMAX)
    cs, iv, ad = C.obj("cs", SZ), C.obj("iv", 16, ro=True), C.obj("ad", an, ro=True)
    s0 = adst(S.init(inbytes("cs", 0, 16), inbytes("iv", 0, 16), upd))
    return upd, size, an, cs, iv, ad, s0


def lens(an, n):
    def w(x):
        return wordbytes(T.lin_bits(L.scale(x, 8), 64) if not isinstance(x, int) else 8 * x, 8)
    return w(an) + w(n)


def packet(key, out, m, r):
    C = Case([m], "%s+%d" % (key, r))
    out.append(C)
    E = C.E
    upd, size, an, cs, iv, ad, s0 = setup(C, m, r)
    pt, ct, tag = C.obj("pt", size, ro=True), C.obj("ct", size), C.obj("tag", 16)
    ch = Chain(C, upd, s0, lambda s, j: inbytes("pt", off(j), 16))
    for st, _ in C.exits(C.call(build.find([m], "aegis_encrypt_packet"), [cs, ct, tag, pt, ad, iv, an, size])):
        cmp_stream(C, st, "ct", st.objs["ct"].size, 16, lambda j, k: S.xor(inbytes("pt", off(j), k), S.ks(ch.at(j))), where="aegis_encrypt_packet: ciphertext")

        def f(s, sub):
            n = s.objs["pt"].size
            nb = L.floordiv(L.sub(n, r), 16)
            w = ch.exit(s, nb)
            if r:
                w = upd(w, inbytes("pt", off(nb), r) + [0] * (16 - r))
            t = S.tag(w, lens(s.objs["ad"].size, n), upd)
            got = getbytes(s, "tag", 0, 16)
            cmp_bytes(E, s, "output", "aegis_encrypt_packet: tag", got, t)
            C.refute(s, got[0], t[0])
            cmp_bytes(E, s, "state", "aegis_encrypt_packet: key", getbytes(s, "cs", 0, 16), inbytes("cs", 0, 16))
        splitting(E, st, f)


def keycase(key, out, m):
    C = Case([m], key)
    out.append(C)
    cs, k = C.obj("cs", SZ), C.obj("key", 16, ro=True)
    for st, _ in C.exits(C.call(build.find([m], "aegis_load_key"), [cs, k])):
        got = getbytes(st, "cs", 0, 16)
        cmp_bytes(C.E, st, "state", "aegis_load_key", got, inbytes("key", 0, 16))
        C.refute(st, got[0], inbytes("key", 0, 1)[0])


def prove(key, out):
    p = key.split("-")
    m = build.module(*BUILDS[p[1]])
    if p[0] == "update":
        return prove_update(key, out, m)
    if p[0] == "key":
        return keycase(key, out, m)
    if p[0] == "ad":
        for r in range(int(p[2]), int(p[2]) + 8):
            adcase("%s+%d" % (key, r), out, m, r)
        return
    for r in range(int(p[2]), int(p[2]) + 4):
        packet(key, out, m, r)


def lengths(rng, hints):
    sizes = list(range(0, 50)) + [63, 64, 65, 100, 255, 256, 257, 1000]
    for h in hints.get("q", ()):
        for b in range(16):
            if 16 * h + b < 100000:
                sizes.insert(0, 16 * h + b)
    rng.shuffle(sizes)
    return sizes


def gen(rng, hints):
    hx = lambda b: b.hex()
    ox = lambda b: b.hex() or "-"
    while True:
        for n in lengths(rng, hints):
            k = rng.randbytes(16)
            ps = [(rng.randbytes(16), rng.randbytes(rng.choice([0, 1, 5, 15, 16, 17, 31, 32, 33, rng.randrange(0, 100)])), rng.randbytes(x)) for x in (n, rng.randrange(0, 40))]
            line = "%s %s" % (hx(k), " ".join("e%s/%s/%s" % (hx(i), hx(a), hx(x)) for i, a, x in ps))
            e = " ".join("%s/%s" % tuple(map(ox, S.encrypt(k, i, a, x))) for i, a, x in ps)
            for d in range(len(REPLAY.drivers)):
                yield (d, line, e, "AEGIS-128: key, then e<iv>/<associated data>/<message> -> ciphertext/tag")


DRIVERS = [Driver("aegis", [PLAIN]), Driver("aegis", [X86]), Driver("aegis", [X86], tuple(build.X86)), Driver("aegis", [ARM]), Driver("aegis", [ARM], ["-DARM_INTRINSICS", "-march=armv8-a+crypto"], arm=True)]
REPLAY = Replay(DRIVERS, gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
