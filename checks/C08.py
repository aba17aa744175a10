"""All AES builds behave identically (CTR and CFB, every packet length, both directions)."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import build, check, terms as T, lin as L
from vc.harness import *
from vc.replay import Driver, Replay
from specs import aes as S
import C06
import C07
from C06 import use_contract, prove_encrypt, rkbytes

ID = "C08"
TITLE = "Hardware-accelerated AES builds behave identically to portable ones"
BUILDS = list(C06.BUILDS)
MODULES = C06.MODULES + C07.MODULES
TRUSTED = C06.TRUSTED
ARMF = ["-DARM_INTRINSICS", "-march=armv8-a+crypto"]
ASSUMPTIONS = ["output and input do not overlap"]


def cases(tier):
    r = ["%s-%s-%d" % (k, b, i) for k in ("enc", "dec") for b in BUILDS for i in range(0, 16, 4)]
    r += ["ctr-%s-%d" % (b, i) for b in BUILDS for i in range(0, 16, 4)]
    return r + ["%s-%s" % (k, b) for k in ("cfbblock", "ctrblock", "cfbload", "ctrload") for b in BUILDS]


def prove(key, out):
    p = key.split("-")
    k, b = p[0], p[1]
    if k == "ctrblock":
        return prove_encrypt(key, out, build.module(*C06.BUILDS[b]), True)
    if k == "cfbblock":
        return prove_encrypt(key, out, build.module(*C07.BUILDS[b]), False)
    if k == "ctrload":
        return C06.prove("load-" + b, out)
    if k == "cfbload":
        return C07.prove("load-" + b, out)
    for r in range(int(p[2]), int(p[2]) + 4):
        if k == "ctr":
            C06.packet("%s+%d" % (key, r), out, build.module(*C06.BUILDS[b]), r)
        else:
            cfb("%s+%d" % (key, r), out, build.module(*C07.BUILDS[b]), r, k == "dec")


def portable_tail(b, dec, out):
    """what the portable source does with a packet of b < 16 bytes: output bytes and registers as terms"""
    m = build.module(*C07.BUILDS["portable"])
    C = Case([m], "portable tail %d" % b)
    C.canary = 1
    out.append(C)
    use_contract(C, m, False)
    cs, o, i = C.obj("cs", 192), C.obj("out", b), C.obj("in", b, ro=True)
    outs = list(C.exits(C.call(build.find([m], "aes_cfb_process_packet"), [cs, o, i, b, int(dec)])))
    if len(outs) != 1:
        raise Unsupported("portable source branches on data")
    st = outs[0][0]
    return getbytes(st, "out", 0, b), getbytes(st, "cs", 0, 16)


def cfb(key, out, m, b, dec):
    tail = portable_tail(b, dec, out) if b else None
    C = Case([m], key)
    out.append(C)
    E = C.E
    block = use_contract(C, m, False)
    q = C.size("q", 0, ((1 << 31) - 1 - b) // 16)
    size = L.add(L.scale(q, 16), b)
    cs, o, i = C.obj("cs", 192), C.obj("out", size), C.obj("in", size, ro=True)
    ch = C07.Chain(C, block, "in", dec)
    where = "aes_cfb_process_packet (%s)" % ("decrypt" if dec else "encrypt")
    for st, _ in C.exits(C.call(build.find([m], "aes_cfb_process_packet"), [cs, o, i, size, int(dec)])):
        cmp_stream(C, st, "out", st.objs["out"].size, 16, ch.want, where=where, parts="f")

        def f(s, sub):
            n = s.objs["out"].size
            nb = L.floordiv(L.sub(n, b), 16)
            reg = ch.reg_at(s, nb)
            if tail is not None:
                rb = [T.bits(x, 8) for x in reg]
                ib = [T.bits(x, 8) for x in inbytes("in", C07.at(nb, 0), b)]

                def put(nb_):
                    n_, bit = nb_
                    if n_[0] == "m" and n_[1] == "cs" and n_[2] < 16:
                        return rb[n_[2]][bit]
                    if n_[0] == "m" and n_[1] == "in":
                        return ib[n_[2]][bit]
                tr = [T.substvars(x, 8, put) for x in tail[0] + tail[1]]
                got = getbytes(s, "out", C07.at(nb, 0), b)
                cmp_bytes(E, s, "output", where + ": last partial block, against the portable source", got, tr[:b])
                C.refute(s, got[0], tr[0])
                reg = tr[b:]
            cmp_bytes(E, s, "state", where + ": state, against the portable source", getbytes(s, "cs", 0, 192), reg + sum(rkbytes(), []))
        splitting(E, st, f)


def gen(rng, hints):
    """every build against the portable one"""
    ctr = [Driver("aes_ctr", [C06.PLAIN])]
    cfb_ = Driver("aes_cfb", [C07.PLAIN])
    sizes = list(range(0, 40)) + [63, 64, 65, 100, 255, 256, 257, 1000]
    for h in hints.get("q", ()):
        for b in range(16):
            if 16 * h + b < 200000:
                sizes.insert(0, 16 * h + b)
    hx = lambda b: b.hex() or "-"
    try:
        cfb_.build()
        ctr[0].build()
        while True:
            l1, l2 = [], []
            for n in sizes:
                k, iv = rng.randbytes(16), rng.randbytes(16)
                x, y, z = rng.randbytes(n), rng.randbytes(rng.randrange(0, 40)), rng.randbytes(n)
                l1.append("%s n%s %s %s %s" % (k.hex(), iv[:12].hex(), hx(x), hx(y), hx(z)))
                l2.append("%s %s e%s d%s e%s d%s" % (k.hex(), iv.hex(), hx(x), hx(y), hx(z), hx(x)))
            o1, e1 = ctr[0].run(l1, 60)
            o2, e2 = cfb_.run(l2, 60)
            if e1 or e2 or len(o1) != len(l1) or len(o2) != len(l2):
                return
            for i in range(len(l1)):
                for d in (0, 1, 2, 6):
                    yield (d, l1[i], o1[i], "AES-CTR: key, nonce, packets -> outputs of the portable build")
                    yield (d + 3 if d < 6 else 7, l2[i], o2[i], "AES-CFB: key, IV, packets -> outputs of the portable build")
            sizes = [rng.randrange(0, 400) for _ in range(40)]
    finally:
        cfb_.close()
        ctr[0].close()


REPLAY = Replay([Driver("aes_ctr", [C06.X86]), Driver("aes_ctr", [C06.X86], tuple(build.X86)), Driver("aes_ctr", [C06.ARM]),
                 Driver("aes_cfb", [C07.X86]), Driver("aes_cfb", [C07.X86], tuple(build.X86)), Driver("aes_cfb", [C07.ARM]),
                 Driver("aes_ctr", [C06.ARM], ARMF, arm=True), Driver("aes_cfb", [C07.ARM], ARMF, arm=True)], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
