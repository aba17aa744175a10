"""AES-CFB: CFB-128 with carry-over; decryption inverts encryption."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import build, check, terms as T, lin as L
from vc.induct import Spec
from vc.exec import Chained
from vc.harness import *
from vc.replay import Driver, Replay
from specs import aes as S
import C06
from C06 import uf, rkbytes, use_contract, prove_encrypt

ID = "C07"
TITLE = "AES-CFB is CFB-128 with carry-over and decryption inverts encryption"
D = "BlockCiphers/AES/"
PLAIN, X86, ARM = D + "AES/AES_CFB/aes_cfb.cpp", D + "AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp", D + "AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp"
BUILDS = {"portable": (PLAIN, ()), "x86": (X86, ()), "x86ni": (X86, tuple(build.X86)), "arm": (ARM, ()), "armce": (ARM, tuple(build.ARM))}
MODULES = list(BUILDS.values())
TRUSTED = C06.TRUSTED
ASSUMPTIONS = ["output and input do not overlap"]

_n = itertools.count()


def cases(tier):
    return ["packet-%s-%d" % (b, r) for b in BUILDS for r in range(0, 16, 4)] + ["%s-%s" % (k, b) for k in ("encrypt", "load") for b in BUILDS]


def xor(a, b):
    return [T.wxor(x, y, 8) for x, y in zip(a, b)]


def at(j, k):
    return L.add(L.scale(j, 16), k) if not isinstance(j, int) else 16 * j + k


class Chain:
    """ghost: the feedback register before block j"""

    def __init__(self, C, block, src, dec):
        self.block, self.rk, self.src, self.dec = block, rkbytes(), src, dec
        self.name = "cfb%d" % next(_n)
        self.spec = Spec(self.name, [128], [lew(inbytes("cs", 0, 16))], lambda s, pos, E, st: [lew(self.next(wordbytes(s[0], 16), pos))], strides=(1,))
        C.E.specs.append(self.spec)
        Chained(self.spec, C.E, C.st)
        self.chain = [inbytes("cs", 0, 16)]

    def ks(self, r):
        return self.block(self.rk, r)

    def next(self, r, pos):
        i = inbytes(self.src, at(pos, 0), 16)
        return i if self.dec else xor(i, self.ks(r))

    def reg(self, j):
        if isinstance(j, int):
            while len(self.chain) <= j:
                self.chain.append(self.next(self.chain[-1], len(self.chain) - 1))
            return self.chain[j]
        return wordbytes(self.spec.atoms(j)[0], 16)

    def want(self, j, n):
        return xor(inbytes(self.src, at(j, 0), n), self.ks(self.reg(j)))

    def reg_at(self, st, j):
        """register before block j in exit state st"""
        pos, comps = st.ghost.get(self.name, (0, self.spec.start))
        d = L.sub(j, pos)
        if not isinstance(d, int) or not 0 <= d <= 8:
            raise Unsupported("block count mismatch %r" % (d,))
        r = wordbytes(comps[0], 16)
        for i in range(d):
            r = self.next(r, L.add(pos, i))
        return r


def prove(key, out):
    p = key.split("-")
    m = build.module(*BUILDS[p[1]])
    if p[0] == "encrypt":
        return prove_encrypt(key, out, m, False)
    if p[0] == "load":
        C = Case([m], key)
        out.append(C)
        E = C.E
        cs, k, n = C.obj("cs", 192), C.obj("key", 16, ro=True), C.obj("iv", 16, ro=True)
        for st, _ in C.exits(C.call(build.find([m], "aes_cfb_initialize"), [cs, k, n])):
            got = getbytes(st, "cs", 0, 192)
            want = inbytes("iv", 0, 16) + sum(S.expand(inbytes("key", 0, 16)), [])
            cmp_bytes(E, st, "state", "aes_cfb_initialize", got, want)
            C.refute(st, got[16], want[16])
        return
    for b in range(int(p[2]), int(p[2]) + 4):
        roundtrip("%s+%d" % (key, b), out, m, b)


def roundtrip(key, out, m, b):
    C = Case([m], key)
    out.append(C)
    E = C.E
    block = use_contract(C, m, False)
    q = C.size("q", 0, ((1 << 31) - 1 - b) // 16)
    size = L.add(L.scale(q, 16), b)
    cs, o, i = C.obj("cs", 192), C.obj("ct", size), C.obj("in", size, ro=True)
    ch = Chain(C, block, "in", False)
    fn = build.find([m], "aes_cfb_process_packet")
    for st, _ in C.exits(C.call(fn, [cs, o, i, size, 0])):
        if b == 0:
            cmp_stream(C, st, "ct", st.objs["ct"].size, 16, ch.want, where="aes_cfb_process_packet (encrypt)")

            def f(s, sub):
                nb = L.floordiv(s.objs["ct"].size, 16)
                cmp_bytes(E, s, "state", "aes_cfb_process_packet (encrypt): register", getbytes(s, "cs", 0, 192), ch.reg_at(s, nb) + sum(rkbytes(), []))
            splitting(E, st, f)
        # the receiver: same register and key, fed with the ciphertext
        C.st = st.copy()
        C.st.ghost = {}
        n = C.st.objs["ct"].size
        rs = C.obj("rs", 192, ("sym", "cs"))
        po = C.obj("pt", n)
        C.st.objs["ct"] = C.st.objs["ct"].clone(C.st.tok)
        C.st.objs["ct"].ro = True
        for s2, _ in C.exits(C.call(fn, [rs, po, Ptr("ct", 0), n, 1])):
            cmp_stream(C, s2, "pt", s2.objs["pt"].size, 16, lambda j, k: inbytes("in", at(j, 0), k), kind="inverse", where="aes_cfb_process_packet (decrypt)")

            def g(s, sub):
                cmp_bytes(E, s, "inverse", "sender and receiver registers after the packet", getbytes(s, "rs", 0, 192), getbytes(s, "cs", 0, 192))
            splitting(E, s2, g)


def gen(rng, hints):
    sizes = list(range(0, 50)) + [63, 64, 65, 100, 255, 256, 257, 1000]
    for h in hints.get("q", ()):
        for b in range(16):
            if 16 * h + b < 200000:
                sizes.insert(0, 16 * h + b)
    hx = lambda b: b.hex() or "-"
    while True:
        for n in sizes:
            k, iv = rng.randbytes(16), rng.randbytes(16)
            ps = [rng.randbytes(n), rng.randbytes(rng.randrange(0, 40)), rng.randbytes(n)]
            l1 = "%s %s %s" % (k.hex(), iv.hex(), " ".join("r" + hx(x) for x in ps))
            e1 = " ".join(hx(x) for x in ps)
            ws = [x[:len(x) // 16 * 16] for x in ps]
            c, d = S.CFB(k, iv), S.CFB(k, iv)
            l2 = "%s %s e%s d%s e%s" % (k.hex(), iv.hex(), hx(ws[0]), hx(ws[1]), hx(ws[2]))
            e2 = " ".join((hx(c.packet(ws[0], 0)), hx(c.packet(ws[1], 1)), hx(c.packet(ws[2], 0))))
            for d in range(len(REPLAY.drivers)):
                yield (d, l1, e1, "AES-CFB: key, IV, packets (r: encrypt, then decrypt by the receiver) -> recovered packets")
                yield (d, l2, e2, "AES-CFB: key, IV, whole-block packets (e: encrypt, d: decrypt) -> outputs")
        sizes = [rng.randrange(0, 400) for _ in range(60)]


REPLAY = Replay([Driver("aes_cfb", [PLAIN]), Driver("aes_cfb", [X86]), Driver("aes_cfb", [X86], tuple(build.X86)), Driver("aes_cfb", [ARM]) , Driver("aes_cfb", [ARM], ["-DARM_INTRINSICS", "-march=armv8-a+crypto"], arm=True)], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
