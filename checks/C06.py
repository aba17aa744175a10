"""AES-CTR = AES-128 counter mode."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.exec import read, valbits
from vc.harness import *
from vc.replay import Driver, Replay
from specs import aes as S

ID = "C06"
TITLE = "AES-CTR equals standard AES-128 counter mode at every packet length"
D = "BlockCiphers/AES/"
PLAIN, X86, ARM = D + "AES/AES_CTR/aes_ctr.cpp", D + "AES_x86/AES_CTR/aes_ctr.cpp", D + "AES_ARM/AES_CTR/aes_ctr.cpp"
BUILDS = {"portable": (PLAIN, ()), "x86": (X86, ()), "x86ni": (X86, tuple(build.X86)), "arm": (ARM, ()), "armce": (ARM, tuple(build.ARM))}
MODULES = list(BUILDS.values())
TRUSTED = ["AES-NI and ARMv8 crypto instructions behave as documented by Intel and Arm (modelled in vc/intrin.py)"]
ASSUMPTIONS = ["output and input do not overlap"]


def cases(tier):
    return ["packet-%s-%d" % (b, r) for b in BUILDS for r in range(0, 16, 4)] + ["encrypt-%s" % b for b in BUILDS] + ["load-%s" % b for b in BUILDS]


def rkbytes(obj="cs"):
    return [inbytes(obj, 16 + 16 * r, 16) for r in range(11)]


def counter(obj="cs", off=12):
    return bew(inbytes(obj, off, 4))


def uf(rk, blk):
    """the AES-128 permutation under the round keys rk, as an uninterpreted function"""
    p = tuple([("w", lew(k)) for k in rk]) + (("w", lew(blk)),)
    return wordbytes(T.wuf("AES", p, 128), 16)


def encrypt_name(m):
    try:
        n = build.find([m], "aes_encrypt")
    except build.BuildError:
        return None
    return n if len(m.funcs[n].params) == 2 else None


def use_contract(C, m, keep):
    """aes_encrypt(cs, ks): ks = AES(cs.rk, cs.reg); cs.reg kept (CTR) or replaced by ks (CFB), nothing else
    changes; discharged by the cases `encrypt-*`.  Returns the block function to use in the specification."""
    n = encrypt_name(m)
    if n is None:
        return lambda rk, b: S.block(rk, b)

    def h(E, st, args, where):
        cs, ks = args
        o, _ = E.bounds(st, cs, 192, where, "read"), E.bounds(st, ks, 16, where, "write")
        if cs.sym is not None or ks.sym is not None or cs.obj == ks.obj:
            return NotImplemented
        t, c = linsplit(cs.off)
        by = [valbits(read(o, st.cons, t, c + i, 1), 1) for i in range(192)]
        r = uf([by[16 + 16 * i:32 + 16 * i] for i in range(11)], by[:16])
        for i in range(4):
            E.store(st, Ptr(ks.obj, L.add(ks.off, 4 * i)), 4, lew(r[4 * i:4 * i + 4]), where)
            if not keep:
                E.store(st, Ptr(cs.obj, L.add(cs.off, 4 * i)), 4, lew(r[4 * i:4 * i + 4]), where)
        return [(st, None)]
    C.E.contracts[n] = h
    return uf


def prove_encrypt(key, out, m, keep):
    n = encrypt_name(m)
    if n is None:
        return
    C = Case([m], key)
    out.append(C)
    E = C.E
    cs, ks = C.obj("cs", 192), C.obj("ks", 16)
    for st, _ in C.exits(C.call(n, [cs, ks])):
        w = S.block(rkbytes(), inbytes("cs", 0, 16))
        got = getbytes(st, "ks", 0, 16)
        cmp_bytes(E, st, "callee-contract", "aes_encrypt", got, w)
        C.refute(st, got[0], w[0])
        cmp_bytes(E, st, "callee-contract", "aes_encrypt: state", getbytes(st, "cs", 0, 192), (inbytes("cs", 0, 16) if keep else w) + sum(rkbytes(), []))


def prove(key, out):
    p = key.split("-")
    m = build.module(*BUILDS[p[1]])
    if p[0] == "encrypt":
        return prove_encrypt(key, out, m, True)
    if p[0] == "load":
        C = Case([m], key)
        out.append(C)
        E = C.E
        cs, k, n = C.obj("cs", 192), C.obj("key", 16, ro=True), C.obj("nonce", 12, ro=True)
        for st, _ in C.exits(C.call(build.find([m], "aes_load_key"), [cs, k])):
            C.st = st.copy()
            got = getbytes(st, "cs", 0, 192)
            want = sum(S.expand(inbytes("key", 0, 16)), [])
            cmp_bytes(E, st, "state", "aes_load_key", got[16:], want)
            C.refute(st, got[16], want[0])
            for st, _ in C.exits(C.call(build.find([m], "aes_load_iv"), [cs, n])):
                got = getbytes(st, "cs", 0, 192)
                cmp_bytes(E, st, "state", "aes_load_iv", got, inbytes("nonce", 0, 12) + [0, 0, 0, 1] + want)
        return
    for b in range(int(p[2]), int(p[2]) + 4):
        packet(key, out, m, b)


def packet(key, out, m, b):
    C = Case([m], "%s+%d" % (key, b))
    out.append(C)
    E = C.E
    block = use_contract(C, m, True)
    q = C.size("q", 0, ((1 << 31) - 1 - b) // 16)
    size = L.add(L.scale(q, 16), b)
    cs, o, i = C.obj("cs", 192), C.obj("out", size), C.obj("in", size, ro=True)
    outs = C.call(build.find([m], "aes_ctr_process_packet"), [cs, o, i, size])
    iv, c0, rk = inbytes("cs", 0, 12), counter(), rkbytes()
    cache = {}

    def ctr(j):
        return wordbytes_be(T.wadd(c0, T.lin_bits(j, 32) if not isinstance(j, int) else j, 32))

    def want(j, n):
        if j not in cache:
            cache[j] = block(rk, iv + ctr(j))
        return [T.wxor(a, x, 8) for a, x in zip(cache[j], inbytes("in", L.scale(j, 16) if not isinstance(j, int) else 16 * j, n))]
    for st, _ in C.exits(outs):
        total = st.objs["out"].size
        cmp_stream(C, st, "out", total, 16, want, where="aes_ctr_process_packet")

        def f(s, sub):
            t = s.objs["out"].size
            nb = L.floordiv(L.add(t, 16 - b if b else 0), 16) if not isinstance(t, int) else (t + 15) // 16
            got = getbytes(s, "cs", 0, 192)
            cmp_bytes(E, s, "state", "aes_ctr_process_packet: state afterwards", got, iv + ctr(nb) + sum(rk, []))
        splitting(E, st, f)


def gen(rng, hints):
    sizes = list(range(0, 50)) + [63, 64, 65, 100, 255, 256, 257, 1000]
    for h in hints.get("q", ()):
        for b in range(16):
            if 16 * h + b < 200000:
                sizes.insert(0, 16 * h + b)
    def skip(n, ds):
        k, iv, x = rng.randbytes(16), rng.randbytes(12), rng.randbytes(40)
        c = S.CTR(k, iv)
        c.c += n
        line, e = "%s n%s k%d %s" % (k.hex(), iv.hex(), n, x.hex()), c.packet(x).hex()
        for d in ds:
            yield (d, line, e, "AES-CTR: key, nonce, k: number of blocks skipped, packet -> ciphertext")
    for n in (254, 255, 65533, 65534, 65536):
        yield from skip(n, range(4))
    big = True
    while True:
        for n in sizes:
            k, iv, iv2 = rng.randbytes(16), rng.randbytes(12), rng.randbytes(12)
            ps = [rng.randbytes(n), rng.randbytes(rng.randrange(0, 40)), rng.randbytes(n)]
            def exp(k=k, iv=iv, iv2=iv2, ps=ps):
                c = S.CTR(k, iv)
                r = [c.packet(ps[0]), c.packet(ps[1])]
                c.load_iv(iv2)
                r.append(c.packet(ps[2]))
                return " ".join(x.hex() or "-" for x in r)
            line = "%s n%s %s %s n%s %s" % (k.hex(), iv.hex(), ps[0].hex() or "-", ps[1].hex() or "-", iv2.hex(), ps[2].hex() or "-")
            e = exp()
            for d in range(len(REPLAY.drivers)):
                yield (d, line, e, "AES-CTR: key, nonce, packet, packet, new nonce, packet -> ciphertexts")
        if big:
            big = False
            yield from skip((1 << 24) - 2, range(4))
            sizes = [4096 + 5, 16 * 256 + 16]
        else:
            sizes = [rng.randrange(0, 400) for _ in range(60)]


REPLAY = Replay([Driver("aes_ctr", [PLAIN]), Driver("aes_ctr", [X86]), Driver("aes_ctr", [X86], tuple(build.X86)), Driver("aes_ctr", [ARM]) , Driver("aes_ctr", [ARM], ["-DARM_INTRINSICS", "-march=armv8-a+crypto"], arm=True)], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
