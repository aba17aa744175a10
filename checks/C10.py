"""AEGIS-128 decryption recovers valid messages and rejects forgeries, every length."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import build, check, terms as T, lin as L
from vc.harness import *
from vc.replay import Replay
from specs import aegis as S
import C09
from C09 import BUILDS, Chain, SZ, off, setup, lens

ID = "C10"
TITLE = "AEGIS-128 decryption recovers valid messages and rejects forgeries"
MODULES = C09.MODULES
TRUSTED = C09.TRUSTED
ASSUMPTIONS = C09.ASSUMPTIONS


def cases(tier):
    return ["%s-%s-%d" % (k, b, r) for k in ("dec", "round") for b in BUILDS for r in range(0, 16, 4)] + [c for c in C09.cases(tier) if not c.startswith("packet")]


def prove(key, out):
    p = key.split("-")
    if p[0] not in ("dec", "round"):
        return C09.prove(key, out)
    m = build.module(*BUILDS[p[1]])
    for r in range(int(p[2]), int(p[2]) + 4):
        (dec if p[0] == "dec" else roundtrip)("%s+%d" % (key, r), out, m, r)


def dec(key, out, m, r):
    """any ciphertext, any tag"""
    C = Case([m], key)
    out.append(C)
    E = C.E
    upd, size, an, cs, iv, ad, s0 = setup(C, m, r)
    ct, pt, tag = C.obj("ct", size, ro=True), C.obj("pt", size), C.obj("tag", 16)
    ch = Chain(C, upd, s0, lambda s, j: S.xor(inbytes("ct", off(j), 16), S.ks(s)))
    fn = build.find([m], "aegis_decrypt_packet")
    seen = set()
    for st, v in C.exits(C.call(fn, [cs, pt, ct, ad, iv, tag, an, size])):
        # the tag this ciphertext should carry
        box = {}

        def f(s, sub):
            n = s.objs["ct"].size
            nb = L.floordiv(L.sub(n, r), 16)
            w = ch.exit(s, nb)
            if r:
                w = upd(w, S.xor(inbytes("ct", off(nb), r), S.ks(w)) + [0] * (16 - r))
            t = S.tag(w, lens(s.objs["ad"].size, n), upd)
            ok = T.andset([T.weq(a, b, 8) for a, b in zip(inbytes("tag", 0, 16), t)])
            want = T.norm((ok,) + (0,) * 31)
            got = E.data(s, v, 32)
            cmp_word(E, s, "verdict", "aegis_decrypt_packet: result", got, want, 32)
            acc = v if v in (0, 1) else None      # proved equal to the specified verdict above
            seen.update({acc} if acc is not None else {0, 1})
            cmp_bytes(E, s, "state", "aegis_decrypt_packet: key", getbytes(s, "cs", 0, 16), inbytes("cs", 0, 16))
            mask = T.norm((ok,) * 8) if acc is None else 255 * acc

            def plain(j, k):
                return [T.wand(mask, b, 8) for b in S.xor(inbytes("ct", off(j), k), S.ks(ch.at(j)))]
            cmp_stream(C, s, "pt", s.objs["pt"].size, 16, plain, where="aegis_decrypt_packet: plaintext %s" % ({0: "after rejection", 1: "released"}.get(acc, "")))
        splitting(E, st, f)
    if not {0, 1} <= seen:
        raise Unsupported("no accepting or no rejecting execution (%r)" % seen)


def roundtrip(key, out, m, r):
    C = Case([m], key)
    out.append(C)
    E = C.E
    upd, size, an, cs, iv, ad, s0 = setup(C, m, r)
    pt, ct, tag = C.obj("in", size, ro=True), C.obj("ct", size), C.obj("tag", 16)
    ch = Chain(C, upd, s0, lambda s, j: inbytes("in", off(j), 16))
    for st, _ in C.exits(C.call(build.find([m], "aegis_encrypt_packet"), [cs, ct, tag, pt, ad, iv, an, size])):
        C.st = st.copy()
        C.st.ghost = {}
        n = C.st.objs["ct"].size
        # the receiver's state holds the same key; everything else in it is arbitrary
        rs, po = C.obj("rs", SZ), C.obj("pt", n)
        for i in range(0, 16, 4):
            E.store(C.st, Ptr("rs", i), 4, lew(inbytes("cs", i, 4)), "<ghost>")
        C.st.objs["ct"] = C.st.objs["ct"].clone(C.st.tok)
        C.st.objs["ct"].ro = True
        a2 = C.st.objs["ad"].size
        for s2, v in C.exits(C.call(build.find([m], "aegis_decrypt_packet"), [rs, po, Ptr("ct", 0), ad, iv, tag, a2, n])):
            cmp_word(E, s2, "inverse", "aegis_decrypt_packet accepts what aegis_encrypt_packet produced", E.data(s2, v, 32), 1, 32)
            cmp_stream(C, s2, "pt", s2.objs["pt"].size, 16, lambda j, k: inbytes("in", off(j), k), kind="inverse", where="aegis_decrypt_packet after aegis_encrypt_packet")


def gen(rng, hints):
    hx = lambda b: b.hex()
    ox = lambda b: b.hex() or "-"
    while True:
        for n in C09.lengths(rng, hints):
            k, iv = rng.randbytes(16), rng.randbytes(16)
            a, x = rng.randbytes(rng.choice([0, 1, 5, 15, 16, 17, 31, 32, 33, rng.randrange(0, 100)])), rng.randbytes(n)
            c, t = S.encrypt(k, iv, a, x)
            bad = bytearray(t)
            bad[rng.randrange(16)] ^= 1 << rng.randrange(8)
            bad2 = bytearray(t)
            for i in rng.sample(range(4), 2):
                for b in range(3, -1, -1):
                    bad2[4 * i + b] ^= 0x10
            ts = [t, bytes(bad), bytes(bad2), bytes(rng.randrange(1, 256) ^ y for y in t), bytes(16)]
            line = "%s e%s/%s/%s %s" % (hx(k), hx(iv), hx(a), hx(x), " ".join("d%s/%s/%s/%s" % (hx(iv), hx(a), hx(c), hx(y)) for y in ts))
            e = "%s/%s %s" % (ox(c), hx(t), " ".join("%d/%s" % (y == t, ox(x if y == t else bytes(n))) for y in ts))
            for d in range(len(REPLAY.drivers)):
                yield (d, line, e, "AEGIS-128: key; e<iv>/<ad>/<message> -> ciphertext/tag; d<iv>/<ad>/<ciphertext>/<tag> -> verdict/plaintext")


REPLAY = Replay(C09.DRIVERS, gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
