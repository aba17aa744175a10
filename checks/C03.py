"""HMAC tag = leading bytes of RFC 2104 HMAC-SHA-256."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.exec import Obj, Cells, Range
from vc.harness import *
from vc.replay import Driver, Replay
from specs import hmac as S

ID = "C03"
TITLE = "HMAC tag equals RFC 2104 HMAC-SHA-256 truncated to the tag length"
SRC = "Authentication/HMAC-SHA-256/hmac.cpp"
SHA = "Authentication/HMAC-SHA-256/sha-256.cpp"
MODULES = [(SRC, ()), (SHA, ())]
ASSUMPTIONS = ["tag length between 0 and 32", "message size < 2^31 - 192, key size < 2^31 - 128 (the code keeps lengths in an int)",
               "tag, message, key and state do not overlap",
               "sha256_process_message meets its contract (digest = function of the byte sequence): discharged by C02 on the same source"]


def cases(tier):
    return ["key-big"] + ["key-%d" % (8 * i) for i in range(9)] + ["tag-%d" % (4 * i) for i in range(9)]


def ghost(C, name, size, layers):
    o = Obj(name, size, "zero", ro=True)
    o.layers = layers
    C.st.objs[name] = o


def fixed(bs, base=0):
    return Cells((), {base + i: (1, b) for i, b in enumerate(bs)})


def load(C, m, n, name="key"):
    """run hmac_load_key on a symbolic key of n bytes; -> exit states"""
    sz = build.sizeof(m, "hmac_state")
    cs, k = C.obj("cs", sz), C.obj(name, n, ro=True)
    return cs, sz, C.exits(C.call(build.find([m], "hmac_load_key"), [cs, k, n]))


def expect_tag(C, n, kb):
    """the two hash inputs RFC 2104 prescribes for a 64-byte padded key and the message object"""
    ghost(C, "$inner", L.add(n, 64), [fixed([T.wxor(b, 0x36, 8) for b in kb]), Range(64, n, C.st.objs["msg"], 0)])
    C.hash.expect.append(("$inner", "inner"))
    ghost(C, "$outer", 96, [fixed([T.wxor(b, 0x5C, 8) for b in kb] + C.hash.digest("inner"))])
    C.hash.expect.append(("$outer", "outer"))
    return C.hash.digest("outer")


def setup(C, m, fn, n, tl, ro):
    """prepared key of any 64 padded bytes, then fn(cs, tag, msg, n, tl); yields
    (entry state, exit state, value, expected digest)"""
    C.hash = HashContract(C, build.find([build.module(SHA)], "sha256_process_message"))
    msg = C.obj("msg", n, ro=True)
    tag = C.obj("tag", tl, ro=ro)
    cs, sz, sts = load(C, m, 64)
    for s0, _ in sts:
        C.st = s0
        dg = expect_tag(C, n, inbytes("key", 0, 64))
        for st, v in C.exits(C.call(build.find([m], fn), [cs, tag, msg, n, tl])):
            yield s0, sz, st, v, dg


def prove(key, out):
    m, sh = build.module(SRC), build.module(SHA)
    kind, p = key.split("-")
    if kind == "key":
        # a key of any length prepares the same tags as its padded/hashed 64-byte form
        for ks in ([None] if p == "big" else range(int(p), min(int(p) + 8, 65))):
            C = Case([m, sh], "%s keysize %s" % (key, ks))
            out.append(C)
            E = C.E
            n = L.add(C.size("q", 0, (1 << 31) - 128 - 65 - 1), 65) if ks is None else ks
            C.hash = HashContract(C, build.find([sh], "sha256_process_message"))
            msg, tag = C.obj("msg", 7, ro=True), C.obj("tag", 32)
            cs, sz, sts = load(C, m, n) if ks is not None else (None, None, None)
            if ks is None:
                C.obj("key", n, ro=True)
                ghost(C, "$key", n, [Range(0, n, C.st.objs["key"], 0)])
                C.hash.expect.append(("$key", "key"))
                kb = C.hash.digest("key") + [0] * 32
                cs, sz, sts = load(C, m, n)
            else:
                kb = inbytes("key", 0, ks) + [0] * (64 - ks)
            for s0, _ in sts:
                C.st = s0
                dg = expect_tag(C, 7, kb)
                for st, _ in C.exits(C.call(build.find([m], "hmac_tag_generation"), [cs, tag, msg, 7, 32])):
                    def f(s, sub):
                        g = getbytes(s, "tag", 0, 32)
                        cmp_bytes(E, s, "tag", "hmac_load_key, hmac_tag_generation", g, dg)
                        C.refute(s, g[0], dg[0])
                    splitting(E, st, f)
        return
    for tl in range(int(p), min(int(p) + 4, 33)):
        C = Case([m, sh], "%s taglen %d" % (key, tl))
        out.append(C)
        E = C.E
        n = C.size("q", 0, (1 << 31) - 128 - 65)
        for s0, sz, st, _, dg in setup(C, m, "hmac_tag_generation", n, tl, False):
            def f(s, sub):
                g = getbytes(s, "tag", 0, tl)
                cmp_bytes(E, s, "tag", "hmac_tag_generation", g, dg)
                a, b = getbytes(s, "cs", 0, sz), getbytes(s0, "cs", 0, sz)
                cmp_bytes(E, s, "frame", "hmac_tag_generation: prepared keys", a, b)
                C.refute(s, g[0] if tl else a[0], dg[0] if tl else b[0])
            splitting(E, st, f)


def gen(rng, hints):
    todo = [(k, t, n) for k in (0, 1, 20, 31, 32, 33, 63, 64, 65, 66, 96, 100, 131, 1000) for t, n in ((16, 0), (32, 1), (16, 63), (32, 64), (1, 55), (0, 3), (31, 129), (20, 1000))]
    todo += [(k, 32, 30 + k) for k in range(130)]
    for h in hints.get("q", ()):
        if h < 100000:
            todo = [(65 + h, 32, 5), (65 + h, 16, h), (20, 32, h), (64, 16, h)] + todo
    while True:
        for k, t, n in todo:
            key, a, b = rng.randbytes(k), rng.randbytes(n), rng.randbytes(rng.randrange(0, 90))
            yield (0, "g %s %d %s %s" % (key.hex() or "-", t, a.hex() or "-", b.hex() or "-"),
                   lambda key=key, a=a, b=b, t=t: "%s %s %s" % (S.hmac(key, a)[:t].hex() or "-", S.hmac(key, b)[:t].hex() or "-", key.hex() or "-"),
                   "HMAC: key, tag length, two messages -> tags (and the key afterwards)")
        todo = [(rng.randrange(0, 200), rng.randrange(0, 33), rng.randrange(0, 400)) for _ in range(60)]


REPLAY = Replay([Driver("hmac", [SRC, SHA])], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
