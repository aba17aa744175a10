"""All AEGIS-128 builds are identical."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import build, check, terms as T, lin as L
from vc.harness import *
from vc.replay import Driver, Replay
from specs import aegis as S
import C09
import C10
from C09 import BUILDS, SZ, ST

ID = "C11"
TITLE = "AEGIS-128 hardware and portable builds are bit-identical"
MODULES = C09.MODULES
TRUSTED = C09.TRUSTED
ASSUMPTIONS = C09.ASSUMPTIONS
PUBLIC = ["aegis_load_key", "aegis_encrypt_packet", "aegis_decrypt_packet"]
OTHERS = [b for b in BUILDS if b != "portable"]


def cases(tier):
    r = ["same-" + b for b in OTHERS] + ["update-" + b for b in OTHERS]
    for c in C10.cases(tier) + C09.cases(tier):
        k, b = c.split("-")[:2]
        if k not in ("update", "round") and "full-" + c not in r:
            r.append("full-" + c)
    return r


def update_name(b):
    return C09.fn(build.module(*BUILDS[b]), "aegis_state_update", 2)


def compare(b):
    """(identical functions, differing functions) outside the state update, portable against build b"""
    m, p = build.module(*BUILDS[b]), build.module(*BUILDS["portable"])
    names = {build.find([p], n) for n in PUBLIC}
    if {build.find([m], n) for n in PUBLIC} != names:
        return [], sorted(names)
    u, v = update_name(b), update_name("portable")
    if u is None or u != v:
        return build.same_code(BUILDS["portable"], BUILDS[b], names)
    return build.same_code(BUILDS["portable"], BUILDS[b], names, [u])


def prove(key, out):
    p = key.split("-")
    if p[0] == "same":
        C = Case([build.module(*BUILDS[p[1]])], key)
        out.append(C)
        C.paths = C.canary = 1
        same, diff = compare(p[1])
        for n in same:
            C.E.ob("identical-code")
            if n in C.E.funcs:
                C.E.functions.add(n)
        C.E.loopinfo["differing functions (proved against the specification instead)"] = diff
        return
    if p[0] == "update":
        return update(key, out, p[1])
    # a build whose code differs outside the state update: prove it, and the portable source, against the specification
    b = p[2]
    if (b == "portable" and all(not compare(x)[1] for x in OTHERS)) or (b != "portable" and not compare(b)[1]):
        C = Case([build.module(*BUILDS[b])], key)
        out.append(C)
        C.paths = C.canary = 1
        C.E.ob("identical-code")
        return
    (C10 if p[1] == "dec" else C09).prove("-".join(p[1:]), out)


def update(key, out, b):
    if update_name(b) is None or update_name("portable") is None:
        C = Case([build.module(*BUILDS[b])], key)
        out.append(C)
        C.paths = C.canary = 1
        return
    res = []
    for x in ("portable", b):
        C = Case([build.module(*BUILDS[x])], key + " " + x)
        out.append(C)
        cs, blk = C.obj("cs", SZ), C.obj("m", 16, ro=True)
        ex = list(C.exits(C.call(update_name(x), [cs, blk])))
        if len(ex) != 1:
            raise Unsupported("state update branches on data")
        res.append(getbytes(ex[0][0], "cs", 0, ST + 80))
    cmp_bytes(C.E, ex[0][0], "callee-contract", "aegis_state_update: portable and %s" % b, res[1], res[0])
    C.refute(ex[0][0], res[1][ST], res[0][ST])
    out[-2].canary = 1


def gen(rng, hints):
    """every build against the portable one"""
    hx = lambda b: b.hex()
    ref = Driver("aegis", [C09.PLAIN])
    try:
        ref.build()
        while True:
            lines = []
            for n in C09.lengths(rng, hints):
                k, iv = rng.randbytes(16), rng.randbytes(16)
                a, x = rng.randbytes(rng.choice([0, 1, 5, 15, 16, 17, 31, 32, 33, rng.randrange(0, 100)])), rng.randbytes(n)
                c, t = S.encrypt(k, iv, a, x)
                bad = bytearray(t)
                bad[rng.randrange(16)] ^= 1 << rng.randrange(8)
                lines.append("%s e%s/%s/%s %s" % (hx(k), hx(iv), hx(a), hx(x), " ".join("d%s/%s/%s/%s" % (hx(iv), hx(a), hx(c), hx(y)) for y in (t, bad))))
            o, e = ref.run(lines, 60)
            if e or len(o) != len(lines):
                return
            for l, w in zip(lines, o):
                for d in range(len(REPLAY.drivers)):
                    yield (d, l, w, "AEGIS-128 packets -> outputs of the portable build")
    finally:
        ref.close()


REPLAY = Replay(C09.DRIVERS[1:], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
