"""HMAC validation accepts exactly the correct tag."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import build, check, terms as T, lin as L
from vc.harness import *
from vc.replay import Driver, Replay
from specs import hmac as S
import C03

ID = "C04"
TITLE = "HMAC validation accepts exactly the correct tag"
SRC, SHA = C03.SRC, C03.SHA
MODULES = C03.MODULES
ASSUMPTIONS = ["tag length between 1 and 32"] + C03.ASSUMPTIONS[1:]


def cases(tier):
    return ["tag-%d" % (4 * i) for i in range(9)][::-1]


def prove(key, out):
    m, sh = build.module(SRC), build.module(SHA)
    p = int(key.split("-")[1])
    for tl in range(max(p, 1), min(p + 4, 33)):
        C = Case([m, sh], "%s taglen %d" % (key, tl))
        out.append(C)
        E = C.E
        n = C.size("q", 0, (1 << 31) - 128 - 65)
        for s0, sz, st, v, dg in C03.setup(C, m, "hmac_tag_validation", n, tl, True):
            ok = T.andset([T.weq(a, b, 8) for a, b in zip(inbytes("tag", 0, tl), dg)])

            def f(s, sub):
                want = T.norm((ok,) + (0,) * 31)
                got = E.data(s, v, 32)
                cmp_word(E, s, "verdict", "hmac_tag_validation", got, want, 32)
                cmp_bytes(E, s, "frame", "hmac_tag_validation: prepared keys", getbytes(s, "cs", 0, sz), getbytes(s0, "cs", 0, sz))
                C.refute(s, T.wslice(got, 0, 8), T.wslice(want, 0, 8))
            splitting(E, st, f)


def gen(rng, hints):
    todo = [(20, n, t) for n in (0, 1, 55, 64, 200) for t in (1, 4, 16, 20, 32)]
    for h in hints.get("q", ()):
        if h < 100000:
            todo = [(20, h, 16), (20, h, 32)] + todo
    while True:
        for k, n, t in todo:
            key, a = rng.randbytes(k), rng.randbytes(n)
            good = S.hmac(key, a)[:t]
            tags = [good, bytes(t), b"\xc3" * t, b"\xa5" * t, rng.randbytes(t)]
            for i in range(t):
                x = bytearray(good)
                x[i] ^= 1 << rng.randrange(8)
                tags.append(bytes(x))
                x = bytearray(rng.randbytes(t))
                x[i] = good[i]
                tags.append(bytes(x))
            for x in tags:
                yield (0, "v %s %s %s" % (key.hex() or "-", a.hex() or "-", x.hex() or "-"),
                       "%d %s %s" % (x == good, a.hex() or "-", x.hex() or "-"), "HMAC validation: key, message, presented tag -> verdict")
        todo = [(rng.randrange(0, 100), rng.randrange(0, 400), rng.randrange(1, 33)) for _ in range(60)]


REPLAY = Replay([Driver("hmac", [SRC, SHA])], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
