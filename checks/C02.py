"""SHA-256 = FIPS 180-4 for every message length, both shipped copies."""
import hashlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.exec import Obj, Cells, Range, read
from vc.induct import Spec
from vc.harness import *
from vc.replay import Driver, Replay
from specs import sha256 as S

ID = "C02"
TITLE = "SHA-256 digest equals FIPS 180-4 for every message length"
SRCS = {"hash": "Hash/SHA/SHA-2/SHA-256/sha-256.cpp", "hmac": "Authentication/HMAC-SHA-256/sha-256.cpp"}
MODULES = [(s, ()) for s in SRCS.values()]
ASSUMPTIONS = ["when the two copies compile to identical IR (compared on every run) the proof of one serves both",
               "message size < 2^31 - 128 (the code keeps the padded length in an int and on the stack)",
               "the stack is large enough for the padded copy", "digest and message do not overlap"]


def cases(tier):
    # when both copies compile to the same IR one proof serves both
    keys = list(SRCS)
    if build.same_ir(*SRCS.values()):
        keys = keys[:1]
    order = sorted(range(64), key=lambda r: -r)
    return ["%s-%d" % (s, r) for r in order for s in keys]


def ghost_pad(C, size, q, r):
    """the FIPS 180-4 padded message as a ghost object; returns number of blocks"""
    nb = L.add(q, 1 if r < 56 else 2)
    o = Obj("$pad", L.scale(nb, 64), "zero", ro=True)
    o.layers = [Range(0, size, C.st.objs["in"], 0)]
    t, c = linsplit(L.scale(q, 64))
    d = {c + r: (1, 0x80)}
    for k in range(r + 1, 64 * (1 if r < 56 else 2) - 8):
        d[c + k] = (1, 0)
    ln = T.lin_bits(L.scale(size, 8), 64)
    for k in range(8):
        d[c + 64 * (1 if r < 56 else 2) - 1 - k] = (1, T.wslice(ln, 8 * k, 8))
    o.layers.append(Cells(t, d))
    C.st.objs["$pad"] = o
    return nb


def block_words(st, pos, ab=False):
    o = st.objs["$pad"]
    t, c = linsplit(L.scale(pos, 64) if not isinstance(pos, int) else 64 * pos)
    by = [read(o, st.cons, t, c + i, 1) for i in range(64)]
    if ab:
        R = Resolver()
        by = [T.norm(absbyte(resolve_vs(valbits(b, 1), st.cons, strict=True, R=R), linjoin(t, c + i))) for i, b in enumerate(by)]
    return [bew(by[4 * i:4 * i + 4]) for i in range(16)]


def prove(key, out):
    src, r = key.rsplit("-", 1)
    r = int(r)
    m = build.module(SRCS[src])
    C = Case([m], key)
    out.append(C)
    E = C.E
    q = C.size("q", 0, (1 << 25) - 3)
    size = L.add(L.scale(q, 64), r)
    dg, i = C.obj("digest", 32), C.obj("in", size, ro=True)
    nb = ghost_pad(C, size, q, r)
    C.obj("$nb", nb)
    E.specs.append(Spec("sha", [32] * 8, list(S.H0), lambda H, pos, E, st: S.compress(H, block_words(st, pos)), strides=(1,)))
    for st, _ in C.exits(C.call(build.find([m], "sha256_process_message"), [dg, i, size])):
        def f(s, sub):
            pos, comps = s.ghost.get("sha", (0, list(S.H0)))
            n = s.objs["$nb"].size
            left = L.sub(n, pos)
            if not isinstance(left, int) or not 0 <= left <= 2:
                raise Unsupported("block count mismatch %r" % (left,))

            def want(ab):
                H = list(comps)
                for i in range(left):
                    H = S.compress(H, block_words(s, L.add(pos, i), ab))
                want = sum([wordbytes_be(w) for w in H], [])
                R = Resolver(ab)
                return [resolve_vs(w, s.cons, strict=True, R=R) for w in want]
            C.refute(s, *cmp_abs(E, s, "digest", "sha256_process_message", lambda R: getbytes(s, "digest", 0, 32, R=R), want))
        splitting(E, st, f)


PATTERN = bytes((i * 7 + (i >> 8)) & 255 for i in range(65536))


def gen(rng, hints):
    sizes = list(range(0, 200)) + [1000, 4159, 65535]
    for h in hints.get("q", ()):
        if h < 5000:
            sizes = [64 * h + r for r in range(64)] + sizes
    big = True
    while True:
        for n in sizes:
            x = rng.randbytes(n)
            for d in range(2):
                yield (d, x.hex() or "-", lambda x=x: S.sha256(x).hex(), "SHA-256 of a %d-byte message" % n)
        if big:
            # lengths whose bit count needs more than 16, 24 and 32 bits
            for n in (8195, 65599, (1 << 21) + 5, (1 << 24) + 57, (1 << 29) + 3):
                x = lambda n=n: hashlib.sha256((PATTERN * (n // 65536 + 1))[:n]).hexdigest()
                for d in range(2):
                    yield (d, "z%d" % n, x, "SHA-256 of %d bytes (byte i = 7i + i/256)" % n)
            big = False
        sizes = [rng.randrange(0, 2000) for _ in range(60)] + [rng.randrange(20000, 200000)]


REPLAY = Replay([Driver("sha256", [s]) for s in SRCS.values()], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
