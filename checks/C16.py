"""DES = FIPS 46-3 on 32-bit halves, and decryption inverts encryption."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check, terms as T, lin as L
from vc.harness import *
from vc.replay import Driver, Replay
from specs import des as S

ID = "C16"
TITLE = "DES block cipher equals FIPS 46-3 and decryption inverts encryption"
SRC = "Legacy/DES/des.cpp"
MODULES = [(SRC, ())]
ASSUMPTIONS = ["output and input do not overlap", "the interface is words: key, block and text are 32-bit words in the host's (little-endian) order",
               "packet sizes are multiples of 8 (the interface's documented precondition)"]
SCHED = {"enc": "des_key_schedule_encrypt", "dec": "des_key_schedule_decrypt"}


def cases(tier):
    return ["block-enc", "block-dec", "inverse", "packet-enc", "packet-dec"]


def words(obj, off, n):
    return [lew(inbytes(obj, L.add(off, 4 * i) if not isinstance(off, int) else off + 4 * i, 4)) for i in range(n)]


def flat(ws):
    return sum([wordbytes(w, 4) for w in ws], [])


def prove(key, out):
    T.LUTAFFINE = False
    p = key.split("-")
    m = build.module(SRC)
    C = Case([m], key)
    out.append(C)
    E = C.E
    d = p[1] if len(p) > 1 else "enc"
    spec = S.Cipher(words("key", 0, 2), d == "dec")
    size = 8
    if p[0] == "packet":
        size = L.scale(C.size("q", 0, 1 << 59), 8)
    cs, k, o, i, r = C.obj("cs", 128), C.obj("key", 8, ro=True), C.obj("out", size), C.obj("in", size, ro=True), C.obj("rec", 8)

    def then(st, f, *a):
        C.st = st
        return C.exits(C.call(build.find([m], f), list(a)))
    for st, _ in then(C.st, SCHED[d], cs, k):
        subkeys = getbytes(st, "cs", 0, 128)
        if p[0] == "block":
            want = flat(spec.words(words("in", 0, 2)))
            for st, _ in then(st, "des_ecb_block", cs, o, i):
                got = getbytes(st, "out", 0, 8)
                cmp_bytes(E, st, "output", "des_ecb_block (%s)" % d, got, want)
                cmp_bytes(E, st, "state", "des_ecb_block keeps the subkeys", getbytes(st, "cs", 0, 128), subkeys)
                C.refute(st, got[0], want[0])
        elif p[0] == "inverse":
            for st, _ in then(st, "des_ecb_block", cs, o, i):
                for st, _ in then(st, SCHED["dec"], cs, k):
                    for st, _ in then(st, "des_ecb_block", cs, r, o):
                        got = getbytes(st, "rec", 0, 8)
                        cmp_bytes(E, st, "output", "decryption of an encryption", got, inbytes("in", 0, 8))
                        C.refute(st, got[0], inbytes("in", 0, 8)[0])
        else:
            for st, _ in then(st, "des_process_packet_ecb", cs, o, i, size):
                cmp_stream(C, st, "out", st.objs["out"].size, 8,
                           lambda j, n: flat(spec.words(words("in", 8 * j if isinstance(j, int) else L.scale(j, 8), 2)))[:n], where="des_process_packet_ecb")
                splitting(E, st, lambda s, sub: cmp_bytes(E, s, "state", "des_process_packet_ecb keeps the subkeys", getbytes(s, "cs", 0, 128), subkeys))


def gen(rng, hints):
    sizes = [1, 2, 3, 0, 4, 5, 9, 33]
    b = lambda ws: b"".join(v.to_bytes(4, "little") for v in ws)
    for h in hints.get("q", ()):
        if h < 5000:
            sizes.insert(0, h)
    while True:
        for n in sizes:
            k = rng.randbytes(8)
            x = rng.randbytes(8 * n)
            kw = [int.from_bytes(k[:4], "little"), int.from_bytes(k[4:], "little")]
            e, d = S.Cipher(kw).ecb(x), S.Cipher(kw, True).ecb(x)
            yield (0, "E %s %s" % (k.hex(), x.hex() or "-"), "%s %s %s" % (e.hex() or "-", d.hex() or "-", x.hex() or "-"),
                   "DES-ECB: key, data -> encrypted, decrypted, decryption of the encryption")
        sizes = [rng.randrange(0, 20) for _ in range(60)]


REPLAY = Replay([Driver("des", [SRC])], gen)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
