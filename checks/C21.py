"""Memory safety and definedness of every public function, at every length: the obligations the verifier generates for
each access, pointer, shift, division and signed operation, run from the same contracts' preconditions as the other checks."""
import copy
import importlib
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import check, engine, harness
from vc.replay import Replay
from vc.exec import Unsupported

ID = "C21"
TITLE = "Packet functions never touch memory outside their arguments"
LEVEL = "other"
LEVEL_NOTE = "Every load, store, pointer, shift, division and signed arithmetic operation of the public functions is a discharged obligation for every content and every length in the stated preconditions; hc128_process_packet is BOUNDED: decided for every content but only for the packet lengths listed in the evidence. Trusts clang's front end, the verifier /verif/vc and z3."
PARTS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18"]
SKIP = {"C17": ("fresh",)}       # a lemma over the specification: no code
CANARY = False                       # nothing is compared here; the exits must still be feasible
KINDS = {"bad-free", "dangling", "division", "frame", "null-pointer", "out-of-bounds", "shift-width", "signed-overflow", "abort", "unreachable"}
_m = {}


class NoSpecs(list):
    """what the data become does not matter here: no ghost recurrence is tracked"""
    def append(self, x):
        pass


def part(p):
    if p not in _m:
        _m[p] = importlib.import_module("checks." + p)
    return _m[p]


MODULES = list(dict.fromkeys((s, tuple(f)) for p in PARTS for s, f in part(p).MODULES))
TRUSTED = list(dict.fromkeys(t for p in PARTS for t in getattr(part(p), "TRUSTED", [])))
ASSUMPTIONS = list(dict.fromkeys(t for p in PARTS for t in getattr(part(p), "ASSUMPTIONS", [])))


def cases(tier):
    r = []
    for p in PARTS:
        for c in part(p).cases(tier):
            if p == "C12" and c.startswith("packet") and tier == "quick" and sum(map(int, c.split("-")[1].split(","))) > 9000:
                continue
            if p == "C15" and "-key-" in c and int(c.split("-")[2]) % 4 and tier == "quick":
                continue
            if c in SKIP.get(p, ()):
                continue
            r.append(p + ":" + c)
    return r


def prove(key, out):
    p, k = key.split(":")
    m = part(p)
    for n in ("cmp_bytes", "cmp_abs", "cmp_word", "cmp_stream", "splitting", "splitmod", "tri"):
        if hasattr(m, n):
            setattr(m, n, lambda *a, **k: True)
    harness.Case.refute = lambda *a, **k: None
    cs = []
    e0 = engine.Engine.__init__

    def init(self, *a, **k):
        e0(self, *a, **k)
        if p != "C10":              # its contract counts the blocks with the ghost recurrence
            self.specs = NoSpecs()
    engine.Engine.__init__ = init
    try:
        m.prove(k, cs)
    except Unsupported as e:
        if "no accepting" not in str(e):        # C10's own conclusion, drawn from the comparisons left out here
            raise
    finally:
        for C in cs:
            C.E.fails = [f for f in C.E.fails if f.kind in KINDS]
            out.append(C)


def _drivers():
    ds, at = [], {}
    for p in PARTS:
        R = part(p).REPLAY
        if any(part(q).REPLAY.drivers is R.drivers for q in at):
            continue            # C10 uses the drivers of C09
        at[p] = {}
        for i, d in enumerate(R.drivers):
            if not d.arm:
                at[p][i] = len(ds)
                d = copy.copy(d)
                d.flags = d.flags + ["-O0"]     # an optimiser may drop an out-of-bounds access whose value is dead
                ds.append(d)
    return ds, at


DRV, AT = _drivers()


def gen(rng, hints):
    """the other checks' inputs, run under address and undefined-behaviour sanitizers; results are not compared"""
    its = {p: part(p).REPLAY.gen(rng, hints) for p in AT}
    while its:
        for p in list(its):
            for _ in range(24):
                x = next(its[p], None)
                if x is None:
                    del its[p]
                    break
                if x[0] in AT[p]:
                    yield (AT[p][x[0]], x[1], None, "memory and arithmetic sanitizers; input of " + p)


REPLAY = Replay(DRV, gen, batch=400)

if __name__ == "__main__":
    check.entry(sys.modules[__name__])
