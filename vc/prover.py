"""Equivalence prover for literals that canonical rewriting leaves open:
bit-parallel random simulation (refutes), then bottom-up sweeping where
simulation-equal nodes are proved equal by z3 over a cut of shared nodes and
merged, then a final z3 query.  Everything merged is proved for all values of
the cut variables, hence valid."""
import random
import time

import numpy as np
import z3

from . import terms as T

NP = 256
MASK = (1 << NP) - 1
_rng = random.Random(20260101)

_sim = {0: 0}
_wsim = {}
_linv = {}
STATS = {"queries": 0, "time": 0.0, "merged": 0, "unknown": 0, "sat": 0, "unsat": 0}


def _linval(v):
    r = _linv.get(v)
    if r is None:
        lo, hi = T.VARMAX.get(v, (0, 1 << 20))
        lo = lo or 0
        hi = 1 << 62 if hi is None else hi
        r = _linv[v] = [min(hi, lo + _rng.randrange(0, 4)) if i < 32 else
                        _rng.randrange(lo, min(hi, lo + (1 << 20)) + 1) if i < 64 else _rng.randrange(lo, hi + 1) for i in range(NP)]
    return r


def _slice(vals, w):
    out = []
    for b in range(w):
        x = 0
        for i, v in enumerate(vals):
            if (v >> b) & 1:
                x |= 1 << i
        out.append(x)
    return out


def _unslice(bs):
    vals = [0] * NP
    for b, x in enumerate(bs):
        i = 0
        while x:
            lo = x & -x
            vals[lo.bit_length() - 1] |= 1 << b
            x ^= lo
    return vals


def _addbs(a, b):
    """bit-sliced addition (same width)"""
    c = 0
    out = []
    for x, y in zip(a, b):
        xy = x ^ y
        out.append(xy ^ c)
        c = (x & y) | (c & xy)
    return out


def _lits(v, w=None):
    if isinstance(v, int):
        return [MASK if (v >> i) & 1 else 0 for i in range(w)]
    return [(_sim[l >> 1] ^ (MASK if l & 1 else 0)) for l in v]


def _mux(table, idx):
    """table: list of bit-sliced values 2^k"""
    cur = table
    for s in idx:
        ns = s ^ MASK
        cur = [(cur[i] & ns) | (cur[i + 1] & s) for i in range(0, len(cur), 2)]
    return cur[0]


def _hashuf(p, i, val):
    if isinstance(p, tuple):
        if p and p[0] == "w":
            return val(p[1])[i]
        return tuple([_hashuf(x, i, val) for x in p])
    return repr(p)


_POW = (np.uint64(1) << np.arange(64, dtype=np.uint64))
_lanec = {}


def _lanes(v, w):
    """bit-sliced literals -> one uint64 per pattern"""
    if isinstance(v, int):
        return np.full(NP, v & ((1 << 64) - 1), dtype=np.uint64)
    v = v[:w]
    buf = b"".join([(_sim[l >> 1] ^ (MASK if l & 1 else 0)).to_bytes(NP // 8, "little") for l in v])
    m = np.unpackbits(np.frombuffer(buf, dtype=np.uint8).reshape(len(v), NP // 8), axis=1, bitorder="little")
    return (m.astype(np.uint64) * _POW[:len(v), None]).sum(axis=0, dtype=np.uint64)


def _unlanes(a, w):
    m = ((a[None, :] >> np.arange(w, dtype=np.uint64)[:, None]) & np.uint64(1)).astype(np.uint8)
    return [int.from_bytes(x.tobytes(), "little") for x in np.packbits(m, axis=1, bitorder="little")]


def _oplanes(o, w):
    k = (o, w)
    r = _lanec.get(k)
    if r is None:
        r = _lanec[k] = _lanes(T.opword[o], w)
    return r


def _word(wn):
    op, w, pl = T.wop[wn]
    if op == "ADD" and w <= 64:
        acc = np.full(NP, pl[0] & ((1 << 64) - 1), dtype=np.uint64)
        for o, c in pl[1]:
            acc += np.uint64(c & ((1 << 64) - 1)) * _oplanes(o, w)
        return _unlanes(acc, w)
    if op == "MUL" and w <= 64:
        return _unlanes(_lanes(pl[0], w) * _lanes(pl[1], w), w)
    if op == "ADD":
        acc = [MASK if (pl[0] >> i) & 1 else 0 for i in range(w)]
        for o, c in pl[1]:
            ob = _lits(T.opword[o], w)[:w]
            ob = ob + [0] * (w - len(ob))
            c &= (1 << w) - 1
            if c >> (w - 1) and bin(c).count("1") > w // 2:
                nc = (-c) & ((1 << w) - 1)
                neg = True
            else:
                nc, neg = c, False
            t = [0] * w
            for k in range(w):
                if (nc >> k) & 1:
                    t = _addbs(t, [0] * k + ob[:w - k])
            if neg:
                t = _addbs([x ^ MASK for x in t], [MASK] + [0] * (w - 1))
            acc = _addbs(acc, t)
        return acc
    if op == "MUL":
        a = _lits(pl[0], w)
        b = _lits(pl[1], w)
        acc = [0] * w
        for k in range(w):
            if b[k]:
                acc = _addbs(acc, [0] * k + [x & b[k] for x in a[:w - k]])
        return acc
    if op == "ULT":
        lt = 0
        for x, y in zip(_lits(pl[0]), _lits(pl[1])):
            d = x ^ y
            lt = (d & y) | ((d ^ MASK) & lt)
        return [lt]
    if op == "NAME":
        return _lits(pl)
    if op == "LUT":
        tt, idx = pl
        return [_mux([MASK if (tt >> j) & 1 else 0 for j in range(1 << len(idx))], _lits(idx))]
    if op == "SEL":
        cells = [_lits(c, w) for c in T.arrays[pl[0]]]
        ix = _lits(pl[1])
        return [_mux([c[b] for c in cells], ix) for b in range(w)]
    if op == "LIN":
        t, c = pl
        vals = [c] * NP
        for v, k in t:
            lv = _linval(v)
            vals = [x + k * y for x, y in zip(vals, lv)]
        return _slice([x & ((1 << 64) - 1) for x in vals], 64)[:w]
    if op == "UF":
        memo = {}

        def val(v):
            if isinstance(v, int):
                return [v] * NP
            r = memo.get(v)
            if r is None:
                r = memo[v] = _unslice(_lits(v))
            return r
        vals = []
        for i in range(NP):
            h = _hashuf(pl, i, val)
            r = random.Random(repr(h))
            vals.append(r.getrandbits(w))
        return _slice(vals, w)
    raise NotImplementedError(op)


def sim(lits):
    st = [l >> 1 for l in lits if (l >> 1) not in _sim]
    while st:
        n = st[-1]
        if n in _sim:
            st.pop()
            continue
        k = T.kind[n]
        if k == T.K_VAR:
            _sim[n] = _rng.getrandbits(NP)
            st.pop()
        elif k == T.K_XOR or k == T.K_AND:
            need = [x >> 1 for x in T.args[n] if (x >> 1) not in _sim]
            if need:
                st.extend(need)
                continue
            if k == T.K_XOR:
                v = 0
                for x in T.args[n]:
                    v ^= _sim[x >> 1]
            else:
                v = MASK
                for x in T.args[n]:
                    v &= _sim[x >> 1] ^ (MASK if x & 1 else 0)
            _sim[n] = v
            st.pop()
        else:
            wn, i = T.args[n]
            ws = _wsim.get(wn)
            if ws is None:
                need = [x >> 1 for x in T.wdeps(wn) if (x >> 1) not in _sim]
                if need:
                    st.extend(need)
                    continue
                ws = _wsim[wn] = _word(wn)
            _sim[n] = ws[i]
            st.pop()
    return [_sim[l >> 1] ^ (MASK if l & 1 else 0) for l in lits]


# ------------------------------------------------------------- z3 encoding
def children(n):
    k = T.kind[n]
    if k in (T.K_XOR, T.K_AND):
        return [x >> 1 for x in T.args[n]]
    if k == T.K_WB:
        return [x >> 1 for x in T.wdeps(T.args[n][0])]
    return []


def cone(lits):
    seen = set()
    words = set()
    st = [l >> 1 for l in lits]
    while st:
        n = st.pop()
        if n in seen or n == 0:
            continue
        seen.add(n)
        expand(n, st, words)
    return seen


def expand(n, st, words):
    """push the children of n, the arguments of each word once"""
    k = T.kind[n]
    if k == T.K_XOR or k == T.K_AND:
        st.extend([x >> 1 for x in T.args[n]])
    elif k == T.K_WB:
        w = T.args[n][0]
        if w not in words:
            words.add(w)
            st.extend({x >> 1 for x in T.wdeps(w)})


class Enc:
    def __init__(self, cut):
        self.cut = cut
        self.b = {0: z3.BoolVal(False)}
        self.w = {}
        self.vars = {}
        self.side = []

    def lit(self, l):
        x = self.node(l >> 1)
        return z3.Not(x) if l & 1 else x

    def bv(self, v, w):
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        # whole-word sharing
        if v in T._wfull and all((x >> 1) not in self.cut for x in v if x > 1):
            wn = T._wfull[v]
            r = self.w.get(wn)
            if r is not None and r.size() == len(v):
                return r if r.size() == w else z3.ZeroExt(w - r.size(), r)
        parts = [z3.If(self.lit(l), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if l > 1 else z3.BitVecVal(l, 1) for l in v]
        r = z3.Concat(list(reversed(parts))) if len(parts) > 1 else parts[0]
        if r.size() < w:
            r = z3.ZeroExt(w - r.size(), r)
        return r

    def node(self, n):
        st = [n]
        b = self.b
        while st:
            n = st[-1]
            if n in b:
                st.pop()
                continue
            k = T.kind[n]
            if n in self.cut or k == T.K_VAR:
                b[n] = z3.Bool("n%d" % n)
                st.pop()
                continue
            if k in (T.K_XOR, T.K_AND):
                need = [x >> 1 for x in T.args[n] if (x >> 1) not in b]
                if need:
                    st.extend(need)
                    continue
                ls = [z3.Not(b[x >> 1]) if x & 1 else b[x >> 1] for x in T.args[n]]
                if k == T.K_AND:
                    b[n] = z3.And(ls)
                else:
                    r = ls[0]
                    for x in ls[1:]:
                        r = z3.Xor(r, x)
                    b[n] = r
                st.pop()
                continue
            wn, i = T.args[n]
            op, w, pl = T.wop[wn]
            if op in ("LIN", "UF"):
                b[n] = z3.Bool("n%d" % n)
                st.pop()
                continue
            need = [x >> 1 for x in T.wdeps(wn) if (x >> 1) not in b]
            if need:
                st.extend(need)
                continue
            z = self.w.get(wn)
            if z is None:
                z = self.w[wn] = self.word(wn)
            b[n] = z3.Extract(i, i, z) == 1 if w > 1 or not z3.is_bool(z) else z
            st.pop()
        return b[n]

    def word(self, wn):
        op, w, pl = T.wop[wn]
        if op == "ADD":
            r = z3.BitVecVal(pl[0], w)
            for o, c in pl[1]:
                c &= (1 << w) - 1
                x = self.bv(T.opword[o], w)
                if c == 1:
                    r = r + x
                elif c == (1 << w) - 1:
                    r = r - x
                elif c & (c - 1) == 0:
                    r = r + (x << (c.bit_length() - 1))
                else:
                    r = r + x * c
            return r
        if op == "MUL":
            return self.bv(pl[0], w) * self.bv(pl[1], w)
        if op == "ULT":
            n = len(pl[0])
            return z3.If(z3.ULT(self.bv(pl[0], n), self.bv(pl[1], n)), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == "NAME":
            return z3.If(self.lit(pl[0]), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == "LUT":
            tt, idx = pl
            cur = [z3.BoolVal(bool((tt >> j) & 1)) for j in range(1 << len(idx))]
            for l in idx:
                s = self.lit(l)
                cur = [cur[i] if cur[i].eq(cur[i + 1]) else z3.If(s, cur[i + 1], cur[i]) for i in range(0, len(cur), 2)]
            return z3.If(cur[0], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == "SEL":
            cur = [self.bv(c, w) for c in T.arrays[pl[0]]]
            for l in pl[1]:
                s = self.lit(l)
                cur = [z3.If(s, cur[i + 1], cur[i]) for i in range(0, len(cur), 2)]
            return cur[0]
        raise NotImplementedError(op)


def query(claim, cut, assume=(), timeout=4000):
    """is claim (literal) valid with the cut nodes free?  True/False/None(unknown)"""
    t0 = time.time()
    e = Enc(cut)
    s = z3.SolverFor("QF_BV")
    s.set("timeout", timeout)
    for a in assume:
        s.add(e.lit(a))
    if isinstance(claim, tuple):
        # two words equal
        a, b = claim
        s.add(z3.Or([e.lit(x) != e.lit(y) for x, y in zip(a, b) if x != y]))
    else:
        s.add(z3.Not(e.lit(claim)))
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    if r == z3.unsat:
        STATS["unsat"] += 1
        return True, None
    if r == z3.sat:
        STATS["sat"] += 1
        m = s.model()
        return False, {n: z3.is_true(m.eval(v, model_completion=True)) for n, v in e.b.items() if T.kind[n] == T.K_VAR}
    STATS["unknown"] += 1
    return None, None


def frontier(a, b):
    """largest cut of nodes shared by the cones of literal lists a and b"""
    ca, cb = cone(a), cone(b)
    sh = ca & cb
    ra = {l >> 1 for l in a} | {l >> 1 for l in b}
    return sh - ra, ca, cb


def expandcut(cut, roots, levels):
    """drop from the cut the nodes within `levels` below the frontier"""
    cut = set(cut)
    for _ in range(levels):
        # frontier nodes reached from the roots
        seen = set()
        words = set()
        st = list(roots)
        hit = set()
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in cut:
                hit.add(n)
                continue
            expand(n, st, words)
        if not hit:
            break
        # open whole words at a time
        cut -= hit
    return cut


_rep = {}        # node -> literal (proved equal)
_wmemo = {}
_classes = {}    # signature -> list of literals
_wclasses = {}
_failed = set()
_cutproved = {}


def lookup(l):
    r = _rep.get(l >> 1)
    while r is not None and (r >> 1) in _rep and _rep[r >> 1] != (r & -2):
        r = _rep[r >> 1] ^ (r & 1)
    return l if r is None else r ^ (l & 1)


def normalise(lits, deadline=None):
    """sweep the cones of lits; returns the literals rewritten with every merge proved"""
    nodes = sorted(n for n in cone(lits) if n not in _rep)
    _rep.setdefault(0, 0)
    f = lambda v: v if isinstance(v, int) else T.norm(tuple([lookup(x) for x in v]))
    for n in nodes:
        if n in _rep:
            continue
        if deadline and time.time() > deadline:
            break
        k = T.kind[n]
        if k == T.K_VAR:
            _rep[n] = 2 * n
            continue
        if k in (T.K_XOR, T.K_AND):
            ch = [lookup(x) for x in T.args[n]]
            if all(c == x for c, x in zip(ch, T.args[n])):
                nl = 2 * n
            elif k == T.K_XOR:
                nl = T.xorset(ch)
            else:
                nl = T.andset(ch) if len(ch) > 2 else T.and2(*ch)
        else:
            wn, i = T.args[n]
            if wn not in _wmemo:
                _wmemo[wn] = _rebword(wn, f)
            nl = _wmemo[wn][i]
        nl = lookup(nl)
        _rep[n] = merge(nl)
        if (nl >> 1) != n and (nl >> 1) not in _rep:
            _rep[nl >> 1] = _rep[n] ^ (nl & 1)
    return [lookup(l) for l in lits]


def _rebword(wn, f):
    op, w, pl = T.wop[wn]
    if op == "ADD":
        r = T.add_lin([(c, f(T.opword[o])) for o, c in pl[1]], pl[0], w)
    elif op == "MUL":
        r = T.wmul(f(pl[0]), f(pl[1]), w)
    elif op == "ULT":
        r = T.wult(f(pl[0]), f(pl[1]), len(pl[0]))
        r = (r,)
    elif op == "LUT":
        ix = T.bits(f(pl[1]), len(pl[1]))
        r = T.wtable(tuple([(pl[0] >> j) & 1 for j in range(1 << len(pl[1]))]), ix, 1)
    elif op == "SEL":
        r = T.wselect(tuple([f(c) for c in T.arrays[pl[0]]]), T.bits(f(pl[1]), len(pl[1])), w)
    elif op == "LIN":
        r = T._wbits[wn]
    elif op == "NAME":
        r = T.wname(f(pl), 1)
    elif op == "UF":
        r = T.mkword("UF", w, (pl[0], T._mapuf(pl[1], f)))
    r = T.bits(r, w)
    # whole-word merge with an earlier, simulation-equal word
    if op in ("ADD", "MUL", "SEL"):
        sg = tuple(sim(r))
        c = _wclasses.setdefault(sg, [])
        for o in c:
            if o == r:
                return r
        for o in c:
            if local(r, o):
                STATS["merged"] += 1
                return o
        c.append(r)
    return r


def local(a, b, timeout=3000):
    """prove words/literals equal over cuts of shared nodes"""
    A = a if isinstance(a, tuple) else (a,)
    B = b if isinstance(b, tuple) else (b,)
    key = (A, B)
    if key in _failed:
        return False
    cut, ca, cb = frontier(A, B)
    roots = [l >> 1 for l in A + B]
    tried = None
    for lv in (0, 1, 2, 4):
        c = expandcut(cut, roots, lv) if lv else cut
        if tried is not None and len(c) == tried:
            break
        tried = len(c)
        r, _ = query((A, B), c, timeout=timeout)
        if r:
            return True
        if r is None:
            break
    _failed.add(key)
    return False


def merge(nl):
    """map a literal to its class representative if provably equal"""
    if nl <= 1:
        return nl
    n = nl >> 1
    s = sim([2 * n])[0]
    inv = 0
    if s & 1:
        s ^= MASK
        inv = 1
    if s == 0:
        # constant candidate
        c = (2 * n ^ inv) & 1
        cand = 1 if inv else 0
        if (n, cand) not in _failed:
            r, _ = query(2 * n ^ (1 if cand == 0 else 0), expandcut(cone([2 * n]) - {n}, [n], 3), timeout=2000)
            if r is not True:
                r, _ = query(2 * n ^ (1 if cand == 0 else 0), set(), timeout=2000)
            if r is True:
                STATS["merged"] += 1
                return cand ^ (nl & 1)
            _failed.add((n, cand))
        return nl
    base = 2 * n ^ inv
    c = _classes.setdefault(s, [])
    if base in c:
        return nl
    for o in c[:3]:
        if local(base, o):
            STATS["merged"] += 1
            return o ^ inv ^ (nl & 1)
    c.append(base)
    return nl


class Prover:
    def __init__(self, E, limit=120):
        self.E = E
        self.limit = limit
        self.cache = {}
        self.nfinal = 0

    def __call__(self, lit, dcond):
        if lit <= 1:
            return lit == 1
        key = (lit, dcond)
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = self.prove(lit, dcond)
        return r

    def prove(self, lit, dcond):
        self.model = None
        dc = list(dcond or ())
        sv = sim([lit] + dc)
        m = MASK
        for x in sv[1:]:
            m &= x
        if (sv[0] ^ MASK) & m:
            self.model = self.pattern([lit] + dc, (sv[0] ^ MASK) & m)
            return False
        dl = time.time() + self.limit
        n = normalise([lit] + dc, dl)
        lit2, dc2 = n[0], n[1:]
        if lit2 == 1:
            return True
        if any(x == 0 for x in dc2):
            return True
        if lit2 in dc2:
            return True
        # final queries: growing cut
        cut = cone([lit2]) - {lit2 >> 1}
        last = None
        for lv in (2, 4, 8, 16, 10 ** 6):
            c = expandcut(cut, [lit2 >> 1], lv) if lv < 10 ** 6 else set()
            if last is not None and len(c) == last:
                continue
            last = len(c)
            r, mod = query(lit2, c, [x for x in dc2], timeout=20000)
            if r:
                return True
            if r is False and not c:
                self.model = {T.args[k]: v for k, v in (mod or {}).items()}
                return False
            if time.time() > dl:
                break
        return False

    def pattern(self, lits, m):
        i = (m & -m).bit_length() - 1
        out = {}
        for n in cone(lits):
            if T.kind[n] == T.K_VAR:
                out[T.args[n]] = bool((_sim[n] >> i) & 1)
        return out
