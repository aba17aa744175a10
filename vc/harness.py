"""Set-up of symbolic pre-states and comparison of post-states with the spec."""
import itertools
import time

from . import terms as T
from . import lin as L
from . import prover as P
from .lin import Lin
from .exec import (Obj, State, Ptr, Fork, Undecided, Unsupported, PathEnd, Stop, read, resolve_vs, Resolver, absbyte, linsplit, linjoin,
                   valbits, isdata, Substituter)
from .engine import Engine, Failure, alternatives

_n = itertools.count(1)


class Case:
    """one proof case: a function under contract with a symbolic pre-state"""

    def __init__(self, mods, name=""):
        self.E = Engine(mods)
        self.name = name
        self.st = State()
        self.E.globs = {}
        self.E.prover = P.Prover(self.E)
        self.E.prover_stats = P.STATS
        self.paths = 0
        self.canary = 0

    def exits(self, outs):
        """feasible exit states (counted: the vacuity guard)"""
        for st, v in outs:
            if st.cons.feasible():
                self.paths += 1
                yield st, v

    def refute(self, st, got, want):
        """reachability canary: a false claim must not be provable"""
        if self.canary >= 3:
            return
        if self.E.equal(got, T.wxor(T.bits(want, 8), 1, 8), 8, st):
            raise Unsupported("vacuous proof: a false obligation was provable")
        self.canary += 1

    def size(self, name, lo=0, hi=1 << 40):
        while T.VARMAX.get(name, (lo, hi)) != (lo, hi):
            name += "_"         # bounds of a name hold in every context of this process
        T.VARMAX[name] = (lo, hi)
        self.st.cons.bounds[name] = (lo, hi)
        self.E.sizevars.append(name)
        if lo == hi:
            return lo
        return L.var(name)

    def obj(self, name, size, init=None, ro=False):
        o = Obj(name, size, init if init is not None else ("sym", name), ro)
        o.owner = self.st.tok
        self.st.objs[name] = o
        return Ptr(name, 0)

    def poke(self, name, off, n, v):
        self.E.put(self.st, name, (), off, n, v)

    def call(self, fname, args):
        E = self.E
        E.nbefore = len(E.fails)
        outs = E.call(self.st, fname, args, ("<contract>", "entry", 0), None, None)
        return outs


def word(st, obj, off, n):
    t, c = linsplit(off)
    return read(st.objs[obj], st.cons, t, c, n)


def getbytes(st, obj, off, n, strict=True, R=None):
    """n bytes at off, with snapshot atoms resolved; may raise Undecided"""
    t, c = linsplit(off)
    out = []
    o = st.objs[obj]
    R = R or Resolver()
    for i in range(n):
        from .exec import read_byte
        v, k, m = read_byte(o, st.cons, t, c + i)
        b = T.wslice(valbits(v, m), 8 * k, 8)
        out.append(resolve_vs(b, st.cons, strict=True, R=R))
    return out


def splitting(E, st, fn, depth=0, sub=None):
    """run fn(st, sub) and split the state whenever it is undecided"""
    sub = sub or {}
    try:
        fn(st, sub)
        return
    except Fork as f:
        und = ("fork", f.kind, f.lin)
    except Undecided as u:
        und = u.args[0]
    if depth > 12:
        if E.verbose > 2: print("DEEP", und, st.cons.bounds, st.cons.facts)
        raise Unsupported("case split too deep: %r" % (und,))
    if und[0] == "fork":
        alts = alternatives(und[1], und[2])
    elif und[0] == "ge":
        alts = alternatives("ge", und[1])
    elif und[0] == "cells":
        _, D, lo, hi = und
        alts = [("ge", L.sub(D, hi)), ("ge", L.sub(lo - 1, D))] + [("eq", L.sub(D, x)) for x in range(lo, hi)]
        if hi - lo > 600:
            raise Unsupported("case split")
    elif und[0] == "mod":
        _, rel, s = und
        import math
        for v, c in rel.t:
            if c % s:
                m = s // math.gcd(c, s)
                break
        if m > 256:
            raise Unsupported("residue split by %d" % m)
        for e in range(m):
            nv = "s%d" % next(_n)
            s2 = st.copy()
            lo, hi = s2.cons.bounds[v]
            mp = {v: L.add(L.scale(L.var(nv), m), e)}
            s2.cons.bounds[nv] = (None if lo is None else -((e - lo) // m), None if hi is None else (hi - e) // m)
            T.VARMAX[nv] = s2.cons.bounds[nv]
            s2.substitute(mp)
            if not s2.cons.feasible():
                continue
            sub2 = {k: L.subst(x, mp) for k, x in sub.items()}
            sub2[v] = mp[v]
            splitting(E, s2, fn, depth + 1, sub2)
        return
    else:
        raise Unsupported("cannot split %r" % (und,))
    for alt in alts:
        s2 = st.copy()
        if not s2.cons.add(*alt) or not s2.cons.feasible():
            continue
        sub2 = dict(sub)
        mps = []
        if alt[0] == "eq":
            e = L.solve_eq(alt[1])
            if e:
                mps.append(e)
        for mp in mps:
            s2.substitute(mp)
            sub2 = {k: L.subst(x, mp) for k, x in sub2.items()}
            sub2.update(mp)
        fx = s2.cons.fixed()
        if fx:
            s2.substitute(fx)
            sub2 = {k: L.subst(x, fx) for k, x in sub2.items()}
            sub2.update(fx)
        splitting(E, s2, fn, depth + 1, sub2)


def cmp_bytes(E, st, kind, where, got, want):
    """obligation: byte lists are equal"""
    for i, (g, w) in enumerate(zip(got, want)):
        E.ob(kind)
        if not E.equal(g, w, 8, st):
            E.fail(kind, where, "byte %d differs from the specification" % i, st)
            return False
    return True


def cmp_abs(E, st, kind, where, got, want):
    """like cmp_bytes, trying abstracted words first: got(R), want(abstract)"""
    ga, wa = got(Resolver(True)), want(True)
    n = 0
    for a, b in zip(ga, wa):
        if T.bits(a, 8) != T.bits(b, 8):
            break
        n += 1
    if n == len(wa):
        for _ in range(n):
            E.ob(kind)
        return ga[0], wa[0]
    g, w = got(Resolver()), want(False)
    cmp_bytes(E, st, kind, where, g, w)
    return g[0], w[0]


def cmp_word(E, st, kind, where, got, want, w):
    E.ob(kind)
    if not E.equal(got, want, w, st):
        E.fail(kind, where, "differs from the specification", st)
        return False
    return True


def tri(E, st, lin, fn, sub=None):
    """case split on lin >= 0; fn(st, sub, truth)"""
    def g(s, sb):
        v = L.subst(lin, sb) if not isinstance(lin, int) else lin
        d = s.cons.decide_ge(v)
        if d is None:
            raise Undecided(("ge", v))
        fn(s, sb, d)
    splitting(E, st, g, 0, sub)


_fv = itertools.count(1)


def fresh_lin(st, lo=0, hi=None, name="jj"):
    n = "%s%d" % (name, next(_fv))
    st.cons.bounds[n] = (lo, hi)
    return L.var(n)


def cmp_stream(C, st, obj, total, B, want, kind="output", where="", sub=None, canary=True, parts="ft"):
    """for every position p < total: obj[p] = want(block, s, sub)[p % B].
    total = B*q' + r with concrete r after splitting; want(jj, n) gives the n
    expected bytes of block jj"""
    E = C.E
    if isinstance(total, int):
        q, r = divmod(total, B)
    elif parts == "f":
        q = r = None
    else:
        r = total.c % B
        if any(c % B for _, c in total.t):
            raise Unsupported("total %r is not a multiple of the block plus a constant" % (total,))
        q = L.floordiv(L.sub(total, r), B)

    def block(s0, jj, n):
        def f(s, sb):
            j = L.subst(jj, sb) if not isinstance(jj, int) else jj
            got = getbytes(s, obj, L.scale(j, B) if not isinstance(j, int) else j * B, n)
            w = want(j, n)
            cmp_bytes(E, s, kind, where, got, w)
            if canary:
                C.refute(s, got[0], w[0])
        n0 = len(E.fails)
        alts = [(sp, m, r) for sp in E.specs for m, r in getattr(sp, "used", ())]
        s1 = s0.copy() if alts else s0
        splitting(E, s0, f)
        if len(E.fails) > n0:
            # a loop that advances the recurrence m positions per iteration
            for sp, m, r in alts:
                was = E.fails[n0:]
                del E.fails[n0:]
                s2 = s1.copy()
                sp.norm = (m, r, E, s2)
                try:
                    splitting(E, s2, f)
                finally:
                    sp.norm = None
                if len(E.fails) == n0:
                    break
                E.fails[n0:] = was
    if q != 0 and "f" in parts:
        s2 = st.copy()
        jj = fresh_lin(s2)
        if s2.cons.add("ge", L.sub(total, L.add(L.scale(jj, B), B))) and s2.cons.feasible():
            block(s2, jj, B)
    if r and "t" in parts:
        block(st.copy(), q, r)


def splitmod(st, lin_var, m, fn):
    """substitute var = m*v' + e for every residue e: fn(st', e)"""
    for e in range(m):
        nv = "%s_%d" % (lin_var, next(_n))
        s2 = st.copy()
        lo, hi = s2.cons.bounds[lin_var]
        mp = {lin_var: L.add(L.scale(L.var(nv), m), e)}
        s2.cons.bounds[nv] = (None if lo is None else -((e - lo) // m), None if hi is None else (hi - e) // m)
        s2.substitute(mp)
        if s2.cons.feasible():
            fn(s2, e)


def inbytes(obj, off, n):
    return [T.varword(("m", obj, L.add(off, k)), 8) for k in range(n)]


def lew(bs):
    return T.wconcat([(b, 8) for b in bs])


def bew(bs):
    return T.wconcat([(b, 8) for b in reversed(bs)])


def wordbytes(w, n=4):
    return [T.wslice(w, 8 * k, 8) for k in range(n)]


def wordbytes_be(w, n=4):
    return wordbytes(w, n)[::-1]


def same_content(C, st, oid, t0, n, want, wn):
    """for all k < n: byte k of object oid at t0 equals byte k of the ghost object `want` (size wn);
    True when proved (the caller records the obligation)"""
    E = C.E
    d = L.sub(n, wn)
    if d != 0 and not (isinstance(d, Lin) and st.cons.decide_eq(d) is True):
        return False
    if n == 0:
        return True
    s2 = st.copy()
    k = fresh_lin(s2)
    if not s2.cons.add("ge", L.sub(L.sub(n, 1), k)):
        return True
    ok = [True]

    def f(s, sub):
        if not ok[0]:
            return
        kk = L.subst(k, sub) if not isinstance(k, int) else k
        a = getbytes(s, oid, L.add(L.subst(t0, sub) if not isinstance(t0, int) else t0, kk), 1)[0]
        b = getbytes(s, want, kk, 1)[0]
        if not E.equal(a, b, 8, s):
            ok[0] = False
    splitting(E, s2, f)
    return ok[0]


class HashContract:
    """callee contract of a hash function h(out, in, n): the digest is an
    uninterpreted function of the byte sequence.  Byte sequences are named by
    the ghost objects the specification expects; a call whose input is proved
    equal (every byte, every length) to one of them yields that digest."""

    def __init__(self, C, name, outlen=32, wmax=(1 << 31) - 128):
        self.C, self.outlen, self.wmax = C, outlen, wmax
        self.expect = []     # (ghost object, key)
        self.n = 0
        C.E.contracts[name] = self

    def digest(self, key, C=None):
        return [T.varword(("H", key, i), 8) for i in range(self.outlen)]

    def __call__(self, E, st, args, where):
        out, inp, n = args[:3]
        if isinstance(n, (int, Lin)):
            n = E.uval(st, n, 32)
        else:
            raise Unsupported("hash of data-dependent length")
        E.ob("precondition")
        lim = L.sub(self.wmax, n)
        if lim is not None and (lim < 0 if isinstance(lim, int) else st.cons.decide_ge(lim) is not True):
            E.fail("precondition", where, "hash input length may exceed the contract", st)
        E.boundslin(st, inp, n, where, "read")
        E.boundslin(st, out, self.outlen, where, "write")
        key = None
        for g, k in self.expect:
            if same_content(self.C, st, inp.obj, inp.off, n, g, st.objs[g].size):
                E.ob("callee-argument")
                key = k
                break
        if key is None:
            self.n += 1
            key = "unexpected%d" % self.n
        E.memset(st, out, 0, self.outlen, where)
        for i, b in enumerate(self.digest(key)):
            E.store(st, Ptr(out.obj, L.add(out.off, i)), 1, b, where)
        return [(st, None)]
