"""Interpreter core: contracts, calls, branches, merging."""
import itertools
import time
from fractions import Fraction

from . import terms as T
from . import ir
from . import lin as L
from .lin import Lin
from .exec import (Unsupported, Fork, NeedInduction, PathEnd, Stop, Ptr, Cond, FPv, FnPtr, Cells, Map, Range, Opaque,
                   Obj, State, Undecided, isdata, linsplit, linjoin, valbits, read, read_byte, obj_write_cell, fixint,
                   Substituter)
from . import intrin

_cnt = itertools.count(1)

NOEFFECT = ("printf", "puts", "putchar", "fflush", "llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.prefetch",
            "llvm.experimental.noalias", "llvm.donothing", "_ZNSt8ios_base4Init", "__cxa_atexit",
            "_ZStls", "_ZNSolsE", "_ZNSo", "__gmp_printf", "gmp_printf")


class Failure:
    def __init__(self, kind, where, msg, st=None, model=None):
        self.kind = kind
        self.where = where
        self.msg = msg
        self.cons = st.cons.copy() if st is not None else None
        self.dcond = st.dcond if st is not None else ()
        self.model = model

    def __repr__(self):
        return "%s at %s: %s" % (self.kind, self.where, self.msg)


class Engine:
    def __init__(self, mods):
        self.mods = mods
        self.funcs = {}
        for m in mods:
            for n, f in m.funcs.items():
                f.mod = m
                if n not in self.funcs:
                    self.funcs[n] = (m, f)
        self.contracts = {}
        self.nob = {}
        self.fails = []
        self.silent = 0
        self.specs = []
        self.sizevars = []
        self.passes = 1
        self.periods = (1, 2, 4)
        self.goodperiod = {}
        self.forkloops = set()
        self.stayloops = set()
        self.ninduct = 0
        self.verbose = 0
        self.loopstack = []
        self.depth = 0
        self.gcache = {}
        self.deadline = None
        self.functions = set()     # functions executed (under contract / inlined)
        self.contract_uses = {}
        from . import induct
        self.induct = induct
        self.prover = None         # callable(lit, dcond) -> bool
        self.loopinfo = {}
        self.steps = 0
        self.cover = set()
        self.maxinduct = 40
        self.tabcache = {}
        self.nosummary = set()
        self.globs = {}

    def note_external(self, n):
        self.contract_uses["assumed:" + n] = self.contract_uses.get("assumed:" + n, 0) + 1

    # -------------------------------------------------------- obligations
    def ob(self, kind):
        if not self.silent:
            self.nob[kind] = self.nob.get(kind, 0) + 1

    def fail(self, kind, where, msg, st, model=None):
        if not self.silent:
            self.fails.append(Failure(kind, where, msg, st, model))

    # ------------------------------------------------------------ globals
    def gobj(self, mod, name):
        key = (id(mod), name)
        oid = self.gcache.get(key)
        if oid is not None:
            return oid
        if name in mod.aliases:
            return self.gobj(mod, mod.aliases[name])
        ent = mod.globals.get(name)
        if ent is None or ent[1] is None:
            for m in self.mods:
                e2 = m.globals.get(name)
                if e2 is not None and e2[1] is not None:
                    mod, ent = m, e2
                    break
        oid = "@" + name[1:] + "#%d" % self.mods.index(mod)
        self.gcache[key] = oid
        if oid in self.globs:
            return oid
        if ent is None or ent[0] is None:
            o = Obj(oid, 1 << 40, ("sym", "extern " + name), ro=True)
        else:
            t, init, isconst = ent
            size = mod.size(t)
            if init is None:
                o = Obj(oid, size, ("sym", "extern " + name), ro=True)
            else:
                vals = {}
                self.flatten(mod, t, init, 0, vals)
                if all(isinstance(v, int) for _, v in vals.values()):
                    b = bytearray(size)
                    for off, (n, v) in vals.items():
                        b[off:off + n] = v.to_bytes(n, "little")
                    o = Obj(oid, size, ("bytes", bytes(b)), ro=True)
                else:
                    o = Obj(oid, size, ("vals", vals), ro=True)
        o.init = o.init
        self.globs[oid] = o
        return oid

    def flatten(self, mod, t, init, off, out):
        t = mod.resolve(t)
        k = init[0]
        if k == "zero" or k == "undef":
            return
        if k == "c":
            n = mod.size(t)
            out[off] = (n, init[1])
        elif k == "bytes":
            for i, b in enumerate(init[1]):
                out[off + i] = (1, b)
        elif k == "agg":
            if t.k == "struct":
                offs = mod.layout(t)
                for (et, ev), o in zip(init[1], offs):
                    self.flatten(mod, et, ev, off + o, out)
            else:
                es = mod.size(t.el)
                for i, (et, ev) in enumerate(init[1]):
                    self.flatten(mod, et, ev, off + i * es, out)
        elif k == "g":
            out[off] = (8, self.gval(mod, init[1]))
        elif k == "gep":
            out[off] = (8, self.constgep(mod, init))
        elif k == "fp":
            out[off] = (mod.size(t), FPv(Fraction(init[1])))
        else:
            raise Unsupported("global init " + k)

    def gval(self, mod, name):
        if name in self.funcs or name in mod.decls:
            return FnPtr(name)
        return Ptr(self.gobj(mod, name), 0)

    def constgep(self, mod, op):
        _, bt, base, idx = op
        b = self.ev(None, {}, base, ir.PTR, mod)
        return self.gep(None, b, mod, bt, [(t, self.ev(None, {}, v, t, mod)) for t, v in idx])

    # ----------------------------------------------------------- operands
    def ev(self, st, regs, op, ty, mod):
        k = op[0]
        if k == "r":
            try:
                return regs[op[1]]
            except KeyError:
                raise Unsupported("use of undefined register " + op[1])
        if k == "c":
            return op[1]
        if k == "g":
            return self.gval(mod, op[1])
        if k == "undef":
            ty = mod.resolve(ty)
            if ty.k == "struct":
                return [0 for _ in ty.el]
            return T.fresh("undef", mod.bitw(ty))
        if k == "zero":
            ty = mod.resolve(op[1])
            if ty.k == "struct":
                return [0 for _ in ty.el]
            return 0
        if k == "agg":
            ty = mod.resolve(ty)
            if ty.k == "vec":
                w = mod.bitw(ty.el)
                return T.wconcat([(self.ev(st, regs, v, t, mod), w) for t, v in op[1]])
            return [self.ev(st, regs, v, t, mod) for t, v in op[1]]
        if k == "gep":
            return self.constgep(mod, op)
        if k == "fp":
            return FPv(Fraction(op[1]))
        if k == "cast":
            return self.ev(st, regs, op[3], op[2], mod)
        if k == "meta":
            return 0
        raise Unsupported("operand " + k)

    # ------------------------------------------------ linear integer helpers
    def rng(self, st, x, w):
        if isinstance(x, int):
            return x & ((1 << w) - 1)
        lo, hi = st.cons.range(x)
        if lo is not None and hi is not None and lo > -(1 << (w - 1)) and hi < (1 << w):
            return x
        M = 1 << w
        d = st.cons.decide_ge(L.sub(M - 1, x))
        if d is None:
            raise Fork("ge", L.sub(M - 1, x))
        if d is False:
            return self.rng(st, L.sub(x, M), w)
        d = st.cons.decide_ge(L.add(x, (M >> 1) - 1))
        if d is None:
            raise Fork("ge", L.add(x, (M >> 1) - 1))
        if d is False:
            return self.rng(st, L.add(x, M), w)
        return x

    def uval(self, st, x, w):
        if isinstance(x, int):
            return x & ((1 << w) - 1)
        d = st.cons.decide_ge(x)
        if d is True:
            return x
        if d is False:
            return L.add(x, 1 << w)
        raise Fork("ge", x)

    def sval(self, st, x, w):
        if isinstance(x, int):
            x &= (1 << w) - 1
            return x - (1 << w) if x >> (w - 1) else x
        h = 1 << (w - 1)
        d = st.cons.decide_ge(L.sub(h - 1, x))
        if d is True:
            return x
        if d is False:
            return L.sub(x, 1 << w)
        raise Fork("ge", L.sub(h - 1, x))

    def exact(self, st, x, k):
        """floor(x / k) is a linear expression"""
        if isinstance(x, int):
            return True
        rest = L.mk({v: c % k for v, c in x.t if c % k}, x.c % k)
        lo, hi = st.cons.range(rest)
        if lo is not None and hi is not None and lo // k == hi // k:
            return True
        return bool(st.cons.decide_ge(rest) and st.cons.decide_ge(L.sub(k - 1, rest)))

    def divmod(self, st, x, k):
        """floor division of a linear expression by a positive constant"""
        if isinstance(x, int):
            return x // k, x % k
        A = {v: c // k for v, c in x.t if c % k == 0}
        B = {v: c % k for v, c in x.t if c % k}
        # coefficients congruent mod k: c = k*(c//k) + c%k
        for v, c in x.t:
            if c % k and c // k:
                A[v] = c // k
        q = L.mk(A, x.c // k)
        rest = L.mk(B, x.c % k)
        if isinstance(rest, int):
            return L.add(q, rest // k), rest % k
        lo, hi = st.cons.range(rest)
        if lo is not None and hi is not None and lo // k == hi // k:
            d = lo // k
            return L.add(q, d), L.sub(rest, d * k)
        # decided by facts?
        if st.cons.decide_ge(rest) and st.cons.decide_ge(L.sub(k - 1, rest)):
            return q, rest
        nm = "div[%r/%d]" % (rest, k)
        if nm not in st.cons.bounds:
            rn = "mod[%r/%d]" % (rest, k)
            st.cons.bounds[nm] = (None if lo is None else lo // k, None if hi is None else hi // k)
            st.cons.bounds[rn] = (0, k - 1)
            st.cons._cache = {}
            st.cons.facts.append(("eq", L.sub(rest, L.add(L.scale(L.var(nm), k), L.var(rn)))))
        return L.add(q, L.var(nm)), L.sub(rest, L.scale(L.var(nm), k))

    def data(self, st, v, w):
        if isinstance(v, (int, tuple)):
            return v
        if isinstance(v, Lin):
            return T.lin_bits(v, w)
        if isinstance(v, Cond):
            d = self.decide(st, v)
            if d is None:
                raise Fork(v.kind, v.lin)
            return 1 if d else 0
        raise Unsupported("data use of %r" % (v,))

    def decide(self, st, c):
        if c.kind == "ge":
            return st.cons.decide_ge(c.lin)
        d = st.cons.decide_eq(c.lin)
        if d is None:
            return None
        return d if c.kind == "eq" else not d

    # ----------------------------------------------------------- binary ops
    def binop(self, st, op, a, b, w, flags, where):
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op == "xor" and isinstance(a, Cond) and b == 1:
                return a.neg()
            if isinstance(a, Cond):
                a = self.data(st, a, w)
            if isinstance(b, Cond):
                b = self.data(st, b, w)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrbin(st, op, a, b, w)
        if isinstance(a, Lin) or isinstance(b, Lin):
            r = self.linop(st, op, a, b, w, flags, where)
            if r is not None:
                return r
            a = self.data(st, a, w)
            b = self.data(st, b, w)
        if op == "xor":
            return T.wxor(a, b, w)
        if op == "and":
            return T.wand(a, b, w)
        if op == "or":
            return T.wor(a, b, w)
        if op == "add":
            if flags and "nsw" in flags:
                self.nswcheck(st, "+", a, b, w, where)
            return T.wadd(a, b, w)
        if op == "sub":
            if flags and "nsw" in flags:
                self.nswcheck(st, "-", a, b, w, where)
            return T.wsub(a, b, w)
        if op == "mul":
            if flags and "nsw" in flags:
                self.nswcheck(st, "*", a, b, w, where)
            return T.wmul(a, b, w)
        if op in ("shl", "lshr", "ashr"):
            if isinstance(b, int):
                self.ob("shift")
                if b >= w:
                    self.fail("shift-width", where, "shift of a %d-bit value by %d" % (w, b), st)
                    return T.fresh("ub", w)
                if op == "shl":
                    return T.wshl(a, b, w)
                if op == "lshr":
                    return T.wlshr(a, b, w)
                return T.norm(T.washr(a, b, w))
            return self.varshift(st, op, a, b, w, where)
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.ob("division")
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    self.fail("division", where, "division by zero", st)
                    raise PathEnd()
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                sa = a - (1 << w) if a >> (w - 1) else a
                sb = b - (1 << w) if b >> (w - 1) else b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                r = sa - q * sb
                return (q if op == "sdiv" else r) & ((1 << w) - 1)
            if isinstance(b, int) and b and b & (b - 1) == 0:
                k = b.bit_length() - 1
                if op[0] == "s" and T.bits(a, w)[w - 1] != 0:
                    return T.wuf(op, (("w", a), ("w", b)), w)
                if op.endswith("div"):
                    return T.wlshr(a, k, w)
                return T.norm(T.bits(a, w)[:k] + (0,) * (w - k))
            if isinstance(b, int) and b and op in ("udiv", "urem") or (isinstance(b, int) and b and b < (1 << (w - 1)) and T.bits(a, w)[w - 1] == 0):
                # small domain: table
                nb = w
                ab = T.bits(a, w)
                while nb and ab[nb - 1] == 0:
                    nb -= 1
                if nb <= 10:
                    f = (lambda x: x // b) if op.endswith("div") else (lambda x: x % b)
                    return T.wtable(tuple([f(i) for i in range(1 << nb)]), ab[:nb], w)
            if isinstance(b, int) and b == 0:
                self.fail("division", where, "division by zero", st)
                raise PathEnd()
            if not isinstance(b, int):
                if not self.provelit(st, T.weq(b, 0, w) ^ 1):
                    self.fail("division", where, "divisor may be zero", st)
            return T.wuf(op, (("w", a), ("w", b)), w)
        raise Unsupported("binop " + op)

    def nswcheck(self, st, op, a, b, w, where):
        """signed overflow on data words: interval check, then the prover"""
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            r = sa + sb if op == "+" else (sa - sb if op == "-" else sa * sb)
            self.ob("nsw")
            if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                self.fail("signed-overflow", where, "%d %s %d overflows %d bits" % (sa, op, sb, w), st)
            return
        self.ob("nsw")
        la, ha = srange(a, w)
        lb, hb = srange(b, w)
        if op == "+":
            lo, hi = la + lb, ha + hb
        elif op == "-":
            lo, hi = la - hb, ha - lb
        else:
            c = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(c), max(c)
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return
        sup = T.support(tuple(x for x in tuple(T.bits(a, w)) + tuple(T.bits(b, w)) if x > 1))
        if len(sup) <= 9 and all(len(x) == 2 and isinstance(x[1], int) for x in sup):
            # all valuations of the few bits the operands depend on
            sup = sorted(sup, key=repr)
            ok = True
            for k in range(1 << len(sup)):
                val = {x: (k >> i) & 1 for i, x in enumerate(sup)}
                x, y = T.substvars(a, w, val.get), T.substvars(b, w, val.get)
                if not isinstance(x, int) or not isinstance(y, int):
                    ok = False
                    break
                x, y = x - ((x >> (w - 1)) << w), y - ((y >> (w - 1)) << w)
                r = x + y if op == "+" else (x - y if op == "-" else x * y)
                if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                    ok = False
                    break
            if ok:
                return
        # exact: compute in w+? bits
        w2 = w + 1 if op != "*" else 2 * w
        A = T.wsext(T.norm(T.bits(a, w)), w, w2)
        B = T.wsext(T.norm(T.bits(b, w)), w, w2)
        R = T.wadd(A, B, w2) if op == "+" else (T.wsub(A, B, w2) if op == "-" else None)
        if R is not None:
            R = T.bits(R, w2)
            lit = T.xor2(R[w], R[w - 1]) ^ 1
            if self.provelit(st, lit):
                return
        self.fail("signed-overflow", where, "signed %s may overflow %d bits" % (op, w), st)

    def equal(self, a, b, w, st):
        if a == b:
            return True
        x, y = T.bits(a, w), T.bits(b, w)
        if x == y:
            return True
        if self.prover is None:
            return False
        for p, q in zip(x, y):
            l = T.xor2(p, q) ^ 1
            if l == 1:
                continue
            if not self.prover(l, st.dcond):
                return False
        return True

    def provelit(self, st, lit):
        if lit == 1:
            return True
        if lit == 0:
            return False
        if self.prover is None:
            return False
        return self.prover(lit, st.dcond)

    def varshift(self, st, op, a, b, w, where):
        self.ob("shift")
        bb = T.bits(b, w)
        nb = w
        while nb and bb[nb - 1] == 0:
            nb -= 1
        k = (w - 1).bit_length()
        if nb > k or (1 << k) != w:
            if not self.provelit(st, T.wult(b, w, w)):
                self.fail("shift-width", where, "shift amount may reach %d bits" % w, st)
        r = a
        for i in range(min(nb, k)):
            s = 1 << i
            if op == "shl":
                sh = T.wshl(r, s, w)
            elif op == "lshr":
                sh = T.wlshr(r, s, w)
            else:
                sh = T.norm(T.washr(r, s, w))
            r = T.wite(bb[i], sh, r, w)
        return r

    def linop(self, st, op, a, b, w, flags, where):
        H = 1 << (w - 1)
        if op in ("add", "sub"):
            if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
                return None
            x = a if isinstance(a, Lin) or a < H else a - (1 << w)
            y = b if isinstance(b, Lin) or b < H else b - (1 << w)
            r = L.add(x, y) if op == "add" else L.sub(x, y)
            r = self.rng(st, r, w)
            if "nsw" in flags:
                self.ob("nsw")
                sa, sb = self.sval(st, a, w), self.sval(st, b, w)
                rr = L.add(sa, sb) if op == "add" else L.sub(sa, sb)
                if not (st.cons.decide_ge(L.add(rr, H)) and st.cons.decide_ge(L.sub(H - 1, rr))):
                    self.fail("signed-overflow", where, "signed %s may overflow: %r" % (op, rr), st)
            return r
        if op == "mul":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(a, Lin) and isinstance(b, int):
                y = b if b < H else b - (1 << w)
                if "nsw" in flags:
                    self.ob("nsw")
                    rr = L.scale(self.sval(st, a, w), y)
                    if not (st.cons.decide_ge(L.add(rr, H)) and st.cons.decide_ge(L.sub(H - 1, rr))):
                        self.fail("signed-overflow", where, "signed mul may overflow: %r" % (rr,), st)
                return self.rng(st, L.scale(a, y), w)
            return None
        if op == "shl":
            if isinstance(b, int) and isinstance(a, Lin):
                self.ob("shift")
                if b >= w:
                    self.fail("shift-width", where, "shift by %d" % b, st)
                    return T.fresh("ub", w)
                r = L.scale(a, 1 << b)
                lo, hi = st.cons.range(r)
                if lo is not None and hi is not None and lo > -H and hi < 2 * H:
                    return r
                return None
            if isinstance(b, Lin):
                return self.shiftlin(st, op, a, b, w, where)
            return None
        if op in ("lshr", "ashr"):
            if isinstance(b, Lin):
                return self.shiftlin(st, op, a, b, w, where)
            if isinstance(b, int):
                self.ob("shift")
                if b >= w:
                    self.fail("shift-width", where, "shift by %d" % b, st)
                    return T.fresh("ub", w)
                x = self.uval(st, a, w) if op == "lshr" else self.sval(st, a, w)
                if b >= 8 and not self.exact(st, x, 1 << b):
                    return None         # bytes of a length: plain data
                return self.rng(st, self.divmod(st, x, 1 << b)[0], w)
            return None
        if op in ("udiv", "urem", "sdiv", "srem"):
            if not isinstance(b, int):
                return None
            self.ob("division")
            if b == 0:
                self.fail("division", where, "division by zero", st)
                raise PathEnd()
            if op[0] == "u":
                x = self.uval(st, a, w)
            else:
                x = self.sval(st, a, w)
                b = b if b < H else b - (1 << w)
                if b < 0:
                    return None
                d = st.cons.decide_ge(x)
                if d is None:
                    raise Fork("ge", x)
                if d is False:
                    q, r = self.divmod(st, L.scale(x, -1), b)
                    return self.rng(st, L.scale(q if op == "sdiv" else r, -1), w)
            q, r = self.divmod(st, x, b)
            return self.rng(st, q if op.endswith("div") else r, w)
        if op == "and":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and isinstance(a, Lin):
                if b & (b + 1) == 0:
                    if b >= 255 and not self.exact(st, a, b + 1):
                        return None
                    return self.rng(st, self.divmod(st, a, b + 1)[1], w)
                nb = (~b) & ((1 << w) - 1)
                if nb & (nb + 1) == 0:
                    x = self.uval(st, a, w)
                    return self.rng(st, L.sub(x, self.divmod(st, x, nb + 1)[1]), w)
            return None
        if op == "or":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and isinstance(a, Lin):
                if b == 0:
                    return a
                k = 1 << b.bit_length()
                if self.divmod(st, a, k)[1] == 0:
                    return self.rng(st, L.add(a, b), w)
            return None
        return None

    def shiftlin(self, st, op, a, b, w, where):
        lo, hi = st.cons.range(b)
        if lo is not None and hi is not None and hi - lo <= 64:
            raise Fork("eq", L.sub(b, lo)) if hi != lo else Unsupported("shift")
        raise Unsupported("shift by a symbolic length")

    def ptrbin(self, st, op, a, b, w):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.sym is None and b.sym is None:
            return self.rng(st, L.sub(a.off, b.off), w)
        if op in ("add", "sub") and isinstance(a, Ptr) and isinstance(b, (int, Lin)):
            if isinstance(b, int) and b >> (w - 1):
                b -= 1 << w
            return Ptr(a.obj, L.add(a.off, b) if op == "add" else L.sub(a.off, b), a.sym)
        if op == "add" and isinstance(b, Ptr):
            return self.ptrbin(st, op, b, a, w)
        if op == "and" and isinstance(b, int) and b < 16:
            # alignment of a pointer: unknown
            k = b.bit_length()
            return T.norm(T.bits(T.fresh("align", k), k) + (0,) * (w - k))
        raise Unsupported("pointer arithmetic " + op)

    # --------------------------------------------------------------- icmp
    def icmp(self, st, pred, a, b, w):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptrcmp(st, pred, a, b)
        if isinstance(a, Cond):
            if isinstance(b, int) and w == 1 and pred in ("eq", "ne"):
                return a if (b == 1) == (pred == "eq") else a.neg()
            a = self.data(st, a, w)
        if isinstance(b, Cond):
            b = self.data(st, b, w)
        if (isinstance(a, Lin) or isinstance(b, Lin)) and isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            if pred in ("eq", "ne"):
                x, y = self.uval(st, a, w), self.uval(st, b, w)
                c = Cond(pred, L.sub(x, y))
            else:
                f = self.uval if pred[0] == "u" else self.sval
                x, y = f(st, a, w), f(st, b, w)
                p = pred[1:]
                if p == "lt":
                    c = Cond("ge", L.sub(L.sub(y, x), 1))
                elif p == "le":
                    c = Cond("ge", L.sub(y, x))
                elif p == "gt":
                    c = Cond("ge", L.sub(L.sub(x, y), 1))
                else:
                    c = Cond("ge", L.sub(x, y))
            if isinstance(c.lin, int):
                v = c.lin
                return int(v >= 0 if c.kind == "ge" else (v == 0 if c.kind == "eq" else v != 0))
            d = self.decide(st, c)
            if d is None:
                return c
            return 1 if d else 0
        a = self.data(st, a, w)
        b = self.data(st, b, w)
        if pred == "eq":
            l = T.weq(a, b, w)
        elif pred == "ne":
            l = T.weq(a, b, w) ^ 1
        else:
            lt = T.wult if pred[0] == "u" else T.wslt
            p = pred[1:]
            if p == "lt":
                l = lt(a, b, w)
            elif p == "gt":
                l = lt(b, a, w)
            elif p == "le":
                l = lt(b, a, w) ^ 1
            else:
                l = lt(a, b, w) ^ 1
        return l if l <= 1 else (l,)

    def ptrcmp(self, st, pred, a, b):
        if any(isinstance(x, Ptr) and x.obj == "undef" for x in (a, b)):
            raise Unsupported("comparison of an indeterminate pointer")
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = a == b
            return int(e if pred == "eq" else not e)
        if isinstance(a, int) or isinstance(b, int):
            k = a if isinstance(a, int) else b
            if k != 0:
                raise Unsupported("pointer compared with integer")
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
            raise Unsupported("pointer order with null")
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported("pointer comparison")
        if a.obj != b.obj:
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
            return T.fresh("ptrcmp", 1)
        if a.sym is not None or b.sym is not None:
            if a.off == b.off:
                return self.icmp(st, pred, a.sym or 0, b.sym or 0, 64)
            raise Unsupported("symbolic pointer comparison")
        d = L.sub(a.off, b.off)
        p = pred if pred in ("eq", "ne") else "s" + pred[1:]
        return self.icmp(st, p, d if isinstance(d, Lin) else d & ((1 << 64) - 1), 0, 64)

    # --------------------------------------------------------------- casts
    def cast(self, st, op, v, w, w2, t1, t2, where):
        if op == "bitcast" or op == "addrspacecast":
            return v
        if op in ("ptrtoint", "inttoptr"):
            return v
        if op in ("zext", "sext", "trunc"):
            if t1.k == "vec":
                n = t1.n
                ew, ew2 = t1.el.w, t2.el.w
                bs = T.bits(v, w)
                parts = []
                for i in range(n):
                    e = T.norm(bs[i * ew:(i + 1) * ew])
                    parts.append((self.cast(st, op, e, ew, ew2, t1.el, t2.el, where), ew2))
                return T.wconcat(parts)
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Cond):
                v = self.data(st, v, w)
            if isinstance(v, Lin):
                if op == "zext":
                    return self.uval(st, v, w)
                if op == "sext":
                    return self.sval(st, v, w)
                lo, hi = st.cons.range(v)
                if lo is not None and hi is not None and lo > -(1 << (w2 - 1)) and hi < (1 << w2):
                    return v
                if st.cons.decide_ge(L.sub((1 << w2) - 1, v)) and st.cons.decide_ge(L.add(v, (1 << (w2 - 1)) - 1)):
                    return v
                return T.lin_bits(v, w2)
            if op == "zext":
                return T.wzext(v, w, w2)
            if op == "sext":
                return T.wsext(v, w, w2)
            return T.wtrunc(v, w, w2)
        if op in ("uitofp", "sitofp"):
            if isinstance(v, int):
                if op == "sitofp" and v >> (w - 1):
                    v -= 1 << w
                return FPv(v, 1)
            if isinstance(v, Lin):
                return FPv(self.uval(st, v, w) if op == "uitofp" else self.sval(st, v, w), 1)
            raise Unsupported("float of data")
        if op in ("fpext", "fptrunc"):
            return v
        if op in ("fptosi", "fptoui"):
            if isinstance(v, FPv):
                num, den = v.num, v.den
                if isinstance(num, Fraction):
                    den = den * num.denominator
                    num = num.numerator
                d = num >= 0 if isinstance(num, int) else st.cons.decide_ge(num)
                if d is None:
                    raise Fork("ge", num)
                q = self.divmod(st, num, den)[0] if d else L.scale(self.divmod(st, L.scale(num, -1), den)[0], -1)
                return self.rng(st, q, w2)
            raise Unsupported("int of float data")
        raise Unsupported("cast " + op)

    def fbin(self, st, op, a, b):
        def nf(x):
            if isinstance(x.num, Fraction):
                return x.num.numerator, x.den * x.num.denominator
            return x.num, x.den
        if not isinstance(a, FPv) or not isinstance(b, FPv):
            raise Unsupported("float data")
        an, ad = nf(a)
        bn, bd = nf(b)
        if op == "fdiv" and isinstance(bn, int) and bn > 0:
            n, d = L.scale(an, bd), ad * bn
        elif op == "fmul" and isinstance(bn, int):
            n, d = L.scale(an, bn), ad * bd
        elif op == "fmul" and isinstance(an, int):
            n, d = L.scale(bn, an), ad * bd
        elif op in ("fadd", "fsub"):
            x, y = L.scale(an, bd), L.scale(bn, ad)
            n, d = (L.add(x, y) if op == "fadd" else L.sub(x, y)), ad * bd
        else:
            raise Unsupported("float " + op)
        import math
        if isinstance(n, int):
            g = math.gcd(n, d)
            return FPv(n // g, d // g)
        g = math.gcd(d, n.c)
        for _, c in n.t:
            g = math.gcd(g, c)
        if g > 1:
            n = L.mk({v: c // g for v, c in n.t}, n.c // g)
            d //= g
        return FPv(n, d)

    # ----------------------------------------------------------------- gep
    def gep(self, st, base, mod, bt, idx):
        if isinstance(base, int):
            if base == 0 and all(v == 0 for _, v in idx):
                return 0
            return Ptr("null", base)
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        off = base.off
        sym = base.sym
        terms_ = [] if sym is None else [(1, sym)]
        ty = bt
        first = True
        for it, v in idx:
            if first:
                sc = mod.size(bt)
                first = False
            else:
                ty = mod.resolve(ty)
                if ty.k == "struct":
                    off = L.add(off, mod.layout(ty)[v])
                    ty = ty.el[v]
                    continue
                ty = ty.el
                sc = mod.size(ty)
            w = it.w
            if isinstance(v, int):
                if v >> (w - 1):
                    v -= 1 << w
                off = L.add(off, v * sc)
            elif isinstance(v, Lin):
                v = self.sval(st, v, w)
                off = L.add(off, L.scale(v, sc))
            elif isinstance(v, tuple):
                v = T.wsext(v, w, 64) if w < 64 else v
                terms_.append((sc, v))
            elif isinstance(v, Cond):
                off = L.add(off, self.data(st, v, w) * sc)
            else:
                raise Unsupported("gep index %r" % (v,))
        if terms_:
            sym = T.add_lin(terms_, 0, 64)
            if isinstance(sym, int):
                if sym >> 63:
                    sym -= 1 << 64
                off = L.add(off, sym)
                sym = None
        else:
            sym = None
        return Ptr(base.obj, off, sym)

    # -------------------------------------------------------------- memory
    def getobj(self, st, oid):
        o = st.objs.get(oid)
        if o is None:
            o = self.globs.get(oid)
        return o

    def bounds(self, st, p, n, where, what):
        """in-bounds obligation; returns the object"""
        self.ob("bounds")
        if not isinstance(p, Ptr) or p.obj == "null":
            self.fail("null-pointer", where, "%s through %r" % (what, p), st)
            raise PathEnd()
        o = self.getobj(st, p.obj)
        if o is None:
            self.fail("dangling", where, "%s of released object %s" % (what, p.obj), st)
            raise PathEnd()
        if p.sym is None:
            if isinstance(p.off, int) and isinstance(o.size, int):
                if p.off < 0 or p.off + n > o.size:
                    self.fail("out-of-bounds", where, "%s of %d bytes at offset %d of %s (size %d)" % (what, n, p.off, o.id, o.size), st)
                    raise PathEnd()
            else:
                ok1 = st.cons.decide_ge(p.off) if isinstance(p.off, Lin) else p.off >= 0
                end = L.sub(o.size, L.add(p.off, n))
                ok2 = st.cons.decide_ge(end) if isinstance(end, Lin) else end >= 0
                if ok1 is not True or ok2 is not True:
                    m = None
                    if not self.silent:
                        m = st.cons.model([("ge", L.sub(-1, p.off))] if ok1 is not True else [("ge", L.sub(-1, end))])
                    self.fail("out-of-bounds", where, "%s of %d bytes at %r of %s (size %r)" % (what, n, p.off, o.id, o.size), st, m)
                    if ok1 is False or ok2 is False:
                        raise PathEnd()
                    # continue on the in-bounds part
                    if ok1 is None:
                        st.cons.add("ge", p.off)
                    if ok2 is None:
                        st.cons.add("ge", end)
        return o

    def load(self, st, p, n, where, islin=False):
        o = self.bounds(st, p, n, where, "read")
        if p.sym is not None:
            return self.loadsym(st, o, p, n, where)
        t, c = linsplit(p.off)
        try:
            v = read(o, st.cons, t, c, n)
        except PathEnd:
            raise
        if isinstance(v, Lin):
            return v
        return v

    def symrange(self, st, o, p, n, where, what):
        """symbolic data index: bounds obligation, returns (k, idxbits)"""
        if isinstance(o.size, Lin) or isinstance(p.off, Lin):
            raise Unsupported("data-dependent address into a symbolic-length object")
        sym = p.sym
        hi = 64
        while hi and sym[hi - 1] == 0:
            hi -= 1
        lo = 0
        while sym[lo] == 0:
            lo += 1
        if p.off < 0 or p.off + T.umax(sym) + n > o.size:
            # narrow with the prover
            lim = o.size - n - p.off
            off = p.off
            if off >= 0 and lim >= 0:
                ok = self.provelit(st, T.wult(T.norm(sym), lim + 1, 64))
            else:
                s2 = T.wadd(T.norm(sym), off & ((1 << 64) - 1), 64)
                ok = self.provelit(st, T.wult(s2, o.size - n + 1, 64))
            if not ok:
                self.fail("out-of-bounds", where, "%s at a data-dependent index of %s (size %r)" % (what, o.id, o.size), st)
            if off < 0 or hi > 20:
                s2 = T.wadd(T.norm(sym), off & ((1 << 64) - 1), 64)
                if isinstance(s2, int):
                    return s2, None
                nb = max(1, (o.size - n).bit_length())
                lo = 0
                while lo < nb and s2[lo] == 0:
                    lo += 1
                return 0, (lo, s2[lo:nb])
        return p.off, (lo, sym[lo:hi])

    def loadsym(self, st, o, p, n, where):
        off, r = self.symrange(st, o, p, n, where, "read")
        if r is None:
            return read(o, st.cons, (), off, n)
        lo, idx = r
        if len(idx) > 16:
            raise Unsupported("index with %d bits" % len(idx))
        key = (o.id, off, lo, len(idx), n)
        const = o.ro and self.globs.get(o.id) is o
        if const and key in self.tabcache:
            return T.wtable(self.tabcache[key], tuple(idx), 8 * n)
        cells = []
        for i in range(1 << len(idx)):
            a = off + (i << lo)
            if a + n <= o.size and a >= 0:
                v = read(o, st.cons, (), a, n)
                if not isdata(v):
                    v = valbits(v, n)
            else:
                v = 0
            cells.append(v)
        if const and all(isinstance(c, int) for c in cells):
            self.tabcache[key] = tuple(cells)
        return T.wselect(tuple(cells), tuple(idx), 8 * n)

    def store(self, st, p, n, v, where):
        o = self.bounds(st, p, n, where, "write")
        if o.ro:
            self.ob("frame")
            self.fail("frame", where, "write to %s, which the contract does not allow to change" % o.id, st)
            raise PathEnd()
        if p.sym is not None:
            off, r = self.symrange(st, o, p, n, where, "write")
            if r is not None:
                lo, idx = r
                v = valbits(v, n)
                ups = []
                for i in range(1 << len(idx)):
                    a = off + (i << lo)
                    if 0 <= a and a + n <= o.size:
                        old = valbits(read(o, st.cons, (), a, n), n)
                        c = T.weq(T.norm(tuple(idx)), i, len(idx))
                        ups.append((a, T.wite(c, v, old, 8 * n)))
                for a, x in ups:
                    self.put(st, p.obj, (), a, n, x)
                return
            p = Ptr(p.obj, off)
        t, c = linsplit(p.off)
        self.put(st, p.obj, t, c, n, v)

    def put(self, st, oid, t, c, n, v):
        o = st.wobj(oid)
        if st.wlog is not None:
            st.wlog.add((oid, t, c, n))
        obj_write_cell(o, t, c, n, v)

    # memory of linear length -------------------------------------------
    def memcpy(self, st, dst, src, ln, where, move=False):
        if isinstance(ln, tuple):
            raise Unsupported("memcpy of data-dependent length")
        if ln == 0:
            return
        if isinstance(ln, Lin):
            ln = self.uval(st, ln, 64)
            z = st.cons.decide_eq(ln)
            if z is None:
                raise Fork("eq", ln)
        if isinstance(ln, int) and ln <= 65536:
            so = self.bounds(st, src, ln, where, "read")
            do = self.bounds(st, dst, ln, where, "write")
            if do.ro:
                self.fail("frame", where, "write to %s" % do.id, st)
                raise PathEnd()
            if src.sym is not None or dst.sym is not None:
                raise Unsupported("memcpy at data-dependent address")
            ts, cs = linsplit(src.off)
            td, cd = linsplit(dst.off)
            out = []
            i = 0
            while i < ln:
                # cell-wise when possible
                top = so.layers[-1] if so.layers else None
                p = None
                if top is not None and top.kind == "cells" and top.base == ts:
                    p = top.d.get(cs + i)
                if p is not None and i + p[0] <= ln:
                    out.append((i, p[0], p[1]))
                    i += p[0]
                else:
                    out.append((i, 1, read(so, st.cons, ts, cs + i, 1)))
                    i += 1
            for i, n, v in out:
                self.put(st, dst.obj, td, cd + i, n, v)
            return
        so = self.boundslin(st, src, ln, where, "read")
        do = self.boundslin(st, dst, ln, where, "write")
        if do.ro:
            self.fail("frame", where, "write to %s" % do.id, st)
            raise PathEnd()
        snap = so.clone(None)
        d = st.wobj(dst.obj)
        from .exec import _ver
        d.ver = next(_ver)
        d.layers.append(Range(dst.off, ln, snap, src.off))
        if st.wlog is not None:
            st.wlog.add((dst.obj, "range", dst.off, ln))

    def boundslin(self, st, p, ln, where, what):
        self.ob("bounds")
        if not isinstance(p, Ptr) or p.sym is not None:
            raise Unsupported("block operation through %r" % (p,))
        o = self.getobj(st, p.obj)
        if o is None:
            self.fail("dangling", where, "%s of released object" % what, st)
            raise PathEnd()
        a = st.cons.decide_ge(p.off) if isinstance(p.off, Lin) else p.off >= 0
        end = L.sub(L.sub(o.size, p.off), ln)
        b = st.cons.decide_ge(end) if isinstance(end, Lin) else end >= 0
        if a is not True or b is not True:
            m = None
            if not self.silent:
                m = st.cons.model([("ge", L.sub(-1, end))])
            self.fail("out-of-bounds", where, "%s of %r bytes at %r of %s (size %r)" % (what, ln, p.off, o.id, o.size), st, m)
            raise PathEnd()
        return o

    def memset(self, st, dst, v, ln, where):
        if isinstance(ln, tuple):
            raise Unsupported("memset of data-dependent length")
        if ln == 0:
            return
        v = T.wtrunc(self.data(st, v, 32), 32, 8) if not isinstance(v, int) else v & 255
        if isinstance(ln, Lin):
            ln = self.uval(st, ln, 64)
            if st.cons.decide_eq(ln) is None:
                raise Fork("eq", ln)
        if isinstance(ln, int) and ln <= 65536:
            o = self.bounds(st, dst, ln, where, "write")
            if o.ro:
                self.fail("frame", where, "write to %s" % o.id, st)
                raise PathEnd()
            t, c = linsplit(dst.off)
            for i in range(ln):
                self.put(st, dst.obj, t, c + i, 1, v)
            return
        o = self.boundslin(st, dst, ln, where, "write")
        if o.ro:
            self.fail("frame", where, "write to %s" % o.id, st)
            raise PathEnd()
        d = st.wobj(dst.obj)
        from .exec import _ver
        d.ver = next(_ver)
        d.layers.append(Range(dst.off, ln, fill=v))
        if st.wlog is not None:
            st.wlog.add((dst.obj, "range", dst.off, ln))

    # ----------------------------------------------------------- allocation
    def alloc(self, st, name, size, init="undef"):
        oid = "%s#%d" % (name, next(_cnt))
        o = Obj(oid, size, init)
        o.owner = st.tok
        st.objs[oid] = o
        return Ptr(oid, 0)

    # ================================================================ calls
    def call(self, st, name, args, where, retty, mod, caller=None):
        """-> list of (state, value)"""
        h = self.contracts.get(name)
        if h is not None:
            r = h(self, st, args, where)
            if r is not NotImplemented:
                self.contract_uses[name] = self.contract_uses.get(name, 0) + 1
                return r
        f = None
        if mod is not None and name in mod.funcs:
            f = (mod, mod.funcs[name])
        elif name in self.funcs:
            f = self.funcs[name]
        if f is None and mod is not None and name in mod.aliases:
            return self.call(st, mod.aliases[name], args, where, retty, mod)
        if f is None:
            return intrin.external(self, st, name, args, where, retty)
        return self.call_def(st, f[0], f[1], args)

    def call_def(self, st, mod, fn, args):
        if self.depth > 60:
            raise Unsupported("call depth")
        self.functions.add(fn.name)
        regs = {"#al": []}
        for (t, nm), v in zip(fn.params, args):
            regs[nm] = v
        st.frames.append(regs)
        self.depth += 1
        try:
            outs = self.run(st, mod, fn, fn.entry, 0, frozenset())
        finally:
            self.depth -= 1
        res = []
        for o in outs:
            s = o[2]
            fr = s.frames.pop()
            for a in fr["#al"]:
                s.objs.pop(a, None)
            res.append((s, o[3]))
        return res

    # ============================================================ execution
    def run(self, st, mod, fn, blk, idx, stops, enter=None):
        """enter: loop header through which we start (do not treat as entering)"""
        outs = []
        work = [(st, blk, idx)]
        while work:
            st, blk, idx = work.pop()
            try:
                self.run1(st, mod, fn, blk, idx, stops, work, outs)
            except PathEnd:
                pass
            if len(outs) > 4000:
                raise Unsupported("path explosion")
        if len(outs) > 1:
            outs = self.merge_outs(outs)
        return outs

    def goto(self, st, mod, fn, frm, to, stops, work, outs):
        regs = st.frames[-1]
        ins = fn.blocks[to]
        if ins[0].op == "phi":
            vals = []
            for i in ins:
                if i.op != "phi":
                    break
                for v, l in i.a[0]:
                    if l == frm:
                        vals.append((i.dest, self.ev(st, regs, v, i.ty, mod)))
                        break
            for d, v in vals:
                regs[d] = v
        if to in stops:
            outs.append(("at", to, st, None))
            return
        lp = ir.loops(fn)
        if to in lp and frm not in lp[to]:
            for o in self.run_loop(st, mod, fn, to, stops):
                if o[0] == "at" and o[1] not in stops:
                    work.append((o[2], o[1], 0))
                else:
                    outs.append(o)
            return
        work.append((st, to, 0))

    def innermost(self, fn, blk):
        best = None
        for h, body in ir.loops(fn).items():
            if blk in body and (best is None or len(body) < len(best[1])):
                best = (h, body)
        return best

    def run1(self, st, mod, fn, blk, idx, stops, work, outs):
        ins_list = fn.blocks[blk]
        n = len(ins_list)
        ev = self.ev
        regs = st.frames[-1]
        while idx < n:
            i = ins_list[idx]
            op = i.op
            self.steps += 1
            if self.deadline is not None and not self.steps & 1023 and time.time() > self.deadline:
                raise Stop("time budget")
            try:
                if op == "load":
                    p = ev(st, regs, i.a[0], ir.PTR, mod)
                    ty = mod.resolve(i.ty)
                    nb = mod.size(ty)
                    v = self.load(st, p, nb, (fn.name, blk, idx))
                    if ty.k == "int" and ty.w != 8 * nb and isdata(v):
                        v = T.wslice(v, 0, ty.w)
                    if isinstance(v, tuple) and ty.k == "ptr":
                        nm = T.varname(v[0])
                        if nm is None or nm[0] not in ("m", "undef") or nm[1] != p.obj:
                            raise Unsupported("loaded pointer is data")
                        v = Ptr("undef", 0)     # never written: an indeterminate pointer: any use of it fails
                    regs[i.dest] = v
                elif op == "store":
                    ty = mod.resolve(i.a[0] and i.ty)
                    v = ev(st, regs, i.a[0], ty, mod)
                    p = ev(st, regs, i.a[1], ir.PTR, mod)
                    nb = mod.size(ty)
                    if isinstance(v, Cond):
                        v = self.data(st, v, 1)
                    if ty.k == "int" and ty.w != 8 * nb and isdata(v):
                        v = T.wzext(v, ty.w, 8 * nb)
                    self.store(st, p, nb, v, (fn.name, blk, idx))
                elif op == "gep":
                    b = ev(st, regs, i.a[0], ir.PTR, mod)
                    regs[i.dest] = self.gep(st, b, mod, i.ty, [(t, ev(st, regs, v, t, mod)) for t, v in i.a[1]])
                elif op in ir.BIN:
                    a = ev(st, regs, i.a[0], i.ty, mod)
                    b = ev(st, regs, i.a[1], i.ty, mod)
                    ty = mod.resolve(i.ty)
                    if op[0] == "f":
                        regs[i.dest] = self.fbin(st, op, a, b)
                    elif ty.k == "vec":
                        regs[i.dest] = self.vecop(st, op, a, b, ty, mod, (fn.name, blk, idx))
                    else:
                        regs[i.dest] = self.binop(st, op, a, b, ty.w, i.flags, (fn.name, blk, idx))
                elif op in ir.CAST:
                    t1 = mod.resolve(i.a[0])
                    t2 = mod.resolve(i.ty)
                    v = ev(st, regs, i.a[1], t1, mod)
                    regs[i.dest] = self.cast(st, op, v, mod.bitw(t1), mod.bitw(t2), t1, t2, (fn.name, blk, idx))
                elif op == "icmp":
                    t = mod.resolve(i.ty)
                    a = ev(st, regs, i.a[1], t, mod)
                    b = ev(st, regs, i.a[2], t, mod)
                    if t.k == "vec":
                        ew = mod.bitw(t.el)
                        A, B = T.bits(a, ew * t.n), T.bits(b, ew * t.n)
                        regs[i.dest] = T.wconcat([(self.icmp(st, i.a[0], T.norm(A[k * ew:(k + 1) * ew]), T.norm(B[k * ew:(k + 1) * ew]), ew), 1) for k in range(t.n)])
                    else:
                        regs[i.dest] = self.icmp(st, i.a[0], a, b, mod.bitw(t))
                elif op == "alloca":
                    size = mod.size(i.ty)
                    cnt = i.a[0]
                    if cnt is not None:
                        c = ev(st, regs, cnt[1], cnt[0], mod)
                        if isinstance(c, tuple):
                            raise Unsupported("alloca of data-dependent size")
                        if isinstance(c, Lin):
                            c = self.uval(st, c, cnt[0].w)
                            size = L.scale(c, size)
                        else:
                            size = size * c
                    p = self.alloc(st, fn.name + ":" + i.dest, size)
                    regs[i.dest] = p
                    regs["#al"] = regs["#al"] + [p.obj]
                elif op == "br":
                    self.goto(st, mod, fn, blk, i.a[0], stops, work, outs)
                    return
                elif op == "cbr":
                    c = ev(st, regs, i.a[0], ir.I(1), mod)
                    if isinstance(c, int):
                        self.goto(st, mod, fn, blk, i.a[1] if c else i.a[2], stops, work, outs)
                        return
                    self.branch(st, mod, fn, blk, c, i.a[1], i.a[2], stops, work, outs)
                    return
                elif op == "call" or op == "invoke":
                    callee = i.a[0]
                    args = [ev(st, regs, v, t, mod) for t, v in i.a[1]]
                    if callee[0] == "%":
                        f = regs[callee]
                        if not isinstance(f, FnPtr):
                            raise Unsupported("indirect call")
                        callee = f.name
                    nf = len(st.frames)
                    res = self.call(st, callee, args, (fn.name, blk, idx), i.ty, mod)
                    if op == "invoke":
                        for s, v in res:
                            if i.dest is not None:
                                s.frames[-1][i.dest] = v
                            self.goto(s, mod, fn, blk, i.a[2], stops, work, outs)
                        return
                    if len(res) == 1:
                        st, v = res[0]
                        regs = st.frames[-1]
                        if i.dest is not None:
                            regs[i.dest] = v
                    else:
                        for s, v in res:
                            if i.dest is not None:
                                s.frames[-1][i.dest] = v
                            work.append((s, blk, idx + 1))
                        return
                elif op == "ret":
                    v = None
                    if i.a[0] is not None:
                        v = ev(st, regs, i.a[0], i.ty, mod)
                    outs.append(("ret", None, st, v))
                    return
                elif op == "phi":
                    pass
                elif op == "select":
                    c = ev(st, regs, i.a[1], i.a[0], mod)
                    a = ev(st, regs, i.a[2], i.ty, mod)
                    b = ev(st, regs, i.a[3], i.ty, mod)
                    if isinstance(c, Cond):
                        d = self.decide(st, c)
                        if d is None:
                            raise Fork(c.kind, c.lin)
                        c = 1 if d else 0
                    if isinstance(c, int) and mod.resolve(i.a[0]).k != "vec":
                        regs[i.dest] = a if c else b
                    elif a == b:
                        regs[i.dest] = a
                    else:
                        w = mod.bitw(i.ty)
                        ct = mod.resolve(i.a[0])
                        if ct.k == "vec":
                            ew = w // ct.n
                            A, B, C = T.bits(a, w), T.bits(b, w), T.bits(c, ct.n)
                            regs[i.dest] = T.wconcat([(T.wite(C[k], T.norm(A[k * ew:(k + 1) * ew]), T.norm(B[k * ew:(k + 1) * ew]), ew), ew) for k in range(ct.n)])
                        else:
                            regs[i.dest] = T.wite(c[0], self.data(st, a, w), self.data(st, b, w), w)
                elif op == "freeze":
                    regs[i.dest] = ev(st, regs, i.a[0], i.ty, mod)
                elif op == "switch":
                    self.switch(st, mod, fn, blk, i, stops, work, outs)
                    return
                elif op == "fcmp":
                    regs[i.dest] = self.fcmp(st, i.a[0], ev(st, regs, i.a[1], i.ty, mod), ev(st, regs, i.a[2], i.ty, mod))
                elif op in ("extractelement", "insertelement", "shufflevector", "extractvalue", "insertvalue"):
                    regs[i.dest] = intrin.vector(self, st, regs, i, mod)
                elif op == "fneg":
                    v = ev(st, regs, i.a[0], i.ty, mod)
                    regs[i.dest] = FPv(L.scale(v.num, -1), v.den)
                elif op == "unreachable":
                    self.fail("unreachable", (fn.name, blk, idx), "control reaches an unreachable point", st)
                    return
                elif op == "unsupported":
                    if "asm sideeffect \"\"" in i.a[0] and i.dest is None:
                        pass
                    else:
                        raise Unsupported(i.a[0])
                else:
                    raise Unsupported(op)
            except Fork as f:
                for alt in alternatives(f.kind, f.lin):
                    s2 = st.copy()
                    if self.assume_lin(s2, alt):
                        work.append((s2, blk, idx))
                return
            idx += 1
        raise Unsupported("block without terminator")

    def assume_lin(self, st, fact):
        """add a linear fact; False when contradictory.  Pins variables."""
        st.trace = st.trace + (fact,)
        if not st.cons.add(*fact):
            return False
        if not st.cons.feasible():
            return False
        fx = st.cons.fixed()
        if fx:
            st.substitute(fx)
        return True

    def branch(self, st, mod, fn, blk, c, bt, bf, stops, work, outs):
        if isinstance(c, Cond):
            d = self.decide(st, c)
            if d is not None:
                self.goto(st, mod, fn, blk, bt if d else bf, stops, work, outs)
                return
            lp = self.innermost(fn, blk)
            if lp is not None:
                h, body = lp
                if (bt in body) != (bf in body):
                    key = self.loopkey(fn, h)
                    if key is not None and key in self.stayloops:
                        cc, tgt = (c, bt) if bt in body else (c.neg(), bf)
                        s2 = st.copy()
                        alts = [(cc.kind, cc.lin)] if cc.kind != "ne" else alternatives("ne", cc.lin)[:2]
                        for alt in alts:
                            s2 = st.copy()
                            if self.assume_lin(s2, alt):
                                self.goto(s2, mod, fn, blk, tgt, stops, work, outs)
                                return
                        raise PathEnd()
                    if key is not None and key not in self.forkloops:
                        raise NeedInduction(key)
            for cc, tgt in ((c, bt), (c.neg(), bf)):
                for alt in ([(cc.kind, cc.lin)] if cc.kind != "ne" else alternatives("ne", cc.lin)[:2]):
                    s2 = st.copy()
                    if self.assume_lin(s2, alt):
                        try:
                            self.goto(s2, mod, fn, blk, tgt, stops, work, outs)
                        except PathEnd:
                            pass
            return
        lit = c[0]
        if lit in st.dcond:
            self.goto(st, mod, fn, blk, bt, stops, work, outs)
            return
        if lit ^ 1 in st.dcond:
            self.goto(st, mod, fn, blk, bf, stops, work, outs)
            return
        self.multiway(st, mod, fn, blk, [((lit,), bt), ((lit ^ 1,), bf)], stops, work, outs)

    def multiway(self, st, mod, fn, blk, alts, stops, work, outs):
        P = ir.ipdoms(fn).get(blk)
        sub = stops | {P} if P is not None else stops
        res = []
        for lits, tgt in alts:
            s2 = st.copy()
            s2.dcond = st.dcond + tuple(lits)
            w2, o2 = [], []
            try:
                self.goto(s2, mod, fn, blk, tgt, sub, w2, o2)
            except PathEnd:
                pass
            while w2:
                a, b, c = w2.pop()
                try:
                    self.run1(a, mod, fn, b, c, sub, w2, o2)
                except PathEnd:
                    pass
            res.extend(o2)
        res = self.merge_outs(res)
        for o in res:
            if o[0] == "at" and o[1] not in stops:
                # arrived at the join point
                tgt = o[1]
                lp = ir.loops(fn)
                if tgt in lp and blk not in lp[tgt]:
                    for q in self.run_loop(o[2], mod, fn, tgt, stops):
                        if q[0] == "at" and q[1] not in stops:
                            work.append((q[2], q[1], 0))
                        else:
                            outs.append(q)
                else:
                    work.append((o[2], tgt, 0))
            else:
                outs.append(o)

    def switch(self, st, mod, fn, blk, i, stops, work, outs):
        regs = st.frames[-1]
        v = self.ev(st, regs, i.a[0], i.ty, mod)
        w = i.ty.w
        if isinstance(v, Cond):
            v = self.data(st, v, w)
        if isinstance(v, int):
            for cv, tgt in i.a[2]:
                if cv == v:
                    self.goto(st, mod, fn, blk, tgt, stops, work, outs)
                    return
            self.goto(st, mod, fn, blk, i.a[1], stops, work, outs)
            return
        if isinstance(v, Lin):
            for cv, tgt in i.a[2]:
                d = self.icmp(st, "eq", v, cv, w)
                if isinstance(d, Cond):
                    raise Fork("eq", d.lin)
                if d:
                    self.goto(st, mod, fn, blk, tgt, stops, work, outs)
                    return
            self.goto(st, mod, fn, blk, i.a[1], stops, work, outs)
            return
        alts = []
        neg = []
        for cv, tgt in i.a[2]:
            l = T.weq(v, cv, w)
            if l == 0:
                continue
            alts.append(((l,), tgt))
            neg.append(l ^ 1)
        alts.append((tuple(neg), i.a[1]))
        self.multiway(st, mod, fn, blk, alts, stops, work, outs)

    def fcmp(self, st, pred, a, b):
        d = self.fbin(st, "fsub", a, b)
        num = d.num
        p = pred[1:]
        if p == "gt":
            c = Cond("ge", L.sub(num, 1))
        elif p == "ge":
            c = Cond("ge", num)
        elif p == "lt":
            c = Cond("ge", L.sub(-1, num))
        elif p == "le":
            c = Cond("ge", L.scale(num, -1))
        elif p == "eq":
            c = Cond("eq", num)
        elif p == "ne":
            c = Cond("ne", num)
        else:
            raise Unsupported("fcmp " + pred)
        if isinstance(c.lin, int):
            v = c.lin
            return int(v >= 0 if c.kind == "ge" else (v == 0 if c.kind == "eq" else v != 0))
        return c

    def vecop(self, st, op, a, b, ty, mod, where):
        w = mod.bitw(ty)
        if op in ("xor", "and", "or"):
            return self.binop(st, op, a, b, w, (), where)
        ew = mod.bitw(ty.el)
        A, B = T.bits(a, w), T.bits(b, w)
        return T.wconcat([(self.binop(st, op, T.norm(A[k * ew:(k + 1) * ew]), T.norm(B[k * ew:(k + 1) * ew]), ew, (), where), ew)
                          for k in range(ty.n)])

    # ----------------------------------------------------------------- loops
    def loopkey(self, fn, h):
        for k in reversed(self.loopstack):
            if k[0] == fn.name and k[1] == h and k[2] == self.depth:
                return k
        return None

    def iterate(self, st, mod, fn, h, stops, key):
        body = ir.loops(fn)[h]
        exits = set()
        for b in body:
            for s in ir.succs(fn, b):
                if s not in body:
                    exits.add(s)
        sub = stops | exits | {h}
        self.loopstack.append(key)
        try:
            return self.run(st, mod, fn, h, 0, frozenset(sub))
        finally:
            self.loopstack.pop()

    def run_loop(self, st, mod, fn, h, stops):
        key = (fn.name, h, self.depth, next(_cnt))
        outs = []
        cur = [st]
        it = 0
        forked = False
        nind = 0
        bodysplit = 0
        while cur:
            s = cur.pop()
            it += 1
            if it > 200000:
                raise Unsupported("loop does not terminate within 200000 iterations")
            try:
                res = self.iterate(s.copy(), mod, fn, h, stops, key)
            except NeedInduction as e:
                if e.key is not key:
                    raise
                r = self.induct.summarize(self, s, mod, fn, h, stops, key)
                if r is None:
                    # bounded trip count: unroll by case split
                    forked = True
                    nind += 1
                    if nind > 300:
                        raise Unsupported("loop %s in %s: no inductive summary and no small bound" % (h, fn.name))
                    self.forkloops.add(key)
                    try:
                        res = self.iterate(s.copy(), mod, fn, h, stops, key)
                    finally:
                        self.forkloops.discard(key)
                else:
                    outs.extend(r)
                    continue
            if it <= 2 and not forked and any(o[0] == "at" and o[1] == h for o in res) and \
                    any(o[2].cons.facts != s.cons.facts or o[2].cons.bounds.keys() != s.cons.bounds.keys() for o in res if o[0] == "at"):
                # the body splits on a length in every iteration: the exit is behind that split
                bodysplit += 1
                if bodysplit == 2 and (fn.name, h) not in self.nosummary:
                    r = self.induct.summarize(self, st, mod, fn, h, stops, key)
                    if r is not None:
                        return self.merge_outs(r)
                    self.nosummary.add((fn.name, h))
            for o in res:
                if o[0] == "at" and o[1] == h:
                    cur.append(o[2])
                else:
                    outs.append(o)
            if len(cur) > 1:
                ms = self.merge_outs([("at", h, s2, None) for s2 in cur])
                cur = [m[2] for m in ms]
        if len(outs) > 1:
            outs = self.merge_outs(outs)
        return outs

    # --------------------------------------------------------------- merging
    def merge_outs(self, outs):
        """merge outcomes at the same place with the same linear constraints"""
        if len(outs) < 2:
            return outs
        groups = []
        for o in outs:
            done = False
            for g in groups:
                if g[0] == o[0] and g[1] == o[1] and g[2].dcond != o[2].dcond:
                    m = self.merge(g[2], o[2], g[3], o[3])
                    if m is not None:
                        g[2], g[3] = m
                        done = True
                        break
            if not done:
                groups.append(list(o))
        return [tuple(g) for g in groups]

    def merge(self, A, B, va, vb):
        if len(A.frames) != len(B.frames):
            return None
        if A.cons.bounds != B.cons.bounds or set(A.cons.facts) != set(B.cons.facts):
            return None
        da, db = A.dcond, B.dcond
        k = 0
        while k < len(da) and k < len(db) and da[k] == db[k]:
            k += 1
        ea, eb = da[k:], db[k:]
        if not ea or not eb:
            return None
        c = T.andset(ea)      # under the common prefix, A is taken iff c
        # check exclusivity syntactically: some literal of ea is negated in eb
        if not any((x ^ 1) in eb for x in ea):
            c2 = T.andset([c, T.andset(eb)])
            if c2 != 0:
                return None
        R = State.__new__(State)
        R.carry = None
        R.cons = A.cons
        R.tok = object()
        R.ghost = A.ghost
        R.wlog = None if A.wlog is None else (A.wlog | B.wlog)
        R.trace = A.trace
        R.note = A.note
        rest = T.or2(c, T.andset(eb))
        R.dcond = da[:k] + ((rest,) if rest != 1 else ())
        try:
            R.frames = []
            for fa, fb in zip(A.frames, B.frames):
                if fa is fb or fa == fb:
                    R.frames.append(dict(fa))
                    continue
                f = {}
                for key, x in fa.items():
                    if key in fb:
                        y = fb[key]
                        if x is y or x == y:
                            f[key] = x
                        elif isdata(x) and isdata(y):
                            w = len(x) if isinstance(x, tuple) else (len(y) if isinstance(y, tuple) else 64)
                            f[key] = T.wite(c, x, y, w)
                        # else: dropped (dead across the join)
                if "#al" in fa:
                    f["#al"] = sorted(set(fa["#al"]) | set(fb.get("#al", [])))
                R.frames.append(f)
            objs = {}
            for oid in A.objs.keys() | B.objs.keys():
                oa, ob = A.objs.get(oid), B.objs.get(oid)
                if oa is ob:
                    objs[oid] = oa
                elif oa is None or ob is None:
                    objs[oid] = oa or ob
                else:
                    objs[oid] = self.merge_obj(oa, ob, c, A.cons, R.tok)
            R.objs = objs
            v = va
            if va is not vb and va != vb:
                if isdata(va) and isdata(vb):
                    w = len(va) if isinstance(va, tuple) else (len(vb) if isinstance(vb, tuple) else 64)
                    v = T.wite(c, va, vb, w)
                else:
                    return None
        except Undecided:
            return None
        except Unsupported:
            return None
        return R, v

    def merge_obj(self, oa, ob, c, cons, tok):
        la, lb = oa.layers, ob.layers
        if oa.ver == ob.ver:
            return oa
        k = 0
        while k < len(la) and k < len(lb) and (la[k] is lb[k]):
            k += 1
        ra, rb = la[k:], lb[k:]
        if len(ra) > 1 or len(rb) > 1:
            raise Undecided()
        xa = ra[0] if ra else None
        xb = rb[0] if rb else None
        for x in (xa, xb):
            if x is not None and x.kind != "cells":
                raise Undecided()
        if xa is not None and xb is not None and xa.base != xb.base:
            raise Undecided()
        base = (xa or xb).base
        A = xa.d if xa else {}
        B = xb.d if xb else {}
        R = oa.clone(tok)
        from .exec import _ver
        R.ver = next(_ver)
        R.maxn = max(oa.maxn, ob.maxn)
        R.layers = list(la[:k])
        nd = {}
        for key in A.keys() | B.keys():
            a, b = A.get(key), B.get(key)
            if (a is None) != (b is None):
                # written on one side only: keep the word whole
                n = (a or b)[0]
                o = B if b is None else A
                mx = R.maxn
                if n > 1 and not any(key + i in o for i in range(n)) and not any(
                        o.get(key - i) is not None and o[key - i][0] > i for i in range(1, mx)):
                    va = a[1] if a else read(oa, cons, base, key, n, vs=False)
                    vb = b[1] if b else read(ob, cons, base, key, n, vs=False)
                    if va is vb or va == vb:
                        nd[key] = (n, va)
                        continue
                    if isdata(va) and isdata(vb):
                        nd[key] = (n, self.mergeval(va, vb, c, n))
                        continue
            if a is not None and b is not None and a[0] == b[0]:
                if a[1] is b[1] or a[1] == b[1]:
                    nd[key] = a
                    continue
                n = a[0]
                nd[key] = (n, self.mergeval(a[1], b[1], c, n))
            else:
                # different shapes: byte by byte
                for cell, off in ((a, key), (b, key)):
                    if cell is None:
                        continue
                    for i in range(cell[0]):
                        if off + i in nd and nd[off + i][0] == 1:
                            continue
                        va = read(oa, cons, base, off + i, 1, vs=False)
                        vb = read(ob, cons, base, off + i, 1, vs=False)
                        nd[off + i] = (1, va if va == vb else self.mergeval(va, vb, c, 1))
        # resolve overlaps (byte cells inside wider ones): prefer bytes
        wide = sorted(nd)
        for key in wide:
            n, v = nd.get(key, (0, None))
            if n > 1 and any((key + i) in nd for i in range(1, n)):
                del nd[key]
                bv = valbits(v, n)
                for i in range(n):
                    nd.setdefault(key + i, (1, T.wslice(bv, 8 * i, 8)))
        R.layers.append(Cells(base, nd))
        return R

    def mergeval(self, a, b, c, n):
        if isdata(a) and isdata(b):
            return T.wite(c, a, b, 8 * n)
        if isinstance(a, Lin) or isinstance(b, Lin):
            return T.wite(c, valbits(a, n), valbits(b, n), 8 * n)
        raise Undecided()


def srange(v, w):
    if isinstance(v, int):
        v = v - (1 << w) if v >> (w - 1) else v
        return v, v
    h = w
    while h and v[h - 1] == 0:
        h -= 1
    if h < w:
        return 0, (1 << h) - 1
    # sign-extended?
    k = w - 1
    while k and v[k - 1] == v[w - 1]:
        k -= 1
    return -(1 << k), (1 << k) - 1


def alternatives(kind, lin):
    if kind == "ge":
        return [("ge", lin), ("ge", L.sub(-1, lin))]
    return [("ge", L.sub(lin, 1)), ("ge", L.sub(L.scale(lin, -1), 1)), ("eq", lin)]
