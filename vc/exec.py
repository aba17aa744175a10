"""Symbolic execution of LLVM IR against contracts.

Every function is executed once for *all* inputs: data are bit-vector terms
(terms.py), lengths and loop counters are mathematical linear integers
(lin.py), and a loop whose trip count depends on a length is replaced by an
inductive summary whose invariants are inferred from the state at the loop
header and then *proved* inductive (induct.py).
"""
import itertools
from fractions import Fraction

from . import terms as T
from . import ir
from . import lin as L
from .lin import Lin


class Unsupported(Exception):
    pass


class Fork(Exception):
    """the current instruction needs a case split on a linear fact"""

    def __init__(self, kind, lin):
        self.kind = kind
        self.lin = lin


class NeedInduction(Exception):
    def __init__(self, key):
        self.key = key


class PathEnd(Exception):
    pass


class Stop(Exception):
    """abort the whole run (budget)"""


class Ptr:
    __slots__ = ("obj", "off", "sym")

    def __init__(self, obj, off=0, sym=None):
        self.obj = obj
        self.off = off
        self.sym = sym

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off and self.sym == o.sym

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return "Ptr(%s,%s%s)" % (self.obj, self.off, ",sym" if self.sym is not None else "")


class Cond:
    """i1 value: a linear fact not (yet) decided"""
    __slots__ = ("kind", "lin")

    def __init__(self, kind, lin):
        self.kind = kind
        self.lin = lin

    def neg(self):
        if self.kind == "ge":
            return Cond("ge", L.sub(-1, self.lin))
        return Cond("ne" if self.kind == "eq" else "eq", self.lin)

    def __eq__(self, o):
        return isinstance(o, Cond) and self.kind == o.kind and self.lin == o.lin

    def __hash__(self):
        return hash((self.kind, self.lin))


class FPv:
    """exact rational value of a floating point expression (num/den)"""
    __slots__ = ("num", "den")

    def __init__(self, num, den=1):
        self.num = num
        self.den = den

    def __eq__(self, o):
        return isinstance(o, FPv) and self.num == o.num and self.den == o.den

    def __hash__(self):
        return hash((self.num, self.den))


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


def isdata(v):
    return isinstance(v, (int, tuple))


def linsplit(a):
    """(t, c) of an address"""
    if isinstance(a, int):
        return (), a
    return a.t, a.c


def linjoin(t, c):
    return Lin(t, c) if t else c


# ------------------------------------------------------------------ memory
class Cells:
    __slots__ = ("base", "d", "ext")
    kind = "cells"

    def __init__(self, base, d=None):
        self.base = base
        self.d = d if d is not None else {}
        self.ext = None

    def clone(self):
        return Cells(self.base, dict(self.d))

    def extent(self):
        if self.ext is None:
            lo = min(self.d)
            hi = max(c + n for c, (n, _) in self.d.items())
            self.ext = (lo, hi)
        return self.ext


class Map:
    """cells lo + s*j + k for 0 <= j < J"""
    __slots__ = ("lo", "s", "J", "var", "d")
    kind = "map"

    def __init__(self, lo, s, J, var, d):
        self.lo, self.s, self.J, self.var, self.d = lo, s, J, var, d

    def clone(self):
        return self


class Range:
    """bytes lo .. lo+ln copied from a snapshot (src, soff) or filled"""
    __slots__ = ("lo", "ln", "src", "soff", "fill")
    kind = "range"

    def __init__(self, lo, ln, src=None, soff=0, fill=None):
        self.lo, self.ln, self.src, self.soff, self.fill = lo, ln, src, soff, fill

    def clone(self):
        return self


class Opaque:
    """unknown bytes lo .. lo+ln (None: everything)"""
    __slots__ = ("lo", "ln", "name")
    kind = "opaque"

    def __init__(self, lo, ln, name):
        self.lo, self.ln, self.name = lo, ln, name

    def clone(self):
        return self


_ver = itertools.count(1)
SNAP = {}


class Obj:
    __slots__ = ("id", "size", "init", "layers", "owner", "ro", "ver", "maxn", "rep")

    def __init__(self, id, size, init="undef", ro=False):
        self.id = id
        self.size = size
        self.init = init          # "undef" | ("sym", name) | "zero" | ("bytes", b)
        self.layers = []
        self.owner = None
        self.ro = ro
        self.ver = next(_ver)
        self.maxn = 1

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id, o.size, o.init, o.ro, o.ver, o.maxn = self.id, self.size, self.init, self.ro, self.ver, self.maxn
        o.layers = [l.clone() if i == len(self.layers) - 1 else l for i, l in enumerate(self.layers)]
        o.owner = owner
        return o


def valbits(v, nbytes):
    """data bits of a stored value"""
    w = 8 * nbytes
    if isinstance(v, int):
        return v
    if isinstance(v, tuple):
        return v
    if isinstance(v, Lin):
        return T.lin_bits(v, w)
    if isinstance(v, Ptr) or isinstance(v, FnPtr):
        raise Unsupported("pointer bytes used as data")
    raise Unsupported("value %r used as data" % (v,))


# rebuild with a substitution of linear variables -------------------------
def subst_name(name, m):
    ch = False
    out = []
    for x in name:
        if isinstance(x, Lin):
            y = L.subst(x, m)
            if y is not x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else None


_SUBS = {}
CHAINS = {}     # ghost name -> k -> its components after k steps from the start


class Chained:
    """unfolding of a ghost recurrence at small constant positions (names are unique per process)"""

    def __init__(self, spec, E, st):
        self.spec, self.E, self.st, self.c, self.widths = spec, E, st, [list(spec.start)], spec.widths
        CHAINS[spec.name] = self

    def __call__(self, k):
        while len(self.c) <= k:
            self.c.append(list(self.spec.step(self.c[-1], len(self.c) - 1, self.E, self.st)))
        return self.c[k]



def substituter(m):
    k = frozenset(m.items())
    s = _SUBS.get(k)
    if s is None:
        if len(_SUBS) > 400:
            _SUBS.clear()
        s = _SUBS[k] = Substituter(dict(m))
    return s


class Substituter:
    def __init__(self, m):
        self.m = m
        self.memo = {}
        self.wmemo = {}
        self.ren = {}
        self.omemo = {}

    def leaf(self, kind, p):
        if kind == "var":
            n = p[0]
            if isinstance(n, tuple):
                r = self.ren.get(n)
                if r is None:
                    r = subst_name(n, self.m) or n
                    if n[0] == "vs":
                        # the snapshot the atom reads from
                        o = SNAP[n[1]]
                        o2 = subst_obj(o, self)
                        if o2 is not o:
                            k2 = (o2.id, o2.ver)
                            if k2 not in SNAP:
                                SNAP[k2] = o2.clone(None)
                            r = (r[0], k2) + r[2:]
                    self.ren[n] = r
                if r is not n:
                    if r[0] == "S" and isinstance(r[3], int) and r[1] in CHAINS and 0 <= r[3] <= 16:
                        # ghost state at a constant position: by definition of the ghost
                        return T.bits(CHAINS[r[1]](r[3])[r[2]], CHAINS[r[1]].widths[r[2]])[p[1]]
                    return T.var((r, p[1]))
            return None
        t, c = p
        x = Lin(t, c)
        y = L.subst(x, self.m)
        if y == x:
            return None
        b = T.lin_bits(y, 64)
        return b if isinstance(b, tuple) else T.bits(b, 64)

    def bits(self, v):
        if isinstance(v, int):
            return v
        return T.norm(tuple(T.rebuild(v, self.leaf, self.memo, self.wmemo)))

    def val(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, tuple):
            return self.bits(v)
        if isinstance(v, Lin):
            return L.subst(v, self.m)
        if isinstance(v, Ptr):
            return Ptr(v.obj, L.subst(v.off, self.m), None if v.sym is None else self.bits(v.sym))
        if isinstance(v, Cond):
            return Cond(v.kind, L.subst(v.lin, self.m))
        if isinstance(v, FPv):
            return FPv(L.subst(v.num, self.m), v.den)
        if isinstance(v, list):
            return [self.val(x) for x in v]
        return v


def fixint(v, n):
    """a Lin that became a constant, stored in n bytes"""
    if isinstance(v, int):
        return v & ((1 << (8 * n)) - 1)
    return v


class State:
    __slots__ = ("objs", "frames", "cons", "dcond", "tok", "ghost", "wlog", "trace", "note", "carry")

    def __init__(self):
        self.objs = {}
        self.frames = []
        self.cons = L.Cons()
        self.dcond = ()
        self.tok = object()
        self.ghost = {}
        self.wlog = None
        self.trace = ()
        self.note = ()
        self.carry = None

    def copy(self):
        s = State.__new__(State)
        s.carry = self.carry
        s.objs = dict(self.objs)
        s.frames = [dict(f) for f in self.frames]
        s.cons = self.cons.copy()
        s.dcond = self.dcond
        s.tok = object()
        self.tok = object()
        s.ghost = dict(self.ghost)
        s.wlog = None if self.wlog is None else set(self.wlog)
        s.trace = self.trace
        s.note = self.note
        return s

    def wobj(self, oid):
        o = self.objs[oid]
        if o.owner is not self.tok:
            o = o.clone(self.tok)
            self.objs[oid] = o
        return o

    def substitute(self, m, keepcons=False):
        """replace linear variables everywhere"""
        S = substituter(m)
        for oid, o in list(self.objs.items()):
            if o.init == "ro":
                continue
            n = subst_obj(o, S)
            if n is not o:
                self.objs[oid] = n.clone(self.tok)
        for f in self.frames:
            for k, v in f.items():
                if not isinstance(v, int):
                    f[k] = S.val(v)
        self.ghost = {k: (L.subst(p, m), [S.bits(x) for x in comps]) for k, (p, comps) in self.ghost.items()}
        self.dcond = tuple(T.rebuild(self.dcond, S.leaf, S.memo, S.wmemo))
        if self.carry is not None:
            self.carry = tuple([S.bits(x) for x in self.carry])
        if not keepcons:
            self.cons = self.cons.subst(m)


def subst_obj(o, S):
    key = (o.id, o.ver)
    r = S.omemo.get(key)
    if r is None:
        r = _subst_obj(o, S)
        S.omemo[key] = o.ver if r is o else r
    elif isinstance(r, int):
        return o
    return r


def _subst_obj(o, S):
    ch = False
    size = L.subst(o.size, S.m) if not isinstance(o.size, int) else o.size
    if size is not o.size:
        ch = True
    layers = []
    for l in o.layers:
        if l.kind == "cells":
            nb = L.subst(Lin(l.base, 0), S.m) if l.base else 0
            t, c0 = linsplit(nb)
            nd = {}
            diff = (t != l.base)
            for c, (n, v) in l.d.items():
                if isinstance(v, int):
                    nv = v
                else:
                    nv = S.val(v)
                    if isinstance(v, (Lin,)):
                        nv = fixint(nv, n)
                    if nv is not v and nv != v:
                        diff = True
                nd[c + c0] = (n, nv)
            if diff:
                ch = True
                # merge with previous layer of same base
                if layers and layers[-1].kind == "cells" and layers[-1].base == t:
                    tmp = Obj("tmp", 1 << 60)
                    tmp.layers = [Cells(t, dict(layers[-1].d))]
                    tmp.maxn = o.maxn
                    for c, (n, v) in nd.items():
                        obj_write_cell(tmp, t, c, n, v)
                    layers[-1] = tmp.layers[0]
                else:
                    layers.append(Cells(t, nd))
            else:
                layers.append(l)
        elif l.kind == "map":
            nl = Map(L.subst(l.lo, S.m), l.s, L.subst(l.J, S.m), l.var, {})
            same = nl.lo == l.lo and nl.J == l.J
            for k, (n, v) in l.d.items():
                nv = S.val(v)
                if nv != v:
                    same = False
                nl.d[k] = (n, nv)
            if same:
                layers.append(l)
            else:
                ch = True
                layers.append(nl)
        elif l.kind == "range":
            src = l.src
            if src is not None:
                src2 = subst_obj(src, S)
            else:
                src2 = None
            lo, ln, so = L.subst(l.lo, S.m), L.subst(l.ln, S.m), L.subst(l.soff, S.m)
            if src2 is src and lo == l.lo and ln == l.ln and so == l.soff:
                layers.append(l)
            else:
                ch = True
                if not (isinstance(ln, int) and ln <= 0):
                    layers.append(Range(lo, ln, src2, so, l.fill))
        else:
            layers.append(l)
    if not ch:
        return o
    n = Obj.__new__(Obj)
    n.id, n.size, n.init, n.ro, n.maxn = o.id, size, o.init, o.ro, o.maxn
    n.ver = next(_ver)
    n.layers = layers
    n.owner = None
    return n


def obj_write_cell(o, t, c, n, v):
    """write into the object's top layer (o must be owned)"""
    o.ver = next(_ver)
    ls = o.layers
    if ls and ls[-1].kind == "cells" and ls[-1].base == t:
        ly = ls[-1]
    else:
        ly = Cells(t)
        ls.append(ly)
    d = ly.d
    old = d.get(c)
    if old is not None and old[0] == n:
        d[c] = (n, v)
        return
    mx = o.maxn
    if n > mx:
        o.maxn = n
    # split overlapping cells
    for k in range(1, mx):
        p = d.get(c - k)
        if p is not None and p[0] > k:
            _split(d, c - k, p)
            break
    for k in range(n):
        p = d.get(c + k)
        if p is not None:
            if k + p[0] > n:
                _split(d, c + k, p)
            if (c + k) in d:
                del d[c + k]
    d[c] = (n, v)
    if ly.ext is not None:
        lo, hi = ly.ext
        ly.ext = (min(lo, c), max(hi, c + n))


def _split(d, c, cell):
    n, v = cell
    del d[c]
    b = valbits(v, n)
    for i in range(n):
        d[c + i] = (1, T.wslice(b, 8 * i, 8))


class Undecided(Exception):
    pass


def read_byte(o, cons, t, c, upto=None):
    """-> (value, byte index, nbytes) ; raises Undecided"""
    ls = o.layers
    i = (len(ls) if upto is None else upto) - 1
    while i >= 0:
        ly = ls[i]
        k = ly.kind
        if k == "cells":
            if ly.base == t:
                d = ly.d
                for b in range(o.maxn):
                    p = d.get(c - b)
                    if p is not None:
                        if p[0] > b:
                            return p[1], b, p[0]
                        break
            elif ly.d:
                lo, hi = ly.extent()
                D = L.sub(linjoin(t, c), linjoin(ly.base, 0))
                if cons.decide_ge(L.sub(D, hi)) is not True and cons.decide_ge(L.sub(lo - 1, D)) is not True:
                    raise Undecided(("cells", D, lo, hi))
        elif k == "map":
            rel = L.sub(linjoin(t, c), ly.lo)
            r = map_lookup(ly, cons, rel)
            if r is not None:
                return r
        elif k == "range":
            rel = L.sub(linjoin(t, c), ly.lo)
            a = cons.decide_ge(rel)
            if a is not False:
                b = cons.decide_ge(L.sub(L.sub(ly.ln, 1), rel))
                if b is not False:
                    if a is None or b is None:
                        raise Undecided(("ge", rel) if a is None else ("ge", L.sub(L.sub(ly.ln, 1), rel)))
                    if ly.fill is not None:
                        return ly.fill, 0, 1
                    t2, c2 = linsplit(L.add(ly.soff, rel))
                    return read_byte(ly.src, cons, t2, c2)
        else:
            if ly.lo is None:
                return T.varword(("op", ly.name, linjoin(t, c)), 8), 0, 1
            rel = L.sub(linjoin(t, c), ly.lo)
            a = cons.decide_ge(rel)
            if a is not False:
                b = cons.decide_ge(L.sub(L.sub(ly.ln, 1), rel))
                if b is not False:
                    if a is None or b is None:
                        raise Undecided(("ge", rel) if a is None else ("ge", L.sub(L.sub(ly.ln, 1), rel)))
                    return T.varword(("op", ly.name, linjoin(t, c)), 8), 0, 1
        i -= 1
    init = o.init
    if init == "undef":
        return T.varword(("undef", o.id, linjoin(t, c)), 8), 0, 1
    if init == "zero":
        return 0, 0, 1
    if init[0] == "sym":
        return T.varword(("m", init[1], linjoin(t, c)), 8), 0, 1
    if init[0] == "bytes":
        if t:
            raise Undecided(("table", linjoin(t, c)))
        if 0 <= c < len(init[1]):
            return init[1][c], 0, 1
        raise PathEnd()
    if init[0] == "vals":
        # constant aggregate with pointers
        for cc, (n, v) in init[1].items():
            if not t and cc <= c < cc + n:
                return v, c - cc, n
        return 0, 0, 1
    raise Unsupported("init %r" % (init,))


def map_lookup(ly, cons, rel):
    a = cons.decide_ge(rel)
    if a is False:
        return None
    end = L.scale(ly.J, ly.s)
    b = cons.decide_ge(L.sub(L.sub(end, 1), rel))
    if b is False:
        return None
    if a is None or b is None:
        raise Undecided(("ge", rel) if a is None else ("ge", L.sub(L.sub(end, 1), rel)))
    if L.divisible(rel, ly.s):
        if isinstance(rel, int):
            jj, k = divmod(rel, ly.s)
        else:
            jj = L.floordiv(rel, ly.s)
            k = rel.c % ly.s
    else:
        raise Undecided(("mod", rel, ly.s))
    for kk, (n, v) in ly.d.items():
        if kk <= k < kk + n:
            S = substituter({ly.var: jj})
            return fixint(S.val(v), n), k - kk, n
    return None


def vs_atom(o, t, c):
    key = (o.id, o.ver)
    if key not in SNAP:
        s = o.clone(None)
        SNAP[key] = s
    return T.varword(("vs", key, linjoin(t, c)), 8)


def read(o, cons, t, c, n, vs=True):
    ls = o.layers
    if ls:
        ly = ls[-1]
        if ly.kind == "cells" and ly.base == t:
            p = ly.d.get(c)
            if p is not None and p[0] == n:
                return p[1]
    parts = []
    whole = None
    b = 0
    while b < n:
        try:
            v, k, m = read_byte(o, cons, t, c + b)
        except Undecided:
            if not vs:
                raise
            v, k, m = vs_atom(o, t, c + b), 0, 1
        if k == 0 and m == n and b == 0:
            # all from one cell?  (cells are never overlapped inside)
            whole = v
            ok = True
            if n > 1 and not (ls and ls[-1].kind == "cells" and ls[-1].base == t and ls[-1].d.get(c) == (n, v)):
                for b2 in range(1, n):
                    try:
                        v2, k2, m2 = read_byte(o, cons, t, c + b2)
                    except Undecided:
                        ok = False
                        break
                    if k2 != b2 or m2 != m or (v2 is not v and v2 != v):
                        ok = False
                        break
            if ok:
                return whole
        if isdata(v) or isinstance(v, Lin):
            parts.append((T.wslice(valbits(v, m), 8 * k, 8), 8))
        else:
            raise Unsupported("partial read of %r" % (v,))
        b += 1
    return T.wconcat(parts)


class Resolver:
    """abstract: decided memory bytes that are not plain variables are replaced
    by a variable named after their value and position (equal names imply equal
    bytes, so equality of the abstracted words implies equality)"""

    def __init__(self, abstract=False):
        self.memo, self.wmemo, self.cache = {}, {}, {}
        self.abstract = abstract


def absbyte(b, off):
    bs = T.bits(b, 8)
    if all(x > 1 and T.kind[x >> 1] == T.K_VAR for x in bs):
        return bs
    return T.bits(T.varword(("abs", bs, repr(off)), 8), 8)


def resolve_vs(v, cons, depth=0, strict=False, R=None):
    """replace byte-of-snapshot atoms that the constraints now decide"""
    if isinstance(v, int):
        return v
    if R is None:
        R = Resolver()
    memo, wmemo, cache = R.memo, R.wmemo, R.cache
    und = []

    def leaf(kind, p):
        if kind != "var":
            return None
        nm, bit = p
        if isinstance(nm, tuple) and nm[0] == "vs":
            r = cache.get(nm)
            if r is None:
                o = SNAP[nm[1]]
                t, c = linsplit(nm[2])
                try:
                    b, k, m = read_byte(o, cons, t, c)
                    b = T.wslice(valbits(b, m), 8 * k, 8)
                    if depth < 8:
                        b = resolve_vs(b, cons, depth + 1, strict, Resolver() if R.abstract else R)
                    r = T.bits(b, 8)
                    if R.abstract and depth == 0:
                        r = absbyte(b, nm[2])
                except Undecided as e:
                    und.append(e.args[0])
                    r = "no"
                cache[nm] = r
            if r == "no":
                return None
            return r[bit]
        return None
    out = T.norm(tuple(T.rebuild(v, leaf, memo, wmemo)))
    if strict and und:
        raise Undecided(und[0])
    return out
