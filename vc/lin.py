"""Linear integer expressions over named symbolic variables (lengths, loop
counters) and a small decision procedure: interval reasoning first, then z3
(linear integer arithmetic) for what intervals cannot settle."""
import z3

QSTAT = {"lia_interval": 0, "lia_z3": 0, "lia_z3_time": 0.0}


class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t, c):
        # t: tuple of (var, coef) sorted, non-zero coefs
        self.t = t
        self.c = c
        self._h = hash((t, c))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        s = " + ".join(("%d*%s" % (k, v) if k != 1 else v) for v, k in self.t)
        if self.c:
            s += " %+d" % self.c
        return "<" + s + ">"


def mk(d, c):
    t = tuple(sorted((v, k) for v, k in d.items() if k))
    if not t:
        return c
    return Lin(t, c)


def var(name):
    return Lin(((name, 1),), 0)


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return Lin(b.t, b.c + a)
    if isinstance(b, int):
        return Lin(a.t, a.c + b)
    d = dict(a.t)
    for v, k in b.t:
        d[v] = d.get(v, 0) + k
    return mk(d, a.c + b.c)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(tuple((v, c * k) for v, c in a.t), a.c * k)


def sub(a, b):
    return add(a, scale(b, -1))


def subst(a, m):
    """substitute variables by Lin/int"""
    if isinstance(a, int):
        return a
    if not any(v in m for v, _ in a.t):
        return a
    r = a.c
    for v, k in a.t:
        r = add(r, scale(m[v], k) if v in m else Lin(((v, k),), 0))
    return r


def divisible(a, k):
    """all coefficients divisible by k?"""
    if isinstance(a, int):
        return True
    return all(c % k == 0 for _, c in a.t)


def floordiv(a, k):
    """exact floor division when coefficients are divisible"""
    if isinstance(a, int):
        return a // k
    return mk({v: c // k for v, c in a.t}, a.c // k)


GCACHE = {}


class Cons:
    """a constraint set: variable bounds + list of (kind, Lin) facts
    kind 'ge': lin >= 0 ; 'eq': lin == 0 ; 'ne': lin != 0"""
    __slots__ = ("bounds", "facts", "_cache")

    def __init__(self, bounds=None, facts=None):
        self.bounds = bounds or {}
        self.facts = facts or []
        self._cache = {}

    def copy(self):
        return Cons(dict(self.bounds), list(self.facts))

    def range(self, a):
        if isinstance(a, int):
            return a, a
        lo = hi = a.c
        for v, k in a.t:
            l, h = self.bounds.get(v, (None, None))
            if k > 0:
                lo = None if lo is None or l is None else lo + k * l
                hi = None if hi is None or h is None else hi + k * h
            else:
                lo = None if lo is None or h is None else lo + k * h
                hi = None if hi is None or l is None else hi + k * l
        return lo, hi

    def _solver(self):
        s = z3.Solver()
        s.set("timeout", 3000)
        for v, (l, h) in self.bounds.items():
            x = z3.Int(v)
            if l is not None:
                s.add(x >= l)
            if h is not None:
                s.add(x <= h)
        for k, a in self.facts:
            e = tz(a)
            s.add(e >= 0 if k == "ge" else (e == 0 if k == "eq" else e != 0))
        return s

    def decide_ge(self, a):
        """True: a>=0 always; False: a<0 always; None: both possible"""
        lo, hi = self.range(a)
        if lo is not None and lo >= 0:
            QSTAT["lia_interval"] += 1
            return True
        if hi is not None and hi < 0:
            QSTAT["lia_interval"] += 1
            return False
        if not self.facts:
            # intervals are exact for a single variable
            if isinstance(a, Lin) and len(a.t) == 1:
                return None
        key = ("ge", a)
        if key in self._cache:
            return self._cache[key]
        gkey = (key, frozenset(self.bounds.items()), frozenset(self.facts))
        if gkey in GCACHE:
            self._cache[key] = GCACHE[gkey]
            return GCACHE[gkey]
        import time
        t0 = time.time()
        s = self._solver()
        e = tz(a)
        s.push()
        s.add(e < 0)
        r1 = s.check()
        s.pop()
        if r1 == z3.unsat:
            res = True
        else:
            s.add(e >= 0)
            res = False if s.check() == z3.unsat else None
        QSTAT["lia_z3"] += 1
        QSTAT["lia_z3_time"] += time.time() - t0
        self._cache[key] = res
        GCACHE[gkey] = res
        return res

    def decide_eq(self, a):
        if isinstance(a, int):
            return a == 0
        lo, hi = self.range(a)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if lo == 0 and hi == 0:
            return True
        g = 0
        import math
        for _, k in a.t:
            g = math.gcd(g, k)
        if a.c % g:
            return False
        key = ("eq", a)
        if key in self._cache:
            return self._cache[key]
        gkey = (key, frozenset(self.bounds.items()), frozenset(self.facts))
        if gkey in GCACHE:
            self._cache[key] = GCACHE[gkey]
            return GCACHE[gkey]
        import time
        t0 = time.time()
        s = self._solver()
        e = tz(a)
        s.push()
        s.add(e != 0)
        r1 = s.check()
        s.pop()
        if r1 == z3.unsat:
            res = True
        else:
            s.add(e == 0)
            res = False if s.check() == z3.unsat else None
        QSTAT["lia_z3"] += 1
        QSTAT["lia_z3_time"] += time.time() - t0
        self._cache[key] = res
        GCACHE[gkey] = res
        return res

    def add(self, kind, a):
        """add a fact; returns False if it is immediately contradictory"""
        self._cache = {}
        if isinstance(a, int):
            return a >= 0 if kind == "ge" else (a == 0 if kind == "eq" else a != 0)
        if len(a.t) == 1 and kind in ("ge", "eq"):
            (v, k), = a.t
            l, h = self.bounds.get(v, (None, None))
            if kind == "ge":
                if k > 0:
                    b = -(a.c // k) if a.c % k == 0 else (-a.c + k - 1) // k
                    b = -((a.c) // k)          # v >= ceil(-c/k)
                    l = b if l is None else max(l, b)
                else:
                    b = a.c // (-k)
                    h = b if h is None else min(h, b)
            else:
                if a.c % k:
                    return False
                b = -a.c // k
                if (l is not None and b < l) or (h is not None and b > h):
                    return False
                l = h = b
            self.bounds[v] = (l, h)
            if l is not None and h is not None and l > h:
                return False
            return True
        self.facts.append((kind, a))
        return True

    def feasible(self):
        s = self._solver()
        return s.check() != z3.unsat

    def model(self, extra=()):
        s = self._solver()
        for k, a in extra:
            e = tz(a)
            s.add(e >= 0 if k == "ge" else (e == 0 if k == "eq" else e != 0))
        if s.check() == z3.sat:
            m = s.model()
            r = {}
            for v, (l, h) in self.bounds.items():
                x = m[z3.Int(v)]
                r[v] = x.as_long() if x is not None else (l if l is not None else 0)
            return r
        return None

    def fixed(self):
        """variables pinned to one value by bounds"""
        return {v: l for v, (l, h) in self.bounds.items() if l is not None and l == h}

    def subst(self, m):
        n = Cons({v: b for v, b in self.bounds.items() if v not in m}, [])
        for v, e in m.items():
            # keep the range information of the substituted variable
            if v in self.bounds:
                l, h = self.bounds[v]
                if not isinstance(e, int):
                    if l is not None:
                        n.add("ge", add(e, -l))
                    if h is not None:
                        n.add("ge", sub(h, e))
        for k, a in self.facts:
            n.add(k, subst(a, m))
        return n

    def _vars(self):
        return set(self.bounds)


def solve_eq(a, avoid=()):
    """a == 0 -> {v: expr} when some coefficient is +-1 after removing the gcd"""
    import math
    if isinstance(a, int):
        return None
    g = a.c
    for _, k in a.t:
        g = math.gcd(g, k)
    t = [(v, k // g) for v, k in a.t]
    c = a.c // g
    for v, k in sorted(t, key=lambda x: (x[0].startswith(("div", "mod")), x[0])):
        if abs(k) == 1 and v not in avoid:
            rest = mk({x: y for x, y in t if x != v}, c)
            return {v: scale(rest, -k)}
    return None


def tz(a):
    if isinstance(a, int):
        return z3.IntVal(a)
    return z3.Sum([z3.IntVal(k) * z3.Int(v) for v, k in a.t] + [z3.IntVal(a.c)])


def evaluate(a, env):
    if isinstance(a, int):
        return a
    return a.c + sum(k * env[v] for v, k in a.t)
