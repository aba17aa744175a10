"""Loop summaries: infer header invariants by probing, prove them inductive.

At the header of a loop whose trip count is a symbolic length, the state after
j iterations is described by a template
   invariant cells | cells affine in j | cells that hold bits of the ghost
   specification state S(pos0 + m*j) | "stream" cells written once at
   lo + s*j + k | everything else unknown.
The template is guessed from three probe iterations and then *proved*: it holds
at entry, and one generic iteration from it re-establishes it for j+1
(Houdini-style weakening until it is inductive).
"""
import itertools

from . import terms as T
from . import ir
from . import lin as L
from . import prover
from .lin import Lin
from .exec import (Unsupported, Fork, NeedInduction, PathEnd, Ptr, FPv, FnPtr, Cells, Map, Range, Opaque, Obj, State,
                   Undecided, Resolver, resolve_vs, isdata, linsplit, linjoin, valbits, read, fixint, _ver)

_n = itertools.count(1)


class Spec:
    """ghost specification of a recurrence
    comps: widths; start: values at position 0; step(S, pos, E, st) -> S at pos+1"""

    def __init__(self, name, widths, start, step, total=None, strides=(1, 2, 4, 8, 16, 32, 64)):
        self.name = name
        self.widths = widths
        self.start = start
        self.step = step
        self.total = total
        self.strides = strides
        self.used = []      # (stride, residue) of summaries that advance several positions per iteration
        self.norm = None

    def atoms(self, pos):
        if self.norm is not None:
            # rewrite S(b + c) as step^c(S(b)) for the positions between two strides
            m, r, E, st = self.norm
            c = pos if isinstance(pos, int) else pos.c
            if isinstance(pos, int) or all(k % m == 0 for _, k in pos.t):
                d = (c - r) % m
                b = L.add(pos, -d)
                if d and not (isinstance(b, int) and b < 0):
                    s = self.raw(b)
                    for i in range(d):
                        s = self.step(s, L.add(b, i), E, st)
                    return s
        return self.raw(pos)

    def raw(self, pos):
        return [T.varword(("S", self.name, i, pos), w) for i, w in enumerate(self.widths)]


class Fail(Exception):
    pass


def summarize(E, st0, mod, fn, h, stops, key):
    old = E.passes
    order = E.periods
    good = E.goodperiod.get((fn.name, h))
    if good is not None:
        order = (good,) + tuple(x for x in order if x != good)
    for per in order:
        nf = len(E.fails)
        E.passes = per
        try:
            r = _summarize(E, st0, mod, fn, h, stops, key)
            E.goodperiod[(fn.name, h)] = per
            return r
        except (Fail, Unsupported) as e:
            del E.fails[nf:]
            E.loopinfo.setdefault("failed", []).append("%s/%s (period %d): %s" % (fn.name, h, per, e))
            if E.verbose:
                import traceback
                print("INDUCTION FAILED", fn.name, h, "period", per, repr(e))
                if E.verbose > 1:
                    traceback.print_exc()
        finally:
            E.passes = old
    return None


def iterate(E, s, mod, fn, h, stops, key):
    """E.passes consecutive passes through the loop body"""
    n, E.passes = E.passes, 1
    try:
        cur, outs = [s], []
        for k in range(n):
            nxt = []
            for x in cur:
                for o in E.iterate(x, mod, fn, h, stops, key):
                    if o[0] == "at" and o[1] == h:
                        nxt.append(o[2])
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt, o = peel(E, nxt, mod, fn, h, stops, key)
                outs += o
            cur = nxt
        return outs + [("at", h, x, None) for x in cur]
    finally:
        E.passes = n


def peel(E, states, mod, fn, h, stops, key):
    """states back at the header that leave the loop in the next pass count as
    exits of this one (a final partial block, say)"""
    keep, outs = [], []
    for x in states:
        nf = len(E.fails)
        E.silent += 1
        try:
            o = E.iterate(x.copy(), mod, fn, h, stops, key)
            out = not any(a[0] == "at" and a[1] == h for a in o)
        except (Fork, Undecided, Unsupported, NeedInduction):
            out = False
        finally:
            E.silent -= 1
            del E.fails[nf:]
        if out:
            outs += E.iterate(x.copy(), mod, fn, h, stops, key)
        else:
            keep.append(x)
    return keep, outs


def probe(E, st0, mod, fn, h, stops, key, n=3):
    try:
        return _probe(E, st0, mod, fn, h, stops, key, n, False)
    except Fail:
        return _probe(E, st0, mod, fn, h, stops, key, n, True)


def _probe(E, st0, mod, fn, h, stops, key, n, big):
    E.silent += 1
    E.stayloops.add(key)
    try:
        s = st0.copy()
        for v in (E.sizevars if big else ()):
            if v in s.cons.bounds:
                lo, hi = s.cons.bounds[v]
                want = (lo or 0) + 24
                if hi is None or hi >= want:
                    s2 = s.copy()
                    s2.cons.add("ge", Lin(((v, 1),), -want))
                    if s2.cons.feasible():
                        s = s2
        P = [s]
        W = []
        for t in range(n):
            s = s.copy()
            s.trace = ()
            s.wlog = set()
            try:
                outs = iterate(E, s, mod, fn, h, stops, key)
            except Fork:
                raise Fail("fork in probe")
            at = [o for o in outs if o[0] == "at" and o[1] == h]
            if len(at) != 1:
                raise Fail("probe iteration %d has %d continuing paths" % (t, len(at)))
            s = at[0][2]
            W.append(s.wlog)
            P.append(s)
        return P, W
    finally:
        E.silent -= 1
        E.stayloops.discard(key)


def guards(E, st0, P):
    """linear facts g(j) that every continuing iteration j establishes (guesses
    from the probes; proved with the rest of the invariant) and that hold for
    j = -1 at entry: then g(j-1) is a header invariant"""
    def sig(tr):
        d = {}
        for k, a in tr:
            if isinstance(a, Lin):
                d.setdefault((k, a.t), []).append(a.c)
        return d
    d = [sig(p.trace) for p in P[1:]]
    out = []
    for key in d[0]:
        if key in d[1] and key in d[2] and len(d[0][key]) == len(d[1][key]) == len(d[2][key]):
            for c0, c1, c2 in zip(d[0][key], d[1][key], d[2][key]):
                if c1 - c0 == c2 - c1 and key[0] == "ge":
                    a = c1 - c0
                    # g(j) = t + c0 + a*j
                    if st0.cons.decide_ge(Lin(key[1], c0 - a)) is True:
                        out.append((Lin(key[1], c0), a))
    return out


def _getval(E, s, oid, t, c, n):
    try:
        return read(s.objs[oid], s.cons, t, c, n)
    except PathEnd:
        return None


class StreamCells(list):
    ov = ()


class Tmpl:
    pass


def classify(E, st0, P, W):
    """-> fixed: {(oid,t,c): (n, [v0..v3])}, streams: [(oid,t,c0,s,[(k,n)])]"""
    keep = set(st0.objs)
    per = []
    for w in W:
        d = {}
        for e in w:
            if e[0] not in keep:
                continue
            if e[1] == "range":
                raise Fail("block write of symbolic length inside the loop")
            d.setdefault((e[0], e[1]), set()).add((e[2], e[3]))
        per.append(d)
    fixed = {}
    streams = []
    for key in set().union(*[set(d) for d in per]):
        oid, t = key
        bytesets = []
        for d in per:
            b = set()
            for c, n in d.get(key, ()):
                b.update(range(c, c + n))
            bytesets.append(b)
        # shift s such that W2 = W1 + s etc. for the non-fixed part
        common = bytesets[0] & bytesets[1] & bytesets[2]
        R = [b - common for b in bytesets]
        if any(R) and all(R):
            s = min(R[1]) - min(R[0])
            if s == 0 or R[1] != {x + s for x in R[0]} or R[2] != {x + s for x in R[1]}:
                # irregular: everything written is treated as fixed (havoc candidates)
                common = bytesets[0] | bytesets[1] | bytesets[2]
                R = [set(), set(), set()]
                E_irreg = True
            else:
                shapes = sorted((c, n) for c, n in per[0][key] if c in R[0])
                # drop overlapping shapes: use bytes if inconsistent
                cells = []
                last = None
                ok = True
                for c, n in shapes:
                    if last is not None and c < last:
                        ok = False
                        break
                    cells.append((c, n))
                    last = c + n
                if not ok or sum(n for _, n in cells) != len(R[0]):
                    cells = [(c, 1) for c in sorted(R[0])]
                c0 = min(R[0])
                if s < 0:
                    raise Fail("descending stream")
                cells = StreamCells((c - c0, n) for c, n in cells)
                ext = max(R[0]) - c0 + 1
                if ext > s:
                    # the next iteration overwrites the tail: its bytes are unknown until then
                    cells = StreamCells((k, 1) for k in range(s) if c0 + k in R[0])
                    cells.ov = [k for k in range(s, ext) if c0 + k in R[0]]
                streams.append((oid, t, c0, s, cells))
        elif any(R):
            common = bytesets[0] | bytesets[1] | bytesets[2]
        if common:
            o = P[3].objs[oid]
            done = set()
            for b in sorted(common):
                if b in done:
                    continue
                n = 1
                ly = o.layers[-1] if o.layers else None
                best = None
                for ly in reversed(o.layers):
                    if ly.kind == "cells" and ly.base == t:
                        for k in range(o.maxn):
                            p = ly.d.get(b - k)
                            if p is not None and p[0] > k:
                                best = (b - k, p[0])
                                break
                        break
                c, n = best if best else (b, 1)
                rng = range(c, c + n)
                done.update(rng)
                vals = [_getval(E, s, oid, t, c, n) for s in P]
                if any(x is None for x in vals):
                    raise Fail("cell out of object")
                fixed[(oid, t, c)] = (n, vals)
    return fixed, streams


def signed(v, w):
    return v - (1 << w) if isinstance(v, int) and v >> (w - 1) else v


def match_spec(E, st0, P, fixed):
    """choose the ghost specification and its stride"""
    datacells = {}
    for k, (n, vals) in fixed.items():
        if all(isdata(v) for v in vals) and any(v != vals[0] for v in vals):
            datacells[k] = (n, [T.bits(v, 8 * n) for v in vals])
    choice = None
    best = 0
    if datacells:
        want = 0
        for n, vals in datacells.values():
            want += 8 * n
        for spec in E.specs:
            g = st0.ghost.get(spec.name)
            if g is None:
                g = (0, spec.start)
            gpos, gS = g
            chain = [list(gS)]

            def upto(k):
                while len(chain) <= k:
                    chain.append(spec.step(chain[-1], L.add(gpos, len(chain) - 1), E, P[-1]))
                return chain[k]
            for d0 in (0, 1, 2, 3):
                for m in spec.strides:
                    if m > 4 and best > 0:
                        break
                    if d0 and best > 0:
                        break
                    table = {}
                    pts = [upto(d0 + m * t) for t in range(4)]
                    for ci, w in enumerate(spec.widths):
                        bs = [T.bits(p[ci], w) for p in pts]
                        for b in range(w):
                            tr = (bs[0][b], bs[1][b], bs[2][b], bs[3][b])
                            if len(set(tr)) > 1:
                                table.setdefault(tr, (ci, b, 0))
                                table.setdefault(tuple(x ^ 1 for x in tr), (ci, b, 1))
                    score = 0
                    miss = []
                    for n, vals in datacells.values():
                        for b in range(8 * n):
                            tr = (vals[0][b], vals[1][b], vals[2][b], vals[3][b])
                            if tr in table:
                                score += 1
                            elif len(set(tr)) > 1:
                                miss.append(tr)
                    if miss and E.prover is not None and d0 <= 1:
                        # not literally a spec bit: guess by simulation (proved later)
                        tsim = {}
                        for tr, e in table.items():
                            tsim[tuple(prover.sim(list(tr)))] = e
                        for tr in miss:
                            e = tsim.get(tuple(prover.sim(list(tr))))
                            if e is not None:
                                table[tr] = e
                                score += 1
                    if score > best:
                        best = score
                        choice = (spec, m, d0, L.add(gpos, d0), pts, table)
                    if best == want:
                        break
                if best:
                    break
    return choice


def _summarize(E, st0, mod, fn, h, stops, key):
    E.ninduct += 1
    name = "%s:%s" % (fn.name, h)
    # ---- iteration 0 from the real entry state
    E.forkloops.add(key)
    try:
        real0 = iterate(E, st0.copy(), mod, fn, h, stops, key)
    finally:
        E.forkloops.discard(key)
    exits0 = [o for o in real0 if not (o[0] == "at" and o[1] == h)]
    if not any(o[0] == "at" and o[1] == h for o in real0):
        return exits0
    choice = None
    if E.specs:
        # guess from long inputs: short ones leave memory reads undecided
        try:
            P, W = _probe(E, st0, mod, fn, h, stops, key, 3, True)
            fixed, streams = classify(E, st0, P, W)
            R = Resolver()
            for k, (n, vals) in fixed.items():
                if all(isdata(v) for v in vals):
                    fixed[k] = (n, [resolve_vs(v, P[-1].cons, R=R) for v in vals])
            choice = match_spec(E, st0, P, fixed)
        except (Fail, Unsupported):
            choice = None
    if choice is None:
        P, W = probe(E, st0, mod, fn, h, stops, key)
        fixed, streams = classify(E, st0, P, W)
        choice = match_spec(E, st0, P, fixed)
        G = guards(E, st0, P)
    else:
        try:
            G = guards(E, st0, probe(E, st0, mod, fn, h, stops, key)[0])
        except (Fail, Unsupported):
            G = []
    spec = choice[0] if choice else None
    m = choice[1] if choice else 0
    pos0 = choice[3] if choice else 0
    table = choice[5] if choice else {}

    # ---- classes
    cls = {}
    for k, (n, vals) in fixed.items():
        cls[k] = classof(k, n, vals, table)
    return prove(E, st0, mod, fn, h, stops, key, fixed, streams, cls, spec, m, pos0, exits0, name, G)


def classof(k, n, vals, table):
    w = 8 * n
    v0 = vals[0]
    if all(v == v0 for v in vals):
        return ("inv", v0)
    if all(isinstance(v, Ptr) for v in vals):
        if all(v.obj == v0.obj and v.sym == v0.sym for v in vals):
            d = [L.sub(vals[i + 1].off, vals[i].off) for i in range(3)]
            if isinstance(d[0], int) and d[0] == d[1] == d[2]:
                return ("aptr", v0, d[0])
        return ("havoc",)
    if all(isinstance(v, (int, Lin)) for v in vals):
        x = [signed(v, w) for v in vals]
        d = [L.sub(x[i + 1], x[i]) for i in range(3)]
        if isinstance(d[0], int) and d[0] == d[1] == d[2]:
            return ("aff", x[0], d[0])
    if all(isdata(v) for v in vals):
        bv = [T.bits(v, w) for v in vals]
        mp = []
        hits = 0
        for b in range(w):
            tr = (bv[0][b], bv[1][b], bv[2][b], bv[3][b])
            if tr[0] == tr[1] == tr[2] == tr[3]:
                mp.append(tr[0])
            elif tr in table:
                mp.append(table[tr])
                hits += 1
            else:
                mp = None
                break
        if mp is not None:
            return ("spec", tuple(mp))
        # constant increment of a data word
        d = [T.wsub(vals[i + 1], vals[i], w) for i in range(3)]
        if isinstance(d[0], int) and d[0] == d[1] == d[2]:
            return ("daff", v0, d[0])
        if n in (2, 4, 8):      # the same on the byte-reversed word (big-endian counters)
            r = [bswap(v, n) for v in vals]
            d = [T.wsub(r[i + 1], r[i], w) for i in range(3)]
            if isinstance(d[0], int) and d[0] == d[1] == d[2]:
                return ("daff", r[0], d[0], True)
    # not live at entry (t=0 differs) but regular afterwards is still only a temporary
    return ("havoc",)


def bswap(v, n):
    return T.wconcat([(T.wslice(v, 8 * i, 8), 8) for i in reversed(range(n))])


def cellval(c, n, j, S, name):
    """template value of a cell at iteration j; S = spec state at that point"""
    k = c[0]
    w = 8 * n
    if k == "inv":
        return c[1]
    if k == "aptr":
        return Ptr(c[1].obj, L.add(c[1].off, L.scale(j, c[2])), c[1].sym)
    if k == "aff":
        return fixint(L.add(c[1], L.scale(j, c[2])), n)
    if k == "daff":
        v = T.wadd(c[1], T.lin_bits(L.scale(j, c[2]), w), w)
        return bswap(v, n) if len(c) > 3 else v
    if k == "spec":
        out = []
        for e in c[1]:
            if isinstance(e, tuple):
                ci, b, neg = e
                out.append(T.bits(S[ci][0], S[ci][1])[b] ^ neg)
            else:
                out.append(e)
        return T.norm(tuple(out))
    return T.fresh("havoc:" + name, w)


def header(E, st0, j, cls, fixed, streams, contents, spec, m, pos0, name, opq):
    s = st0.copy()
    if spec is not None:
        pos = L.add(pos0, L.scale(j, m))
        at = spec.atoms(pos)
        S = list(zip(at, spec.widths))
        s.ghost = dict(s.ghost)
        s.ghost[spec.name] = (pos, at)
    else:
        S = None
    for si, (oid, t, c0, stride, cells) in enumerate(streams):
        o = s.wobj(oid)
        o.ver = next(_ver)
        lo = linjoin(t, c0)
        if cells.ov:
            e = max(cells.ov) + 1 - stride
            o.layers.append(Opaque(L.add(lo, L.scale(j, stride)), e, (name, si, "tail", next(_n))))
            if s.wlog is not None:
                s.wlog.add((oid, "range", L.add(lo, L.scale(j, stride)), e))
        if contents is None:
            o.layers.append(Opaque(lo, L.scale(j, stride), (name, si, opq)))
        else:
            o.layers.append(Map(lo, stride, j, contents[si][0], contents[si][1]))
        mx = max(n for _, n in cells)
        o.maxn = max(o.maxn, mx)
        if s.wlog is not None:
            s.wlog.add((oid, "range", lo, L.scale(j, stride)))
    for (oid, t, c), (n, vals) in fixed.items():
        E.put(s, oid, t, c, n, cellval(cls[(oid, t, c)], n, j, S, name))
    return s


def ranges(E, s, cls, fixed, j):
    """math-integer range facts of the affine cells (they hold by construction:
    every update is checked against wrap-around)"""
    for k, (n, _) in fixed.items():
        c = cls[k]
        if c[0] == "aff":
            v = L.add(c[1], L.scale(j, c[2]))
            w = 8 * n
            if isinstance(v, Lin):
                s.cons.add("ge", L.sub((1 << w) - 1, v))
                s.cons.add("ge", L.add(v, (1 << (w - 1)) - 1))


def prove(E, st0, mod, fn, h, stops, key, fixed, streams, cls, spec, m, pos0, exits0, name, G=()):
    # stream/fixed disjointness inside one object
    for oid, t, c0, s, cells in streams:
        for (o2, t2, c2), (n2, _) in fixed.items():
            if o2 == oid:
                D = L.sub(linjoin(t2, c2), linjoin(t, c0))
                below = st0.cons.decide_ge(L.sub(-n2, D)) if isinstance(D, Lin) else D <= -n2
                if below is not True:
                    raise Fail("stream overlaps other loop cells in " + oid)
    # ---- base: the entry state satisfies the template at j = 0
    if spec is not None:
        g0 = st0.ghost.get(spec.name) or (0, spec.start)
        S0 = list(g0[1])
        d0 = L.sub(pos0, g0[0])
        for i in range(d0):
            S0 = spec.step(S0, L.add(g0[0], i), E, st0)
        S0 = list(zip(S0, spec.widths))
    else:
        S0 = None
    pend = []
    for kk, (n, _) in fixed.items():
        if cls[kk][0] != "havoc":
            pend.append((kk, cellval(cls[kk], n, 0, S0, name), _getval(E, st0, kk[0], kk[1], kk[2], n), n))
    for kk in same_all(E, st0, pend):
        if E.verbose > 1:
            print("   not initial:", name, kk, cls[kk][0])
        cls[kk] = ("havoc",)
    for rnd in range(8):
        jn = "j%d" % next(_n)
        j = L.var(jn)
        s = header(E, st0, j, cls, fixed, streams, None, spec, m, pos0, name, jn)
        s.cons.bounds[jn] = (0, 1 << 62)
        s.cons._cache = {}
        ranges(E, s, cls, fixed, j)
        for g, a in G:
            s.cons.add("ge", L.add(g, L.scale(L.sub(j, 1), a)))
        s.wlog = set()
        ntrace = len(s.trace)
        E.silent += 1
        E.forkloops.add(key)
        try:
            outs = iterate(E, s.copy(), mod, fn, h, stops, key)
        finally:
            E.silent -= 1
            E.forkloops.discard(key)
        conts = [o[2] for o in outs if o[0] == "at" and o[1] == h]
        if not conts:
            if E.verbose > 1: print("OUTS", [(o[0], o[1]) for o in outs], s.cons.bounds, s.cons.facts, G)
            raise Fail("no continuing generic path")
        bad = set()
        if spec is not None:
            S = [spec.atoms(L.add(pos0, L.scale(j, m)))]
            for i in range(m):
                S.append(spec.step(S[-1], L.add(L.add(pos0, L.scale(j, m)), i), E, s))
            if m > 1:
                u = (m, (pos0 if isinstance(pos0, int) else pos0.c) % m)
                if u not in spec.used:
                    spec.used.append(u)
            S1 = list(zip(S[-1], spec.widths))
        else:
            S1 = None
        foot = {}
        for (oid, t, c), (n, _) in fixed.items():
            foot.setdefault((oid, t), set()).update(range(c, c + n))
        for (oid, t, c0, stride, cells) in streams:
            a = L.add(linjoin(t, c0), L.scale(j, stride))
            t2, c2 = linsplit(a)
            f = foot.setdefault((oid, t2), set())
            for k, n in cells:
                f.update(range(c2 + k, c2 + k + n))
            f.update(c2 + k for k in cells.ov)
        changed = False
        G2 = [(g, a) for g, a in G if all(s1.cons.decide_ge(L.add(g, L.scale(j, a))) is True for s1 in conts)]
        if len(G2) != len(G):
            G = G2
            continue
        for s1 in conts:
            for e in s1.wlog:
                if e[0] not in st0.objs:
                    continue
                if e[1] == "range":
                    raise Fail("block write in generic iteration")
                f = foot.get((e[0], e[1]))
                need = set(range(e[2], e[2] + e[3]))
                if f is None or not need <= f:
                    # a cell the probes did not see: havoc it
                    if e[1] == () or e[1] in [k[1] for k in fixed if k[0] == e[0]]:
                        kk = (e[0], e[1], e[2])
                        if kk not in fixed:
                            fixed[kk] = (e[3], [None] * 4)
                            cls[kk] = ("havoc",)
                            changed = True
                            continue
                    raise Fail("unexpected write to %s at %r+%d" % (e[0], e[1], e[2]))
            pend = []
            for kk, (n, _) in fixed.items():
                c = cls[kk]
                if c[0] == "havoc":
                    continue
                want = cellval(c, n, L.add(j, 1), S1, name)
                got = _getval(E, s1, kk[0], kk[1], kk[2], n)
                pend.append((kk, want, got, n))
            for kk in same_all(E, s1, pend):
                bad.add(kk)
                if E.verbose > 1:
                    print("   not inductive:", name, kk, cls[kk][0])
        if changed:
            continue
        if not bad:
            break
        for kk in bad:
            cls[kk] = ("havoc",)
    else:
        raise Fail("no inductive invariant after weakening")
    # ---- the final generic pass, with obligations recorded
    nf = len(E.fails)
    E.forkloops.add(key)
    try:
        outs = iterate(E, s.copy(), mod, fn, h, stops, key)
    finally:
        E.forkloops.discard(key)
    E.ob("loop-invariant")
    E.nob["loop-invariant-cells"] = E.nob.get("loop-invariant-cells", 0) + (0 if E.silent else len([1 for c in cls.values() if c[0] != "havoc"]))
    conts = [o[2] for o in outs if o[0] == "at" and o[1] == h]
    contents = []
    for si, (oid, t, c0, stride, cells) in enumerate(streams):
        a = L.add(linjoin(t, c0), L.scale(j, stride))
        t2, c2 = linsplit(a)
        d = {}
        for k, n in cells:
            vs = []
            for s1 in conts:
                v = read(s1.objs[oid], s1.cons, t2, c2 + k, n)
                vs.append(v)
            if any(v != vs[0] for v in vs):
                raise Fail("stream content differs between paths")
            d[k] = (n, vs[0])
        contents.append((jn, d))
    info = {"loop": name, "stride": m, "spec": spec.name if spec else None, "streams": len(streams),
            "cells": {k: sum(1 for c in cls.values() if c[0] == k) for k in ("inv", "aff", "aptr", "spec", "daff", "havoc")}}
    E.loopinfo.setdefault("proved", {})[name] = info
    # ---- exits at j >= 1
    res = list(exits0)
    nx = 0
    jl = Lin(((jn, 1),), 0)
    exits = [o for o in outs if not (o[0] == "at" and o[1] == h)]
    seen = set()
    for o in exits:
        X = [f for f in o[2].trace[ntrace:]]
        isdata_exit = o[2].dcond != st0.dcond
        for s1 in conts:
            C = [f for f in s1.trace[ntrace:]]
            Cp = [(k, L.subst(a, {jn: L.sub(jl, 1)})) for k, a in C]
            c2 = s.cons.copy()
            ok = c2.add("ge", L.sub(jl, 1))
            for f in Cp + X:
                ok = ok and c2.add(*f)
            if not ok or not c2.feasible():
                continue
            # resolve j
            Ex = None
            tmp = State()
            tmp.cons = c2
            if not isdata_exit:
                Ex = resolve(E, tmp, jn, Cp + X)
            if Ex is not None:
                sig = (repr(Ex), tuple(sorted(map(repr, X))), tuple(sorted(map(repr, Cp))))
            else:
                sig = ("j", tuple(sorted(map(repr, X))), tuple(sorted(map(repr, Cp))))
            if sig in seen:
                continue
            seen.add(sig)
            base = st0.copy()
            # division variables introduced while resolving
            for v, b in tmp.cons.bounds.items():
                if v not in base.cons.bounds and v != jn:
                    base.cons.bounds[v] = b
            for f in tmp.cons.facts:
                if f[0] == "eq" and any(v.startswith("div[") for v, _ in f[1].t) and f not in base.cons.facts and not any(v == jn for v, _ in f[1].t):
                    base.cons.facts.append(f)
            base.cons._cache = {}
            if Ex is None:
                jx = "x%d" % next(_n)
                Ex = L.var(jx)
                base.cons.bounds[jx] = (1, 1 << 62)
            st = header(E, base, Ex, cls, fixed, streams, contents, spec, m, pos0, name, None)
            okk = True
            for f in [("ge", L.sub(jl, 1))] + Cp + X:
                g = (f[0], L.subst(f[1], {jn: Ex}))
                if not E.assume_lin(st, g):
                    okk = False
                    break
            if not okk:
                continue
            nx += 1
            E.silent += 1
            E.forkloops.add(key)
            try:
                outs2 = iterate(E, st, mod, fn, h, stops, key)
            finally:
                E.silent -= 1
                E.forkloops.discard(key)
            for q in outs2:
                if not (q[0] == "at" and q[1] == h):
                    res.append(q)
    return res


def same_all(E, st, pend):
    """the keys of the (key, want, got, bytes) that are not proved equal"""
    bad = set()
    snap = []
    for kk, a, b, n in pend:
        r = same(E, st, a, b, n)
        if isinstance(r, tuple):
            snap.append((kk,) + r + (8 * n,))
        elif not r:
            bad.add(kk)
    if snap:
        bad |= equal_split(E, st, snap)
    return bad


def same(E, st, a, b, n):
    """True/False, or (x, y) when the words mention undecided memory"""
    if a is b or (a == b and type(a) == type(b)):
        return True
    if b is None:
        return False
    if isinstance(a, (Lin, int)) and isinstance(b, (Lin, int)):
        x, y = signed(a, 8 * n), signed(b, 8 * n)
        d = L.sub(x, y)
        if isinstance(d, int):
            return d % (1 << (8 * n)) == 0
        return st.cons.decide_eq(d) is True
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.sym == b.sym:
            d = L.sub(a.off, b.off)
            return d == 0 or (isinstance(d, Lin) and st.cons.decide_eq(d) is True)
        return False
    if isinstance(a, (int, tuple, Lin)) and isinstance(b, (int, tuple, Lin)):
        x, y = valbits(a, n), valbits(b, n)
        if x == y:
            return True
        if hassnap(x) or hassnap(y):
            return (x, y)
        return E.equal(x, y, 8 * n, st)
    return False


def hassnap(v):
    if isinstance(v, int):
        return False
    return any(isinstance(p, tuple) and isinstance(p[0], tuple) and p[0] and p[0][0] == "vs" for p in T.support(v))


def equal_split(E, st, snap):
    """equality of words that mention undecided memory: case split until every
    memory byte is decided; returns the keys not proved"""
    from .harness import splitting
    bad = set()

    def f(s, sub):
        R = Resolver(True)
        vals = [resolve_vs(v, s.cons, strict=True, R=R) for v in s.carry]
        if all(T.bits(vals[2 * i], e[3]) == T.bits(vals[2 * i + 1], e[3]) for i, e in enumerate(snap)):
            return
        R = Resolver()
        vals = [resolve_vs(v, s.cons, strict=True, R=R) for v in s.carry]
        for i, (kk, _, _, w) in enumerate(snap):
            if kk not in bad and not E.equal(vals[2 * i], vals[2 * i + 1], w, s):
                bad.add(kk)
    s0 = st.copy()
    s0.carry = tuple(v for _, x, y, _ in snap for v in (x, y))
    try:
        splitting(E, s0, f)
    except Unsupported as e:
        if E.verbose > 1:
            print("   equal_split:", e)
        return {k[0] for k in snap}
    return bad


def resolve(E, tmp, jn, facts):
    """find E with j == E under the constraints"""
    cand = []
    jl = Lin(((jn, 1),), 0)
    for kind, a in facts:
        if isinstance(a, int):
            continue
        d = dict(a.t)
        if jn not in d:
            continue
        cf = d.pop(jn)
        rest = L.mk(d, a.c)
        # cf*j + rest >= 0 / == 0   ->  j ~ -rest/cf
        if cf > 0:
            x = L.scale(rest, -1)
        else:
            x = rest
        k = abs(cf)
        if k == 1:
            q = x
        elif L.divisible(x, k):
            q = L.floordiv(x, k)
        else:
            try:
                q = E.divmod(tmp, x, k)[0]
            except Fork:
                continue
        for dd in (0, 1, -1):
            cand.append(L.add(q, dd))
    for c in cand:
        if tmp.cons.decide_eq(L.sub(jl, c)) is True:
            return c
    return None
