"""Hash-consed, normalising bit-vector terms.

A *literal* is an int 2*node+neg (0 = false, 1 = true).  A word is either a
Python int (all bits known) or a tuple of literals, least significant first.
Linear (xor) structure, slicing, shifting, rotation and masking are handled
exactly at bit level; modular addition, multiplication and table look-ups are
opaque "word nodes" keyed by their normalised operands.
"""
import sys
from functools import lru_cache

K_CONST, K_VAR, K_XOR, K_AND, K_WB = 0, 1, 2, 3, 4

kind = [K_CONST]
args = [None]
_var = {}
_xor = {}
_and = {}
_xorc = {}
_andc = {}
_wb = {}

# word nodes
wop = []       # (op, width, payload)
_wkey = {}
_wfull = {}    # full tuple of bits -> word node id
_wbits = []    # full tuple for node


def stats():
    return {"bit_nodes": len(kind), "word_nodes": len(wop)}


def var(name):
    n = _var.get(name)
    if n is None:
        n = len(kind)
        kind.append(K_VAR)
        args.append(name)
        _var[name] = n
    return 2 * n


def varword(name, w):
    return tuple([var((name, i)) for i in range(w)])


_fresh = [0]


def varname(l):
    """name of the variable a positive literal is a bit of, or None"""
    return args[l >> 1][0] if l > 1 and not l & 1 and kind[l >> 1] == K_VAR else None


def fresh(prefix, w):
    _fresh[0] += 1
    return varword(("fresh", prefix, _fresh[0]), w)


def _mkxor(s):
    # s: frozenset of positive literals (even)
    if not s:
        return 0
    if len(s) == 1:
        for x in s:
            return x
    n = _xor.get(s)
    if n is None:
        n = len(kind)
        kind.append(K_XOR)
        args.append(s)
        _xor[s] = n
    return 2 * n


XCAP = 600
NAMES = {}      # positive literal -> positive literal of the NAME word defined as it


def wname(v, w, least=1):
    """give the bits of a word names: later terms refer to the named bits as atoms,
    and a literal that comes out equal to a definition becomes the name.  Sums of at most `least` terms are left alone."""
    global DISTCAP
    DISTCAP = 2048
    out = []
    for l in bits(v, w):
        if l > 1:
            k = l & -2
            n = k >> 1
            if kind[n] == K_XOR and len(args[n]) > least:
                if k not in NAMES:
                    NAMES[k] = mkword("NAME", 1, (k,))[0]
                l = NAMES[k] | (l & 1)
        out.append(l)
    return norm(tuple(out))


def _renamed(l):
    if NAMES:
        r = NAMES.get(l & -2)
        if r is not None:
            return r | (l & 1)
    return l


def xor2(a, b):
    neg = (a ^ b) & 1
    a &= -2
    b &= -2
    if a == b:
        return neg
    if a == 0:
        return b ^ neg
    if b == 0:
        return a ^ neg
    if a > b:
        a, b = b, a
    key = (a, b)
    r = _xorc.get(key)
    if r is None:
        na, nb = a >> 1, b >> 1
        sa = args[na] if kind[na] == K_XOR else frozenset((a,))
        sb = args[nb] if kind[nb] == K_XOR else frozenset((b,))
        if len(sa) + len(sb) > XCAP:
            r = _mkxor(frozenset((a, b)))
        else:
            r = _mkxor(sa ^ sb)
        _xorc[key] = r
    if NAMES:
        r = _renamed(r)
    return r ^ neg


def xorset(lits):
    """xor of many literals"""
    neg = 0
    s = set()
    for l in lits:
        neg ^= l & 1
        l &= -2
        if l == 0:
            continue
        n = l >> 1
        if kind[n] == K_XOR:
            s ^= args[n]
        elif l in s:
            s.remove(l)
        else:
            s.add(l)
    return _renamed(_mkxor(frozenset(s)) ^ neg)


def _mkand(s):
    # s: frozenset of literals, no constants
    if not s:
        return 1
    for x in s:
        if x ^ 1 in s:
            return 0
    if len(s) == 1:
        for x in s:
            return x
    n = _and.get(s)
    if n is None:
        n = len(kind)
        kind.append(K_AND)
        args.append(s)
        _and[s] = n
    return 2 * n


DISTCAP = 16


def _andmono(a, b):
    """and of two literals, no distribution"""
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    if a == b ^ 1:
        return 0
    sa = args[a >> 1] if (not a & 1 and kind[a >> 1] == K_AND) else frozenset((a,))
    sb = args[b >> 1] if (not b & 1 and kind[b >> 1] == K_AND) else frozenset((b,))
    return _mkand(sa | sb)


def and2(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    if a == b ^ 1:
        return 0
    if a > b:
        a, b = b, a
    key = (a, b)
    r = _andc.get(key)
    if r is not None:
        return r
    # algebraic normal form when small: distribute over xor / complement
    ta = _xterms(a)
    tb = _xterms(b)
    if len(ta) * len(tb) <= DISTCAP:
        if len(ta) == 1 and len(tb) == 1:
            r = _andmono(ta[0], tb[0])
        else:
            r = xorset([_andmono(x, y) for x in ta for y in tb])
    else:
        r = _andmono(a, b)
    _andc[key] = r
    return r


def _xterms(a):
    """xor terms (positive literals, possibly const 1) of literal a"""
    n = a >> 1
    if kind[n] == K_XOR:
        t = list(args[n])
    else:
        t = [a & -2]
    if a & 1:
        t.append(1)
    return t


def or2(a, b):
    if a == b:
        return a
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1 or b == 1:
        return 1
    return and2(a ^ 1, b ^ 1) ^ 1


def ite1(c, a, b):
    if a == b:
        return a
    if c == 1:
        return a
    if c == 0:
        return b
    return xor2(b, and2(c, xor2(a, b)))


# ---------------------------------------------------------------- words
def mask(w):
    return (1 << w) - 1


_ibits = {}


def bits(v, w):
    """word -> tuple of literals"""
    if isinstance(v, int):
        if w <= 64:
            k = (v, w)
            r = _ibits.get(k)
            if r is None:
                r = tuple([(v >> i) & 1 for i in range(w)])
                if len(_ibits) < 200000:
                    _ibits[k] = r
            return r
        return tuple([(v >> i) & 1 for i in range(w)])
    return v


def norm(t):
    """tuple of literals -> int if constant"""
    for l in t:
        if l > 1:
            return t if isinstance(t, tuple) else tuple(t)
    v = 0
    for i, l in enumerate(t):
        if l:
            v |= 1 << i
    return v


def isint(v):
    return isinstance(v, int)


def wxor(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return a ^ b
        if a == 0:
            return b
        a = bits(a, w)
    elif isinstance(b, int):
        if b == 0:
            return a
        b = bits(b, w)
    return norm(tuple([xor2(x, y) for x, y in zip(a, b)]))


def wand(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    a = bits(a, w)
    b = bits(b, w)
    return norm(tuple([and2(x, y) for x, y in zip(a, b)]))


def wor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    a = bits(a, w)
    b = bits(b, w)
    return norm(tuple([or2(x, y) for x, y in zip(a, b)]))


def wnot(a, w):
    if isinstance(a, int):
        return a ^ mask(w)
    return tuple([x ^ 1 for x in a])


def wshl(a, k, w):
    if isinstance(a, int):
        return (a << k) & mask(w)
    if k >= w:
        return 0
    return norm((0,) * k + a[:w - k])


def wlshr(a, k, w):
    if isinstance(a, int):
        return a >> k
    if k >= w:
        return 0
    return norm(a[k:] + (0,) * k)


def washr(a, k, w):
    a = bits(a, w)
    k = min(k, w - 1)
    return norm(a[k:] + (a[w - 1],) * k)


def wrotl(a, k, w):
    k %= w
    if k == 0:
        return a
    if isinstance(a, int):
        return ((a << k) | (a >> (w - k))) & mask(w)
    return a[w - k:] + a[:w - k]


def wzext(a, w, w2):
    if isinstance(a, int):
        return a
    return a + (0,) * (w2 - w)


def wsext(a, w, w2):
    if isinstance(a, int):
        if a >> (w - 1):
            return a | (mask(w2) ^ mask(w))
        return a
    return a + (a[-1],) * (w2 - w)


def wtrunc(a, w, w2):
    if isinstance(a, int):
        return a & mask(w2)
    return wslice(a, 0, w2)


def wslice(a, lo, n):
    if isinstance(a, int):
        return (a >> lo) & mask(n)
    t = a[lo:lo + n]
    return norm(t)


@lru_cache(maxsize=None)
def _addnarrow(wn, n):
    op, w, (const, ops) = wop[wn]
    acc = [(c, norm(opword[o][:n])) for o, c in ops]
    return add_lin(acc, const, n)


def wconcat(parts):
    """parts: list of (value,width), least significant first"""
    if all(isinstance(v, int) for v, _ in parts):
        r = 0
        s = 0
        for v, w in parts:
            r |= v << s
            s += w
        return r
    out = []
    for v, w in parts:
        out.extend(bits(v, w))
    return norm(tuple(out))


def mkwb(wn, i):
    key = (wn, i)
    n = _wb.get(key)
    if n is None:
        n = len(kind)
        kind.append(K_WB)
        args.append(key)
        _wb[key] = n
    return 2 * n


def mkword(op, w, payload, hi=None):
    """create/lookup opaque word node; hi: number of possibly non-zero low bits"""
    key = (op, w, payload)
    wn = _wkey.get(key)
    if wn is None:
        wn = len(wop)
        wop.append(key)
        _wkey[key] = wn
        nb = w if hi is None else min(hi, w)
        t = tuple([mkwb(wn, i) for i in range(nb)]) + (0,) * (w - nb)
        _wbits.append(t)
        _wfull[t] = wn
    return _wbits[wn]


def umax(t):
    v = 0
    for i, l in enumerate(t):
        if l:
            v |= 1 << i
    return v


_opid = {}       # operand word (tuple of bits) -> id
opword = []
opmax = []       # mask of possibly non-zero bits


def opnum(v):
    i = _opid.get(v)
    if i is None:
        i = len(opword)
        _opid[v] = i
        opword.append(v)
        opmax.append(umax(v))
    return i


_opnorm = {}


def _normop(v, w):
    """operand word -> ('c', const) or list of (coef, opid), const   with
    trailing constant bits and complement removed"""
    r = _opnorm.get(v)
    if r is not None:
        return r
    key = v
    M = mask(w)
    const = 0
    k = 0
    while k < w and v[k] <= 1:
        k += 1
    if k == w:
        r = (0, None, norm(v))
        _opnorm[key] = r
        return r
    # constant bits anywhere are moved to the constant
    if 1 in v:
        const = sum([1 << i for i, x in enumerate(v) if x == 1])
        v = tuple([0 if x == 1 else x for x in v])
    v = v[k:] + (0,) * k
    c = 1 << k
    if v[0] & 1:
        const += c * sum([1 << i for i, x in enumerate(v) if x > 1])
        v = tuple([x ^ 1 if x > 1 else 0 for x in v])
        c = -c
    r = (c & M, opnum(v), const & M)
    _opnorm[key] = r
    return r


FLATCAP = 400     # longer sums are kept as atoms (re-association is left to the prover)


def add_lin(terms, const, w):
    """sum of coef*value + const (mod 2^w); terms: list of (coef, value)"""
    M = mask(w)
    acc = {}
    for c, v in terms:
        if isinstance(v, int):
            const += c * v
            continue
        wn = _wfull.get(v)
        if wn is not None:
            op, w1, pl = wop[wn]
            if op == "ADD" and w1 == w and len(pl[1]) <= FLATCAP:
                const += c * pl[0]
                if not acc and c == 1:
                    acc = dict(pl[1])
                else:
                    for o, cc in pl[1]:
                        acc[o] = acc.get(o, 0) + c * cc
                continue
        mg = _merged.get(v)
        if mg is not None and mg[0] == w:
            const += c * mg[1]
            for o, cc in mg[2]:
                acc[o] = acc.get(o, 0) + c * cc
            continue
        lv = _linval(v, w)
        if lv is not None:
            sh, t, c0 = lv
            const += c * (c0 << sh)
            for x, cx in t:
                c2, o, k = _normop(lin_bits(_lin.mk({x: 1}, 0), w), w)
                assert k == 0
                _linop.setdefault(o, {})[w] = x
                acc[o] = acc.get(o, 0) + ((c * cx) << sh) * c2
            continue
        c2, o, k = _normop(v, w)
        const += c * k
        if o is not None:
            acc[o] = acc.get(o, 0) + c * c2
    if acc and w <= 64:
        d = {}
        for o, c in acc.items():
            x = _linop.get(o, {}).get(w)
            if x is None:
                break
            c &= M
            if c:
                d[x] = c - M - 1 if c >> (w - 1) else c
        else:
            const &= M
            if const >> (w - 1):
                const -= M + 1
            return lin_bits(_lin.mk(d, const), w) if d else const & M
    return _add_acc(acc, const, w)


_linop = {}      # operand -> {width: linear variable} when it is the word of a single linear variable


@lru_cache(maxsize=65536)
def _linval(v, w):
    """(shift, terms, constant) when the word is 2^shift times the word of a linear expression"""
    if w > 64:
        return None
    k = 0
    while k < w and v[k] == 0:
        k += 1
    if k == w or v[k] == 1 or v[k] & 1 or kind[v[k] >> 1] != K_WB:
        return None
    wn, i = args[v[k] >> 1]
    if wop[wn][0] != "LIN" or i != 0:
        return None
    if tuple(v[k:]) != tuple(_wbits[wn][:w - k]):
        return None
    t, c0 = wop[wn][2]
    return k, t, c0


_merged = {}     # word that a sum collapsed to -> the sum, so that it can be re-flattened


def _add_acc(acc, const, w):
    M = mask(w)
    ops = []
    again = False
    anyodd = False
    pow2 = True
    occ = 0
    for o, c in acc.items():
        c &= M
        if c:
            if c & 1:
                anyodd = True
            else:
                # drop bits shifted out by the coefficient
                tz = (c & -c).bit_length() - 1
                if opmax[o] >> (w - tz):
                    again = True
                    o = opword[o]
                    o = opnum(o[:w - tz] + (0,) * tz)
            if pow2:
                if c & (c - 1):
                    pow2 = False
                else:
                    m = opmax[o] * c
                    if m & occ:
                        pow2 = False
                    occ |= m
            ops.append((o, c))
    if again:
        acc = {}
        for o, c in ops:
            c2, o2, k = _normop(opword[o], w)
            const += c * k
            if o2 is not None:
                acc[o2] = acc.get(o2, 0) + c * c2
        return _add_acc(acc, const, w)
    const &= M
    if not ops:
        return const
    # c*o' + c2*o where o' is o without the bits that c shifts out
    first = {}
    clash = False
    for o, c in ops:
        b0 = opword[o][0]
        if b0 in first:
            clash = True
            first[b0].append((o, c))
        else:
            first[b0] = [(o, c)]
    if clash:
        ch = False
        for g in first.values():
            if len(g) < 2:
                continue
            for o, c in sorted(g, key=lambda e: opmax[e[0]]):
                if o not in acc:
                    continue
                k = w - ((c & -c).bit_length() - 1)
                for o2, _ in sorted(g, key=lambda e: -opmax[e[0]]):
                    if o2 != o and o2 in acc and opword[o2][:k] == opword[o][:k]:
                        acc[o2] += acc.pop(o)
                        ch = True
                        break
        if ch:
            return _add_acc(acc, const, w)
    if len(ops) == 1 and const == 0:
        o, c = ops[0]
        if c & (c - 1) == 0:
            return wshl(opword[o], c.bit_length() - 1, w)
    # carry-free combination?
    if pow2 and not occ & const:
        oc = list(bits(const, w))
        for o, c in ops:
            for i, l in enumerate(bits(wshl(opword[o], c.bit_length() - 1, w), w)):
                if l:
                    oc[i] = l
        r = tuple(oc)
        if r not in _wfull:
            _merged.setdefault(r, (w, const, tuple(sorted(ops))))
        return norm(r)
    # common trailing zeros
    if not anyodd:
        tz = w
        for o, c in ops:
            tz = min(tz, (c & -c).bit_length() - 1)
        if tz:
            sub = add_lin([(c >> tz, opword[o][:w - tz]) for o, c in ops], const >> tz, w - tz)
            r = wconcat([(const & mask(tz), tz), (sub, w - tz)])
            if isinstance(r, tuple):
                _merged.setdefault(r, (w, const, tuple(sorted(ops))))
            return r
    ops.sort()
    mx = const
    for o, c in ops:
        mx += c * opmax[o]
        if mx > M:
            break
    hi = w if mx > M else mx.bit_length()
    return mkword("ADD", w, (const, tuple(ops)), hi)


def wadd(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    return add_lin([(1, a), (1, b)], 0, w)


def wsub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    return add_lin([(1, a), (-1, b)], 0, w)


def wmul(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return (a * b) & mask(w)
        return add_lin([(a, b)], 0, w)
    if isinstance(b, int):
        return add_lin([(b, a)], 0, w)
    # 1-bit multiplicand
    for x, y in ((a, b), (b, a)):
        if all(l == 0 for l in x[1:]):
            return norm(tuple([and2(x[0], l) for l in y]))
    mx = umax(a) * umax(b)
    hi = w if mx > mask(w) else mx.bit_length()
    # bits beyond w are irrelevant; normalise operand order
    if a > b:
        a, b = b, a
    return mkword("MUL", w, (a, b), hi)


def weq(a, b, w):
    """literal: a == b"""
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a == b else 0
    a = bits(a, w)
    b = bits(b, w)
    r = 1
    ls = []
    for x, y in zip(a, b):
        d = xor2(x, y) ^ 1
        if d == 0:
            return 0
        if d != 1:
            ls.append(d)
    return andset(ls)


def andset(ls):
    """conjunction kept as one AND node (no distribution)"""
    s = set()
    for l in ls:
        if l == 0:
            return 0
        if l == 1:
            continue
        if not l & 1 and kind[l >> 1] == K_AND:
            s |= args[l >> 1]
        else:
            s.add(l)
    return _mkand(frozenset(s))


def wult(a, b, w):
    """literal: a < b unsigned"""
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a < b else 0
    if isinstance(b, int):
        if b == 0:
            return 0
        # a < b  with constant b
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            return andset([l ^ 1 for l in a[k:]])
    if isinstance(a, int):
        if a == mask(w):
            return 0
        # a < b  <=>  not (b <= a) <=> not (b < a+1)
        return wult(b, a + 1, w) ^ 1
    a = bits(a, w)
    b = bits(b, w)
    if all(x == 0 for x in b):
        return 0
    # strip equal top bits
    n = w
    while n and a[n - 1] == b[n - 1]:
        n -= 1
    if n == 0:
        return 0
    a = a[:n]
    b = b[:n]
    # carry out of a + ~b + ... : a<b is the ripple comparator
    lt = 0
    if n <= 2:
        for x, y in zip(a, b):
            lt = ite1(xor2(x, y), y, lt)
        return lt
    return mkword("ULT", 1, (a, b))[0]


def wslt(a, b, w):
    a = bits(a, w)
    b = bits(b, w)
    a2 = norm(a[:-1] + (a[-1] ^ 1,))
    b2 = norm(b[:-1] + (b[-1] ^ 1,))
    return wult(a2, b2, w)


def wite(c, a, b, w):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and (a in _wfull and wop[_wfull[a]][0] == "ADD" or b in _wfull and wop[_wfull[b]][0] == "ADD"):
        d = wsub(a, b, w)
        if isinstance(d, int):
            if d & 1 << (w - 1) and d != 1 << (w - 1):
                return add_lin([(1, a), (-d & mask(w), norm((c ^ 1,) + (0,) * (w - 1)))], 0, w)
            return add_lin([(1, b), (d, norm((c,) + (0,) * (w - 1)))], 0, w)
    a = bits(a, w)
    b = bits(b, w)
    return norm(tuple([ite1(c, x, y) for x, y in zip(a, b)]))


_tblid = {}
tblcontent = []


def wtable(content, idx, w):
    """content: tuple of 2^k ints (w bits each); idx: tuple of k literals"""
    k = len(idx)
    assert len(content) == 1 << k
    # reduce constant / complemented / duplicated index bits
    for i in range(k):
        l = idx[i]
        if l <= 1:
            content = tuple([content[_ins(j, i, l)] for j in range(1 << (k - 1))])
            idx = idx[:i] + idx[i + 1:]
            if not idx:
                return content[0]
            return wtable(content, idx, w)
    if any(l & 1 for l in idx):
        m = sum(1 << i for i in range(k) if idx[i] & 1)
        content = _txor(content, m)
        idx = tuple([l & -2 for l in idx])
    for i in range(k if len(set(idx)) < k else 0):
        for j in range(i + 1, k):
            if idx[i] == idx[j]:
                nc = []
                for v in range(1 << (k - 1)):
                    bi = (v >> i) & 1
                    nc.append(content[_ins(v, j, bi)])
                return wtable(tuple(nc), idx[:j] + idx[j + 1:], w)
    if list(idx) != sorted(idx):
        order = sorted(range(k), key=lambda i: idx[i])
        content = _tperm(content, tuple(order))
        idx = tuple([idx[o] for o in order])
    # per result bit: each bit is a boolean table
    return norm(tuple([_tbit(tt, idx) for tt in _ttabs(content, w)]))


@lru_cache(maxsize=4096)
def _txor(content, m):
    return tuple([content[j ^ m] for j in range(len(content))])


@lru_cache(maxsize=4096)
def _tperm(content, order):
    nc = [0] * len(content)
    for v in range(len(content)):
        old = 0
        for p, o in enumerate(order):
            if (v >> p) & 1:
                old |= 1 << o
        nc[v] = content[old]
    return tuple(nc)


@lru_cache(maxsize=4096)
def _ttabs(content, w):
    """truth table of every result bit"""
    out = []
    for b in range(w):
        tt = 0
        for j, v in enumerate(content):
            if (v >> b) & 1:
                tt |= 1 << j
        out.append(tt)
    return tuple(out)


def _tbitn(tt, idx):
    """one-bit table at arbitrary index literals"""
    k = len(idx)
    if min(idx) <= 1 or len(set([x >> 1 for x in idx])) < k:
        return bits(wtable(_bitcontent(tt, k), tuple(idx), 1), 1)[0]
    m = sum([1 << i for i in range(k) if idx[i] & 1])
    order = sorted(range(k), key=lambda i: idx[i] >> 1)
    return _tbit(_tttrans(tt, k, m, tuple(order)), tuple([idx[o] & -2 for o in order]))


@lru_cache(maxsize=65536)
def _bitcontent(tt, k):
    return tuple([(tt >> j) & 1 for j in range(1 << k)])


@lru_cache(maxsize=65536)
def _tttrans(tt, k, m, order):
    c = _bitcontent(tt, k)
    if m:
        c = _txor(c, m)
    return _ttabs(_tperm(c, order), 1)[0]


def _ins(j, i, bit):
    return ((j >> i) << (i + 1)) | (bit << i) | (j & ((1 << i) - 1))


_tbitc = {}


def _tbit(tt, idx):
    key = (tt, idx)
    r = _tbitc.get(key)
    if r is not None:
        return r
    r = _tbit0(tt, idx)
    _tbitc[key] = r
    return r


@lru_cache(maxsize=None)
def _support(tt, k):
    """truth table over k vars -> (reduced tt, kept positions)"""
    keep = []
    n = 1 << k
    full = (1 << n) - 1
    vars_ = list(range(k))
    i = 0
    kk = k
    pos = list(range(k))
    while i < kk:
        blk = 1 << i
        # pattern mask for var i == 0
        m = _varmask(kk, i)
        n0 = tt & m
        n1 = (tt >> blk) & m
        if n0 == n1:
            # drop var i
            ntt = 0
            for j in range(1 << (kk - 1)):
                if (tt >> _ins(j, i, 0)) & 1:
                    ntt |= 1 << j
            tt = ntt
            del pos[i]
            kk -= 1
        else:
            i += 1
    return tt, tuple(pos)


@lru_cache(maxsize=None)
def _varmask(k, i):
    m = 0
    for j in range(1 << k):
        if not (j >> i) & 1:
            m |= 1 << j
    return m


@lru_cache(maxsize=None)
def _anf(tt, k):
    """ANF coefficients set (list of monomial masks)"""
    n = 1 << k
    f = [(tt >> i) & 1 for i in range(n)]
    for i in range(k):
        st = 1 << i
        for j in range(n):
            if j & st:
                f[j] ^= f[j ^ st]
    return [m for m in range(n) if f[m]]


def _tbit0(tt, idx):
    k = len(idx)
    tt2, pos = _support(tt, k)
    idx = tuple([idx[p] for p in pos])
    k = len(idx)
    if k == 0:
        return tt2 & 1
    mons = _anf(tt2, k) if k <= 4 else None
    if mons is None:
        a = _anf(tt2, k)
        if all(m & (m - 1) == 0 for m in a):
            mons = a
    if mons is not None:
        terms = []
        for m in mons:
            t = 1
            for i in range(k):
                if (m >> i) & 1:
                    t = and2(t, idx[i])
            terms.append(t)
        return xorset(terms)
    combo = _lutbasis(tt2, k)
    terms = []
    for what in combo:
        if what == "1":
            terms.append(1)
        elif what[0] == "v":
            terms.append(idx[what[1]])
        else:
            terms.append(mkword("LUT", 1, (what[1], idx))[0])
    return xorset(terms)


LUTAFFINE = True   # express tables modulo affine functions of the index (off: tables stay opaque, sums stay short)
_basis = {}   # k -> list of (vector, pivotbit, frozenset(labels))


@lru_cache(maxsize=None)
def _lutbasis(tt, k):
    """express truth table tt (k vars) over a growing GF(2) basis of LUT functions
    (constants and variables first): a canonical form for all linear
    combinations of table outputs over the same index."""
    B = _basis.get(k)
    if B is None:
        B = _basis[k] = []
        _addbasis(B, (1 << (1 << k)) - 1, frozenset(["1"]))
        for i in range(k if LUTAFFINE else 0):
            v = 0
            for j in range(1 << k):
                if (j >> i) & 1:
                    v |= 1 << j
            _addbasis(B, v, frozenset([("v", i)]))
    vec, labels = tt, frozenset()
    for bv, piv, lab in B:
        if (vec >> piv) & 1:
            vec ^= bv
            labels = labels ^ lab
    if vec == 0:
        return tuple(sorted(labels, key=str))
    _addbasis(B, tt, frozenset([("t", tt)]))
    return (("t", tt),)


def _addbasis(B, tt, labels):
    vec = tt
    for bv, piv, lab in B:
        if (vec >> piv) & 1:
            vec ^= bv
            labels = labels ^ lab
    assert vec
    B.append((vec, vec.bit_length() - 1, labels))


def wselect(cells, idx, w):
    """select from symbolic array: cells tuple of words(w), idx tuple of k literals, len(cells)=2^k"""
    k = len(idx)
    for i in range(k):
        l = idx[i]
        if l <= 1:
            cells = tuple([cells[_ins(j, i, l)] for j in range(1 << (k - 1))])
            idx = idx[:i] + idx[i + 1:]
            if not idx:
                return cells[0]
            return wselect(cells, idx, w)
    if all(isinstance(c, int) for c in cells):
        return wtable(cells, idx, w)
    if all(c == cells[0] for c in cells):
        return cells[0]
    if k == 1:
        return wite(idx[0], cells[1], cells[0], w)
    if k <= 3:
        h = 1 << (k - 1)
        return wite(idx[-1], wselect(cells[h:], idx[:-1], w), wselect(cells[:h], idx[:-1], w), w)
    return mkword("SEL", w, (arrayid(cells), idx))


_arrid = {}
arrays = []


def arrayid(cells):
    a = _arrid.get(cells)
    if a is None:
        a = len(arrays)
        arrays.append(cells)
        _arrid[cells] = a
    return a


def wuf(name, payload, w):
    """uninterpreted function application (contract of a callee)"""
    return mkword("UF", w, (name, payload))


def narrow(t):
    """bits 0..k-1 of an addition: re-normalise at width k"""
    if isinstance(t, int):
        return t
    b0 = t[0]
    n = len(t)
    if not b0 & 1 and kind[b0 >> 1] == K_WB:
        wn, i = args[b0 >> 1]
        if i == 0 and wop[wn][0] == "ADD" and wop[wn][1] > n and _wbits[wn][:n] == t:
            return _addnarrow(wn, n)
    return t


# ------------------------------------------------ linear expressions as words
from . import lin as _lin  # noqa: E402

VARMAX = {}      # variable -> (lo, hi) valid in every context


def lin_bits(a, w):
    """w-bit two's complement word of a linear expression"""
    if isinstance(a, int):
        return a & mask(w)
    k = 0
    while k < 62 and all(c % (1 << (k + 1)) == 0 for _, c in a.t):
        k += 1
    low = a.c & mask(k)
    hi = _lin.mk({v: c >> k for v, c in a.t}, a.c >> k)
    lo_, hi_ = hi.c, hi.c
    for v, c in hi.t:
        b = VARMAX.get(v, (None, None))
        if b[0] is None or b[1] is None:
            lo_ = None
            break
        lo_ += c * (b[0] if c > 0 else b[1])
        hi_ += c * (b[1] if c > 0 else b[0])
    nb = None
    if lo_ is not None and lo_ >= 0:
        nb = hi_.bit_length()
    t = mkword("LIN", 64, (hi.t, hi.c), nb)
    r = bits(low, k) + t
    r = r[:w]
    if len(r) < w:
        r = r + (0,) * (w - len(r))
    return norm(r)


# ------------------------------------------------------------- substitution
def rebuild(lits, leaf, memo, wmemo):
    """rebuild literals bottom-up; leaf(kind, payload) gives the replacement of a
    variable (literal) or None; word nodes LIN are passed to leaf as well."""
    out = []
    memo.setdefault(0, 0)
    for l in lits:
        out.append(_reb(l, leaf, memo, wmemo))
    return out


def _reb(l, leaf, memo, wmemo):
    n0 = l >> 1
    if n0 in memo:
        return memo[n0] ^ (l & 1)
    stack = [n0]
    while stack:
        n = stack[-1]
        if n in memo:
            stack.pop()
            continue
        k = kind[n]
        if k == K_CONST:
            memo[n] = 0
            stack.pop()
        elif k == K_VAR:
            r = leaf("var", args[n])
            memo[n] = 2 * n if r is None else r
            stack.pop()
        elif k in (K_XOR, K_AND):
            need = [x >> 1 for x in args[n] if (x >> 1) not in memo]
            if need:
                stack.extend(need)
                continue
            ch = [memo[x >> 1] ^ (x & 1) for x in args[n]]
            if all((memo[x >> 1] == (x & -2)) for x in args[n]):
                memo[n] = 2 * n
            elif k == K_XOR:
                memo[n] = xorset(ch)
            else:
                r = 1
                if len(ch) > 2:
                    r = andset(ch)
                else:
                    for c in ch:
                        r = and2(r, c)
                memo[n] = r
            stack.pop()
        else:
            wn, i = args[n]
            if wn not in wmemo:
                op, w, pl = wop[wn]
                deps = wdeps(wn)
                need = [x >> 1 for x in deps if (x >> 1) not in memo]
                if need:
                    stack.extend(need)
                    continue
                if op != "LIN" and all([memo[x >> 1] == (x & -2) for x in deps]):
                    wmemo[wn] = _wbits[wn]
                    memo[n] = wmemo[wn][i]
                    stack.pop()
                    continue
                f = lambda v: norm(tuple([memo[x >> 1] ^ (x & 1) for x in v])) if not isinstance(v, int) else v
                if op == "ADD":
                    r = add_lin([(c, f(opword[o])) for o, c in pl[1]], pl[0], w)
                elif op == "MUL":
                    r = wmul(f(pl[0]), f(pl[1]), w)
                elif op == "ULT":
                    r = (wult(f(pl[0]), f(pl[1]), len(pl[0])),)
                elif op == "LUT":
                    r = (_tbitn(pl[0], [memo[x >> 1] ^ (x & 1) for x in pl[1]]),)
                elif op == "SEL":
                    r = wselect(tuple([f(c) for c in arrays[pl[0]]]), bits(f(pl[1]), len(pl[1])), w)
                elif op == "LIN":
                    r = leaf("lin", pl)
                    if r is None:
                        r = _wbits[wn]
                elif op == "NAME":
                    r = wname(f(pl), 1)
                elif op == "UF":
                    r = mkword("UF", w, (pl[0], _mapuf(pl[1], f)))
                else:
                    raise NotImplementedError(op)
                wmemo[wn] = bits(r, w)
            memo[n] = wmemo[wn][i]
            stack.pop()
    return memo[n0] ^ (l & 1)


def _mapuf(p, f):
    if isinstance(p, tuple):
        if p and p[0] == "w":
            return ("w", f(p[1]))
        return tuple([_mapuf(x, f) for x in p])
    return p


_wdeps = {}


def wdeps(wn):
    d = _wdeps.get(wn)
    if d is not None:
        return d
    op, w, pl = wop[wn]
    s = set()
    if op == "ADD":
        for o, _ in pl[1]:
            s.update(opword[o])
    elif op in ("MUL", "ULT"):
        for o in pl:
            if not isinstance(o, int):
                s.update(o)
    elif op == "LUT":
        s.update(pl[1])
    elif op == "NAME":
        s.update(pl)
    elif op == "SEL":
        s.update(pl[1])
        for c in arrays[pl[0]]:
            if not isinstance(c, int):
                s.update(c)
    elif op == "UF":
        def walk(p):
            if isinstance(p, tuple):
                if p and p[0] == "w":
                    if not isinstance(p[1], int):
                        s.update(p[1])
                else:
                    for x in p:
                        walk(x)
        walk(pl[1])
    d = tuple([x for x in s if x > 1])
    _wdeps[wn] = d
    return d


def support(lits):
    """names of the variables (and LIN nodes) a list of literals depends on"""
    seen = set()
    out = set()
    st = [l >> 1 for l in lits]
    wseen = set()
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        k = kind[n]
        if k == K_VAR:
            out.add(args[n])
        elif k in (K_XOR, K_AND):
            st.extend([x >> 1 for x in args[n]])
        elif k == K_WB:
            wn = args[n][0]
            if wn not in wseen:
                wseen.add(wn)
                if wop[wn][0] == "LIN":
                    out.add(("LIN", wop[wn][2]))
                st.extend([x >> 1 for x in wdeps(wn)])
    return out


def substvars(word, w, fn):
    """replace variable bits: fn((name, bit)) -> literal or None"""
    return norm(tuple(rebuild(bits(word, w), lambda k, p: fn(p) if k == "var" else None, {}, {})))
