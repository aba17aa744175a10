"""Semantics of LLVM intrinsics, compiler runtime and C library functions."""
from . import terms as T
from . import ir
from . import lin as L
from .lin import Lin


def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 255) ^ (0x1B if p & 0x80 else 0)
        q ^= (q << 1) & 255
        q ^= (q << 2) & 255
        q ^= (q << 4) & 255
        if q & 0x80:
            q ^= 0x09
        r = lambda x, n: ((x << n) | (x >> (8 - n))) & 255
        s[p] = q ^ r(q, 1) ^ r(q, 2) ^ r(q, 3) ^ r(q, 4) ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return tuple(s)


SBOX = _sbox()


def sub_byte(b):
    return T.wtable(SBOX, b, 8) if isinstance(b, tuple) else SBOX[b]


def xtime(b):
    if isinstance(b, int):
        return ((b << 1) & 255) ^ (0x1B if b & 0x80 else 0)
    t = b[7]
    r = [0] + list(b[:7])
    for k in (0, 1, 3, 4):
        r[k] = T.xor2(r[k], t)
    return T.norm(tuple(r))


def tobytes(v, n):
    return [T.wslice(v, 8 * i, 8) for i in range(n)]


def frombytes(bs):
    return T.wconcat([(b, 8) for b in bs])


def shiftrows(s):
    return [s[4 * ((c + r) % 4) + r] for c in range(4) for r in range(4)]


def mixcol(col):
    a0, a1, a2, a3 = col
    x = lambda *v: _x8(v)
    d = [xtime(c) for c in col]
    return [x(d[0], d[1], a1, a2, a3), x(a0, d[1], d[2], a2, a3), x(a0, a1, d[2], d[3], a3), x(d[0], a0, a1, a2, d[3])]


def _x8(v):
    r = 0
    for y in v:
        r = T.wxor(r, y, 8)
    return r


def mixcolumns(s):
    out = []
    for c in range(4):
        out += mixcol(s[4 * c:4 * c + 4])
    return out


def aesenc(a, k):
    s = [sub_byte(b) for b in shiftrows(tobytes(a, 16))]
    return T.wxor(frombytes(mixcolumns(s)), k, 128)


def aesenclast(a, k):
    s = [sub_byte(b) for b in shiftrows(tobytes(a, 16))]
    return T.wxor(frombytes(s), k, 128)


def aese(a, k):
    s = [sub_byte(b) for b in shiftrows(tobytes(T.wxor(a, k, 128), 16))]
    return frombytes(s)


def aesmc(a):
    return frombytes(mixcolumns(tobytes(a, 16)))


def external(E, st, name, args, where, retty):
    from .exec import Unsupported, PathEnd, Ptr, FnPtr, Fork, isdata
    n = name[1:]
    if n.startswith("llvm."):
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            E.memcpy(st, args[0], args[1], args[2], where)
            return [(st, None)]
        if n.startswith("llvm.memset"):
            E.memset(st, args[0], args[1], args[2], where)
            return [(st, None)]
        if n.startswith("llvm.stacksave"):
            return [(st, Ptr("stack", 0))]
        if n.startswith(("llvm.stackrestore", "llvm.dbg", "llvm.lifetime", "llvm.donothing", "llvm.prefetch")):
            return [(st, None)]
        if n == "llvm.x86.aesni.aesenc":
            return [(st, aesenc(args[0], args[1]))]
        if n == "llvm.x86.aesni.aesenclast":
            return [(st, aesenclast(args[0], args[1]))]
        if n == "llvm.aarch64.crypto.aese":
            return [(st, aese(args[0], args[1]))]
        if n == "llvm.aarch64.crypto.aesmc":
            return [(st, aesmc(args[0]))]
        if n.startswith("llvm.umul.with.overflow"):
            w = int(n.rsplit("i", 1)[1])
            a, b = args
            if isinstance(a, int) and isinstance(b, int):
                return [(st, [(a * b) & ((1 << w) - 1), int(a * b >> w != 0)])]
            if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
                if isinstance(b, Lin):
                    a, b = b, a
                a = E.uval(st, a, w)
                r = L.scale(a, b)
                if st.cons.decide_ge(L.sub((1 << w) - 1, r)):
                    return [(st, [r, 0])]
            raise Unsupported("umul.with.overflow")
        if n.startswith("llvm.ceil") or n.startswith("llvm.floor"):
            v = args[0]
            num, den = v.num, v.den
            if not isinstance(num, (int, Lin)):
                den *= num.denominator
                num = num.numerator
            from .exec import FPv
            q, r = E.divmod(st, L.add(num, den - 1) if "ceil" in n else num, den)
            return [(st, FPv(q, 1))]
        if n.startswith(("llvm.fshl", "llvm.fshr")):
            w = int(n.rsplit("i", 1)[1])
            a, b, c = args
            if isinstance(c, int):
                c %= w
                a, b = E.data(st, a, w), E.data(st, b, w)
                if n.startswith("llvm.fshr"):
                    c = (w - c) % w
                    if c == 0:
                        return [(st, b)]
                if c == 0:
                    return [(st, a)]
                return [(st, T.wor(T.wshl(a, c, w), T.wlshr(b, w - c, w), w))]
        if n.startswith("llvm.bswap"):
            w = int(n.rsplit("i", 1)[1])
            v = E.data(st, args[0], w)
            return [(st, frombytes(tobytes(v, w // 8)[::-1]))]
        if n.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            w = int(n.rsplit("i", 1)[1])
            a, b = args
            c = E.icmp(st, ("u" if n[5] == "u" else "s") + ("lt" if n.endswith(".i%d" % w) and "min" in n else "gt"), a, b, w)
            from .exec import Cond
            if isinstance(c, Cond):
                raise Fork(c.kind, c.lin)
            if isinstance(c, int):
                return [(st, a if c else b)]
            return [(st, T.wite(c[0], E.data(st, a, w), E.data(st, b, w), w))]
        if n.startswith("llvm.eh.typeid"):
            return [(st, 0)]
        raise Unsupported("intrinsic " + n)
    if n in ("memcpy", "memmove", "__memcpy_chk"):
        E.memcpy(st, args[0], args[1], args[2], where)
        return [(st, args[0])]
    if n in ("memset", "__memset_chk"):
        E.memset(st, args[0], args[1], args[2], where)
        return [(st, args[0])]
    if n in ("bzero", "explicit_bzero"):
        E.memset(st, args[0], 0, args[1], where)
        return [(st, None)]
    if n == "memcmp" or n == "bcmp":
        a, b, ln = args
        if not isinstance(ln, int):
            raise Unsupported("memcmp of symbolic length")
        oa = E.bounds(st, a, ln, where, "read") if ln else None
        ob = E.bounds(st, b, ln, where, "read") if ln else None
        if ln == 0:
            return [(st, 0)]
        from .exec import read, linsplit
        ta, ca = linsplit(a.off)
        tb, cb = linsplit(b.off)
        ls = []
        pairs = []
        for i in range(ln):
            x = read(oa, st.cons, ta, ca + i, 1)
            y = read(ob, st.cons, tb, cb + i, 1)
            pairs.append((x, y))
            ls.append(T.weq(x, y, 8))
        eq = T.andset(ls)
        if eq == 1:
            return [(st, 0)]
        # 0 iff equal; otherwise some non-zero value
        r = T.bits(T.wuf("memcmp", tuple(("w", T.wconcat([(x, 8), (y, 8)])) for x, y in pairs), 31), 31)
        v = tuple([T.and2(eq ^ 1, 1)] + [T.and2(eq ^ 1, b_) for b_ in r])
        return [(st, T.norm(v))]
    if n in ("_Znam", "_Znwm", "malloc", "_ZnamRKSt9nothrow_t", "_ZnwmRKSt9nothrow_t", "calloc"):
        sz = args[0]
        if n == "calloc":
            sz = L.scale(args[0], args[1]) if isinstance(args[1], int) else L.scale(args[1], args[0])
        if isinstance(sz, tuple):
            raise Unsupported("allocation of data-dependent size")
        if isinstance(sz, Lin):
            sz = E.uval(st, sz, 64)
        p = E.alloc(st, "heap:" + where[0], sz, "zero" if n == "calloc" else "undef")
        return [(st, p)]
    if n in ("_ZdaPv", "_ZdlPv", "free", "_ZdlPvm", "_ZdaPvm"):
        p = args[0]
        if isinstance(p, int) and p == 0:
            return [(st, None)]
        E.ob("free")
        if not isinstance(p, Ptr) or p.off != 0 or p.obj not in st.objs or not p.obj.startswith("heap:"):
            E.fail("bad-free", where, "release of %r" % (p,), st)
            raise PathEnd()
        del st.objs[p.obj]
        return [(st, None)]
    if n in ("__assert_fail", "abort", "exit", "_ZSt9terminatev", "__clang_call_terminate", "_ZSt20__throw_length_errorPKc",
             "_ZSt28__throw_bad_array_new_lengthv", "_ZSt17__throw_bad_allocv", "__cxa_throw", "__cxa_throw_bad_array_new_length"):
        E.ob("no-abort")
        E.fail("abort", where, "call of %s is reachable" % n, st)
        raise PathEnd()
    if n in ("sprintf", "snprintf", "__sprintf_chk"):
        return [(st, sprintf(E, st, args, n, where))]
    if n in ("printf", "puts", "putchar", "fflush", "fprintf", "perror", "__gmp_printf", "srand") or n.startswith(("_ZStls", "_ZNSolsE", "_ZNSo", "_ZSt4endl")):
        E.note_external(n)
        return [(st, args[0] if args and isinstance(args[0], Ptr) and n.startswith("_Z") else 0)]
    raise Unsupported("external function " + n)


def cstring(E, st, p):
    from .exec import Unsupported, read, linsplit, Ptr
    if not isinstance(p, Ptr):
        raise Unsupported("format pointer")
    o = E.getobj(st, p.obj)
    if not isinstance(p.off, int) or not isinstance(o.size, int):
        raise Unsupported("format string")
    t, c = linsplit(p.off)
    out = b""
    for i in range(o.size - p.off):
        v = read(o, st.cons, t, c + i, 1)
        if not isinstance(v, int):
            raise Unsupported("format string is not constant")
        if v == 0:
            return out.decode("latin-1")
        out += bytes([v])
    raise Unsupported("format string")


def sprintf(E, st, args, n, where):
    """assumed contract of sprintf for constant formats of literal characters
    and %02X / %02x / %c / %x-free conversions of byte-sized arguments"""
    import re
    from .exec import Unsupported
    E.note_external(n)
    args = list(args)
    dst = args.pop(0)
    cap = None
    if n == "snprintf":
        cap = args.pop(0)
        if not isinstance(cap, int):
            raise Unsupported("snprintf size")
    if n == "__sprintf_chk":
        args.pop(0)
        args.pop(0)
    fmt = cstring(E, st, args.pop(0))
    out = []
    for m in re.finditer(r"%02(?:hh)?([Xx])|%c|%(.?)|([^%])", fmt):
        if m.group(1):
            v = T.bits(E.data(st, args.pop(0), 32), 32)
            if "hh" not in m.group(0) and any(b != 0 for b in v[8:]):
                raise Unsupported("sprintf of a value that may exceed a byte")
            d = b"0123456789ABCDEF" if m.group(1) == "X" else b"0123456789abcdef"
            for k in (4, 0):
                out.append(T.wtable(tuple(d), tuple(v[k:k + 4]), 8))
        elif m.group(0) == "%c":
            out.append(T.wslice(E.data(st, args.pop(0), 32), 0, 8))
        elif m.group(3):
            out.append(ord(m.group(3)))
        elif m.group(0) == "%%":
            out.append(37)
        else:
            raise Unsupported("sprintf format " + fmt)
    ret = len(out)
    if cap is not None:
        if cap == 0:
            return ret
        out = out[:cap - 1]
    out.append(0)
    from .exec import Ptr
    for i, b in enumerate(out):
        E.store(st, Ptr(dst.obj, L.add(dst.off, i), dst.sym) if isinstance(dst, Ptr) else dst, 1, b, where)
    return ret


def vector(E, st, regs, i, mod):
    from .exec import Unsupported
    op = i.op
    if op == "extractvalue":
        v = E.ev(st, regs, i.a[0], i.ty, mod)
        for k in i.a[1]:
            v = v[k]
        return v
    if op == "insertvalue":
        v = list(E.ev(st, regs, i.a[0], i.ty, mod))
        v[i.a[3][0]] = E.ev(st, regs, i.a[2], i.a[1], mod)
        return v
    ty = mod.resolve(i.ty)
    n = ty.n
    ew = mod.bitw(ty.el)
    w = n * ew
    v = T.bits(E.data(st, E.ev(st, regs, i.a[0], i.ty, mod), w), w)
    if op == "extractelement":
        k = E.ev(st, regs, i.a[2], i.a[1], mod)
        if not isinstance(k, int):
            raise Unsupported("vector index")
        return T.norm(v[k * ew:(k + 1) * ew])
    if op == "insertelement":
        k = E.ev(st, regs, i.a[4], i.a[3], mod)
        e = T.bits(E.data(st, E.ev(st, regs, i.a[2], i.a[1], mod), ew), ew)
        return T.norm(v[:k * ew] + tuple(e) + v[(k + 1) * ew:])
    b = T.bits(E.data(st, E.ev(st, regs, i.a[1], i.ty, mod), w), w)
    m = i.a[3]
    mt = mod.resolve(i.a[2])
    if m[0] == "agg":
        idx = [x[1] if x[0] == "c" else 0 for _, x in m[1]]
    else:
        idx = [0] * mt.n
    both = v + b
    out = []
    for k in idx:
        out.extend(both[k * ew:(k + 1) * ew])
    return T.norm(tuple(out))
