"""Parser for the textual LLVM IR that clang -O0 emits (opaque pointers)."""
import re
import struct as _struct


class Type:
    __slots__ = ("k", "w", "n", "el", "name", "packed", "_size", "_align", "offs")

    def __init__(self, k, w=0, n=0, el=None, name=None, packed=False):
        self.k = k
        self.w = w
        self.n = n
        self.el = el
        self.name = name
        self.packed = packed
        self._size = None
        self._align = None
        self.offs = None

    def __repr__(self):
        return "T(%s,%s,%s)" % (self.k, self.w, self.name or self.n)


_cache = {}


def I(w):
    t = _cache.get(w)
    if t is None:
        t = _cache[w] = Type("int", w)
    return t


PTR = Type("ptr", 64)
VOID = Type("void")
DOUBLE = Type("fp", 64)
FLOAT = Type("fp", 32)
LABEL = Type("label")
META = Type("meta")


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (Type, init or None, isconst)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.structs_di = {}

    def resolve(self, t):
        if t.k == "named":
            return self.types[t.name]
        return t

    def size(self, t):
        t = self.resolve(t)
        if t._size is not None:
            return t._size
        if t.k == "int":
            s = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.w, (t.w + 7) // 8)
        elif t.k == "ptr":
            s = 8
        elif t.k == "fp":
            s = t.w // 8
        elif t.k == "arr":
            s = t.n * self.size(t.el)
        elif t.k == "vec":
            s = t.n * self.size(t.el)
        elif t.k == "struct":
            self.layout(t)
            s = t._size
        else:
            raise NotImplementedError("size of %r" % t)
        t._size = s
        return s

    def align(self, t):
        t = self.resolve(t)
        if t.k == "int":
            return min(16, self.size(t))
        if t.k in ("ptr", "fp"):
            return self.size(t)
        if t.k == "arr":
            return self.align(t.el)
        if t.k == "vec":
            return min(16, self.size(t))
        if t.k == "struct":
            if t.packed:
                return 1
            return max([self.align(e) for e in t.el] or [1])
        raise NotImplementedError

    def layout(self, t):
        t = self.resolve(t)
        if t.offs is not None:
            return t.offs
        o = 0
        offs = []
        al = 1
        for e in t.el:
            a = 1 if t.packed else self.align(e)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(e)
        o = (o + al - 1) // al * al
        t._size = o
        t.offs = offs
        return offs

    def bitw(self, t):
        t = self.resolve(t)
        if t.k == "int":
            return t.w
        return 8 * self.size(t)


class Instr:
    __slots__ = ("op", "dest", "ty", "a", "flags", "line")

    def __init__(self, op, dest, ty, a, flags=()):
        self.op = op
        self.dest = dest
        self.ty = ty
        self.a = a
        self.flags = flags


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []     # (Type, regname)
        self.ret = None
        self.blocks = {}     # label -> [Instr]
        self.entry = None
        self.order = []
        self._ipdom = None
        self._loops = None


TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|(%"[^"]*"|@"[^"]*"|%[-\w$.]+|@[-\w$.]+)|(-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)|([A-Za-z_][\w.]*)|(![\w.]*)|(\.\.\.)|("(?:[^"]*)")|(\#\d+)|(.))''')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            break
        t = m.group(m.lastindex)
        if t is not None and t.strip() != "":
            out.append(t)
        pos = m.end()
    return out


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError("expected %s got %s in %s" % (x, y, self.t))

    def type(self):
        t = self._type0()
        while self.peek() == "(":
            # function type: skip params
            d = 0
            while True:
                x = self.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
            t = Type("fn", el=t)
        return t

    def _type0(self):
        x = self.next()
        if x == "ptr":
            return PTR
        if x == "void":
            return VOID
        if x == "double":
            return DOUBLE
        if x == "float":
            return FLOAT
        if x == "label":
            return LABEL
        if x == "metadata":
            return META
        if x[0] == "i" and x[1:].isdigit():
            return I(int(x[1:]))
        if x == "x86_fp80":
            return Type("fp", 80)
        if x[0] == "%":
            return Type("named", name=x)
        if x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            return Type("arr", n=n, el=e)
        if x == "<":
            if self.accept("{"):
                el = self._structbody()
                self.expect(">")
                return Type("struct", el=el, packed=True)
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            return Type("vec", n=n, el=e)
        if x == "{":
            return Type("struct", el=self._structbody())
        raise SyntaxError("type? %s in %s" % (x, self.t[max(0, self.i - 5):self.i + 5]))

    def _structbody(self):
        el = []
        if self.accept("}"):
            return el
        while True:
            el.append(self.type())
            if self.accept("}"):
                return el
            self.expect(",")

    ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "signext", "zeroext", "readonly", "writeonly", "immarg",
             "returned", "inreg", "noreturn", "nofree", "swiftself", "nest", "readnone"}

    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTRS:
                self.next()
            elif x == "align":
                self.next()
                self.next()
            elif x in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "byref", "memory", "captures"):
                self.next()
                if self.accept("("):
                    d = 1
                    while d:
                        y = self.next()
                        if y == "(":
                            d += 1
                        elif y == ")":
                            d -= 1
            elif x is not None and x[0] == "#":
                self.next()
            else:
                return

    def value(self, ty):
        """operand of type ty -> descriptor"""
        x = self.peek()
        ty = self.mod.resolve(ty) if ty.k == "named" else ty
        if x[0] == "%":
            self.next()
            return ("r", x)
        if x[0] == "@":
            self.next()
            return ("g", x)
        if x in ("null",):
            self.next()
            return ("c", 0)
        if x in ("undef", "poison"):
            self.next()
            return ("undef",)
        if x == "zeroinitializer":
            self.next()
            return ("zero", ty)
        if x == "true":
            self.next()
            return ("c", 1)
        if x == "false":
            self.next()
            return ("c", 0)
        if x[:2] == 'c"':
            self.next()
            return ("bytes", cstr(x))
        if x == "getelementptr":
            self.next()
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.accept(","):
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(")")
            return ("gep", bt, base, idx)
        if x in ("inttoptr", "ptrtoint", "bitcast"):
            self.next()
            self.expect("(")
            t1 = self.type()
            v = self.value(t1)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", x, t1, v, t2)
        if x in ("[", "<", "{"):
            if x == "<" and self.t[self.i + 1] == "{":
                self.next()
                r = self.value(ty)
                self.expect(">")
                return r
            self.next()
            close = {"[": "]", "<": ">", "{": "}"}[x]
            vs = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    vs.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(",")
            return ("agg", vs)
        self.next()
        if ty.k == "fp":
            if x.startswith("0x"):
                return ("fp", _struct.unpack(">d", bytes.fromhex(x[2:].zfill(16)))[0])
            return ("fp", float(x))
        if ty.k == "int":
            return ("c", int(x, 0) & ((1 << ty.w) - 1))
        if ty.k == "meta":
            return ("meta",)
        raise SyntaxError("value? %s %r in %s" % (x, ty, " ".join(self.t)))


def cstr(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr",
        "bitcast", "addrspacecast"}


def strip_meta(line):
    # drop trailing ", !dbg !123" and other metadata attachments
    i = line.find(", !")
    if i >= 0 and '"' not in line[i:]:
        return line[:i]
    return line


def parse(text):
    mod = Module()
    lines = text.split("\n")
    # pass 1: named types
    for ln in lines:
        if ln.startswith("%") and " = type " in ln:
            name, rest = ln.split(" = type ", 1)
            if rest.strip() == "opaque":
                mod.types[name] = Type("struct", el=[], name=name)
                continue
            p = P(tokenize(rest), mod)
            t = p.type()
            t.name = name
            mod.types[name] = t
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith("@"):
            parse_global(ln, mod)
        elif ln.startswith("define "):
            i = parse_func(lines, i, mod)
        elif ln.startswith("declare "):
            m = re.search(r"(@[-\w$.]+|@\"[^\"]+\")\(", ln)
            if m:
                mod.decls[m.group(1)] = ln
        i += 1
    parse_di(lines, mod)
    return mod


def parse_global(ln, mod):
    name, rest = ln.split(" = ", 1)
    rest = strip_meta(rest)
    toks = tokenize(rest)
    k = 0
    isconst = False
    ext = False
    while toks[k] not in ("global", "constant", "alias"):
        if toks[k] in ("external", "extern_weak"):
            ext = True
        k += 1
    isconst = toks[k] == "constant"
    if toks[k] == "alias":
        mod.aliases[name] = toks[-1]
        return
    p = P(toks[k + 1:], mod)
    try:
        t = p.type()
        init = None
        if not ext:
            init = p.value(t)
    except (SyntaxError, KeyError, IndexError):
        mod.globals[name] = (None, None, isconst)
        return
    mod.globals[name] = (t, init, isconst)


def parse_func(lines, i, mod):
    ln = lines[i]
    m = re.search(r"(@[-\w$.]+|@\"[^\"]+\")\(", ln)
    f = Func(m.group(1))
    # return type
    pre = tokenize(ln[:m.start()])
    # last type token(s) before name: parse from the end by trying
    for k in range(1, len(pre)):
        try:
            p = P(pre[k:], mod)
            p.attrs()
            t = p.type()
            if p.i == len(p.t):
                f.ret = t
                break
        except (SyntaxError, IndexError, ValueError):
            continue
    # params
    d = 0
    j = m.end() - 1
    k = j
    while True:
        if ln[k] == "(":
            d += 1
        elif ln[k] == ")":
            d -= 1
            if d == 0:
                break
        k += 1
    p = P(tokenize(ln[j + 1:k]), mod)
    while p.peek() is not None:
        if p.accept("..."):
            break
        t = p.type()
        p.attrs()
        nm = p.next()
        f.params.append((t, nm))
        if not p.accept(","):
            break
    i += 1
    np = len(f.params)
    label = None
    cur = None
    first = True
    while True:
        ln = lines[i]
        if ln.startswith("}"):
            break
        if not ln.strip():
            i += 1
            continue
        if not ln.startswith(" "):
            mm = re.match(r'^("[^"]*"|[-\w$.]+):', ln)
            if mm:
                label = "%" + mm.group(1)
                cur = f.blocks[label] = []
                f.order.append(label)
                if first:
                    f.entry = label
                    first = False
                i += 1
                continue
        if cur is None:
            label = "%" + str(np)
            cur = f.blocks[label] = []
            f.order.append(label)
            f.entry = label
            first = False
        s = ln.strip()
        # multi-line: switch [...], invoke to label..., landingpad clauses
        if re.match(r"(%\S+ = )?(invoke|landingpad)\b", s) or s.startswith("invoke"):
            while i + 1 < n_safe(lines) and lines[i + 1].startswith("          "):
                i += 1
                s += " " + lines[i].strip()
        if s.startswith("switch"):
            while "]" not in s:
                i += 1
                s += " " + lines[i].strip()
        ins = parse_instr(s, mod)
        if ins is not None:
            cur.append(ins)
        i += 1
    mod.funcs[f.name] = f
    return i


def n_safe(lines):
    return len(lines)


def parse_instr(s, mod):
    if "@llvm.dbg." in s:
        return None
    s = strip_meta(s)
    toks = tokenize(s)
    p = P(toks, mod)
    dest = None
    if len(toks) > 1 and toks[0][0] == "%" and toks[1] == "=":
        dest = toks[0]
        p.i = 2
    op = p.next()
    try:
        return _pi(op, dest, p, mod)
    except (SyntaxError, IndexError, KeyError, ValueError) as e:
        return Instr("unsupported", dest, None, (s, str(e)))


def _pi(op, dest, p, mod):
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN:
        flags = []
        while p.peek() in ("nsw", "nuw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            flags.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Instr(op, dest, t, (a, b), tuple(flags))
    if op in CAST:
        while p.peek() in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect("to")
        t2 = p.type()
        return Instr(op, dest, t2, (t, a))
    if op == "load":
        p.accept("volatile")
        t = p.type()
        p.expect(",")
        pt = p.type()
        a = p.value(pt)
        return Instr("load", dest, t, (a,))
    if op == "store":
        p.accept("volatile")
        t = p.type()
        v = p.value(t)
        p.expect(",")
        pt = p.type()
        a = p.value(pt)
        return Instr("store", None, t, (v, a))
    if op == "getelementptr":
        fl = []
        while p.peek() in ("inbounds", "nuw", "nusw"):
            fl.append(p.next())
        bt = p.type()
        p.expect(",")
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.accept(","):
            it = p.type()
            idx.append((it, p.value(it)))
        return Instr("gep", dest, bt, (base, idx), tuple(fl))
    if op == "alloca":
        t = p.type()
        cnt = None
        if p.accept(","):
            if p.peek() != "align":
                ct = p.type()
                cnt = (ct, p.value(ct))
        return Instr("alloca", dest, t, (cnt,))
    if op == "icmp" or op == "fcmp":
        while p.peek() in ("fast", "nnan", "ninf", "nsz", "samesign"):
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Instr(op, dest, t, (pred, a, b))
    if op == "br":
        t = p.type()
        if t.k == "label":
            return Instr("br", None, None, (p.next(),))
        c = p.value(t)
        p.expect(",")
        p.type()
        l1 = p.next()
        p.expect(",")
        p.type()
        l2 = p.next()
        return Instr("cbr", None, None, (c, l1, l2))
    if op == "switch":
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.type()
        d = p.next()
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            v = p.value(ct)
            p.expect(",")
            p.type()
            cases.append((v[1], p.next()))
        return Instr("switch", None, t, (c, d, cases))
    if op == "ret":
        t = p.type()
        if t.k == "void":
            return Instr("ret", None, t, (None,))
        return Instr("ret", None, t, (p.value(t),))
    if op == "phi":
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            l = p.next()
            p.expect("]")
            inc.append((v, l))
            if not p.accept(","):
                break
        return Instr("phi", dest, t, (inc,))
    if op == "select":
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        p.type()
        b = p.value(t)
        return Instr("select", dest, t, (ct, c, a, b))
    if op in ("call", "invoke"):
        while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc"):
            p.next()
        p.attrs()
        t = p.type()
        callee = p.next()
        if t.k == "fn":
            t = t.el
        args = []
        p.expect("(")
        if not p.accept(")"):
            while True:
                at = p.type()
                p.attrs()
                if at.k == "meta":
                    while p.peek() not in (",", ")"):
                        p.next()
                    args.append((at, ("meta",)))
                else:
                    args.append((at, p.value(at)))
                if p.accept(")"):
                    break
                p.expect(",")
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.next()
            p.type()
            nl = p.next()
            p.expect("unwind")
            p.type()
            ul = p.next()
            return Instr("invoke", dest, t, (callee, args, nl, ul))
        return Instr("call", dest, t, (callee, args))
    if op == "unreachable":
        return Instr("unreachable", None, None, ())
    if op == "resume":
        return Instr("resume", None, None, ())
    if op == "landingpad":
        return Instr("landingpad", dest, None, ())
    if op == "freeze":
        t = p.type()
        return Instr("freeze", dest, t, (p.value(t),))
    if op == "fneg":
        t = p.type()
        return Instr("fneg", dest, t, (p.value(t),))
    if op == "extractvalue":
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Instr("extractvalue", dest, t, (v, idx))
    if op == "insertvalue":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        t2 = p.type()
        v2 = p.value(t2)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Instr("insertvalue", dest, t, (v, t2, v2, idx))
    if op == "extractelement":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        it = p.type()
        ix = p.value(it)
        return Instr("extractelement", dest, t, (v, it, ix))
    if op == "insertelement":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        et = p.type()
        e = p.value(et)
        p.expect(",")
        it = p.type()
        ix = p.value(it)
        return Instr("insertelement", dest, t, (v, et, e, it, ix))
    if op == "shufflevector":
        t = p.type()
        a = p.value(t)
        p.expect(",")
        p.type()
        b = p.value(t)
        p.expect(",")
        mt = p.type()
        m = p.value(mt)
        return Instr("shufflevector", dest, t, (a, b, mt, m))
    raise SyntaxError("instr " + op)


def parse_di(lines, mod):
    """struct member layout from debug info: struct name -> {field: (offset, size)} in bytes"""
    node = {}
    for ln in lines:
        if ln.startswith("!") and " = " in ln:
            k, v = ln.split(" = ", 1)
            if "DICompositeType(" in v or "DIDerivedType(" in v or v.startswith("!{"):
                node[k] = v

    def size_of(ref):
        v = node.get(ref)
        if v is None:
            return None
        m = re.search(r"\bsize: (\d+)", v)
        if m:
            return int(m.group(1)) // 8
        m = re.search(r"baseType: (!\d+)", v)
        if m:
            return size_of(m.group(1))
        return None

    def members(v):
        m = re.search(r"elements: (!\d+)", v)
        out = {}
        if not m:
            return out
        els = node.get(m.group(1), "")
        for e in re.findall(r"!\d+", els[2:]):
            d = node.get(e, "")
            if "DW_TAG_member" in d and "DIFlagStaticMember" not in d:
                nm = re.search(r'name: "([^"]+)"', d)
                off = re.search(r"offset: (\d+)", d)
                sz = re.search(r"\bsize: (\d+)", d)
                if nm and sz:
                    out[nm.group(1)] = (int(off.group(1)) // 8 if off else 0, int(sz.group(1)) // 8)
        return out

    for k, v in node.items():
        if "DW_TAG_typedef" in v:
            nm = re.search(r'name: "([^"]+)"', v)
            bt = re.search(r"baseType: (!\d+)", v)
            if nm and bt:
                c = node.get(bt.group(1), "")
                if "DW_TAG_structure_type" in c and "elements:" in c:
                    sz = re.search(r"\bsize: (\d+)", c)
                    mod.structs_di.setdefault(nm.group(1), (int(sz.group(1)) // 8, members(c)))
    for k, v in node.items():
        if "DW_TAG_structure_type" in v or "DW_TAG_class_type" in v:
            nm = re.search(r'name: "([^"]+)"', v)
            sz = re.search(r"\bsize: (\d+)", v)
            if nm and sz and "elements:" in v:
                mod.structs_di[nm.group(1)] = (int(sz.group(1)) // 8, members(v))


# ------------------------------------------------------------ CFG utilities
def succs(f, b):
    last = f.blocks[b][-1]
    if last.op == "br":
        return [last.a[0]]
    if last.op == "cbr":
        return [last.a[1], last.a[2]]
    if last.op == "switch":
        return [last.a[1]] + [l for _, l in last.a[2]]
    if last.op == "invoke":
        return [last.a[2]]
    return []


def ipdoms(f):
    if f._ipdom is not None:
        return f._ipdom
    EXIT = "<exit>"
    nodes = list(f.blocks) + [EXIT]
    succ = {}
    for b in f.blocks:
        s = succs(f, b)
        succ[b] = s if s else [EXIT]
    succ[EXIT] = []
    allset = set(nodes)
    pd = {b: set(allset) for b in nodes}
    pd[EXIT] = {EXIT}
    ch = True
    while ch:
        ch = False
        for b in reversed(list(f.blocks)):
            ns = None
            for s in succ[b]:
                ns = set(pd[s]) if ns is None else ns & pd[s]
            ns = (ns or set()) | {b}
            if ns != pd[b]:
                pd[b] = ns
                ch = True
    ip = {}
    for b in f.blocks:
        cand = pd[b] - {b}
        # immediate: the one postdominated by all the others
        best = None
        for c in cand:
            if all(o in pd[c] for o in cand):
                best = c
                break
        ip[b] = None if best in (None, EXIT) else best
    f._ipdom = ip
    return ip


def loops(f):
    """header -> set of blocks"""
    if f._loops is not None:
        return f._loops
    order = []
    seen = set()

    def dfs(b):
        st = [(b, iter(succs(f, b)))]
        seen.add(b)
        while st:
            x, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succs(f, s))))
                    adv = True
                    break
            if not adv:
                order.append(x)
                st.pop()
    dfs(f.entry)
    rpo = order[::-1]
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f, b):
            pred[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ns = None
            for p_ in pred[b]:
                ns = set(dom[p_]) if ns is None else ns & dom[p_]
            ns = (ns or set()) | {b}
            if ns != dom[b]:
                dom[b] = ns
                ch = True
    L = {}
    for b in rpo:
        for s in succs(f, b):
            if s in dom[b]:
                body = L.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    f._loops = L
    return L
