"""Compile /repo sources to LLVM IR (the text that is verified) on every run."""
import hashlib
import os
import re
import subprocess
import tempfile

from . import ir

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang++-18"
BASE = ["-S", "-emit-llvm", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-w", "-fno-exceptions"]
X86 = ["-Dx86_INTRINSICS", "-maes", "-msse4.1"]
ARM = ["--target=aarch64-linux-gnu", "-DARM_INTRINSICS", "-march=armv8-a+crypto"]


class BuildError(Exception):
    pass


def compile_ir(src, flags=()):
    path = os.path.join(REPO, src)
    cmd = [CLANG] + BASE + list(flags) + ["-o", "-", path]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path), timeout=300)
    if p.returncode != 0:
        # retry with exceptions enabled
        cmd = [c for c in cmd if c != "-fno-exceptions"]
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path), timeout=300)
    if p.returncode != 0:
        raise BuildError("%s does not compile:\n%s" % (src, p.stderr[-2000:]))
    return p.stdout


_mods = {}


def module(src, flags=()):
    k = (src, tuple(flags))
    if k not in _mods:
        m = ir.parse(compile_ir(src, flags))
        m.src = src
        _mods[k] = m
    return _mods[k]


def find(mods, short):
    """function by source-level name (mangled names contain the length-prefixed identifier)"""
    c = []
    for m in mods:
        for n in m.funcs:
            if n[1:] == short or n.startswith("@_Z%d%s" % (len(short), short)):
                c.append(n)
    if not c:
        raise BuildError("function %s not found" % short)
    return c[0]


def same_ir(a, b, flags=()):
    """the two sources compile to the same IR (names of the files aside)"""
    def body(src):
        path = os.path.join(REPO, src)
        cmd = [c for c in [CLANG] + BASE if c != "-g"] + list(flags) + ["-o", "-", path]
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path), timeout=300)
        if p.returncode != 0:
            return None
        return [l for l in p.stdout.splitlines() if not l.startswith(("; ModuleID", "source_filename"))]
    x = body(a)
    return x is not None and x == body(b)


_texts = {}


def functions_text(src, flags=()):
    """name -> IR text of every function and global of a source, attribute and metadata numbers dropped"""
    k = (src, tuple(flags))
    if k in _texts:
        return _texts[k]
    path = os.path.join(REPO, src)
    cmd = [c for c in [CLANG] + BASE if c != "-g"] + list(flags) + ["-o", "-", path]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path), timeout=300)
    if p.returncode != 0:
        raise BuildError("%s does not compile" % src)
    d = {}
    cur = None
    for l in p.stdout.splitlines():
        l = re.sub(r"(, !\w+)? !\d+", "", l)
        l = re.sub(r" #\d+", "", l)
        l = re.sub(r";.*", "", l).rstrip().rstrip(",")
        if l.startswith("define"):
            cur = re.search(r"@[\w.$]+|@\"[^\"]+\"", l).group(0)
            d[cur] = []
        elif l.startswith("@"):
            d[l.split(" ", 1)[0]] = [l]
        elif l.startswith("%") and " = type " in l:
            d["type " + l.split(" ", 1)[0]] = [l]
        if cur is not None:
            d[cur].append(l)
            if l == "}":
                cur = None
    _texts[k] = d = {n: "\n".join(v) for n, v in d.items()}
    return d


def same_code(a, b, names, stop=()):
    """-> (functions reached from `names` whose code is textually identical in the two (source, flags), those that
    differ); the bodies of `stop` are not compared"""
    A, B = functions_text(*a), functions_text(*b)
    same, diff, todo = [], [], list(names)
    seen = set(stop)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n not in A and n not in B:
            continue            # external in both
        if A.get(n) != B.get(n):
            diff.append(n)
            continue
        same.append(n)
        for x in re.findall(r"@[\w.$]+|@\"[^\"]+\"", A[n]):
            todo.append(x)
        for x in re.findall(r"%(?:struct|class|union)\.[\w.:]+", A[n]):
            todo.append("type " + x)
    return same, diff


def sizeof(m, struct):
    """size of a struct type of the module by source name"""
    for n, t in m.types.items():
        if n in ("%struct." + struct, "%class." + struct, "struct." + struct):
            return m.size(t)
    raise BuildError("type %s not found" % struct)
