"""Concrete replay: a driver compiled from /repo's current sources (ASan+UBSan)
is run on generated inputs and compared with the executable specification."""
import concurrent.futures
import os
import resource
import shutil
import subprocess
import tempfile
import time

from .build import REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=all", "-w"]


def bigstack():
    """some functions keep a copy of the message on the stack"""
    try:
        h = resource.getrlimit(resource.RLIMIT_STACK)[1]
        resource.setrlimit(resource.RLIMIT_STACK, (3 << 30 if h == resource.RLIM_INFINITY else min(3 << 30, h), h))
    except Exception:
        pass


class Driver:
    """/verif/harness/<name>.cpp linked with sources of /repo; line in, line out"""

    def __init__(self, name, sources, flags=(), libs=(), arm=False, san=True, inc=None, cxx="clang++-18"):
        self.name, self.sources, self.flags, self.libs, self.arm, self.san = name, sources, list(flags), list(libs), arm, san
        self.inc = inc
        self.cxx = cxx
        self.dir = None

    def build(self):
        self.dir = tempfile.mkdtemp(prefix="vcreplay")
        exe = os.path.join(self.dir, "drv")
        inc = self.inc or os.path.dirname(self.sources[0])
        cmd = ([self.cxx] + (SAN if self.san else ["-g", "-O1", "-w"])) if not self.arm else ["aarch64-linux-gnu-g++", "-g", "-O1", "-static", "-w"]
        cmd = cmd + self.flags + ["-I", os.path.join(REPO, inc), "-I", os.path.join(VERIF, "harness"),
                                  os.path.join(VERIF, "harness", self.name + ".cpp")]
        cmd += [os.path.join(REPO, s) for s in self.sources] + ["-o", exe] + self.libs
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
        if p.returncode:
            raise RuntimeError("driver does not compile: " + p.stderr[-1500:])
        self.exe = exe

    def run(self, lines, timeout):
        """-> (list of output lines, stderr tail or None)"""
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_fill_byte=165:max_malloc_fill_size=1000000"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
        cmd = [self.exe]
        if self.arm:
            cmd = ["qemu-aarch64-static" if shutil.which("qemu-aarch64-static") else "qemu-aarch64"] + cmd
        try:
            p = subprocess.run(cmd, input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=timeout, env=env, cwd=self.dir, errors="replace", preexec_fn=bigstack)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            return out.split("\n")[:-1], "timeout"
        o = [l[1:] for l in out.split("\n") if l.startswith("=")]
        return o, (None if rc == 0 else (err[-1500:] or "exit %d" % rc))

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None


class Replay:
    """drivers: list of Driver; gen(rng, hints, n) yields (driver index, line, expected, description)"""

    def __init__(self, drivers, gen, batch=200):
        self.drivers, self.gen, self.batch = drivers, gen, batch

    def search(self, rng, seconds, hints, thorough):
        t0 = time.time()
        evals = 0
        failing = None
        try:
            if len(self.drivers) > 6:
                with concurrent.futures.ThreadPoolExecutor(8) as tp:
                    list(tp.map(lambda d: d.build(), self.drivers))
            else:
                for d in self.drivers:
                    d.build()
            t1 = time.time()
            it = self.gen(rng, hints)
            stop = False
            while not stop and time.time() - t1 < seconds:
                per = {}
                for _ in range(self.batch):
                    try:
                        x = next(it)
                    except StopIteration:
                        stop = True
                        break
                    per.setdefault(x[0], []).append(x)
                for di, xs in per.items():
                    out, err = self.drivers[di].run([x[1] for x in xs], 120)
                    for i, x in enumerate(xs):
                        if i >= len(out):
                            if err == "timeout":
                                # a slow batch is not a hang: run the line on its own
                                o1, e1 = self.drivers[di].run([x[1]], 60)
                                if e1 != "timeout":
                                    break
                            if err is None:
                                err = "driver printed nothing"
                            failing = self.found(di, x, "<aborted: %s>" % err)
                            break
                        evals += 1
                        want = x[2]() if callable(x[2]) else x[2]
                        if want is not None and out[i] != want:
                            failing = self.found(di, x, out[i], want)
                            break
                    if failing:
                        return evals, failing
                if not thorough and evals >= 400:
                    break
        finally:
            for d in self.drivers:
                d.close()
        return evals, failing

    def found(self, di, x, got, want=None):
        d = self.drivers[di]
        if want is None:
            want = x[2]() if callable(x[2]) else x[2]
        return {"text": "driver harness/%s.cpp with %s %s\ninput line: %s\n%s\nexpected: %s\ngot:      %s" % (
            d.name, " ".join(d.sources), " ".join(d.flags), x[1], x[3] if len(x) > 3 else "", want, got), "line": x[1], "got": got, "want": want}

    def matches(self, failing, known):
        k = known.get("input")
        if not k:
            return False
        import re
        return re.search(k, failing["line"]) is not None
