"""make a planted bug: seed.py <spec.py>; the spec file defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], SOURCES=[...], FLAGS, DEMO (C++ text), optional RUN (sh)"""
import json, os, subprocess, sys, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="seed")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
try:
    r = w + "/repo"
    sh("cp -a /repo %s" % r)
    sh("git checkout -q -- .", cwd=r)
    for f, a, b in ns["EDITS"]:
        s = open(r + "/" + f).read()
        assert s.count(a) >= 1, (f, a)
        n = ns.get("NTH", {}).get((f, a))
        if n is None:
            assert s.count(a) == 1, ("ambiguous", f, s.count(a))
            s = s.replace(a, b)
        else:
            p = s.split(a)
            s = a.join(p[:n + 1]) + b + a.join(p[n + 1:])
        open(r + "/" + f, "w").write(s)
    patch = sh("git diff", cwd=r).stdout
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.cpp", "w").write(ns["DEMO"])
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
ulimit -s unlimited 2>/dev/null
g++ -w -O1 %s -I. -o "$t/demo" "$here/demo.cpp" %s %s || exit 3
timeout 200 "$t/demo"
""" % (ns.get("FLAGS", ""), " ".join(ns["SOURCES"]), ns.get("LIBS", "")))
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd="/repo"); b = sh("bash %s/demo.sh" % d, cwd=r)
    print(ns["ID"], "clean", a.returncode, a.stderr[-300:], "patched", b.returncode, b.stdout[-200:], b.stderr[-300:])
    # tests: build and run in place of /repo is done by vcheck --bug
finally:
    shutil.rmtree(w)
