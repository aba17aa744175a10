"""Run one property's check: discharge every obligation of every proof case,
cross-check the specification against the compiled code on concrete inputs,
and report.

A check is a module with
  ID, TITLE
  MODULES       list of (source, flags) to compile up front
  cases(tier)   list of case keys
  prove(key)    -> vc.harness.Case list / generator (each already judged)
  REPLAY        vc.replay.Replay object or None
"""
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
from multiprocessing import Pipe, Process

from . import build
from . import exec as X
from .engine import Failure

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def merge_counts(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def worker(conn, chk, key, limit):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    sys.setrecursionlimit(200000)
    t0 = time.time()
    res = {"key": key, "obs": {}, "fails": [], "error": None, "functions": [], "external": [], "contracts": {}, "loops": {},
           "paths": 0, "canary": 0, "solver_s": 0.0, "solver_queries": 0, "bounded": []}
    cs = []
    try:
        out = chk.prove(key, cs)
    except X.Unsupported as e:
        res["error"] = "out of the verifier's reach: %s" % (e,)
    except X.Undecided as e:
        res["error"] = "undecided case split: %s" % (e.args[0],)
    except build.BuildError as e:
        res["error"] = "build: %s" % e
    except MemoryError:
        res["error"] = "out of memory"
    except RecursionError:
        res["error"] = "recursion limit"
    except Exception as e:
        res["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    for C in cs:
        E = C.E
        merge_counts(res["obs"], E.nob)
        for f in E.fails[:6]:
            try:
                model = f.cons.model() if f.cons is not None else None
            except Exception:
                model = None
            m2 = {}
            for k, v in (f.model or {}).items():
                m2[str(k)[:80]] = v
            res["fails"].append({"kind": f.kind, "where": str(f.where), "msg": f.msg, "sizes": {str(k): v for k, v in (model or {}).items()},
                                 "model": m2, "case": C.name})
        res["functions"] += sorted(E.functions)
        res["external"] += sorted(getattr(E, "externals", ()))
        merge_counts(res["contracts"], dict(E.contract_uses))
        for k, v in E.loopinfo.items():
            res["loops"][str(k)] = str(v)
        res["paths"] += C.paths
        res["canary"] += C.canary
        p = getattr(E, "prover_stats", None)
        if p:
            res["solver_s"] += p["time"]
            res["solver_queries"] += p["queries"]
    res["wall"] = time.time() - t0
    try:
        conn.send(res)
    except Exception as e:
        conn.send({"key": key, "obs": {}, "fails": [], "error": "unpicklable result %s" % e, "functions": [], "external": [],
                   "contracts": {}, "loops": {}, "paths": 0, "canary": 0, "solver_s": 0, "solver_queries": 0, "wall": 0})
    conn.close()
    os._exit(0)


def searcher(conn, chk, seed, hints, seconds, thorough):
    try:
        conn.send(chk.REPLAY.search(random.Random(seed), seconds, hints, thorough))
    except Exception as e:
        conn.send((0, None))
    conn.close()
    os._exit(0)


class Hunt:
    """looks for a failing input on the compiled code while the proof goes on"""

    def __init__(self, chk, seed, on):
        self.chk, self.seed, self.on = chk, seed, on and getattr(chk, "REPLAY", None) is not None
        self.p = None
        self.hints = {}
        self.fresh = True           # the first round is the cross-check of the specification on the compiled code
        self.t0 = time.time()
        self.evals, self.failing = 0, None
        self.rounds = 0

    def note(self, got):
        """a case ended; remember the sizes its failed obligations name"""
        if got["error"]:
            self.fresh = self.fresh or self.rounds < 2
        for f in got["fails"]:
            for k, v in f["sizes"].items():
                if v not in self.hints.setdefault(k, set()):
                    self.hints[k].add(v)
                    self.fresh = True
            self.fresh = self.fresh or self.rounds < 2

    def poll(self):
        """True when a failing input is known"""
        if not self.on:
            return False
        if self.p is not None:
            if self.a.poll():
                try:
                    n, self.failing = self.a.recv()
                    self.evals += n
                except EOFError:
                    pass
                self.p.join(10)
                self.p = None
            elif not self.p.is_alive():
                self.p = None
        elif self.fresh or (self.rounds == 1 and time.time() - self.t0 > 75):
            # a second, longer round when a case failed or the proof takes long
            self.fresh = False
            self.a, b = Pipe(False)
            self.p = Process(target=searcher, args=(b, self.chk, self.seed, self.hints, 40.0 if self.rounds else 15.0, self.rounds > 0))
            self.rounds += 1
            self.p.start()
            b.close()
            self.seed += 1
        return self.failing is not None

    def stop(self):
        if self.p is not None:
            self.p.join(60)
            self.poll()


def schedule(chk, keys, limit, deadline, nproc, progress=False, hunt=None):
    todo = list(keys)[::-1]
    live = {}
    done = []
    while todo or live:
        if hunt is not None and hunt.poll():
            for p in live:
                p.kill()
            for p in live:
                p.join()
            break
        while todo and len(live) < nproc:
            k = todo.pop()
            a, b = Pipe(False)
            p = Process(target=worker, args=(b, chk, k, limit))
            p.start()
            b.close()
            live[p] = (k, a, time.time())
        time.sleep(0.01)
        for p in list(live):
            k, a, t = live[p]
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = None
                    p.join(5)
                    got = {"error": "worker died (exit %s)" % p.exitcode}
            elif not p.is_alive():
                got = {"error": "worker died (exit %s)" % p.exitcode}
            elif time.time() - t > limit or time.time() > deadline:
                got = {"error": "time limit (%ds)" % (time.time() - t)}
            if got is not None:
                if p.is_alive() and "key" not in got:
                    p.kill()
                p.join()
                a.close()
                del live[p]
                if "key" not in got:
                    e = got["error"]
                    got = {"key": k, "obs": {}, "fails": [], "error": e, "functions": [], "external": [], "contracts": {}, "loops": {},
                           "paths": 0, "canary": 0, "solver_s": 0, "solver_queries": 0, "wall": time.time() - t}
                done.append(got)
                if hunt is not None:
                    hunt.note(got)
                    if got["fails"] or got["error"]:
                        deadline = min(deadline, time.time() + 240)
                if progress:
                    print("  [%d/%d] %-40s %6.1fs obs=%d fails=%d %s" % (
                        len(done), len(keys), got["key"], got["wall"], sum(got["obs"].values()), len(got["fails"]),
                        ("ERROR " + got["error"][:300]) if got["error"] else ""), flush=True)
    return done


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known", "findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main(chk):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    verbose = "-v" in sys.argv
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "620" if tier == "quick" else "5400"))
    pid = chk.ID
    results = []
    err = None
    keys = []
    cc = 0.0
    hunt = Hunt(chk, seed, not only)
    try:
        for m in getattr(chk, "MODULES", ()):
            build.module(*m)
        cc = time.time() - t0
        keys = chk.cases(tier)
        if only:
            keys = [k for k in keys if any(str(k).startswith(o) for o in only)]
        results = schedule(chk, keys, getattr(chk, "CASE_LIMIT", 400), t0 + budget, NPROC, verbose, hunt)
        hunt.stop()
    except build.BuildError as e:
        err = "build: %s" % e
    except Exception as e:
        err = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:])
    tproof = time.time() - t0
    obs = {}
    fails = []
    errors = []
    functions = set()
    external = set()
    contracts = {}
    loops = {}
    paths = canary = 0
    solver_s = 0.0
    nq = 0
    for r in results:
        merge_counts(obs, r["obs"])
        fails += [dict(f, key=str(r["key"])) for f in r["fails"]]
        if r["error"]:
            errors.append({"case": str(r["key"]), "error": r["error"]})
        elif not r["obs"] or not r["paths"]:
            errors.append({"case": str(r["key"]), "error": "vacuous: no obligation or no feasible exit"})
        elif not r["canary"] and getattr(chk, "CANARY", True):
            errors.append({"case": str(r["key"]), "error": "vacuous: the reachability canary was not exercised"})
        functions |= set(r["functions"])
        external |= set(r["external"])
        merge_counts(contracts, r["contracts"])
        loops.update(r["loops"])
        paths += r["paths"]
        canary += r["canary"]
        solver_s += r["solver_s"]
        nq += r["solver_queries"]
    if err:
        errors.append({"case": "-", "error": err})
    if not results and not err:
        errors.append({"case": "-", "error": "no proof case"})
    nob = sum(obs.values())
    nfail = len(fails)
    # concrete cross-check / counterexample search on the compiled code
    bad = bool(fails or errors)
    rp = getattr(chk, "REPLAY", None)
    evals = 0
    failing = None
    rnote = ""
    if hunt.failing is not None:
        evals, failing = hunt.evals, hunt.failing
    elif rp is not None and not only and not bad and tier == "quick" and hunt.evals:
        evals = hunt.evals
    elif rp is not None and not only:
        hints = {}
        for f in fails:
            for k, v in f["sizes"].items():
                hints.setdefault(k, set()).add(v)
        try:
            rem = max(20.0, min(100.0, t0 + budget + 120 - time.time()))
            evals, failing = rp.search(random.Random(seed), rem if bad else (15.0 if tier == "quick" else 120.0), hints, bad)
        except Exception as e:
            rnote = "replay driver: %s: %s" % (type(e).__name__, str(e)[-1500:])
            if verbose:
                traceback.print_exc()
            if not bad:
                errors.append({"case": "replay", "error": rnote})
                bad = True
    known = load_known(pid)
    knownhit = []
    if failing is not None:
        for k in known:
            if rp.matches(failing, k):
                knownhit.append(k)
    wall = time.time() - t0
    cov = {
        "obligations": nob, "discharged": nob - nfail,
        "checker_cmd": "python3-vt checks/%s.py (contract verifier /verif/vc over clang-18 LLVM IR of /repo; back ends: canonical-term rewriting, linear integer arithmetic via z3, bit-vector simulation+z3)" % pid,
        "trusted_base": list(getattr(chk, "TRUSTED", [])) + [
            "clang++-18 -O0 front end (the IR it prints is the verified text)",
            "the verifier /verif/vc (IR semantics, rewriting rules, induction scheme) and z3 for residual queries",
            "specification /verif/specs (transcribed from the standards; cross-checked on concrete vectors)"],
        "obligations_by_kind": obs, "proof_cases": len(keys), "proof_cases_failed": len(set(f["key"] for f in fails) | set(e["case"] for e in errors)),
        "feasible_exit_paths": paths, "canaries_refuted": canary,
        "functions_under_contract": sorted(functions), "external_functions_with_assumed_contract": sorted(external),
        "callee_contracts_used": contracts, "loops": loops,
        "solver_time_s": round(solver_s, 2), "solver_queries": nq, "proof_wall_s": round(tproof, 2),
        "concrete_crosscheck_evaluations": evals,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(chk, "LEVEL", "proof"), "coverage": cov,
          "assumptions": list(getattr(chk, "ASSUMPTIONS", [])) + ["external call assumed: " + x for x in sorted(external)],
          "wall_s": round(wall, 2), "violations": 0}
    viol = None
    if failing is not None and not knownhit:
        viol = "input"
    elif bad:
        viol = "proof"
    if viol == "proof" and known:
        # obligations listed as known findings do not raise the alarm again
        rest = [f for f in fails if not any(k.get("obligation") and k["obligation"] in (f["kind"] + " " + f["where"] + " " + f["msg"] + " " + f["key"]) for k in known)]
        if not rest and not errors:
            viol = None
            knownhit += known
    if viol:
        ev["violations"] = 1
    ev["coverage"]["failures"] = fails[:20]
    ev["coverage"]["errors"] = errors[:20]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d obligations over %d cases, %d failed, %d cases not decided, %d concrete cross-checks, %.1fs" % (
        pid, tier, nob, len(keys), nfail, len(errors), evals, wall))
    if only or not viol:
        for f in fails[:20]:
            print("   FAIL", json.dumps(f, default=str)[:600])
        for e in errors[:20]:
            print("   ERROR", json.dumps(e)[:1500])
        if rnote:
            print(rnote)
        sys.stdout.flush()
        return 1 if bad and only else 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + ".txt")
    with open(rpath, "w") as f:
        f.write("property %s: %s\n" % (pid, chk.TITLE))
        if failing is not None:
            f.write("\nFAILING INPUT (replayed against the code compiled from /repo):\n%s\n" % failing["text"])
        f.write("\nFailed obligations (%d):\n" % nfail)
        for x in fails[:50]:
            f.write(json.dumps(x, default=str) + "\n")
        f.write("\nCases the verifier could not decide (%d):\n" % len(errors))
        for x in errors[:50]:
            f.write(json.dumps(x) + "\n")
        if rnote:
            f.write("\n" + rnote + "\n")
    for x in fails[:3]:
        print("  failed obligation: %s at %s: %s [case %s]" % (x["kind"], x["where"], x["msg"][:200], x["key"]))
    for x in errors[:3]:
        print("  undecided: %s: %s" % (x["case"], x["error"][:300]))
    if failing is not None:
        print("  failing input: " + failing["text"][:400].replace("\n", " | "))
    print("VIOLATION property=%s replay=%s%s" % (pid, rpath, "" if failing is not None else " no-failing-input-found"))
    sys.stdout.flush()
    return 1


def entry(chk):
    code = 1
    try:
        code = main(chk)
    except SystemExit:
        raise
    except BaseException as e:  # never end in anything but 0/1
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, chk.ID + ".txt")
        with open(rpath, "w") as f:
            f.write("check error\n" + traceback.format_exc())
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (chk.ID, rpath))
    sys.stdout.flush()
    os._exit(code)
