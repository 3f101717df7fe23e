#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decide one property from /repo's current working tree.

exit 0: every obligation generated from the current source was discharged
exit 1: `VIOLATION property=<id> replay=<path>` (plus ` no-failing-input-found` when the failed obligation
        could not be replayed on the real code)
"""
import threading
import importlib, json, multiprocessing as mp, os, re, subprocess, sys, time, traceback

if os.environ.get("PYTHONHASHSEED") != "0":       # the same queries in the same order on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def verify_one(job):
    """(area, function) -> plain dict; runs in a worker process"""
    kind, area, fn = job
    A = G["areas"]["parsers" if kind in ("parser", "shared") else area]
    t = time.time()
    try:
        if kind == "fn":
            from ovc.libc import SPECS
            sp = dict(SPECS, **getattr(A, "SPECS", {}))
            r = A.CONTRACTS[fn].verify(G["prog"], G["contracts"], sp, opts={})
            if not r.ok() and not r.error:      # once more with patience: a prover's time limit must not decide
                r2 = A.CONTRACTS[fn].verify(G["prog"], G["contracts"], sp, opts={"timeout": 80000, "hint_timeout": 40000,
                                                                                "cand_timeout": 5000, "seed": 11})
                if r2.ok():
                    r = r2
            e = r.e
            return {"fn": fn, "area": area, "t": time.time() - t, "n": len(e.obls), "ok": r.ok(), "solver": e.solver_time,
                    "queries": e.nq, "called": sorted(e.called), "inlined": sorted(e.inlined),
                    "assumed": sorted(e.assumed), "back": backs(e.obls), "loops": len(e.loopstats),
                    "names": [(o.name, o.where, o.how, round(o.t, 2)) for o in e.obls],
                    "failed": [{"obligation": o.name, "where": o.where, "prover": o.how, "goal": o.detail} for o in r.failed()],
                    "error": r.error}
        if kind == "parser":
            res = A.parser(G, area, fn)
        elif kind == "shared":
            res = A.shared(G, area)
        else:
            res = getattr(A, fn)(G)      # special obligations: (name, ok, how) triples
        ob = res["obligations"]
        return {"fn": fn, "area": area, "t": time.time() - t, "n": len(ob), "ok": bool(ob) and all(o[1] for o in ob),
                "solver": res.get("solver", 0), "queries": res.get("queries", 0), "called": [], "inlined": [],
                "assumed": res.get("assumed", []), "back": res.get("back", {}), "loops": 0,
                "names": [(o[0], "", o[2], 0) for o in ob],
                "failed": [{"obligation": o[0], "where": fn, "prover": o[2], "goal": o[3] if len(o) > 3 else None}
                           for o in ob if not o[1]], "error": None, "extra": res.get("extra"),
                "tries": res.get("tries", []), "keys": res.get("keys", [])}
    except Exception:
        return {"fn": fn, "area": area, "t": time.time() - t, "n": 1, "ok": False, "solver": 0, "queries": 0, "called": [],
                "inlined": [], "assumed": [], "back": {}, "loops": 0, "names": [],
                "failed": [{"obligation": "within the verifier's reach", "where": fn, "prover": "error",
                            "goal": traceback.format_exc()[-2000:]}], "error": traceback.format_exc()[-2000:]}


def backs(obls):
    d = {}
    for o in obls:
        if o.ok:
            d[o.how] = d.get(o.how, 0) + 1
    return d


G = {}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from contracts.registry import PROPS
    from ovc.build import Tree, BuildError
    P = PROPS[prop]
    rep_dir = os.path.join(HERE, "build", "replays")
    os.makedirs(rep_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay_path = os.path.join(rep_dir, prop + ".txt")
    tree = Tree(prop)
    res, err = [], None
    try:
        res = prove(P, tree, tier, seed, prop)
    except BuildError as x:
        err = str(x)
    except Exception:
        err = traceback.format_exc()
    if P.get("bounded") and err is None and "replay" in G:
        G["replay"].join()
        if G["replay"].found or G["replay"].error:
            res.append({"fn": "bounded stand-in", "area": "", "t": 0, "n": 1, "ok": False, "solver": 0, "queries": 0, "extra": True,
                        "called": [], "inlined": [], "assumed": [], "back": {}, "loops": 0, "names": [], "error": None,
                        "failed": [{"obligation": "bounded: " + P["bounded"], "where": "replay harness", "prover": "failing input",
                                    "goal": None}]})
    failed = [r for r in res if not r["ok"]]
    bad = bool(failed) or err is not None or not res
    line = None
    found = None
    if bad:
        with open(replay_path, "w") as f:
            f.write("property %s: obligations that the verifier did not discharge\n\n" % prop)
            if err:
                f.write(err + "\n")
            for r in failed:
                for o in r["failed"]:
                    f.write("%s [%s] %s -> %s\n    %s\n" % (r["fn"], o["where"], o["obligation"], o["prover"], o["goal"]))
                if r["error"]:
                    f.write(r["error"] + "\n")
        if "replay" in P and (not err or "clang" not in err):
            r = G.get("replay") or Replay(P, tree, seed, tier)
            r.join()
            found = r.found
            if r.error:
                with open(replay_path, "a") as f:
                    f.write("\nreplay harness not usable:\n%s\n" % r.error)
        with open(replay_path, "a") as f:
            f.write("\n--- replay on the real code ---\n%s\n" % (found or "no failing input found"))
        line = "VIOLATION property=%s replay=%s%s" % (prop, replay_path, "" if found else " no-failing-input-found")
    known = []
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known.append(m.group(2))
    write_evidence(prop, tier, seed, P, res, err, time.time() - t0, found, known, line)
    for r in failed:
        for o in r["failed"][:6]:
            print("FAILED %s: %s [%s]" % (r["fn"], o["obligation"], o["where"]))
    if err:
        print(err[-1500:])
    print("%s: %d functions, %d obligations, %d discharged, %.1fs" % (
        prop, sum(1 for r in res if not r.get("extra")), sum(r["n"] for r in res), sum(r["n"] - len(r["failed"]) for r in res),
        time.time() - t0))
    if not bad:
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    tree.clean()
    if line:
        print(line)
        sys.exit(1)
    sys.exit(0)


class Replay(threading.Thread):
    """the executable oracle, run beside the rest of the proof once an obligation failed or the proof is slow"""

    def __init__(self, P, tree, seed, tier):
        threading.Thread.__init__(self, daemon=True)
        self.a, self.found, self.error = (P, tree, seed, tier, []), None, None
        self.start()

    def run(self):
        try:
            self.found = replay(*self.a)
        except Exception:
            self.error = traceback.format_exc()[-3000:]


def prove(P, tree, tier, seed, prop):
    from ovc.ir import Module
    from ovc.program import Program
    from contracts.registry import all_contracts, area_of, selftest_jobs
    areas, contracts = all_contracts()
    G["areas"], G["contracts"], G["tier"], G["tree"] = areas, contracts, tier, tree
    lls = tree.ir(P["ir"])
    G["prog"] = Program([Module(lls[s]) for s in P["ir"]])
    G["P"] = P
    # the functions of the property, and, transitively, every function whose contract they rely on
    out, seen = [], set()
    todo = [("fn", area_of(f), f) for f in P.get("functions", [])] + [("special", a, f) for a, f in P.get("special", [])]
    if "expand" in P:
        A = areas[P["expand"]]
        G["limit"] = P.get("limit", 700) - 60
        todo += A.jobs(G, prop) + [("shared", prop, "all parsers")]
        G["claimed"] = sorted(k for k, f in G["parsers"]["table"] if any(j[2] == f for j in todo))
    todo += selftest_jobs()
    if P.get("bounded"):
        G["replay"] = Replay(P, tree, seed, tier)
    seen = set(j[2] for j in todo)
    ctx = mp.get_context("fork")
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        pend = [pool.apply_async(verify_one, (j,)) for j in todo]
        start = time.time()
        deadline = start + P.get("limit", 700)
        jobs = list(zip(todo, pend))
        while jobs:
            nxt = []
            for j, p in jobs:
                if p.ready():
                    r = p.get()
                    out.append(r)
                    for c in r["called"]:
                        if c in contracts and c not in seen and not contracts[c].trusted:
                            seen.add(c)
                            k = ("fn", area_of(c), c)
                            nxt.append((k, pool.apply_async(verify_one, (k,))))
                elif time.time() > deadline:
                    out.append({"fn": j[2], "area": j[1], "t": 0, "n": 1, "ok": False, "solver": 0, "queries": 0,
                                "called": [], "inlined": [], "assumed": [], "back": {}, "loops": 0, "names": [],
                                "failed": [{"obligation": "every obligation discharged in time", "where": j[2], "prover": "stopped",
                                            "goal": None}], "error": None})
                else:
                    nxt.append((j, p))
            jobs = nxt
            fail = any(not r["ok"] for r in out)
            if fail and deadline > time.time() + 90:
                deadline = time.time() + 90
            if "replay" in P and "replay" not in G and (fail or time.time() > start + P.get("grace", 60)):
                G["failed"] = sorted(set(k for r in out if not r["ok"] for k in r.get("keys", [])))
                with open(os.path.join(tree.dir, "tries"), "w") as f:
                    for r in out:
                        for l, c, b in r.get("tries", []):
                            f.write("%s %d %s\n" % (l, c, b.hex()))
                G["replay"] = Replay(P, tree, seed, tier)
            if "replay" in G and G["replay"].found:
                deadline = 0
            time.sleep(0.05)
        pool.terminate()
    return out


def replay(P, tree, seed, tier, failed):
    """run the executable oracle of the property's contracts on the real code, looking for a failing input"""
    for h in P["replay"]:
        exe = tree.replay(h["harness"], h["sources"], h.get("extra", ()))
        scratch = os.path.join(tree.dir, "scratch")
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:allocator_may_return_null=1" % (1 if h.get("leaks") else 0),
                   UBSAN_OPTIONS="print_stacktrace=0", TMPDIR=scratch)
        for args in h["runs"]:
            try:
                sub = {"SEED": str(seed), "SRC": tree.src, "TRIES": os.path.join(tree.dir, "tries"),
                       "FAILED": ",".join(G.get("failed", [])) or "none", "CLAIMED": ",".join(G.get("claimed", [])) or "none"}
                r = subprocess.run([exe] + [sub.get(str(a), str(a)) for a in args], cwd=scratch, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=h.get("timeout", 100))
            except subprocess.TimeoutExpired:
                return "the call did not return (time limit %ds): %s %s" % (h.get("timeout", 100), h["harness"], args)
            if r.returncode:
                return "harness replay/%s.c arguments %s: exit %d\n%s" % (
                    h["harness"], args, r.returncode, r.stdout.decode(errors="replace")[-6000:])
    return None


def write_evidence(prop, tier, seed, P, res, err, wall, found, known, line):
    back, slow = {}, []
    for r in res:
        for k, v in r["back"].items():
            back[k] = back.get(k, 0) + v
        slow.append((round(r["t"], 1), r["fn"]))
    n = sum(r["n"] for r in res)
    d = sum(r["n"] - len(r["failed"]) for r in res)
    assumed = sorted(set(a for r in res for a in r["assumed"]) | set(P.get("assumptions", [])) | set(BASE))
    ext = sorted(set(c for r in res for c in r["called"] if c not in G.get("contracts", {})))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {"obligations": n, "discharged": d,
                       "checker_cmd": "cd /verif && python3-vt check.py %s %s" % (prop, tier),
                       "trusted_base": TRUST + ["external function specified, not verified: " + x for x in ext],
                       "functions_under_contract": [
                           {"function": r["fn"], "obligations": r["n"], "discharged": r["n"] - len(r["failed"]),
                            "loops": r["loops"], "inlined": r["inlined"], "calls_by_contract": r["called"],
                            "seconds": round(r["t"], 1)} for r in sorted(res, key=lambda r: r["fn"])],
                       "discharged_by": back, "solver_seconds": round(sum(r["solver"] for r in res), 1),
                       "solver_queries": sum(r["queries"] for r in res),
                       "bounded": P.get("bounded", []),
                       "failed": [dict(function=r["fn"], **o) for r in res for o in r["failed"]][:50]},
          "wall_s": round(wall, 1), "assumptions": assumed,
          "violations": [line] if line else [], "known_findings": known}
    if err:
        ev["coverage"]["error"] = err[-2000:]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


TRUST = ["ovc (this verifier: LLVM IR semantics, memory model, invariant inference)", "clang-18 front end (C to LLVM IR, -O0)",
         "z3 (two versions) and cvc5", "ragel / gperf only generate the code that is verified; they are not trusted"]
BASE = ["malloc does not fail", "line counters do not overflow int where a contract says `counter` arithmetic",
        "C locale; single thread"]

if __name__ == "__main__":
    main()
