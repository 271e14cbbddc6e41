"""Check driver:  python3-vt -m pyvc.run check P01 [--tier quick|thorough] | replay FILE | contract NAME"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

TRUSTED = [
    "the verification-condition generator in /verif/pyvc (sym.py, shim.py, load.py, term.py, solve.py): meaning of Python "
    "operators, builtins and math/re functions on symbolic values",
    "CPython 3.12 executing the instrumented functions (control flow, attribute access, classes are CPython's own)",
    "z3 5.3.2 (python bindings) and cvc5 1.1.2 when they answer unsat",
    "IEEE doubles are treated as mathematical reals; float literals as the decimal written; overflow, rounding, NaN and "
    "infinities are not modelled",
    "axioms for sqrt, sin, cos, tan, atan, atan2, acos, hypot, floor, ceil, trunc, round (half to even); tan never hits a pole",
    "a number formatted with %.Nf / %.NG denotes a real within half a unit of its last place; repr denotes it exactly",
]


def child(name, seed, tier, path):
    from . import worker
    try:
        r = worker.decide(name, seed, tier)
    except BaseException as e:
        r = {"contract": name, "crash": "".join(traceback.format_exception(e))[-3000:]}
    with open(path + ".tmp", "w") as f:
        json.dump(r, f, default=str)
    os.replace(path + ".tmp", path)
    os._exit(0)


def run_all(names, seed, tier, jobs, limit, stop_early=False):
    import tempfile
    tmp = tempfile.mkdtemp(prefix="pyvc")
    ctx = mp.get_context("fork")
    pending = list(names)
    running = {}
    results = {}
    t0 = time.time()
    while pending or running:
        while pending and len(running) < jobs:
            n = pending.pop(0)
            p = os.path.join(tmp, n + ".json")
            pr = ctx.Process(target=child, args=(n, seed, tier, p), daemon=True)
            pr.start()
            running[n] = (pr, p, time.time())
        time.sleep(0.02)
        for n in list(running):
            pr, p, ts = running[n]
            if not pr.is_alive():
                pr.join()
                if os.path.exists(p):
                    with open(p) as f:
                        results[n] = json.load(f)
                else:
                    results[n] = {"contract": n, "crash": "worker died (exit %s)" % pr.exitcode}
                del running[n]
            elif time.time() - t0 > limit:
                pr.kill()
                pr.join()
                results[n] = {"contract": n, "crash": "time limit of %ds reached" % limit}
                del running[n]
        if stop_early and any(r.get("violation", {}) and r["violation"]["kind"] == "replayed" for r in results.values()):
            # one confirmed failing input settles the verdict
            for n, (pr, p, ts) in running.items():
                pr.kill()
                pr.join()
                results[n] = {"contract": n, "stopped": True}
            for n in pending:
                results[n] = {"contract": n, "stopped": True}
            break
        if time.time() - t0 > limit:
            for n in pending:
                results[n] = {"contract": n, "crash": "time limit of %ds reached before start" % limit}
            pending = []
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return results


def check(prop, tier, seed):
    from . import specs
    t0 = time.time()
    store = specs.load_concrete()
    names = specs.closure(store, prop)
    if tier == "quick":
        names = [n for n in names if store[n].quick]
    if not names:
        print("no contracts for", prop)
        return 2
    names.sort(key=lambda n: -(store[n].secs or 0) - (1000 if store[n].bounded else 0) * 0)
    results = run_all(names, seed, tier, int(os.environ.get("VERIF_JOBS", "8")), 780 if tier == "quick" else 3600,
                      stop_early=True)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    viol = []
    proved = obl = 0
    backends = {}
    bounded = []
    contracts = []
    functions = set()
    solver = 0.0
    conc_ok = conc_checks = 0
    samples = []
    for n in names:
        r = results[n]
        c = store[n]
        if "crash" in r:
            # the verifier itself did not finish: undecided -> reported as an undischarged obligation
            v = {"kind": "no-failing-input-found", "label": "verifier", "detail": r["crash"], "obligation": None}
            r = {"contract": n, "violation": v, "sym": None, "conc": {"ok": 0, "checks": 0}}
        if "stopped" in r:
            continue
        s = r["sym"]
        conc_ok += r["conc"]["ok"]
        conc_checks += r["conc"]["checks"]
        if s:
            solver += s["solver_s"]
            functions.update(s["funcs"])
            entry = {"contract": n, "functions": s["funcs"], "paths": s["paths"], "obligations": s["obligations"],
                     "discharged": s["proved"], "backends": s["backends"], "labels": s["labels"][:30],
                     "solver_s": round(s["solver_s"], 2), "callee_contracts_used": [] if s["inline"] else c.uses,
                     "runtime_evaluations": r["conc"]["ok"], "bounded": c.bounded}
            contracts.append(entry)
            if c.bounded:
                bounded.append({"contract": n, "bound": c.bounded, "obligations": s["obligations"],
                                "discharged": s["proved"], "runtime_evaluations": r["conc"]["ok"]})
            else:
                obl += s["obligations"]
                proved += s["proved"]
                for b, k in s["backends"].items():
                    backends[b] = backends.get(b, 0) + k
        v = r.get("violation")
        if v:
            path = os.path.join(rdir, "%s-%s.json" % (prop, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "contract": n, "functions": c.funcs, "statement": c.doc, "violation": v,
                           "replay_cmd": "cd %s && python3-vt -m pyvc.run replay %s" % (HERE, path)}, f, indent=1,
                          default=str)
            viol.append((n, v, path))
    level = "proof" if obl else "other"
    cov = {"obligations": obl, "discharged": proved,
           "checker_cmd": "cd %s && python3-vt -m pyvc.run check %s --tier %s" % (HERE, prop, tier),
           "trusted_base": TRUSTED, "backends": backends, "functions_under_contract": sorted(functions),
           "contracts": contracts, "bounded": bounded, "solver_s": round(solver, 2),
           "runtime_cross_check": {"evaluations": conc_ok, "checks": conc_checks},
           "explanation": "obligations/discharged count unbounded contracts only; contracts listed under 'bounded' are "
                          "bounded stand-ins and never counted as proved"}
    assumptions = ["requires: " + (store[n].note) for n in names if store[n].note]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions + TRUSTED[3:], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for kf in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf))
    print("%s: %d contracts, %d/%d obligations discharged, %d bounded stand-ins, %d runtime evaluations, %.1fs" % (
        prop, len(names), proved, obl, len(bounded), conc_ok, time.time() - t0))
    for n, v, path in viol:
        print("  contract %s obligation %s (%s): %s" % (n, v["label"], v["kind"], str(v["detail"])[:300]))
    # violations with a replayed input first
    viol.sort(key=lambda x: x[1]["kind"] != "replayed")
    for n, v, path in viol[:1]:
        print("VIOLATION property=%s replay=%s%s" % (
            prop, path, "" if v["kind"] == "replayed" else " no-failing-input-found"))
    return 1 if viol else 0


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                out.append(line.split(" ", 2)[2].strip())
    return out


def replay(path):
    from . import worker
    with open(path) as f:
        d = json.load(f)
    v = d["violation"]
    if v["kind"] != "replayed":
        print(json.dumps(v, indent=1)[:6000])
        return 0
    r = worker.run_concrete(d["contract"], values=v["values"], choices=[tuple(x) for x in v["choices"]])
    print(r)
    return 1 if r[0] == "fail" else 0


def main(argv):
    cmd = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if cmd == "check":
        return check(argv[1], tier, seed)
    if cmd == "replay":
        return replay(argv[1])
    if cmd == "contract":
        from . import worker
        for n in argv[1:]:
            if n.startswith("--"):
                continue
            r = worker.decide(n, seed, tier)
            print(json.dumps({k: v for k, v in r.items()}, indent=1, default=str)[:7000])
        return 0
    if cmd == "all":
        # development helper: every contract matching a substring
        from . import specs
        store = specs.load_concrete()
        names = [n for n in store if len(argv) < 2 or argv[1] in n or argv[1] in store[n].props or argv[1] == store[n].module]
        res = run_all(names, seed, tier, 8, 3000)
        bad = 0
        for n in names:
            r = res[n]
            if "crash" in r:
                print("CRASH", n, r["crash"][-1500:])
                bad += 1
                continue
            s = r["sym"]
            v = r["violation"]
            print("%-4s %-42s paths=%-4d obl=%d/%d conc=%d %5.1fs solver=%.1f %s" % (
                "ok" if not v else "BAD", n, s["paths"], s["proved"], s["obligations"], r["conc"]["ok"], r["wall_s"],
                s["solver_s"], s["backends"]))
            if v:
                bad += 1
                print("     %s %s: %s" % (v["kind"], v["label"], str(v["detail"])[:500]))
                if v.get("values"):
                    print("     values", v["values"], v.get("choices"))
                if "-v" in argv:
                    for f in s["failed"][:6]:
                        print("     -", f["label"], f["status"], f["detail"][:300], f["choices"])
                        for p in f["path"]:
                            print("          ", p)
        print("bad:", bad)
        return 1 if bad else 0
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
