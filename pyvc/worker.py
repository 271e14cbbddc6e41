"""Decide one contract: symbolic proof, then concrete cross-check / falsification on the real code."""
import os
import random
import sys
import time
import traceback

from . import harness, load, solve, specs, sym
from . import term as tm
from .harness import SymT, ConcT, Reject, Fail
from .sym import Ctx, Unsupported, Infeasible, BudgetExceeded


def install_stubs(L, store, contract, t, log):
    undo = []
    for target in contract.uses:
        fn, _ = store.stubs[target]
        mod, *path = target.split(".")
        obj = getattr(L, mod)
        for p in path[:-1]:
            obj = getattr(obj, p, None)
            if obj is None:
                break
        if obj is None or not hasattr(obj, path[-1]):
            log.append(target + ": not present, callee inlined")
            continue
        raw = obj.__dict__.get(path[-1])
        if raw is None:
            continue

        def make(fn=fn, raw=raw):
            real = raw.__func__ if isinstance(raw, (staticmethod, classmethod)) else raw

            def stubbed(*a, **k):
                r = fn(t, real, *a, **k)
                return r
            return staticmethod(stubbed) if isinstance(raw, staticmethod) else stubbed
        setattr(obj, path[-1], make())
        undo.append((obj, path[-1], raw))
    return undo


def has_exec_error(e):
    return isinstance(e, Exception)


def symbolic(contract_name, seed, budget_scale=1.0, secs=None, inline=False):
    L = load.Loaded()
    store = specs.load_symbolic(L)
    c = store[contract_name]
    t = SymT(L)
    log = []
    if not inline:
        install_stubs(L, store, c, t, log)
    if c.numeric:
        from . import numeric
        numeric.install(L, c.numeric)
    ctx = Ctx(budget=c.budget * budget_scale, max_paths=c.max_paths, deadline=time.time() + (secs or c.secs or 240))
    covered = [0]
    t0 = time.time()

    base_attrs = dict(t.__dict__)

    def body():
        # ghost notes kept on t belong to one path only
        t.__dict__.clear()
        t.__dict__.update(base_attrs)
        n0 = len(ctx.obligations)
        ctx.reached = False
        try:
            if c.numeric:
                ctx.notes["numpy"] = t.choice("numpy", [False, True])
            c.fn(t)
            covered[0] += 1
        except (Unsupported, Infeasible, BudgetExceeded):
            raise
        except RecursionError as e:
            raise Unsupported("recursion limit")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "svgio" in f.filename or "/specs/" in f.filename]
            loc = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in where[-3:])
            ctx.ensure("no-unexpected-exception", tm.FALSE, "%s: %s at %s" % (type(e).__name__, e, loc))
    out = {"contract": contract_name, "funcs": c.funcs, "bounded": c.bounded, "log": log, "inline": inline}
    early = {"left": 30.0, "rounds": 0}

    def after_path(new):
        # an obligation of this path fails: an input on which the real code fails settles the matter at once
        bad = [o for o in new if o.status != "proved"]
        if not bad or early["left"] <= 0:
            return False
        t1 = time.time()
        early["rounds"] += 1
        r, n = counterexample(contract_name, [_failure(o) for o in bad], seed + early["rounds"], min(4.0, early["left"]))
        early["left"] -= time.time() - t1
        if r:
            out["found"] = r, n
        return bool(r)
    ctx.after_path = after_path
    try:
        ctx.run(body)
    except BudgetExceeded as e:
        ctx.obligations.append(sym.Obligation("exploration", "unknown", detail="budget exceeded: %s" % e))
    except Exception as e:
        ctx.obligations.append(sym.Obligation("engine", "unknown", detail="engine error %s: %s" % (
            type(e).__name__, "".join(traceback.format_exception(e))[-1500:])))
    obs = ctx.obligations
    out["paths"] = ctx.paths
    out["covered"] = covered[0]
    out["obligations"] = len(obs)
    out["proved"] = sum(o.status == "proved" for o in obs)
    bk = {}
    for o in obs:
        if o.status == "proved":
            bk[o.backend] = bk.get(o.backend, 0) + 1
    out["backends"] = bk
    out["labels"] = sorted({o.label.split("[")[0].split(".x")[0].split(".y")[0] for o in obs})
    out["failed"] = [_failure(o) for o in obs if o.status != "proved"][:40]
    out["nfailed"] = len([o for o in obs if o.status != "proved"])
    out["solver_s"] = solve.STATS["time"]
    out["queries"] = solve.STATS["queries"]
    out["wall_s"] = time.time() - t0
    return out


def _failure(o):
    return {"label": o.label, "status": o.status, "detail": o.detail,
            "model": {k: (float(v) if v is not None and not isinstance(v, bool) else v)
                      for k, v in (o.model or {}).items()},
            "choices": o.choices, "path": [str(p)[:400] for p in (o.path or [])][-12:]}


_conc = {}


def conc_env():
    if not _conc:
        _conc["svg"] = load.concrete()
        _conc["store"] = specs.load_concrete()
    return _conc["svg"], _conc["store"]


class Blocked:
    """hide numpy/scipy from the real code (the pure Python fallbacks)"""
    names = ("numpy", "scipy", "scipy.integrate", "scipy.special")

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.saved = {}
        if self.on:
            for n in self.names:
                self.saved[n] = sys.modules.get(n)
                sys.modules[n] = None

    def __exit__(self, *a):
        if self.on:
            for n, m in self.saved.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m


def run_concrete(contract_name, values=None, choices=None, rng=None, timeout=None):
    """-> ('ok', checks) | ('reject',) | ('fail', label, detail, values, choices)"""
    svg, store = conc_env()
    c = store[contract_name]
    t = ConcT(svg, rng, values, choices)
    numpy_on = True
    if c.numeric:
        numpy_on = t.choice("numpy", [False, True])
    else:
        numpy_on = False
    import signal

    def alarm(*a):
        raise TimeoutError("concrete run did not finish")
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(10)
    try:
        with Blocked(not numpy_on):
            c.fn(t)
        return ("ok", t.checks)
    except Reject:
        return ("reject",)
    except Fail as e:
        return ("fail", e.label, e.detail, t.values, t.chosen)
    except TimeoutError as e:
        return ("fail", "termination", str(e), t.values, t.chosen)
    except RecursionError as e:
        return ("fail", "no-unexpected-exception", "RecursionError", t.values, t.chosen)
    except (OverflowError, FloatingPointError):
        return ("reject",)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "svgio" in f.filename or "/specs/" in f.filename]
        loc = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in where[-3:])
        return ("fail", "no-unexpected-exception", "%s: %s at %s" % (type(e).__name__, e, loc), t.values, t.chosen)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def sample(contract_name, n, seed, secs, stop_on_fail=True):
    ok = rej = checks = 0
    t0 = time.time()
    rng = random.Random("%s/%s" % (contract_name, seed))
    tries = 0
    while ok < n and tries < n * 30 and time.time() - t0 < secs:
        tries += 1
        r = run_concrete(contract_name, rng=random.Random(rng.random()))
        if r[0] == "ok":
            ok += 1
            checks += r[1]
        elif r[0] == "reject":
            rej += 1
        else:
            return {"ok": ok, "rejected": rej, "checks": checks, "fail": r}
    return {"ok": ok, "rejected": rej, "checks": checks, "fail": None}


def counterexample(contract_name, failed, seed, limit):
    """a failing input of the real code: the verifier's models first, then random values along the failed paths"""
    tried = 0
    for f in failed:
        if f["status"] == "refuted":
            for rep in range(2):
                tried += 1
                r = run_concrete(contract_name, values=f["model"], choices=f["choices"], rng=random.Random(seed + rep))
                if r[0] == "fail":
                    return (r, f), tried
    t0 = time.time()
    rng = random.Random("f%s/%s" % (contract_name, seed))
    chs = [f["choices"] for f in failed][:12] + [None]
    while time.time() - t0 < limit and tried < 20000:
        tried += 1
        r = run_concrete(contract_name, choices=rng.choice(chs), rng=random.Random(rng.random()))
        if r[0] == "fail":
            return (r, failed[0]), tried
    return None, tried


def decide(contract_name, seed, tier):
    scale = 1.0 if tier == "quick" else 3.0
    t_start = time.time()
    _, cstore = conc_env()
    c = cstore[contract_name]
    res = {"contract": contract_name}
    bounded_only = c.bounded == "runtime"
    if bounded_only:
        s = {"contract": contract_name, "funcs": c.funcs, "bounded": "runtime", "log": [], "paths": 0, "covered": 0,
             "obligations": 0, "proved": 0, "backends": {}, "labels": [], "failed": [], "nfailed": 0, "solver_s": 0.0,
             "queries": 0, "wall_s": 0.0, "inline": False}
    else:
        secs = (c.secs or 240) * (1 if tier == "quick" else 2)
        s = symbolic(contract_name, seed, scale, secs=secs)
        found, tried = s.pop("found", (None, None))
        if s["nfailed"] and not found:
            # an obligation fails: look for an input on which the real code breaks the contract
            found, tried = counterexample(contract_name, s["failed"], seed, 25 if tier == "quick" else 60)
        if s["nfailed"] and not found and c.uses:
            # a callee contract may be too coarse for a rewritten caller: retry with the callees inlined
            s2 = symbolic(contract_name, seed, scale, secs=secs, inline=True)
            found, tried = s2.pop("found", (found, tried))
            if not s2["nfailed"]:
                s = s2
        if s["nfailed"] and not found and all(
                f["status"] == "unknown" and not f["label"] in ("unsupported", "engine", "exploration")
                for f in s["failed"]):
            # only solver timeouts: once more with longer limits
            s2 = symbolic(contract_name, seed, scale * 6, secs=secs, inline=s["inline"])
            found, tried = s2.pop("found", (found, tried))
            if not s2["nfailed"]:
                s = s2
    res["sym"] = s
    res["violation"] = None
    if s["nfailed"]:
        if found:
            r, f = found
            res["violation"] = {"kind": "replayed", "label": r[1], "detail": r[2], "values": r[3], "choices": r[4],
                                "obligation": f, "tried": tried}
        else:
            res["violation"] = {"kind": "no-failing-input-found", "label": s["failed"][0]["label"],
                                "detail": s["failed"][0]["detail"], "obligation": s["failed"][0], "tried": tried,
                                "all_failed": s["failed"]}
        res["conc"] = {"ok": 0, "checks": 0, "rejected": 0}
    else:
        n = c.samples if tier == "quick" else c.samples * 20
        k = sample(contract_name, n, seed, 20 if tier == "quick" else 120)
        res["conc"] = {x: k[x] for x in ("ok", "checks", "rejected")}
        if k["fail"]:
            r = k["fail"]
            res["violation"] = {"kind": "replayed", "label": r[1], "detail": r[2], "values": r[3], "choices": r[4],
                                "obligation": None, "tried": k["ok"] + k["rejected"] + 1}
        elif k["ok"] == 0 or k["checks"] == 0 or (not bounded_only and (s["covered"] == 0 or s["obligations"] == 0)):
            res["violation"] = {"kind": "no-failing-input-found", "label": "vacuity",
                                "detail": "no execution satisfies the precondition (ok=%d, covered=%d, obligations=%d)" % (
                                    k["ok"], s["covered"], s["obligations"]), "obligation": None, "tried": k["rejected"]}
    res["wall_s"] = time.time() - t_start
    return res
