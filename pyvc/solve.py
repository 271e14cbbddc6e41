"""Discharging verification conditions: normal form, then z3 (two configurations), then cvc5."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import term as tm
from .term import T, TRUE, FALSE, TAU

STATS = {"nf": 0, "subst": 0, "z3": 0, "z3-nlsat": 0, "cvc5": 0, "const": 0, "time": 0.0, "queries": 0}


class Enc:
    """One encoding context: z3 variables for atoms plus their axioms."""

    def __init__(self, linear=False):
        self.linear = linear      # products and quotients become opaque reals (a weaker, cheap encoding)
        self.opaque = {}
        self.atom_var = {}
        self.axioms = []
        self.names = {}
        self.memo = {}
        self.bv = {}
        self.nonzero = set()

    # ---- numeric
    def fresh(self, sort, name):
        return z3.Int(name) if sort == "I" else z3.Real(name)

    def av(self, aid):
        v = self.atom_var.get(aid)
        if v is not None:
            return v
        op, args, sort = tm._atom_info[aid]
        if op == "var":
            t = args[0]
            if t is TAU:
                v = z3.Real("tau")
                self.atom_var[aid] = v
                self.axioms.append(v > z3.RealVal("6.283185307179586"))
                self.axioms.append(v < z3.RealVal("6.283185307179587"))
                return v
            nm = t.val if t.op == "var" else "div0_%d" % t.id
            v = self.fresh(sort, str(nm))
            self.atom_var[aid] = v
            self.names[str(nm)] = v
            return v
        if op in ("min", "max"):
            es = [self.rf(r) for r in args]
            e = es[0]
            for x in es[1:]:
                e = z3.If(e <= x, e, x) if op == "min" else z3.If(e >= x, e, x)
            self.atom_var[aid] = e
            return e
        if op == "abs":
            x = self.rf(args[0])
            e = z3.If(x >= 0, x, -x)
            self.atom_var[aid] = e
            return e
        if op == "ite":
            c = self.b(args[0])
            e = z3.If(c, self.rf(args[1]), self.rf(args[2]))
            self.atom_var[aid] = e
            return e
        v = self.fresh(sort, "%s!%d" % (op, aid))
        self.atom_var[aid] = v
        ax = self.axioms
        if op == "sqrt":
            x = self.rf(args[0])
            ax.append(z3.Implies(x >= 0, z3.And(v >= 0, z3.BoolVal(True) if self.linear else v * v == x)))
        elif op in ("sin", "cos"):
            other = tm.fatom("cos" if op == "sin" else "sin", args)
            o = self.av(other)
            if op == "cos" and not self.linear:
                ax.append(v * v + o * o == 1)
            ax.append(v <= 1)
            ax.append(v >= -1)
            if op == "cos":
                self._trig_sign(args[0], o, v)
        elif op == "atan2":
            y, x = self.rf(args[0]), self.rf(args[1])
            tau = self.av(tm._var_atom(TAU))
            ax.append(v <= tau / 2)
            ax.append(v > -tau / 2)
            ax.append(z3.Implies(y > 0, z3.And(v > 0, v < tau / 2)))
            ax.append(z3.Implies(y < 0, v < 0))
            ax.append(z3.Implies(z3.And(y == 0, x > 0), v == 0))
            ax.append(z3.Implies(z3.And(y == 0, x < 0), v == tau / 2))
            ax.append(z3.Implies(z3.And(x > 0), z3.And(v < tau / 4, v > -tau / 4)))
            ax.append(z3.Implies(z3.And(x < 0), z3.Or(v > tau / 4, v < -tau / 4)))
            ax.append(z3.Implies(z3.And(x == 0, y > 0), v == tau / 4))
            ax.append(z3.Implies(z3.And(x == 0, y < 0), v == -tau / 4))
        elif op == "acos":
            x = self.rf(args[0])
            tau = self.av(tm._var_atom(TAU))
            ax.append(v >= 0)
            ax.append(v <= tau / 2)
            ax.append((v == 0) == (x == 1))
            ax.append((v == tau / 2) == (x == -1))
            ax.append((v < tau / 4) == (x > 0))
        elif op == "atan":
            x = self.rf(args[0])
            tau = self.av(tm._var_atom(TAU))
            ax += [v < tau / 4, v > -tau / 4, (v > 0) == (x > 0), (v == 0) == (x == 0)]
        elif op == "floor":
            x = self.rf(args[0])
            ax += [z3.ToReal(v) <= x, x < z3.ToReal(v) + 1]
        elif op == "ceil":
            x = self.rf(args[0])
            ax += [z3.ToReal(v) >= x, x > z3.ToReal(v) - 1]
        elif op == "trunc":
            x = self.rf(args[0])
            ax += [z3.Implies(x >= 0, z3.And(z3.ToReal(v) <= x, x < z3.ToReal(v) + 1)),
                   z3.Implies(x < 0, z3.And(z3.ToReal(v) >= x, x > z3.ToReal(v) - 1))]
        elif op == "round":
            x = self.rf(args[0])
            vr = z3.ToReal(v)
            h = self.fresh("I", "half!%d" % aid)
            ax += [vr - x <= z3.RealVal("1/2"), x - vr <= z3.RealVal("1/2"),
                   z3.Implies(z3.Or(vr - x == z3.RealVal("1/2"), x - vr == z3.RealVal("1/2")), v == 2 * h)]
        elif op in ("idiv", "imod") and self.linear:
            pass
        elif op == "idiv":
            a, b = self.rf(args[0], True), self.rf(args[1], True)
            m = self.av(tm.fatom("imod", args, "I"))
            ax += [z3.Implies(b > 0, z3.And(a == b * v + m, m >= 0, m < b)),
                   z3.Implies(b < 0, z3.And(a == b * v + m, m <= 0, m > b))]
        elif op == "imod":
            self.av(tm.fatom("idiv", args, "I"))
        return v

    def _trig_sign(self, r, s, c):
        # sign information for sin/cos of an angle in the first turns
        tau = self.av(tm._var_atom(TAU))
        x = self.rf(r)
        self.axioms.append(z3.Implies(x == 0, z3.And(s == 0, c == 1)))
        self.axioms.append(z3.Implies(z3.And(x > 0, x < tau / 2), s > 0))
        self.axioms.append(z3.Implies(z3.And(x > -tau / 2, x < 0), s < 0))
        self.axioms.append(z3.Implies(z3.And(x > -tau / 4, x < tau / 4), c > 0))

    def hide(self, key, is_int=False, square=False):
        v = self.opaque.get(key)
        if v is None:
            v = self.opaque[key] = self.fresh("I" if is_int else "R", "opaque!%d" % len(self.opaque))
            if square:
                self.axioms.append(v >= 0)
        return v

    def mono(self, m, as_int):
        e = None
        if self.linear and (len(m) > 1 or m and m[0][1] > 1):
            for a, k in m:
                self.av(a)
            return self.hide((m, as_int), as_int, all(k % 2 == 0 for a, k in m))
        for a, k in m:
            v = self.av(a)
            if not as_int and v.is_int():
                v = z3.ToReal(v)
            for _ in range(k):
                e = v if e is None else e * v
        return e

    def poly(self, p, as_int=False):
        terms = []
        for m, c in sorted(p.items()):
            e = self.mono(m, as_int)
            cv = z3.IntVal(int(c)) if as_int else z3.RealVal(str(c))
            if e is None:
                terms.append(cv)
            elif c == 1:
                terms.append(e)
            else:
                terms.append(cv * e)
        if not terms:
            return z3.IntVal(0) if as_int else z3.RealVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def rf(self, r, as_int=False):
        k = (r.key(), as_int)
        e = self.memo.get(k)
        if e is not None:
            return e
        if as_int and (r.d or any(c.denominator != 1 or any(tm._atom_info[a][2] != "I" for a, _ in m)
                                  for m, c in r.n.items())):
            as_int = False
        e = self.poly(r.n, as_int)
        if r.d:
            den = None
            for pk, ex in r.d:
                q = self.poly(dict(pk))
                if pk not in self.nonzero:
                    self.nonzero.add(pk)
                    self.axioms.append(q != 0)
                if not self.linear:
                    for _ in range(ex):
                        den = q if den is None else den * q
            e = e / den if not self.linear else self.hide(k)
        self.memo[k] = e
        return e

    def cmp0(self, a, b, op):
        """z3 formula for a op b via nf(b-a)."""
        r = tm.rf_reduce(tm.rf_add(tm.nf(b), tm.rf_neg(tm.nf(a))))
        ints = a.sort == "I" and b.sort == "I" and not r.d
        if ints:
            e = self.rf(r, True)
        else:
            e = self.poly(r.n)
            if r.d:
                for pk, ex in r.d:
                    q = self.poly(dict(pk))
                    if pk not in self.nonzero:
                        self.nonzero.add(pk)
                        self.axioms.append(q != 0)
                    if op != "eq" and ex % 2:
                        e = self.hide((r.key(), "sign")) if self.linear else e * q
        if op == "eq":
            return e == 0
        if op == "lt":
            return e > 0
        return e >= 0

    def b(self, t):
        k = ("b", t.id)
        e = self.memo.get(k)
        if e is not None:
            return e
        op = t.op
        if op == "true":
            e = z3.BoolVal(True)
        elif op == "false":
            e = z3.BoolVal(False)
        elif op == "bvar":
            e = z3.Bool(str(t.val))
            self.names[str(t.val)] = e
        elif op in ("lt", "le", "eq"):
            e = self.cmp0(t.args[0], t.args[1], op)
        elif op == "not":
            e = z3.Not(self.b(t.args[0]))
        elif op == "and":
            e = z3.And([self.b(a) for a in t.args])
        elif op == "or":
            e = z3.Or([self.b(a) for a in t.args])
        elif op == "iff":
            e = self.b(t.args[0]) == self.b(t.args[1])
        elif op == "ite":
            e = z3.If(self.b(t.args[0]), self.b(t.args[1]), self.b(t.args[2]))
        else:
            raise KeyError(op)
        self.memo[k] = e
        return e


def encode(pc, goal_neg=None, linear=False):
    """Encode path condition (+ negated goal) to z3 formulas, restarting on angle-unit changes."""
    for _ in range(8):
        enc = Enc(linear)
        try:
            fs = [enc.b(p) for p in pc]
            g = enc.b(goal_neg) if goal_neg is not None else None
            return enc, fs, g
        except tm.Restart:
            tm.reset_nf()
    raise RuntimeError("nf restart loop")


def _relevant(pc, goal):
    """cone of influence on free variables."""
    want = {v for v in tm.free_vars(goal) if v is not TAU}
    rest = [(p, {v for v in tm.free_vars(p) if v is not TAU}) for p in pc]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for p, vs in rest:
            if vs & want or not vs:
                out.append(p)
                if not vs <= want:
                    want |= vs
                    changed = True
            else:
                nr.append((p, vs))
        rest = nr
    return out


def linear_unsat(pc, extra, timeout_ms=300):
    """unsatisfiable already when products and quotients are arbitrary reals"""
    STATS["queries"] += 1
    t0 = time.time()
    try:
        enc, fs, g = encode(pc, extra, True)
        s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        for f in fs + ([g] if g is not None else []) + enc.axioms:
            s.add(f)
        return s.check() == z3.unsat
    except (tm.TooBig, z3.Z3Exception):
        return False
    finally:
        STATS["time"] += time.time() - t0


def check(pc, extra, timeout_ms, tactic=None):
    """-> ('sat', model, enc) | ('unsat', None, None) | ('unknown', None, None)"""
    STATS["queries"] += 1
    t0 = time.time()
    try:
        try:
            enc, fs, g = encode(pc, extra)
        except tm.TooBig:
            return "unknown", None, None
        s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
        s.set("timeout", int(timeout_ms))
        for f in fs:
            s.add(f)
        if g is not None:
            s.add(g)
        for a in enc.axioms:
            s.add(a)
        try:
            r = s.check()
        except z3.Z3Exception:
            return "unknown", None, None
        if r == z3.unsat:
            return "unsat", None, None
        if r == z3.sat:
            return "sat", s.model(), enc
        return "unknown", s, enc
    finally:
        STATS["time"] += time.time() - t0


def cvc5_check(pc, extra, timeout_s):
    t0 = time.time()
    try:
        enc, fs, g = encode(pc, extra)
        s = z3.Solver()
        for f in fs + [g] + enc.axioms:
            s.add(f)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout_s * 1000), f.name],
                               capture_output=True, text=True, timeout=timeout_s + 5)
            out = p.stdout.strip().splitlines()
            return out[0] if out else "unknown"
        except (subprocess.TimeoutExpired, OSError):
            return "unknown"
        finally:
            os.unlink(f.name)
    except (tm.TooBig, RuntimeError):
        return "unknown"
    finally:
        STATS["time"] += time.time() - t0


def model_values(model, enc):
    out = {}
    for nm, v in enc.names.items():
        try:
            x = model.eval(v, model_completion=True)
        except z3.Z3Exception:
            continue
        out[nm] = zval(x)
    return out


def zval(x):
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def subst_linear(pc):
    """From equalities in pc that are linear in some variable atom (not nested in functions), build a
    substitution on T level: returns dict var T -> T, conservative."""
    sub = {}
    for p in pc:
        if p.op != "eq":
            continue
        a, b = p.args
        for x, y in ((a, b), (b, a)):
            if x.op == "var" and x is not TAU and x not in sub and x not in tm.free_vars(y) and x.sort == "R":
                if not any(v in sub for v in tm.free_vars(y)):
                    # keep substitution triangular
                    for k in list(sub):
                        if x in tm.free_vars(sub[k]):
                            sub[k] = substitute(sub[k], {x: y})
                    sub[x] = y
                    break
    return sub


def substitute(t, sub, memo=None):
    if memo is None:
        memo = {}
    st = [t]
    while st:
        u = st[-1]
        if u.id in memo:
            st.pop()
            continue
        if u in sub:
            memo[u.id] = sub[u]
            st.pop()
            continue
        pend = [a for a in u.args if a.id not in memo]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        memo[u.id] = rebuild(u, [memo[a.id] for a in u.args])
    return memo[t.id]


def rebuild(u, args):
    if all(x is y for x, y in zip(u.args, args)):
        return u
    o = u.op
    if o == "add":
        return tm.add(*args)
    if o == "mul":
        return tm.mul(*args)
    if o == "div":
        return tm.div(*args)
    if o == "toreal":
        return tm.toreal(args[0])
    if o == "abs":
        return tm.absv(args[0])
    if o in ("min", "max"):
        return tm.minmax(o, args)
    if o == "ite":
        return tm.ite(*args)
    if o == "lt":
        return tm.lt(*args)
    if o == "le":
        return tm.le(*args)
    if o == "eq":
        return tm.eq(*args)
    if o == "not":
        return tm.bnot(args[0])
    if o == "and":
        return tm.band(*args)
    if o == "or":
        return tm.bor(*args)
    if o == "iff":
        return tm.eq(*args)
    return tm.fun(o, *args, sort=u.sort)


class Result:
    __slots__ = ("status", "backend", "model", "detail", "time")

    def __init__(self, status, backend, model=None, detail="", time=0.0):
        self.status = status      # proved | refuted | unknown
        self.backend = backend
        self.model = model
        self.detail = detail
        self.time = time


def prove(pc, goal, budget=1.0):
    """Is goal implied by pc?  budget scales the solver time limits."""
    t0 = time.time()
    if goal is TRUE:
        STATS["const"] += 1
        return Result("proved", "const")
    if goal.op == "and":
        last = None
        bk = set()
        for g in goal.args:
            last = prove(pc, g, budget)
            bk.add(last.backend)
            if last.status != "proved":
                return last
        return Result("proved", "+".join(sorted(bk)), time=time.time() - t0)
    if goal in pc:
        STATS["const"] += 1
        return Result("proved", "path-condition")
    if goal.op == "eq":
        if tm.nf_equal(goal.args[0], goal.args[1]):
            STATS["nf"] += 1
            return Result("proved", "normal-form", time=time.time() - t0)
        sub = subst_linear(pc)
        if sub:
            g2 = substitute(goal, sub)
            if g2 is TRUE or (g2.op == "eq" and tm.nf_equal(g2.args[0], g2.args[1])):
                STATS["nf"] += 1
                return Result("proved", "normal-form", time=time.time() - t0)
    ng = tm.bnot(goal)
    rel = _relevant(pc, goal)
    model = None
    reasons = []
    plans = [(rel, None, 1500 * budget), (rel, "qfnra-nlsat", 4000 * budget), (pc, None, 6000 * budget),
             (pc, "qfnra-nlsat", 6000 * budget)]
    if len(rel) == len(pc):
        plans = [(pc, None, 2500 * budget), (pc, "qfnra-nlsat", 8000 * budget), (pc, None, 8000 * budget)]
    if linear_unsat(rel, ng, 400 * budget):
        STATS["z3"] += 1
        return Result("proved", "z3-linear", time=time.time() - t0)
    for cs, tac, ms in plans:
        r, m, enc = check(cs, ng, ms, tac)
        if r == "unsat":
            STATS["z3" if tac is None else "z3-nlsat"] += 1
            return Result("proved", "z3" if tac is None else "z3-nlsat", time=time.time() - t0)
        if r == "sat" and len(cs) == len(pc):
            return Result("refuted", "z3", model_values(m, enc), time=time.time() - t0)
        reasons.append("%s:%s" % (tac or "z3", r))
    r = cvc5_check(pc, ng, 6 * budget)
    if r == "unsat":
        STATS["cvc5"] += 1
        return Result("proved", "cvc5", time=time.time() - t0)
    reasons.append("cvc5:" + r)
    return Result("unknown", "", None, " ".join(reasons), time.time() - t0)
