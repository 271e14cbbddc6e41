"""Symbolic values (proxies for Python numbers and numeric text) and the path explorer."""
import builtins
import re as _re
import time
from fractions import Fraction

from . import term as tm
from . import solve
from .term import T, TRUE, FALSE, TAU

_bint, _bfloat, _bstr = builtins.int, builtins.float, builtins.str


class Unsupported(BaseException):
    """The verifier cannot follow the code here: the obligation is undecided, never proved."""


class Infeasible(BaseException):
    """This path has been cut (assumption false / loop bound reached)."""


class BudgetExceeded(BaseException):
    pass


class Obligation:
    __slots__ = ("label", "status", "backend", "model", "detail", "path", "time", "choices")

    def __init__(self, label, status, backend="", model=None, detail="", path=None, time=0.0, choices=None):
        self.label, self.status, self.backend = label, status, backend
        self.model, self.detail, self.path, self.time = model, detail, path, time
        self.choices = choices


class Ctx:
    cur = None

    def __init__(self, feas_ms=250, budget=1.0, max_paths=3000, deadline=None, loop_bound=4):
        self.feas_ms = feas_ms
        self.hard = {}
        self.budget = budget
        self.max_paths = max_paths
        self.deadline = deadline
        self.loop_bound = loop_bound
        self.feas = {}
        self.proved = {}
        self.labelled = set()
        self.obligations = []
        self.after_path = None  # called with the obligations of a finished path; true ends the exploration
        self.paths = 0
        self.bounded = set()
        self.unsupported = []
        self.reset([])

    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []       # (kind, value, alternatives-left)
        self.pc = []
        self.pcset = set()
        self.fresh_n = 0
        self.atoms = []
        self.atom_ix = {}
        self.choices = []
        self.notes = {}
        self.bounds = {TAU.id: (Fraction("6.283185307179586"), Fraction("6.283185307179587"))}
        self.lin_bounds = {}
        if tm.angle_den:
            tm.angle_den.clear()
            tm.reset_nf()

    # ------------------------------------------------------------ path condition
    def assume(self, c):
        if c is TRUE:
            return
        if c.op == "and":
            for a in c.args:
                self.assume(a)
            return
        if c is FALSE:
            raise Infeasible()
        if c not in self.pcset:
            self.pc.append(c)
            self.pcset.add(c)
            if c.op in ("lt", "le", "eq"):
                self._note_bound(c)

    # ------------------------------------------------------------ intervals (cheap facts, no solver)
    def _note_bound(self, c):
        a, b = c.args
        co, k = lin_of(tm.sub(b, a))
        if not co:
            return
        if len(co) > 1:
            key, q0 = lin_key(co)
            lo, hi = self.lin_bounds.get(key, (None, None))
            v = -k / q0
            ints = c.op == "lt" and all(u.sort == "I" and (q / q0).denominator == 1 for u, q in co.items())
            if (c.op == "eq" or q0 > 0):
                w = v // 1 + 1 if ints else v
                if lo is None or w > lo:
                    lo = w
            if (c.op == "eq" or q0 < 0):
                w = -((-v) // 1) - 1 if ints else v
                if hi is None or w < hi:
                    hi = w
            self.lin_bounds[key] = (lo, hi)
            return
        (u, q), = co.items()
        v = -k / q                     # u (>=|<=) v, or equality
        lo, hi = self.bounds.get(u.id, (None, None))
        up = c.op == "eq" or q < 0
        dn = c.op == "eq" or q > 0
        if u.sort == "I" and c.op != "eq":
            if dn:
                w = Fraction(-((-v) // 1))
                v2 = w + 1 if c.op == "lt" and w == v else w
            else:
                w = Fraction(v // 1)
                v2 = w - 1 if c.op == "lt" and w == v else w
            v = v2
        if dn and (lo is None or v > lo):
            lo = v
        if up and (hi is None or v < hi):
            hi = v
        self.bounds[u.id] = (lo, hi)

    def range(self, t):
        lo, hi = self._range(t)
        b = self.bounds.get(t.id)
        if b:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        return lo, hi

    def _range(self, t):
        o = t.op
        if o == "const":
            return t.val, t.val
        if o == "toreal":
            return self.range(t.args[0])
        if o == "add":
            return self.lin_range(*lin_of(t))
        if o == "mul":
            if len(t.args) == 2 and t.args[0] is t.args[1]:
                l, h = self.range(t.args[0])
                if l is not None and l >= 0:
                    return l * l, None if h is None else h * h
                if l is not None and h is not None:
                    return Fraction(0), max(l * l, h * h)
                return Fraction(0), None
            lo = hi = Fraction(1)
            for a in t.args:
                l, h = self.range(a)
                if a.op == "const" and a.val < 0:
                    lo, hi = (None if hi is None else hi * a.val), (None if lo is None else lo * a.val)
                    continue
                if lo is not None and lo >= 0 and l is not None and l >= 0:
                    lo, hi = lo * l, (None if hi is None or h is None else hi * h)
                    continue
                if None in (lo, hi, l, h):
                    return None, None
                v = [x * y for x in (lo, hi) for y in (l, h)]
                lo, hi = min(v), max(v)
            return lo, hi
        if o in ("min", "max"):
            rs = [self.range(a) for a in t.args]
            los, his = [r[0] for r in rs], [r[1] for r in rs]
            if o == "min":
                return (None if None in los else min(los)), min((h for h in his if h is not None), default=None)
            return max((x for x in los if x is not None), default=None), (None if None in his else max(his))
        if o == "ite":
            (a, b), (c, d) = self.range(t.args[1]), self.range(t.args[2])
            return (None if a is None or c is None else min(a, c)), (None if b is None or d is None else max(b, d))
        if o in ("round", "trunc", "floor", "ceil"):
            l, h = self.range(t.args[0])
            return (None if l is None else tm._fold(o, [l])), (None if h is None else tm._fold(o, [h]))
        if o == "imod" and t.args[1].op == "const" and t.args[1].val > 0:
            return Fraction(0), t.args[1].val - 1
        if o == "idiv" and t.args[1].op == "const" and t.args[1].val > 0:
            l, h = self.range(t.args[0])
            m = t.args[1].val
            return (None if l is None else Fraction(l // m)), (None if h is None else Fraction(h // m))
        if o in ("abs", "sqrt"):
            l, h = self.range(t.args[0])
            if o == "abs":
                hh = None if l is None or h is None else max(abs(l), abs(h))
                ll = Fraction(0)
                if l is not None and l > 0:
                    ll = l
                if h is not None and h < 0:
                    ll = -h
                return ll, hh
            return Fraction(0), None
        if o in ("sin", "cos"):
            return Fraction(-1), Fraction(1)
        if o == "div":
            l, h = self.range(t.args[0])
            c, d = self.range(t.args[1])
            if c is not None and c > 0:
                return (Fraction(0) if l is not None and l >= 0 else None), (
                    Fraction(0) if h is not None and h <= 0 else None)
        return None, None

    def lin_range(self, co, k):
        lo = hi = k
        for u, q in co.items():
            l, h = self.range(u)
            if q < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + q * l
            hi = None if hi is None or h is None else hi + q * h
        if len(co) > 1 and self.lin_bounds:
            key, q0 = lin_key(co)
            l, h = self.lin_bounds.get(key, (None, None))
            if q0 < 0:
                l, h = h, l
            if l is not None and (lo is None or q0 * l + k > lo):
                lo = q0 * l + k
            if h is not None and (hi is None or q0 * h + k < hi):
                hi = q0 * h + k
        return lo, hi

    def quick(self, c):
        """True / False when intervals settle the comparison, else None"""
        o = c.op
        if o == "not":
            r = self.quick(c.args[0])
            return None if r is None else not r
        if o not in ("lt", "le", "eq") or c.args[0].sort == "B":
            return None
        co, k = lin_of(tm.sub(c.args[1], c.args[0]))     # b - a
        if len(co) > 8:
            return None
        lo, hi = self.lin_range(co, k)
        if o == "lt":
            return True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
        if o == "le":
            return True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
        return True if lo == 0 and hi == 0 else None

    def fresh(self, base, sort="R"):
        self.fresh_n += 1
        return tm.var("%s!%d" % (base, self.fresh_n), sort)

    def sat(self, c):
        """feasibility of pc & c : True / False (unknown counts as True)"""
        if c in self.pcset:
            return True
        if tm.bnot(c) in self.pcset:
            return False
        key = (frozenset(p.id for p in self.pc), c.id)
        r = self.feas.get(key)
        if r is None:
            if self.deadline and time.time() > self.deadline:
                raise BudgetExceeded()
            rel = solve._relevant(self.pc, c)
            if solve.linear_unsat(rel, c):
                r = False
            else:
                k = self.hard.get(c.id, 0)
                st, m, e = solve.check(rel, c, self.feas_ms if k < 2 else 40)
                r = st != "unsat"
                if st == "unknown":
                    self.hard[c.id] = k + 1
            self.feas[key] = r
        return r

    def branch(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.pcset:
            return True
        n = tm.bnot(c)
        if n in self.pcset:
            return False
        if c.op == "eq" and c.args[0].sort != "B":
            if tm.nf_equal(c.args[0], c.args[1]):
                return True
        q = self.quick(c)
        if q is not None:
            return q
        i = len(self.trace)
        if i > 1500:
            raise Unsupported("more than 1500 branch decisions on one path (unbounded loop?)")
        if i < len(self.prefix):
            v, alt = self.prefix[i]
            self.trace.append(("b", v, alt))
        else:
            if not self.sat(c):
                v = False
                alt = None
            elif not self.sat(n):
                v = True
                alt = None
            else:
                v = True
                alt = False
            self.trace.append(("b", v, alt))
        self.assume(c if v else n)
        return v

    def choose(self, label, n):
        """non-deterministic choice 0..n-1 (explored exhaustively)"""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][0]
            self.trace.append(("c", v, v + 1 if v + 1 < n else None))
        else:
            v = 0
            self.trace.append(("c", v, 1 if n > 1 else None))
        self.choices.append((label, v))
        return v

    def concretize(self, t):
        """pick each possible integer value of t in turn (all of them are explored)"""
        if t.op == "const":
            return _bint(t.val)
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                v, yes = self.prefix[i][0]
            else:
                aux = self._aux_int(t)
                st, m, e = solve.check(self.pc + [tm.eq(aux, t)], None, 3000)
                if st == "unsat":
                    raise Infeasible()
                v = solve.model_values(m, e).get(aux.val) if st == "sat" else None
                if v is None or abs(v) > 64:
                    raise Unsupported("cannot enumerate the values of %r" % (t,))
                v, yes = _bint(v), True
            eqc = tm.eq(t, tm.const(v, "I"))
            more = yes and self.sat(tm.bnot(eqc))
            self.trace.append(("k", (v, yes), False if more else None))
            if yes:
                self.assume(eqc)
                return v
            self.assume(tm.bnot(eqc))

    def _aux_int(self, t):
        return tm.var("aux!%d" % t.id, "I")

    # ------------------------------------------------------------ exploration
    def next_prefix(self):
        tr = self.trace
        for i in range(len(tr) - 1, -1, -1):
            kind, v, alt = tr[i]
            if alt is None:
                continue
            pre = [(x[1], x[2]) for x in tr[:i]]
            if kind == "k":
                return pre + [((v[0], False), None)]
            return pre + [(alt, None)]
        return None

    def run(self, harness):
        prefix = []
        Ctx.cur = self
        completed = 0
        try:
            while prefix is not None:
                self.reset(prefix)
                self.paths += 1
                if self.paths > self.max_paths:
                    raise BudgetExceeded("more than %d paths" % self.max_paths)
                if self.deadline and time.time() > self.deadline:
                    raise BudgetExceeded("time")
                n0 = len(self.obligations)
                try:
                    harness()
                    completed += 1
                except Infeasible:
                    pass
                except Unsupported as e:
                    self.unsupported.append(_bstr(e))
                    self.obligations.append(Obligation("unsupported", "unknown", "", None, _bstr(e),
                                                       list(self.pc), choices=list(self.choices)))
                if self.after_path is not None and self.after_path(self.obligations[n0:]):
                    break
                prefix = self._next()
        finally:
            Ctx.cur = None
        return completed

    def _next(self):
        # trace may be shorter than prefix if the path ended early
        return self.next_prefix()

    def ensure(self, label, goal, detail=""):
        pk = frozenset(p.id for p in self.pc)
        key = (pk, goal.id)
        if key in self.proved:
            st = self.proved[key]
            lk = (label, pk, goal.id)
            if st == "proved" and lk not in self.labelled:
                self.labelled.add(lk)
                self.obligations.append(Obligation(label, "proved", "duplicate-goal"))
            return st == "proved"
        self.labelled.add((label, pk, goal.id))
        t0 = time.time()
        if goal is FALSE:
            st, m, e = solve.check(self.pc, None, 3000 * self.budget)
            if st == "unsat":
                r = solve.Result("proved", "z3")
            elif st == "sat":
                r = solve.Result("refuted", "z3", solve.model_values(m, e), time=time.time() - t0)
            else:
                st, m, e = solve.check(self.pc, None, 5000 * self.budget, "qfnra-nlsat")
                if st == "unsat":
                    r = solve.Result("proved", "z3-nlsat")
                elif st == "sat":
                    r = solve.Result("refuted", "z3", solve.model_values(m, e), time=time.time() - t0)
                else:
                    r = solve.Result("unknown", "", None, "path feasibility unknown", time=time.time() - t0)
        else:
            r = solve.prove(self.pc, goal, self.budget)
        self.proved[key] = r.status
        self.obligations.append(Obligation(label, r.status, r.backend, r.model, (detail + " " + r.detail).strip(),
                                           None if r.status == "proved" else [tm.show(p, 6) for p in self.pc] +
                                           ["GOAL " + tm.show(goal, 8)],
                                           r.time, list(self.choices)))
        return r.status == "proved"


def ctx():
    return Ctx.cur


def lin_of(t):
    """t = sum coef*u + const, u not sums / constants (conversions int->real looked through)"""
    co = {}
    k = Fraction(0)
    st = [(t, Fraction(1))]
    while st:
        u, q = st.pop()
        if u.op == "const":
            k += q * u.val
        elif u.op == "add":
            for a in u.args:
                st.append((a, q))
        elif u.op == "toreal":
            st.append((u.args[0], q))
        elif u.op == "mul":
            cs = [a for a in u.args if a.op == "const"]
            if cs:
                rest = [a for a in u.args if a.op != "const"]
                st.append((rest[0] if len(rest) == 1 else tm.mul(*rest), q * cs[0].val))
            else:
                co[u] = co.get(u, 0) + q
        else:
            co[u] = co.get(u, 0) + q
    return {u: q for u, q in co.items() if q != 0}, k


def lin_key(co):
    its = sorted(co.items(), key=lambda x: x[0].id)
    q0 = its[0][1]
    return tuple((u.id, q / q0) for u, q in its), q0


def of_lin(co, k):
    return tm.add(tm.const(k, "I"), *[tm.mul(tm.const(q, "I"), u) for u, q in sorted(co.items(), key=lambda x: x[0].id)])


def int_split(t, m):
    """(H, R) with t = m*H + R: the addends that are multiples of m, and the others; None unless integral"""
    co, k = lin_of(t)
    if k.denominator != 1 or any(q.denominator != 1 or u.sort != "I" for u, q in co.items()):
        return None
    h = {u: q / m for u, q in co.items() if q % m == 0}
    r = {u: q for u, q in co.items() if q % m != 0}
    kr = k % m
    kh = (k - kr) / m
    if r or kr:
        # prefer the constant on the side that keeps the rest in [0, m)
        R = of_lin(r, kr)
        lo, hi = Ctx.cur.range(R)
        if r and kr and (lo is None or hi is None or lo < 0 or hi >= m):
            R2 = of_lin(r, kr - m)
            lo2, hi2 = Ctx.cur.range(R2)
            if lo2 is not None and hi2 is not None and lo2 >= 0 and hi2 < m:
                return of_lin(h, kh + 1), R2
    else:
        R = tm.const(0, "I")
    return of_lin(h, kh), R


def s_idiv(a, b):
    if b.op == "const" and b.val > 0 and a.sort == "I":
        if a.op == "const":
            return tm.const(a.val // b.val, "I")
        m = b.val
        if m == 1:
            return a
        sp = int_split(a, m)
        if sp:
            H, R = sp
            lo, hi = Ctx.cur.range(R)
            if lo is not None and hi is not None and lo // m == hi // m:
                return tm.add(H, tm.const(lo // m, "I"))
            if R.op == "idiv" and R.args[1].op == "const" and R.args[1].val > 0:
                return tm.add(H, s_idiv(R.args[0], tm.const(R.args[1].val * m, "I")))
            co, k = lin_of(R)
            if len(co) == 1 and k.denominator == 1:
                (u, q), = co.items()
                if q == 1 and u.op == "idiv" and u.args[1].op == "const" and u.args[1].val > 0:
                    # floor((floor(x / n) + k) / m) = floor((x + k n) / (n m))
                    n = u.args[1].val
                    return tm.add(H, s_idiv(tm.add(u.args[0], tm.const(k * n, "I")), tm.const(n * m, "I")))
            return tm.add(H, tm.fun("idiv", R, b, sort="I"))
    return tm.fun("idiv", a, b, sort="I")


def s_imod(a, b):
    if b.op == "const" and b.val > 0 and a.sort == "I":
        if a.op == "const":
            return tm.const(a.val % b.val, "I")
        m = b.val
        if m == 1:
            return tm.const(0, "I")
        sp = int_split(a, m)
        if sp:
            H, R = sp
            lo, hi = Ctx.cur.range(R)
            if lo is not None and hi is not None and lo // m == hi // m:
                return tm.add(R, tm.const(-m * (lo // m), "I"))
            return tm.fun("imod", R, b, sort="I")
    return tm.fun("imod", a, b, sort="I")


# ================================================================ booleans
class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return Ctx.cur.branch(self.t)

    # a truth value used as a number: decide it, then it is 0 or 1
    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __format__(self, spec):
        return format(bool(self), spec)

    def __str__(self):
        return str(bool(self))

    def __add__(self, o):
        return self.__int__() + o

    def __radd__(self, o):
        return o + self.__int__()

    def __sub__(self, o):
        return self.__int__() - o

    def __rsub__(self, o):
        return o - self.__int__()

    def __mul__(self, o):
        return self.__int__() * o

    def __rmul__(self, o):
        return o * self.__int__()

    def __neg__(self):
        return -self.__int__()

    def __and__(self, o):
        return mkbool(tm.band(self.t, tob(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(tm.bor(self.t, tob(o)))

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(tm.eq(self.t, tob(o)))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(tm.bnot(tm.eq(self.t, tob(o))))
        return NotImplemented

    __hash__ = None

    def __repr__(self):
        return "SBool(%r)" % (self.t,)


def mkbool(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return SBool(t)


def tob(o):
    if isinstance(o, SBool):
        return o.t
    return TRUE if o else FALSE


# ================================================================ numbers
def is_num(x):
    return isinstance(x, (SNum, _bint, _bfloat))


def tot(x):
    """number -> term"""
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, bool):
        return tm.const(1 if x else 0, "I")
    if isinstance(x, _bint):
        return tm.const(x, "I")
    if isinstance(x, Fraction):
        return tm.const(x)
    if isinstance(x, _bfloat):
        if x != x or x in (_bfloat("inf"), -_bfloat("inf")):
            raise Unsupported("non-finite float")
        return tm.const(Fraction(x))
    raise TypeError("not a number: %r" % (x,))


def infinite(x):
    """an infinite constant of the program (the only values besides real numbers that floats may take here)"""
    return type(x) is _bfloat and (x == _bfloat("inf") or x == -_bfloat("inf"))


def mkreal(t):
    r = object.__new__(SReal)
    r.t = tm.toreal(t)
    return r


def mkint(t):
    if t.op == "const":
        return _bint(t.val)
    r = object.__new__(SInt)
    r.t = t
    return r


def mknum(t):
    return mkint(t) if t.sort == "I" else mkreal(t)


class SNum:
    def __add__(self, o):
        if not is_num(o):
            return NotImplemented
        return mknum(tm.add(self.t, tot(o)))

    __radd__ = __add__

    def __sub__(self, o):
        if not is_num(o):
            return NotImplemented
        return mknum(tm.sub(self.t, tot(o)))

    def __rsub__(self, o):
        if not is_num(o):
            return NotImplemented
        return mknum(tm.sub(tot(o), self.t))

    def __mul__(self, o):
        if not is_num(o):
            return NotImplemented
        return mknum(tm.mul(self.t, tot(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return num_div(self, o)

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return num_div(o, self)

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        return num_mod(self, o)

    def __rmod__(self, o):
        if not is_num(o):
            return NotImplemented
        return num_mod(o, self)

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        return num_floordiv(self, o)

    def __rfloordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        return num_floordiv(o, self)

    def __divmod__(self, o):
        return num_floordiv(self, o), num_mod(self, o)

    def __neg__(self):
        return mknum(tm.neg(self.t))

    def __pos__(self):
        return mknum(self.t)

    def __abs__(self):
        if Ctx.cur is not None and self.t.op != "const":
            return mknum(signed_abs(self.t))
        return mknum(tm.absv(self.t))

    def __pow__(self, o, mod=None):
        if not is_num(o):
            return NotImplemented
        return num_pow(self, o)

    def __rpow__(self, o):
        if not is_num(o):
            return NotImplemented
        return num_pow(o, self)

    def __lt__(self, o):
        if not is_num(o):
            return NotImplemented
        if infinite(o):
            return o > 0
        return mkbool(tm.lt(self.t, tot(o)))

    def __le__(self, o):
        if not is_num(o):
            return NotImplemented
        if infinite(o):
            return o > 0
        return mkbool(tm.le(self.t, tot(o)))

    def __gt__(self, o):
        if not is_num(o):
            return NotImplemented
        if infinite(o):
            return o < 0
        return mkbool(tm.lt(tot(o), self.t))

    def __ge__(self, o):
        if not is_num(o):
            return NotImplemented
        if infinite(o):
            return o < 0
        return mkbool(tm.le(tot(o), self.t))

    def __eq__(self, o):
        if not is_num(o):
            return NotImplemented
        if infinite(o):
            return False
        return mkbool(tm.eq(self.t, tot(o)))

    def __ne__(self, o):
        if not is_num(o):
            return NotImplemented
        if infinite(o):
            return True
        return mkbool(tm.bnot(tm.eq(self.t, tot(o))))

    def __bool__(self):
        return not bool(mkbool(tm.eq(self.t, tm.const(0))))

    def __hash__(self):
        if Ctx.cur is not None and Ctx.cur.notes.get("flat hash"):
            # one bucket: sets and dictionaries compare by == (forking), as they must when values may be equal
            return 0
        if self.t.op == "const":
            return hash(self.t.val)
        raise Unsupported("hash of a symbolic number")

    def __round__(self, nd=None):
        if nd is None:
            return mkint(int_fun("round", self.t))
        k = 10 ** nd
        return mkreal(tm.div(tm.fun("round", tm.mul(self.t, tm.const(k)), sort="I"), tm.const(k)))

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        return mkint(int_fun("floor", self.t))

    def __ceil__(self):
        return mkint(int_fun("ceil", self.t))

    def __int__(self):
        if self.t.op == "const":
            return _bint(self.t.val)
        raise Unsupported("int() of a symbolic number outside the shim")

    def __float__(self):
        if self.t.op == "const":
            return _bfloat(self.t.val)
        raise Unsupported("float() of a symbolic number outside the shim")

    def __complex__(self):
        raise Unsupported("complex() outside the shim")

    @property
    def real(self):
        return mknum(self.t)

    @property
    def imag(self):
        return mkreal(tm.const(0)) if self.t.sort == "R" else 0

    def conjugate(self):
        return mknum(self.t)

    def is_integer(self):
        return mkbool(tm.eq(tm.toreal(tm.fun("floor", self.t, sort="I")), self.t))

    def __repr__(self):
        return num_text(self.t, "repr")

    __str__ = __repr__

    def __format__(self, spec):
        if spec == "":
            return _bstr(num_text(self.t, "repr"))
        return format_num(self, spec)


class FloatMeta(type):
    def __instancecheck__(cls, obj):
        if cls is SReal:
            return type.__instancecheck__(cls, obj) or type(obj) is _bfloat or isinstance(obj, _bfloat)
        return type.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is SReal and sub is _bfloat:
            return True
        return type.__subclasscheck__(cls, sub)

    def __call__(cls, *args, **kw):
        if cls is SReal and len(args) == 1 and type(args[0]) is _bstr and args[0].strip().lower() in (
                "inf", "+inf", "-inf"):
            return _bfloat(args[0])
        return type.__call__(cls, *args, **kw)


class SReal(SNum, metaclass=FloatMeta):
    """stands in for ``float`` in the verified modules"""

    def __new__(cls, x=0):
        r = object.__new__(cls)
        r.t = tm.toreal(real_of(x))
        return r

    def __init__(self, *a):
        pass

    @classmethod
    def fromhex(cls, s):
        raise Unsupported("float.fromhex")


class IntMeta(type):
    def __instancecheck__(cls, obj):
        if cls is SInt:
            return type.__instancecheck__(cls, obj) or _bint.__instancecheck__(obj) if False else (
                isinstance_b(obj, _bint) or type.__instancecheck__(cls, obj))
        return type.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is SInt and sub in (_bint, bool):
            return True
        return type.__subclasscheck__(cls, sub)

    def __call__(cls, *args, **kw):
        if cls is SInt:
            return int_call(*args, **kw)
        return type.__call__(cls, *args, **kw)


isinstance_b = builtins.isinstance


class SInt(SNum, metaclass=IntMeta):
    """stands in for ``int`` in the verified modules"""

    def __index__(self):
        return Ctx.cur.concretize(self.t)

    def __lshift__(self, o):
        if not isinstance_b(o, _bint):
            return NotImplemented
        return mkint(tm.mul(self.t, tm.const(2 ** o, "I")))

    def __rshift__(self, o):
        if not isinstance_b(o, _bint):
            return NotImplemented
        return mkint(s_idiv(self.t, tm.const(2 ** o, "I")))

    def __and__(self, o):
        return bit_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bit_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bit_xor(self, o)

    __rxor__ = __xor__

    def __invert__(self):
        return mkint(tm.sub(tm.const(-1, "I"), self.t))

    @property
    def numerator(self):
        return self


def split_mask(m):
    """mask constant -> list of (lo, hi) runs of ones [lo,hi)"""
    runs = []
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            runs.append((i, j))
            i = j
        else:
            i += 1
    return runs


def bits(t, lo, hi):
    """((t >> lo) mod 2^(hi-lo)) * 2^lo ; python semantics for negative t as well"""
    u = t if lo == 0 else s_idiv(t, tm.const(2 ** lo, "I"))
    u = s_imod(u, tm.const(2 ** (hi - lo), "I"))
    return tm.mul(u, tm.const(2 ** lo, "I"))


def bit_and(a, b):
    if not isinstance_b(b, (_bint, SInt)):
        return NotImplemented
    if type(b) is SInt:
        raise Unsupported("symbolic & symbolic")
    if b >= 0:
        r = tm.const(0, "I")
        for lo, hi in split_mask(b):
            r = tm.add(r, bits(a.t, lo, hi))
        return mkint(relin(r))
    # a & b = a - (a & ~b)
    r = a.t
    for lo, hi in split_mask(~b):
        r = tm.sub(r, bits(a.t, lo, hi))
    return mkint(relin(r))


def bit_xor(a, b):
    if not isinstance_b(b, (_bint, SInt)):
        return NotImplemented
    ta, tb = a.t, tot(b)
    if isinstance_b(b, _bint):
        if b < 0:       # a ^ b = ~(a ^ ~b)
            return ~bit_xor(a, ~b)
        # a ^ m = a + m - 2 (a & m)
        r = tm.add(ta, tb)
        for lo, hi in split_mask(b):
            r = tm.sub(r, tm.mul(tm.const(2, "I"), bits(ta, lo, hi)))
        return mkint(relin(r))
    # of two unknowns: what is needed to compare them - which of the usual low parts of the two agree, and the range
    c = Ctx.cur
    z = c.fresh("xor", "I")
    zero = tm.const(0, "I")
    same = lambda p, q: tm.bor(tm.band(p, q), tm.band(tm.bnot(p), tm.bnot(q)))
    c.assume(same(tm.eq(z, zero), tm.eq(ta, tb)))
    for k in (8, 16, 24, 32):
        m = tm.const(2 ** k, "I")
        c.assume(same(tm.eq(s_imod(z, m), zero), tm.eq(s_imod(ta, m), s_imod(tb, m))))
    top = tm.const(2 ** 32, "I")
    if all(solve.prove(c.pc, tm.band(tm.le(zero, x), tm.lt(x, top))).status == "proved" for x in (ta, tb)):
        c.assume(tm.le(zero, z))
        c.assume(tm.lt(z, top))
    return mkint(z)


def relin(t):
    co, k = lin_of(t)
    return of_lin(co, k)


def _lsb_pow(t):
    """largest k<=64 such that 2^k divides every coefficient syntactically"""
    cs = []
    for u in (t.args if t.op == "add" else (t,)):
        if u.op == "const":
            cs.append(_bint(u.val))
        elif u.op == "mul":
            c = [x for x in u.args if x.op == "const"]
            cs.append(_bint(c[0].val) if c else 1)
        else:
            cs.append(1)
    k = 64
    for c in cs:
        if c == 0:
            continue
        j = 0
        while c % 2 == 0:
            c //= 2
            j += 1
        k = min(k, j)
    return k


def bit_or(a, b):
    if not isinstance_b(b, (_bint, SInt)):
        return NotImplemented
    ta, tb = a.t, tot(b)
    r = _or_fields(ta, tb)
    if r is not None:
        return mkint(relin(r))
    if isinstance_b(b, _bint) and b >= 0:
        # a | m = a + m - (a & m)
        r = tm.add(ta, tb)
        for lo, hi in split_mask(b):
            r = tm.sub(r, bits(ta, lo, hi))
        return mkint(relin(r))
    # general: bitwise on at most 8 bits when both in range
    c = Ctx.cur
    rng = [tm.le(tm.const(0, "I"), z) for z in (ta, tb)] + [tm.lt(z, tm.const(256, "I")) for z in (ta, tb)]
    if solve.prove(c.pc, tm.band(*rng)).status == "proved":
        r = tm.const(0, "I")
        for i in range(8):
            x, y = bits(ta, i, i + 1), bits(tb, i, i + 1)
            r = tm.add(r, tm.minmax("max", [x, y]))
        return mkint(r)
    raise Unsupported("symbolic | symbolic")


def _or_fields(x, y):
    """x | y when, cut at the byte boundaries, one of the two is zero in every field"""
    c = Ctx.cur
    if x.op == "const" and x.val == 0:
        return y
    if y.op == "const" and y.val == 0:
        return x
    cuts = sorted({2 ** k for k in (_lsb_pow(x), _lsb_pow(y)) if 0 < k < 64})
    for m in cuts:
        sx, sy = int_split(x, m), int_split(y, m)
        if not sx or not sy:
            continue
        ok = True
        for H, R in (sx, sy):
            lo, hi = c.range(R)
            ok = ok and lo is not None and hi is not None and lo >= 0 and hi < m
        if not ok:
            if _lsb_pow(x) and 2 ** _lsb_pow(x) == m:
                u = y
            else:
                u = x
            g = tm.band(tm.le(tm.const(0, "I"), u), tm.lt(u, tm.const(m, "I")))
            if solve.prove(c.pc, g).status == "proved":
                return tm.add(x, y)
            continue
        low = _or_fields(sx[1], sy[1])
        if low is None:
            continue
        high = _or_fields(sx[0], sy[0])
        if high is None:
            continue
        return tm.add(low, tm.mul(high, tm.const(m, "I")))
    return None


_dec = _re.compile(r"\s*[-+]?(\d+(_\d+)*)?(\.(\d+(_\d+)*)?)?([eE][-+]?\d+)?\s*\Z")


def has_atom(s):
    for ch in s:
        if ch >= "\U00100000":
            return True
    return False


def parse_real(s):
    if type(s) is NumStr:
        return s.atom.value()
    s2 = s.strip()
    if has_atom(s2):
        sign = 1
        body = s2
        if body[:1] in "+-" and len(body) == 2:
            # a sign in front of a number text: only a number if that text is itself unsigned
            raise Unsupported("sign before symbolic number text")
        if len(body) == 1:
            a = Ctx.cur.atoms[ord(body) - 0x100000]
            return a.value()
        raise Unsupported("number text %r" % s)
    low = s2.lower().lstrip("+-")
    if low in ("inf", "infinity", "nan"):
        raise Unsupported("non-finite number text")
    if _dec.match(s2) and any(c.isdigit() for c in s2):
        try:
            _bfloat(s2)
            return tm.const(Fraction(s2.replace("_", "")))
        except ValueError:
            pass
    raise ValueError("could not convert string to float: %r" % (s,))


def real_of(x):
    if isinstance_b(x, SNum):
        return x.t
    if isinstance_b(x, (_bint, _bfloat)):
        return tot(x)
    if isinstance_b(x, _bstr):
        return parse_real(x)
    f = getattr(type(x), "__float__", None)
    if f is not None:
        v = f(x)
        if not isinstance_b(v, (SReal, _bfloat)):
            raise TypeError("__float__ returned non-float")
        return tot(v)
    raise TypeError("float() argument must be a string or a real number, not '%s'" % type(x).__name__)


def int_fun(op, t):
    """floor / ceil / trunc / round, folded when the argument is already an integer or has one value"""
    if t.sort == "I":
        return t
    co, k = lin_of(t)
    if k.denominator == 1 and all(q.denominator == 1 and u.sort == "I" for u, q in co.items()):
        return of_lin(co, k)
    lo, hi = Ctx.cur.range(t)
    if lo is not None and hi is not None:
        a, b = tm._fold(op, [lo]), tm._fold(op, [hi])
        if a == b:
            return tm.const(a, "I")
    if op == "trunc" and lo is not None and lo >= 0:
        op = "floor"
    if op == "trunc" and hi is not None and hi <= 0:
        op = "ceil"
    if op in ("floor", "ceil", "round"):
        # an integer part moves out (an even one for round, whose ties go to even)
        g = {u: q for u, q in co.items() if u.sort == "I" and q.denominator == 1 and (op != "round" or q % 2 == 0)}
        if op == "round":
            kk = Fraction(k // 2 * 2)
        else:
            kk = Fraction(k // 1)
        if g or (kk and k != kk):
            r = tm.toreal(of_lin({u: q for u, q in co.items() if u not in g}, k - kk))
            return tm.add(of_lin(g, kk), int_fun(op, r))
    if op in ("floor", "ceil"):
        for k in Ctx.cur.notes.get("ints", ()):
            # a hint from the contract: is this the value?
            a, b = (tm.le(tm.const(k), t), tm.lt(t, tm.const(k + 1))) if op == "floor" else (
                tm.lt(tm.const(k - 1), t), tm.le(t, tm.const(k)))
            g = tm.band(a, b)
            if solve.prove(Ctx.cur.pc, g).status == "proved":
                return tm.const(k, "I")
    return tm.fun(op, t, sort="I")


def sign_reduce(t):
    """(k, u) with sign(t) = k * sign(u): factors of known sign, even powers in denominators and roots in denominators
    are dropped (a denominator is non-zero wherever t is defined)"""
    try:
        r = tm.nf(t)
    except tm.TooBig:
        return 1, t
    if not r.n:
        return 1, tm.const(0)
    c = Ctx.cur
    k = 1
    keep = []

    def factor(u, e, den, op=None):
        nonlocal k
        lo, hi = c.range(u)
        if lo is not None and lo > 0:
            return
        if hi is not None and hi < 0:
            k = -k if e % 2 else k
            return
        if den and (e % 2 == 0 or op in ("sqrt", "abs")):
            return
        keep.append(u if e % 2 else tm.mul(u, u))

    def poly(p, e, den):
        nonlocal k
        com = None
        for m in p:
            d = dict(m)
            com = d if com is None else {a: min(x, d[a]) for a, x in com.items() if a in d}
        rest = {}
        for m, q in p.items():
            d = dict(m)
            for a, x in com.items():
                d[a] -= x
            rest[tuple(sorted((a, x) for a, x in d.items() if x))] = q
        for a, x in com.items():
            u = tm.atom_to_term(a)
            if u is None:
                return False
            factor(u, x * e, den, tm._atom_info[a][0])
        if len(rest) == 1:
            q = next(iter(rest.values()))
            k = k * (-1 if q < 0 and e % 2 else 1)
            return True
        u = tm.poly_to_term(rest)
        if u is None:
            return False
        factor(u, e, den)
        return True
    if not poly(r.n, 1, False):
        return 1, t
    for key, e in r.d:
        if not poly(dict(key), e, True):
            return 1, t
    return k, tm.mul(*keep) if keep else tm.const(1)


def sign_of(t, ms=400):
    """+1 / -1 when the path condition settles the strict sign of t (0 identically zero), else None"""
    k, u = sign_reduce(t)
    if u.op == "const":
        return k if u.val > 0 else 0 if u.val == 0 else -k
    s = sign_of_(u, ms)
    return s if s is None else k * s


def sign_of_(t, ms=400):
    c = Ctx.cur
    lo, hi = c.range(t)
    if lo is not None and lo > 0:
        return 1
    if hi is not None and hi < 0:
        return -1
    if tm.is_zero(t):
        return 0
    z = tm.const(0)
    for g, s in ((tm.le(t, z), 1), (tm.le(z, t), -1)):
        key = ("sign", frozenset(p.id for p in c.pc), g.id)
        r = c.feas.get(key)
        if r is None:
            rel = solve._relevant(c.pc, g)
            if solve.linear_unsat(rel, g):
                r = False
            else:
                n = c.hard.get(g.id, 0)
                st, m, e = solve.check(rel, g, ms if n < 2 else 40)
                r = st != "unsat"
                if st == "unknown":
                    c.hard[g.id] = n + 1
            c.feas[key] = r
        if not r:
            return s
    return None


def sqrt_term(t):
    """a simpler term equal to sqrt(t) when t >= 0 holds by its form: even monomials come out of the root"""
    if Ctx.cur is None:
        return None
    try:
        r = tm.nf(t)
    except tm.TooBig:
        return None
    if not r.n or len(r.n) > 40:
        return tm.const(0) if not r.n else None
    com = None
    for m in r.n:
        d = dict(m)
        com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
    out = {a: e // 2 for a, e in com.items() if e >= 2}
    if any(e % 2 for k, e in r.d):
        return None
    if not out and not r.d and tm.poly_sqrt(r.n) is None:
        return None
    mono = {tuple(sorted((a, 2 * e) for a, e in out.items())): Fraction(1)}
    rest = tm._exact_div(r.n, mono) if out else r.n
    if len(rest) == 1 and () in rest:
        v = tm._isqrt_frac(rest[()])
        if v is None:
            if rest[()] < 0:
                return None
            root = tm.fun("sqrt", tm.const(rest[()]))
        else:
            root = tm.const(v)
    elif tm.poly_sqrt(rest) is not None:
        root = tm.poly_to_term(tm.poly_sqrt(rest))
        if root is None:
            return None
        sg = sign_of(root)
        if sg is None:
            sg = 1 if Ctx.cur.branch(tm.le(tm.const(0), root)) else -1
        if sg < 0:
            root = tm.neg(root)
    else:
        q = tm.poly_to_term(rest)
        if q is None:
            return None
        # the remaining root must exist: leave the domain check to the caller unless it is clearly a square sum
        lo, hi = Ctx.cur.range(q)
        if (lo is None or lo < 0) and Ctx.cur.branch(tm.lt(q, tm.const(0))):
            return None
        root = tm.fun("sqrt", q)
    for a, e in sorted(out.items()):
        u = tm.atom_to_term(a)
        if u is None:
            return None
        u = tm.powi(u, e)
        root = tm.mul(root, signed_abs(u))
    for k, e in r.d:
        u = tm.poly_to_term(dict(k))
        if u is None:
            return None
        root = tm.div(root, signed_abs(tm.powi(u, e // 2)))
    return root


def signed_abs(u):
    s = sign_of(u)
    return u if s in (0, 1) else tm.neg(u) if s == -1 else tm.absv(u)


def polar_angle(y, x):
    """atan2(y, x) for a point written as (r cos th, r sin th): th less whole turns, within (-tau/2, tau/2]"""
    try:
        ry, rx = tm.nf(y), tm.nf(x)
    except tm.TooBig:
        return None
    if len(ry.n) > 60 or len(rx.n) > 60:
        return None
    c = Ctx.cur
    half = tm.mul(tm.TAU, tm.const(Fraction(1, 2)))
    if not ry.n or not rx.n:
        # on an axis
        u = x if not ry.n else y
        pos, neg = (tm.const(0), half) if not ry.n else (tm.mul(half, tm.const(Fraction(1, 2))),
                                                         tm.mul(half, tm.const(Fraction(-1, 2))))
        u = tm.rf_to_term(rx if not ry.n else ry) or u
        sg = sign_of(u)
        if sg is None:
            sg = 0 if c.branch(tm.eq(u, tm.const(0))) else 1 if c.branch(tm.lt(tm.const(0), u)) else -1
        return tm.const(0) if sg == 0 else pos if sg > 0 else neg
    cand = []
    for r in (ry, rx):
        for m in r.n:
            for a, e in m:
                op, args, _ = tm._atom_info[a]
                if op in ("sin", "cos") and args[0].key() not in [z.key() for z in cand]:
                    cand.append(args[0])
    ths = [z for z in [tm.rf_to_term(base) for base in cand[:6]] if z is not None]
    ths = [tm.mul(tm.const(k), z) for z in ths for k in (1, 2)] + [
        g(u, v) for i, u in enumerate(ths[:4]) for v in ths[i + 1:4] for g in (tm.add, tm.sub)]
    if ths:
        for th in ths:
            s, co = tm.fun("sin", th), tm.fun("cos", th)
            w = tm.sub(tm.mul(y, co), tm.mul(x, s))
            if not tm.is_zero(w):
                continue
            r = tm.add(tm.mul(x, co), tm.mul(y, s))
            n = tm.nf(r)
            r2 = tm.rf_to_term(n)
            r = r2 if r2 is not None else r
            sg = sign_of(r)
            if sg is None:
                k0, u = sign_reduce(r)
                if c.branch(tm.eq(u, tm.const(0))):
                    return tm.const(0)
                sg = k0 if c.branch(tm.lt(tm.const(0), u)) else -k0
            if sg == 0:
                return tm.const(0)
            if sg < 0:
                th = tm.add(th, half)
            return wrap_half(th)
    return None


def acos_of_cos(t):
    """acos(cos th): th less whole turns, made non-negative; None when t is not a cosine"""
    try:
        r = tm.nf(t)
    except tm.TooBig:
        return None
    if r.d or not r.n or len(r.n) > 30:
        return None
    cand = []
    for m in r.n:
        for a, e in m:
            op, args, _ = tm._atom_info[a]
            if op in ("sin", "cos") and args[0].key() not in [x.key() for x in cand]:
                cand.append(args[0])
    c = Ctx.cur
    for base in cand[:4]:
        th0 = tm.rf_to_term(base)
        if th0 is None:
            continue
        for k in (1, 2, 4):
            th = tm.mul(tm.const(k), th0)
            if tm.nf_equal(tm.fun("cos", th), t):
                w = turn_near(th)
                return w if c.branch(tm.le(tm.const(0), w)) else tm.neg(w)
    return None


def turn_near(th):
    """th less a whole number of turns within (-tau/2, tau/2]; the number is found when it is settled"""
    c = Ctx.cur
    half = tm.mul(TAU, tm.const(Fraction(1, 2)))
    for k in (0, 1, -1):
        v = tm.sub(th, tm.mul(TAU, tm.const(k)))
        g = tm.bor(tm.lt(half, v), tm.le(v, tm.neg(half)))
        st, m, e = solve.check(solve._relevant(c.pc, g), g, 400)
        if st == "unsat":
            return v
    return wrap_half(th)


def wrap_half(th):
    """th - tau*K for the integer K that brings it into (-tau/2, tau/2]"""
    c = Ctx.cur
    memo = c.notes.setdefault("wrap", {})
    half = tm.mul(tm.TAU, tm.const(Fraction(1, 2)))
    key = th.id
    if key in memo:
        return memo[key]
    lo, hi = c.range(th)
    H = Fraction("3.14159265358979")
    if lo is not None and hi is not None and lo > -H and hi < H:
        memo[key] = th
        return th
    # whole turns already taken out do not matter
    K = c.fresh("turns", "I")
    v = tm.sub(th, tm.mul(tm.TAU, K))
    c.assume(tm.le(v, half))
    c.assume(tm.lt(tm.neg(half), v))
    c.bounds[v.id] = (Fraction("-3.14159265358979324"), Fraction("3.14159265358979324"))
    if c.notes.get("quadrants"):
        quadrant_facts(v, th)
    memo[key] = v
    return v


def quadrant_facts(v, th):
    """signs of sin and cos of th from v, which equals th up to whole turns and lies in (-tau/2, tau/2]"""
    c = Ctx.cur
    half = tm.mul(tm.TAU, tm.const(Fraction(1, 2)))
    if True:
        q = lambda a, b: tm.mul(TAU, tm.const(Fraction(a, b)))
        z = tm.const(0)
        (ks, s), (kc, co) = sign_reduce(tm.fun("sin", th)), sign_reduce(tm.fun("cos", th))
        s = tm.neg(s) if ks < 0 else s
        co = tm.neg(co) if kc < 0 else co
        c.assume(tm.eq(tm.band(tm.lt(q(-1, 4), v), tm.lt(v, q(1, 4))), tm.lt(z, co)))
        c.assume(tm.eq(tm.bor(tm.eq(q(-1, 4), v), tm.eq(v, q(1, 4))), tm.eq(z, co)))
        c.assume(tm.eq(tm.band(tm.lt(z, v), tm.lt(v, half)), tm.lt(z, s)))
        c.assume(tm.eq(tm.bor(tm.eq(z, v), tm.eq(v, half)), tm.eq(z, s)))


def to_int(x):
    return mkint(int_fun("trunc", x.t))


def int_call(x=0, base=None):
    if base is not None:
        if isinstance_b(x, _bstr) and has_atom(x):
            return parse_int_atoms(x, base)
        return _bint(x, base)
    if isinstance_b(x, SNum):
        return to_int(x)
    if isinstance_b(x, _bstr):
        if has_atom(x):
            return parse_int_atoms(x, 10)
        return _bint(x)
    if isinstance_b(x, (_bint, _bfloat)):
        return _bint(x)
    f = getattr(type(x), "__int__", None)
    if f is not None:
        return f(x)
    return _bint(x)


def parse_int_atoms(x, base):
    c = Ctx.cur
    if base == 16:
        v = tm.const(0, "I")
        for ch in x.strip():
            if ch >= "\U00100000":
                a = c.atoms[ord(ch) - 0x100000]
                if a.fmt != "hexdigit":
                    raise Unsupported("hex text with number atom")
                d = a.t
            else:
                d = tm.const(_bint(ch, 16), "I")
            v = tm.add(tm.mul(v, tm.const(16, "I")), d)
        return mkint(v)
    if base == 10:
        s = x.strip()
        if len(s) == 1:
            a = c.atoms[ord(s) - 0x100000]
            if a.t.sort == "I" and a.fmt in ("repr", "d"):
                return mkint(a.t)
    raise Unsupported("int() of symbolic text")


def num_div(a, b):
    if infinite(b) and not infinite(a):
        return mkreal(tm.const(0))
    ta, tb = tot(a), tot(b)
    if tb.op == "const":
        if tb.val == 0:
            raise ZeroDivisionError("division by zero")
        return mkreal(tm.div(ta, tb))
    if Ctx.cur.branch(tm.eq(tb, tm.const(0))):
        raise ZeroDivisionError("division by zero")
    if ta is tb:
        return mkreal(tm.const(1))
    if ta.op == "mul" and tb in ta.args:
        k = list(ta.args)
        k.remove(tb)
        return mkreal(tm.mul(*k))
    return mkreal(tm.div(ta, tb))


def num_floordiv(a, b):
    ta, tb = tot(a), tot(b)
    if tb.op == "const":
        if tb.val == 0:
            raise ZeroDivisionError
    elif Ctx.cur.branch(tm.eq(tb, tm.const(0))):
        raise ZeroDivisionError
    if ta.sort == "I" and tb.sort == "I":
        return mkint(s_idiv(ta, tb))
    return mkreal(tm.toreal(int_fun("floor", tm.toreal(tm.div(ta, tb)))))


def num_mod(a, b):
    ta, tb = tot(a), tot(b)
    if tb.op == "const":
        if tb.val == 0:
            raise ZeroDivisionError
    elif Ctx.cur.branch(tm.eq(tb, tm.const(0))):
        raise ZeroDivisionError
    if ta.sort == "I" and tb.sort == "I":
        return mkint(s_imod(ta, tb))
    if ta.op == "abs":
        u = ta.args[0]
        ta = u if Ctx.cur.branch(tm.le(tm.const(0), u)) else tm.neg(u)
    if tb is TAU:
        return mkreal(mod_turn(ta))
    k = int_fun("floor", tm.toreal(tm.div(ta, tb)))
    return mkreal(tm.sub(ta, tm.mul(tb, k)))


def mod_turn(x):
    """x mod tau, with what the quadrant of the result says about sine and cosine"""
    co, k0 = lin_of(x)
    whole = {}
    rest = []
    for u, q in co.items():
        v = None
        if u is TAU:
            v = tm.const(q)
        elif u.op == "mul" and TAU in u.args and u.args.count(TAU) == 1 and q.denominator == 1:
            o = list(u.args)
            o.remove(TAU)
            if all(a.sort == "I" or a.op == "toreal" for a in o):
                whole[u] = q
                continue
        rest.append(tm.mul(tm.const(q), u))
    y = tm.add(tm.const(k0), *rest)          # x less whole turns
    c = Ctx.cur
    r = tm.nf(y)
    if not r.d and all(tm._is_tau_mono(m) for m in r.n):
        f = sum(r.n.values(), Fraction(0))
        return tm.mul(TAU, tm.const(f - f // 1))
    memo = c.notes.setdefault("mod", {})
    if y.id in memo:
        return memo[y.id]
    lo, hi = c.range(y)
    if lo is not None and hi is not None and lo >= 0 and hi < Fraction("6.2831853"):
        E = y
    elif lo is not None and hi is not None and lo >= Fraction("-6.2831853") and hi < 0:
        E = tm.add(y, TAU)
    else:
        k = int_fun("floor", tm.toreal(tm.div(y, TAU)))
        E = tm.sub(y, tm.mul(TAU, k))
        c.assume(tm.le(tm.const(0), E))
        c.assume(tm.lt(E, TAU))
        c.bounds[E.id] = (Fraction(0), Fraction("6.283185307179587"))
    if c.notes.get("quadrants"):
        q = lambda a, b: tm.mul(TAU, tm.const(Fraction(a, b)))
        z = tm.const(0)
        (ks, s), (kc, co) = sign_reduce(tm.fun("sin", y)), sign_reduce(tm.fun("cos", y))
        s = tm.neg(s) if ks < 0 else s
        co = tm.neg(co) if kc < 0 else co
        c.assume(tm.eq(tm.bor(tm.lt(E, q(1, 4)), tm.lt(q(3, 4), E)), tm.lt(z, co)))
        c.assume(tm.eq(tm.bor(tm.eq(E, q(1, 4)), tm.eq(q(3, 4), E)), tm.eq(z, co)))
        c.assume(tm.eq(tm.band(tm.lt(z, E), tm.lt(E, q(1, 2))), tm.lt(z, s)))
        c.assume(tm.eq(tm.bor(tm.eq(E, z), tm.eq(q(1, 2), E)), tm.eq(z, s)))
    memo[y.id] = E
    return E


def root_below(x, k):
    """a multiple of 2^-40 at most the k-th root of x and less than 2^-40 below it"""
    y = Fraction(x) * 2 ** (40 * k)
    y = y.numerator // y.denominator
    lo, hi = 0, 1
    while hi ** k <= y:
        hi *= 2
    while hi - lo > 1:
        m = (lo + hi) // 2
        lo, hi = (m, hi) if m ** k <= y else (lo, m)
    return Fraction(lo, 2 ** 40)


def num_pow(a, b):
    ta, tb = tot(a), tot(b)
    if tb.op == "const":
        e = tb.val
        if e.denominator == 1:
            n = _bint(e)
            isint = ta.sort == "I" and tb.sort == "I"
            if n >= 0:
                r = tm.powi(ta, n)
                return mknum(r) if isint else mkreal(r)
            if ta.op != "const" and Ctx.cur.branch(tm.eq(ta, tm.const(0))):
                raise ZeroDivisionError
            if ta.op == "const" and ta.val == 0:
                raise ZeroDivisionError
            return mkreal(tm.div(tm.const(1), tm.powi(ta, -n)))
        if e in (Fraction(1, 2), Fraction(3, 2), Fraction(-1, 2)):
            if ta.op != "const":
                if Ctx.cur.branch(tm.lt(ta, tm.const(0))):
                    raise Unsupported("fractional power of a negative number")
            elif ta.val < 0:
                raise Unsupported("fractional power of a negative number")
            r = tm.fun("sqrt", tm.toreal(ta))
            if e == Fraction(3, 2):
                r = tm.mul(r, tm.toreal(ta))
            if e < 0:
                return num_div(1, mkreal(r))
            return mkreal(r)
        if e.numerator == 1 and e.denominator in (3, 4, 5):
            # a root on doubles: some real whose power is the radicand to within the rounding of the operation
            if ta.op == "const" and ta.val < 0 or Ctx.cur.branch(tm.lt(ta, tm.const(0))):
                raise Unsupported("fractional power of a negative number")
            r = Ctx.cur.fresh("root", "R")
            x = tm.toreal(ta)
            p = tm.powi(r, _bint(e.denominator))
            eps = Fraction(1, 2 ** 49)
            lo, hi = Ctx.cur.range(ta)
            Ctx.cur.assume(tm.le(tm.const(root_below(max(lo or 0, 0) * (1 - eps), e.denominator)), r))
            if hi is not None:
                Ctx.cur.assume(tm.le(r, tm.const(root_below(hi * (1 + eps), e.denominator) + Fraction(1, 2 ** 40))))
            Ctx.cur.assume(tm.le(tm.mul(tm.const(1 - eps), x), p))
            Ctx.cur.assume(tm.le(p, tm.mul(tm.const(1 + eps), x)))
            return mkreal(r)
    raise Unsupported("power %r ** %r" % (ta, tb))


# ================================================================ numeric text
class Atom:
    __slots__ = ("t", "fmt", "dot", "exp", "ch")

    def __init__(self, t, fmt, dot, exp, ch):
        self.t, self.fmt, self.dot, self.exp, self.ch = t, fmt, dot, exp, ch

    def value(self):
        if self.fmt in ("repr", "d", "exact"):
            return self.t
        if self.fmt == "hexdigit":
            raise Unsupported("number value of a hex digit")
        return fmt_value(self.t, self.fmt)


def fmt_value(t, fmt):
    """the real denoted by the text of t under format fmt (an uninterpreted rounding with its error bound)"""
    v = tm.mk("fmt", (t,), "R", fmt)
    c = Ctx.cur
    kind, p = fmt[-1], _bint(_re.search(r"\.(\d+)", fmt).group(1)) if "." in fmt else 6
    if kind in "fF":
        e = tm.const(Fraction(1, 2 * 10 ** p))
        c.assume(tm.le(tm.sub(v, t), e))
        c.assume(tm.le(tm.sub(t, v), e))
    elif kind in "gGeE":
        q = p if kind in "eE" else max(p, 1) - 1
        e = tm.mul(tm.const(Fraction(1, 2 * 10 ** q)), tm.absv(t))
        c.assume(tm.le(tm.sub(v, t), e))
        c.assume(tm.le(tm.sub(t, v), e))
    else:
        raise Unsupported("format %r" % fmt)
    return v


class NumStr(str):
    """text that is exactly one formatted symbolic number"""
    def __new__(cls, atom):
        s = str.__new__(cls, atom.ch)
        s.atom = atom
        return s

    def __contains__(self, x):
        a = self.atom
        if x == ".":
            has(a)
            if a.dot is None:
                raise Unsupported("'.' in %s text" % a.fmt)
            return a.dot
        if x in ("E", "e"):
            has(a)
            if a.exp is None:
                raise Unsupported("'E' in %s text" % a.fmt)
            return bool(a.exp) and (x == "E") == (a.fmt[-1] in "GE")
        raise Unsupported("%r in number text" % (x,))

    def rstrip(self, chars=None):
        a = self.atom
        if chars is None:
            return self
        if set(chars) <= set(" \t\r\n"):
            return self
        if set(chars) == {"0"}:
            has(a)
            if a.dot and not a.exp:
                return NumStr(new_atom(a.t, a.fmt, a.dot, a.exp, "z"))
            return NumStr(corrupt(a))
        if set(chars) == {"."}:
            return NumStr(new_atom(a.t, a.fmt, None, a.exp, "s"))
        if set(chars) == {"0", "."}:
            return NumStr(corrupt(a))
        raise Unsupported("rstrip(%r) on number text" % chars)

    def strip(self, chars=None):
        if chars is None:
            return self
        raise Unsupported("strip on number text")

    def lower(self):
        return self

    upper = lower

    def _no(self, *a, **k):
        raise Unsupported("string operation on number text")

    def endswith(self, x, *a):
        if isinstance_b(x, tuple):
            return any([self.endswith(y) for y in x])
        if x == "":
            return True
        if set(x) - set("0123456789+-.eE"):
            return False
        raise Unsupported("affix of number text")

    startswith = endswith
    split = partition = rpartition = replace = find = index = lstrip = count = _no
    rsplit = zfill = _no

    def __getitem__(self, i):
        raise Unsupported("indexing number text")

    def __bool__(self):
        return True

    def __len__(self):
        raise Unsupported("length of number text")

    def __eq__(self, o):
        if isinstance_b(o, _bstr) and _bstr.__eq__(o, self.atom.ch) is True:
            return True
        if isinstance_b(o, NumStr):
            raise Unsupported("comparing number texts")
        if isinstance_b(o, _bstr):
            try:
                v = parse_real(o)
            except ValueError:
                return False
            raise Unsupported("comparing number text with %r" % o)
        return NotImplemented

    def __ne__(self, o):
        return not self == o

    __hash__ = str.__hash__


def has(a):
    """settle whether the text has an exponent and a point"""
    if a.exp == "?":
        a_exp = bool(mkbool(tm.var("hasexp!%d!%s" % (a.t.id, a.fmt), "B")))
        a.exp = a_exp
    if a.dot == "?":
        a.dot = bool(mkbool(tm.var("hasdot!%d!%s" % (a.t.id, a.fmt), "B")))


def new_atom(t, fmt, dot, exp, tag=""):
    c = Ctx.cur
    key = (t.id, fmt, dot, exp, tag)
    i = c.atom_ix.get(key)
    if i is None:
        i = len(c.atoms)
        if i > 0xFFF0:
            raise Unsupported("too many text atoms")
        c.atom_ix[key] = i
        c.atoms.append(Atom(t, fmt, dot, exp, chr(0x100000 + i)))
    return c.atoms[i]


def corrupt(a):
    t = Ctx.cur.fresh("corrupt")
    return new_atom(t, "exact", None, None)


def num_text(t, fmt):
    if t.op == "const":
        v = t.val
        if fmt == "repr":
            if t.sort == "I":
                return _bstr(_bint(v))
            return repr(_bfloat(v))
        return ("%" + fmt) % _bfloat(v)
    dot = exp = None
    c = Ctx.cur
    kind = fmt[-1]
    if fmt == "repr":
        pass
    elif kind in "fF":
        p = _bint(_re.search(r"\.(\d+)", fmt).group(1)) if "." in fmt else 6
        dot, exp = p > 0, False
    elif kind in "gGeE":
        exp = dot = "?"                  # decided only if the code looks
    return NumStr(new_atom(t, fmt, dot, exp))


def format_num(x, spec):
    m = _re.fullmatch(r"(\d*)(\.\d+)?([fFgGeE])", spec)
    if m:
        return num_text(tot(x), (m.group(2) or "") + m.group(3))
    if spec == "d" or spec == "i":
        return num_text(to_int(x).t if isinstance_b(x, SNum) else tot(x), "d")
    m = _re.fullmatch(r"0?(\d*)([xX])", spec)
    if m:
        return hex_text(tot(x), _bint(m.group(1) or 1), m.group(2))
    raise Unsupported("format spec %r" % spec)


def hex_text(t, width, kind):
    if t.op == "const":
        return ("%0" + _bstr(width) + kind) % _bint(t.val)
    c = Ctx.cur
    lim = tm.const(16 ** width, "I")
    g = tm.band(tm.le(tm.const(0, "I"), t), tm.lt(t, lim))
    if solve.prove(c.pc, g).status != "proved":
        raise Unsupported("hex text of an unbounded value")
    out = ""
    for i in reversed(range(width)):
        d = s_imod(s_idiv(t, tm.const(16 ** i, "I")), tm.const(16, "I"))
        if d.op == "const":
            out += "%x" % _bint(d.val)
        else:
            out += new_atom(d, "hexdigit", None, None).ch
    return out


_fmt = _re.compile(r"%(?:%|([-+ #0]*)(\d*|\*)(\.\d+)?([a-zA-Z]))")


def vc_mod(l, r):
    """``l % r`` with string formatting of symbolic numbers"""
    if not isinstance_b(l, _bstr):
        return l % r
    args = r if isinstance_b(r, tuple) else (r,)
    if isinstance_b(r, dict):
        return l % r
    if not any(isinstance_b(a, (SNum,)) for a in args):
        # may still contain objects whose str() carries atoms: ordinary formatting is enough
        if "%s" not in l and "%d" not in l and any(isinstance_b(a, _bfloat) for a in args):
            return l % r
        return l % r
    parts = []
    pos = 0
    ai = 0
    for m in _fmt.finditer(l):
        parts.append(l[pos:m.start()])
        pos = m.end()
        if m.group(0) == "%%":
            parts.append("%")
            continue
        if ai >= len(args):
            raise TypeError("not enough arguments for format string")
        a = args[ai]
        ai += 1
        conv = m.group(4)
        if isinstance_b(a, SNum):
            if conv in "sr":
                parts.append(_bstr(a) if conv == "s" else repr(a))
            elif conv in "di":
                u = to_int(a)
                parts.append(_bstr(u) if isinstance_b(u, _bint) else num_text(u.t, "d"))
            elif conv in "xX":
                w = _bint(m.group(2) or 1)
                if "0" not in (m.group(1) or "") and w > 1:
                    raise Unsupported("space-padded hex")
                parts.append(hex_text(a.t, w, conv))
            else:
                parts.append(num_text(a.t, (m.group(3) or "") + conv))
        else:
            parts.append(m.group(0) % (a,))
    if ai < len(args):
        raise TypeError("not all arguments converted during string formatting")
    parts.append(l[pos:])
    parts = [p for p in parts if _bstr.__len__(p)]
    if len(parts) == 1:
        return parts[0]
    return "".join(_bstr.__str__(p) if type(p) is _bstr else _bstr.__getitem__(p, slice(None)) for p in parts)


# ================================================================ complex
class ComplexMeta(type):
    def __instancecheck__(cls, obj):
        return type.__instancecheck__(cls, obj) or isinstance_b(obj, builtins.complex)

    def __call__(cls, *args):
        return complex_call(*args)


class SComplex(metaclass=ComplexMeta):
    """stands in for ``complex``"""
    __slots__ = ("real", "imag")

    def _of(o):
        if type(o) is SComplex:
            return o.real, o.imag
        if isinstance_b(o, builtins.complex):
            return SReal(o.real), SReal(o.imag)
        if is_num(o):
            return SReal(o), SReal(0)
        return None

    def __add__(self, o):
        p = SComplex._of(o)
        return NotImplemented if p is None else mkc(self.real + p[0], self.imag + p[1])

    __radd__ = __add__

    def __sub__(self, o):
        p = SComplex._of(o)
        return NotImplemented if p is None else mkc(self.real - p[0], self.imag - p[1])

    def __rsub__(self, o):
        p = SComplex._of(o)
        return NotImplemented if p is None else mkc(p[0] - self.real, p[1] - self.imag)

    def __mul__(self, o):
        p = SComplex._of(o)
        if p is None:
            return NotImplemented
        return mkc(self.real * p[0] - self.imag * p[1], self.real * p[1] + self.imag * p[0])

    __rmul__ = __mul__

    def __truediv__(self, o):
        p = SComplex._of(o)
        if p is None:
            return NotImplemented
        d = p[0] * p[0] + p[1] * p[1]
        return mkc((self.real * p[0] + self.imag * p[1]) / d, (self.imag * p[0] - self.real * p[1]) / d)

    def __pow__(self, n):
        if not isinstance_b(n, builtins.int) or isinstance_b(n, builtins.bool) or abs(n) > 16:
            raise Unsupported("complex power")
        r = mkc(1, 0)
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else mkc(1, 0) / r

    def __neg__(self):
        return mkc(-self.real, -self.imag)

    def __abs__(self):
        s = (self.real * self.real + self.imag * self.imag).t
        r = sqrt_term(s)
        return mkreal(tm.fun("sqrt", s) if r is None else r)

    def conjugate(self):
        return mkc(self.real, -self.imag)

    def __eq__(self, o):
        p = SComplex._of(o)
        if p is None:
            return NotImplemented
        return mkbool(tm.band(tob(self.real == p[0]), tob(self.imag == p[1])))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(tm.bnot(tob(r)))

    def __bool__(self):
        return bool(self != 0)

    __hash__ = None

    def __repr__(self):
        return "(%r+%rj)" % (self.real, self.imag)


def mkc(re, im):
    c = object.__new__(SComplex)
    c.real = SReal(re)
    c.imag = SReal(im)
    return c


def complex_call(re=0, im=None):
    if im is None:
        if type(re) is SComplex:
            return re
        if isinstance_b(re, builtins.complex):
            return mkc(re.real, re.imag)
        if is_num(re):
            return mkc(re, 0)
        f = getattr(type(re), "__complex__", None)
        if f is not None:
            v = f(re)
            if is_num(v):
                raise TypeError("__complex__ returned non-complex")
            return v
        if isinstance_b(re, _bstr):
            raise Unsupported("complex text")
        return mkc(SReal(re), 0)
    if isinstance_b(re, (SComplex, builtins.complex)) or isinstance_b(im, (SComplex, builtins.complex)):
        a, b = complex_call(re), complex_call(im)
        return mkc(a.real - b.imag, a.imag + b.real)
    for z in (re, im):
        if isinstance_b(z, _bstr):
            raise TypeError("complex() can't take second arg if first is a string")
    return mkc(SReal(re), SReal(im))
