"""Contracts: the same contract text runs against symbolic values (proof) and plain floats (replay)."""
import math
import random
import types
from fractions import Fraction

from . import term as tm
from . import sym
from .sym import Ctx, SNum, SBool, SReal, SInt, mkreal, mkint, mkbool, tot, tob, Unsupported, Infeasible, has_atom

CONTRACTS = {}


class Contract:
    def __init__(self, fn_name, module, props, funcs, bounded, budget, max_paths, samples, uses, note, numeric, internal,
                 quick, secs):
        self.name = fn_name
        self.module = module
        self.props = props
        self.funcs = funcs
        self.bounded = bounded
        self.budget = budget
        self.max_paths = max_paths
        self.samples = samples
        self.uses = uses
        self.note = note
        self.numeric = numeric
        self.internal = internal
        self.quick = quick
        self.secs = secs


class Reject(BaseException):
    """concrete sample does not satisfy the precondition"""


class Fail(BaseException):
    def __init__(self, label, detail):
        super().__init__("%s: %s" % (label, detail))
        self.label, self.detail = label, detail


def _same_obj_seq(a):
    return isinstance(a, (list, tuple))


class Base:
    """operations shared by both modes"""

    def check_eq(self, label, a, b, tol=None):
        raise NotImplementedError

    def eq(self, label, a, b, tol=None):
        """structural equality: numbers, None, str, bool, sequences, objects with x/y (points)"""
        if a is None or b is None:
            return self.ensure(label, a is None and b is None, "%r vs %r" % (type(a), type(b)))
        if isinstance(a, str) or isinstance(b, str):
            if not (isinstance(a, str) and isinstance(b, str)):
                return self.ensure(label, False, "%r vs %r" % (a, b))
            return self.str_eq(label, a, b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.ensure(label, self.iff(a, b))
        if self.isnum(a) and self.isnum(b):
            return self.num_eq(label, a, b, tol)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return self.ensure(label, False, "lengths %d and %d" % (len(a), len(b)))
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq("%s[%d]" % (label, i), x, y, tol)
            return
        if hasattr(a, "x") and hasattr(a, "y"):
            if not hasattr(b, "x"):
                if self.iscomplex(b):
                    self.num_eq(label + ".x", a.x, b.real, tol)
                    return self.num_eq(label + ".y", a.y, b.imag, tol)
                b = types.SimpleNamespace(x=b[0], y=b[1])
            self.num_eq(label + ".x", a.x, b.x, tol)
            return self.num_eq(label + ".y", a.y, b.y, tol)
        if hasattr(b, "x") and hasattr(b, "y"):
            return self.eq(label, b, a, tol)
        if self.iscomplex(a) and self.iscomplex(b):
            self.num_eq(label + ".re", a.real, b.real, tol)
            return self.num_eq(label + ".im", a.imag, b.imag, tol)
        self.ensure(label, False, "not comparable: %s and %s" % (type(a).__name__, type(b).__name__))

    def raises(self, label, exc, fn):
        try:
            r = fn()
        except exc:
            self.ensure(label, True)
            return
        except Exception as e:
            self.ensure(label, False, "raised %s instead" % type(e).__name__)
            return
        self.ensure(label, False, "returned %s instead of raising" % type(r).__name__)

    def point(self, name, lo=None, hi=None):
        return self.svg.basic.Point(self.real(name + "x", lo, hi), self.real(name + "y", lo, hi))

    def matrix(self, name, lo=None, hi=None):
        return self.svg.basic.Matrix(*[self.real(name + k, lo, hi) for k in "abcdef"])

    def quadrants(self):
        """from here on, reducing an angle modulo one turn also records the signs of its sine and cosine"""

    def _names(self):
        names = {}
        for m in ("nodes", "basic", "path"):
            if hasattr(self.svg, m):
                names.update({k: v for k, v in vars(getattr(self.svg, m)).items() if k[:1].isupper()})
        return names

    def eval(self, text):
        return eval(text, self._names())

    def flat_hash(self):
        """from here on symbolic numbers may be members of sets (all members must be symbolic)"""

    def copy(self, x):
        import copy
        return copy.copy(x)

    def whole(self, *ks):
        """a hint: floors and ceilings taken from here on may have one of these values (checked by the prover)"""

    def mat6(self, m):
        return (m.a, m.b, m.c, m.d, m.e, m.f)


class SymT(Base):
    mode = "sym"

    def __init__(self, svg):
        self.svg = svg
        self.tau = mkreal(tm.TAU)
        m = svg.registry["math"]
        self.sin, self.cos, self.sqrt, self.atan2, self.hypot, self.tan = m.sin, m.cos, m.sqrt, m.atan2, m.hypot, m.tan
        self.floor, self.ceil, self.acos = m.floor, m.ceil, m.acos
        b = svg.builtins
        self.min, self.max = b["min"], b["max"]

    def quadrants(self):
        Ctx.cur.notes["quadrants"] = True

    def flat_hash(self):
        Ctx.cur.notes["flat hash"] = True

    def eval(self, text):
        """the value of an expression printed by repr, in the names of the package (numbers become their values)"""
        names = self._names()
        out, quote = [], None
        for c in str.__str__(text):
            if quote:
                quote = None if c == quote else quote
            elif c in "'\"":
                quote = c
            elif 0x100000 <= ord(c) <= 0x10FFFD:
                n = "number_%d" % len(names)
                names[n] = sym.parse_real(c)
                if not hasattr(names[n], "t"):
                    names[n] = mkreal(names[n])
                out.append("(%s)" % n)
                continue
            out.append(c)
        return eval("".join(out), names)

    def isnum(self, x):
        return sym.is_num(x)

    def iscomplex(self, x):
        return isinstance(x, (sym.SComplex, complex))

    def real(self, name, lo=None, hi=None, nonzero=False):
        v = mkreal(tm.var(name))
        c = Ctx.cur
        if lo is not None:
            c.assume(tm.le(tot(lo), v.t))
        if hi is not None:
            c.assume(tm.le(v.t, tot(hi)))
        if nonzero:
            c.assume(tm.bnot(tm.eq(v.t, tm.const(0))))
        return v

    def int(self, name, lo=None, hi=None):
        v = mkint(tm.var(name, "I"))
        c = Ctx.cur
        if lo is not None:
            c.assume(tm.le(tot(lo), v.t))
        if hi is not None:
            c.assume(tm.le(v.t, tot(hi)))
        return v

    def bool(self, name):
        return SBool(tm.var(name, "B"))

    def choice(self, name, options):
        return options[Ctx.cur.choose(name, len(options))]

    def require(self, c):
        Ctx.cur.assume(tob(c))

    def ensure(self, label, cond, detail=""):
        c = Ctx.cur
        ok = c.ensure(label, tob(cond), detail)
        g = tob(cond)
        if not ok:
            if g is tm.FALSE:
                raise Infeasible()
            c.assume(g)
        return ok

    def num_eq(self, label, a, b, tol=None):
        ta, tb = tot(a), tot(b)
        self.ensure(label, mkbool(tm.eq(tm.toreal(ta), tm.toreal(tb))))

    def close(self, label, a, b, eps):
        d = a - b
        self.ensure(label, mkbool(tm.band(tob(d <= eps), tob(-d <= eps))))

    def iff(self, a, b):
        return mkbool(tm.eq(tob(a), tob(b)))

    def And(self, *cs):
        return mkbool(tm.band(*[tob(c) for c in cs]))

    def Or(self, *cs):
        return mkbool(tm.bor(*[tob(c) for c in cs]))

    def Not(self, c):
        return mkbool(tm.bnot(tob(c)))

    def implies(self, a, b):
        return mkbool(tm.implies(tob(a), tob(b)))

    def ite(self, c, a, b):
        return sym.mknum(tm.ite(tob(c), tot(a), tot(b)))

    def str_eq(self, label, a, b):
        a, b = plain(a), plain(b)
        if a == b:
            return self.ensure(label, True)
        self.ensure(label, False, "%r vs %r" % (describe(a), describe(b)))

    def num_in(self, s):
        """the real denoted by a number text"""
        return mkreal(sym.parse_real(s))

    def identical(self, a, b):
        """equal by normal form (no solver)"""
        return tm.nf_equal(tot(a), tot(b))

    def turns(self, a, lo, hi):
        """a less an unknown whole number of turns, known to lie in (lo, hi]"""
        c = Ctx.cur
        k = c.fresh("turns", "I")
        v = mkreal(tm.sub(tot(a), tm.mul(tm.TAU, k)))
        c.assume(tob(v > lo))
        c.assume(tob(v <= hi))
        return v

    def whole(self, *ks):
        Ctx.cur.notes["ints"] = ks

    def half_turn(self, name):
        """an angle in (-tau/2, tau/2], with the signs its quadrant gives to its sine and cosine"""
        v = mkreal(tm.var(name))
        c = Ctx.cur
        c.assume(tob(v > -self.tau / 2))
        c.assume(tob(v <= self.tau / 2))
        c.bounds[v.t.id] = (-4, 4)
        sym.quadrant_facts(v.t, v.t)
        return v

    def provable(self, c):
        """a hint: is this already implied? (used only to choose between equivalent obligations)"""
        from . import solve
        return solve.prove(Ctx.cur.pc, tob(c)).status == "proved"


def plain(s):
    return "".join(map(str.__str__, [s])) if type(s) is str else str.__getitem__(s, slice(None))


def describe(s):
    c = Ctx.cur
    out = ""
    for ch in s:
        if ch >= "\U00100000" and c is not None:
            a = c.atoms[ord(ch) - 0x100000]
            out += "<%s as %s>" % (tm.show(a.t, 4), a.fmt)
        else:
            out += ch
    return out


class ConcT(Base):
    mode = "conc"

    def __init__(self, svg, rng=None, values=None, choices=None, tol=1e-6):
        self.svg = svg
        self.rng = rng or random.Random(0)
        self.given = values or {}
        self.choices = dict(choices or [])
        self.values = {}
        self.chosen = []
        self.tol = tol
        self.checks = 0
        self.pool = []
        self.tau = math.tau
        for f in ("sin", "cos", "sqrt", "atan2", "hypot", "tan", "floor", "ceil", "acos"):
            setattr(self, f, getattr(math, f))
        self.min, self.max = min, max

    def isnum(self, x):
        return isinstance(x, (int, float)) or type(x).__module__ == "numpy" and not hasattr(x, "__len__")

    def iscomplex(self, x):
        return isinstance(x, complex)

    def _draw(self, lo, hi):
        r = self.rng
        k = r.random()
        lo2 = -100.0 if lo is None else float(lo)
        hi2 = 100.0 if hi is None else float(hi)
        if lo is not None and hi is None:
            hi2 = lo2 + 100.0
        if hi is not None and lo is None:
            lo2 = hi2 - 100.0
        if k < 0.08 and self.pool:
            v = r.choice(self.pool)
            if r.random() < 0.2:
                v = -v
        elif k < 0.16:
            v = float(r.choice([0, 0, 1, -1, 2, 0.5, lo2, hi2]))
        elif k < 0.5:
            v = float(r.randint(math.ceil(max(lo2, -12)), math.floor(min(hi2, 12)))) if max(lo2, -12) <= min(
                hi2, 12) and math.ceil(max(lo2, -12)) <= math.floor(min(hi2, 12)) else r.uniform(lo2, hi2)
        elif k < 0.75:
            v = round(r.uniform(lo2, hi2), 2)
        else:
            v = r.uniform(max(lo2, -10), min(hi2, 10)) if max(lo2, -10) < min(hi2, 10) else r.uniform(lo2, hi2)
        return v

    def real(self, name, lo=None, hi=None, nonzero=False):
        if name in self.values:
            return self.values[name]
        if name in self.given and self.given[name] is not None:
            v = float(self.given[name])
        else:
            v = self._draw(lo, hi)
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (nonzero and abs(v) < 1e-3):
            if name in self.given or True:
                raise Reject()
        self.values[name] = v
        self.pool.append(v)
        return v

    def half_turn(self, name):
        return self.real(name, -math.tau / 2, math.tau / 2)

    def int(self, name, lo=None, hi=None):
        if name in self.values:
            return self.values[name]
        if name in self.given and self.given[name] is not None:
            v = int(self.given[name])
        else:
            r = self.rng
            l, h = (-20 if lo is None else int(lo)), (20 if hi is None else int(hi))
            if lo is not None and hi is None:
                h = l + 40
            v = r.choice([l, h, r.randint(l, h), r.randint(l, h), r.randint(max(l, min(h, -5)), min(h, max(l, 5)))])
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        self.values[name] = v
        return v

    def bool(self, name):
        if name not in self.values:
            self.values[name] = bool(self.given[name]) if name in self.given else self.rng.random() < 0.5
        return self.values[name]

    def choice(self, name, options):
        if name in self.choices and self.choices[name] < len(options):
            i = self.choices[name]
        else:
            i = self.rng.randrange(len(options))
        self.chosen.append((name, i))
        return options[i]

    def require(self, c):
        if not c:
            raise Reject()

    def ensure(self, label, cond, detail=""):
        self.checks += 1
        if not cond:
            raise Fail(label, detail)
        return True

    def num_eq(self, label, a, b, tol=None):
        self.checks += 1
        if tol is None and type(a) is int and type(b) is int:
            if a != b:
                raise Fail(label, "got %r, expected %r" % (a, b))
            return
        a, b = float(a), float(b)
        t = self.tol if tol is None else tol
        if not (abs(a - b) <= t * (1 + abs(a) + abs(b))):
            raise Fail(label, "got %r, expected %r" % (a, b))

    def close(self, label, a, b, eps):
        self.checks += 1
        if not (abs(a - b) <= eps + self.tol * (1 + abs(a) + abs(b)) * 1e-3):
            raise Fail(label, "got %r, expected %r within %r" % (a, b, eps))

    def iff(self, a, b):
        return bool(a) == bool(b)

    def And(self, *cs):
        return all(cs)

    def Or(self, *cs):
        return any(cs)

    def Not(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def str_eq(self, label, a, b):
        self.ensure(label, a == b, "%r vs %r" % (a, b))

    def num_in(self, s):
        return float(s)

    def provable(self, c):
        return bool(c)
