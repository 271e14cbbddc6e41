"""Replacements for builtins and imported modules while verified code runs symbolically.

Everything here is part of the trusted base: each function is the mathematical meaning assumed for the
builtin or library call (floats are reals)."""
import builtins
import math as _math
import re as _re
import sys
import types
from fractions import Fraction

from . import term as tm
from . import solve
from .sym import (int_fun, Ctx, SNum, SReal, SInt, SComplex, SBool, Unsupported, Infeasible, mkreal, mkint, mknum, mkbool, tot,
                  tob, is_num, sqrt_term, sign_reduce, polar_angle, acos_of_cos, num_div, num_mod, num_pow, vc_mod, isinstance_b, NumStr, has_atom, complex_call, mkc)

_lits = {}


def vc_lit(text):
    v = _lits.get(text)
    if v is None:
        v = _lits[text] = mkreal(tm.const(Fraction(text)))
    return v


def vc_clit(text):
    return mkc(0, vc_lit(text))


def vc_div(a, b):
    if isinstance_b(a, (int, float)) and isinstance_b(b, (int, float)):
        return num_div(a, b)
    return a / b


def vc_idiv(a, b):
    if isinstance_b(a, (int, float)) and isinstance_b(b, (int, float)):
        return num_div(a, b)
    a /= b
    return a


def vc_imod(a, b):
    if isinstance_b(a, str):
        return vc_mod(a, b)
    a %= b
    return a


def vc_pow(a, b):
    if isinstance_b(a, (int, float)) and isinstance_b(b, (int, float)):
        if isinstance_b(a, int) and isinstance_b(b, int) and b >= 0:
            return a ** b
        return num_pow(a, b)
    return a ** b


def vc_accel(v, test, step):
    """``while test(v): v = step(v)`` with step adding a loop-invariant constant: closed form.

    Exit value v + k*c for some natural k with test(v+(k-1)*c) true (if k>0) and test(exit) false."""
    if not (isinstance_b(v, SNum) and v.t.op != "const"):
        n = 0
        while test(v):
            v = step(v)
            n += 1
            if n > 100000:
                raise Unsupported("loop does not terminate")
        return v
    if not test(v):
        return v
    w = step(v)
    c = w - v
    c = tot(c)
    r = tm.nf(c)
    inv = not r.d and len(r.n) <= 1 and all(m == () or tm._is_tau_mono(m) for m in r.n)
    if not inv:
        raise Unsupported("loop step is not a constant")
    whole = v.t.sort == "I" and c.sort == "I"
    make = mkint if whole else mkreal
    if whole and not Ctx.cur.sat(tob(_pure(test, w))):
        return w        # never twice
    k = Ctx.cur.fresh("iterations", "I")
    Ctx.cur.assume(tm.le(tm.const(1, "I"), k))
    ex = tm.add(v.t, tm.mul(k, c))
    last = tm.add(v.t, tm.mul(tm.sub(k, tm.const(1, "I")), c))
    Ctx.cur.assume(tob(_pure(test, make(last))))
    Ctx.cur.assume(tm.bnot(tob(_pure(test, make(ex)))))
    return make(ex)


def _pure(test, v):
    return test(v)


# ------------------------------------------------------------------ builtins
def _minmax(op, fb, args, kw):
    if kw:
        return fb(*args, **kw)
    items = list(args[0]) if len(args) == 1 else list(args)
    if len(items) == 0:
        raise ValueError("%s() arg is an empty sequence" % op)
    if all(is_num(x) for x in items):
        if not any(isinstance_b(x, SNum) for x in items):
            return fb(items)
        ts = [tot(x) for x in items]
        if all(t.op == "const" for t in ts):
            best = fb(items, key=lambda x: tot(x).val)
            return best
        if Ctx.cur is not None and len(ts) <= 4:
            keep = list(ts)
            for x in ts:
                for y in keep:
                    if x is not y and Ctx.cur.quick(tm.le(y, x) if op == "min" else tm.le(x, y)):
                        keep = [z for z in keep if z is not x]
                        break
            ts = keep
            if len(ts) == 1:
                return mknum(ts[0])
        return mknum(tm.minmax(op, ts))
    return fb(items)


def b_min(*args, **kw):
    return _minmax("min", builtins.min, args, kw)


def b_max(*args, **kw):
    return _minmax("max", builtins.max, args, kw)


def b_range(*args):
    return range(*[Ctx.cur.concretize(a.t) if type(a) is SInt else a for a in args])


def b_round(x, nd=None):
    if isinstance_b(x, SNum):
        return x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def b_pow(a, b, m=None):
    if m is None:
        return vc_pow(a, b)
    return pow(a, b, m)


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def b_print(*a, **k):
    return None


def b_divmod(a, b):
    return divmod(a, b)


# ------------------------------------------------------------------ math
def _t(x):
    if isinstance_b(x, SNum):
        return tm.toreal(x.t)
    if isinstance_b(x, (int, float)):
        return tm.toreal(tot(x))
    if isinstance_b(x, str):
        raise TypeError("must be real number, not str")
    if x is None:
        raise TypeError("must be real number, not NoneType")
    f = getattr(type(x), "__float__", None)
    if f is None:
        raise TypeError("must be real number, not %s" % type(x).__name__)
    v = f(x)
    if v is None:
        raise TypeError("__float__ returned non-float")
    return tm.toreal(tot(v))


C0, C1 = tm.const(0), tm.const(1)


def _br(c):
    return Ctx.cur.branch(c) if c not in (tm.TRUE, tm.FALSE) else c is tm.TRUE


def m_sqrt(x):
    t = _t(x)
    r = sqrt_term(t)
    if r is not None:
        return mkreal(r)
    if _br(tm.lt(t, C0)):
        raise ValueError("math domain error")
    return mkreal(tm.fun("sqrt", t))


def m_hypot(*xs):
    s = tm.add(*[tm.powi(_t(x), 2) for x in xs]) if xs else C0
    r = sqrt_term(s)
    return mkreal(tm.fun("sqrt", s) if r is None else r)


def m_sin(x):
    return mkreal(tm.fun("sin", _t(x)))


def m_cos(x):
    return mkreal(tm.fun("cos", _t(x)))


def m_tan(x):
    t = _t(x)
    c = tm.fun("cos", t)
    if tm.is_zero(c):
        raise Unsupported("tan at a pole")
    # a float argument never hits a pole exactly
    Ctx.cur.assume(tm.bnot(tm.eq(sign_reduce(c)[1], C0)))
    return mkreal(tm.div(tm.fun("sin", t), c))


def m_atan2(y, x):
    ty, tx = _t(y), _t(x)
    if tx.op == "const" and ty.op == "const":
        if ty.val == 0:
            return mkreal(C0 if tx.val >= 0 else tm.mul(tm.TAU, tm.const(Fraction(1, 2))))
        if tx.val == 0:
            return mkreal(tm.mul(tm.TAU, tm.const(Fraction(1 if ty.val > 0 else -1, 4))))
    if not (tx.op == "const" and tx.val != 0) and not (ty.op == "const" and ty.val != 0):
        if _br(tm.band(tm.eq(ty, C0), tm.eq(tx, C0))):
            return mkreal(C0)
    p = polar_angle(ty, tx)
    if p is not None:
        return mkreal(p)
    return mkreal(tm.fun("atan2", ty, tx))


def m_atan(x):
    return mkreal(tm.fun("atan", _t(x)))


def m_acos(x):
    t = _t(x)
    p = acos_of_cos(t)
    if p is not None:
        return mkreal(p)
    if _br(tm.lt(t, tm.const(-1))) or _br(tm.lt(C1, t)):
        raise ValueError("math domain error")
    if t.op == "const" and t.val in (0, 1, -1):
        return mkreal(tm.mul(tm.TAU, tm.const({0: Fraction(1, 4), 1: 0, -1: Fraction(1, 2)}[int(t.val)])))
    return mkreal(tm.fun("acos", t))


def m_asin(x):
    return mkreal(tm.sub(tm.mul(tm.TAU, tm.const(Fraction(1, 4))), m_acos(x).t))


def m_ceil(x):
    if isinstance_b(x, (int,)):
        return x
    return mkint(int_fun("ceil", _t(x)))


def m_floor(x):
    if isinstance_b(x, (int,)):
        return x
    return mkint(int_fun("floor", _t(x)))


def m_degrees(x):
    return mkreal(tm.div(tm.mul(_t(x), tm.const(360)), tm.TAU))


def m_radians(x):
    return mkreal(tm.mul(_t(x), tm.TAU, tm.const(Fraction(1, 360))))


def m_log(x, base=None):
    t = _t(x)
    if _br(tm.le(t, C0)):
        raise ValueError("math domain error")
    r = mkreal(tm.fun("log", t))
    return r if base is None else r / m_log(base)


def m_exp(x):
    return mkreal(tm.fun("exp", _t(x)))


def m_fabs(x):
    return mkreal(tm.absv(_t(x)))


def m_pow(a, b):
    return num_pow(a, b)


def m_isclose(a, b, rel_tol=None, abs_tol=0):
    rel_tol = mkreal(tm.const(Fraction("1e-9"))) if rel_tol is None else rel_tol
    d = abs(a - b)
    m = b_max(rel_tol * b_max(abs(a), abs(b)), abs_tol)
    return d <= m


def m_isnan(x):
    _t(x)
    return False


def m_isfinite(x):
    _t(x)
    return True


def m_copysign(a, b):
    a, b = _t(a), _t(b)
    return mkreal(tm.ite(tm.lt(b, C0), tm.neg(tm.absv(a)), tm.absv(a)))


def m_fsum(xs):
    return SReal(b_sum(xs))


def m_trunc(x):
    from .sym import int_call
    return int_call(x)


def m_fmod(a, b):
    a, b = _t(a), _t(b)
    q = m_trunc(num_div(mkreal(a), mkreal(b)))
    return mkreal(a) - mkreal(b) * q


def make_math():
    m = types.ModuleType("math")
    for k, v in globals().items():
        if k.startswith("m_"):
            setattr(m, k[2:], v)
    m.tau = mkreal(tm.TAU)
    m.pi = mkreal(tm.mul(tm.TAU, tm.const(Fraction(1, 2))))
    m.e = mkreal(tm.fun("exp", C1))
    m.isinf = m_isnan
    m.dist = lambda p, q: m_hypot(*[a - b for a, b in zip(p, q)])
    m.prod = lambda xs: _prod(xs)
    return m


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


# ------------------------------------------------------------------ re
_yes = ["1", "12", "12.5"]
_no = ["", "a", " ", ",", "1,2", "x1"]
ATOMS = "[\U00100000-\U0010FFFD]"


def number_patterns(ns):
    """string constants of a module whose language is a number grammar (decided by membership of probes)"""
    out = []
    for v in set(x for x in ns.values() if isinstance_b(x, str)):
        if not (3 < len(v) < 200) or "0" not in v and "\\d" not in v:
            continue
        try:
            r = _re.compile(v)
        except _re.error:
            continue
        if r.groups:
            continue
        if all(r.fullmatch(y) for y in _yes) and not any(r.fullmatch(n) for n in _no) and not r.fullmatch("12px"):
            out.append(v)
    return sorted(out, key=len, reverse=True)


class ReShim(types.ModuleType):
    def __init__(self):
        super().__init__("re")
        for k in dir(_re):
            if not k.startswith("__"):
                setattr(self, k, getattr(_re, k))
        self.compile = self.vc_compile
        for f in ("match", "search", "findall", "finditer", "sub", "split", "fullmatch"):
            setattr(self, f, self._mk(f))

    def _mk(self, f):
        def g(pattern, *a, **k):
            return getattr(self.vc_compile(pattern, frame=2), f)(*a, **k)
        return g

    def vc_compile(self, pattern, flags=0, frame=1):
        if not isinstance_b(pattern, str):
            return pattern
        ns = sys._getframe(frame).f_globals
        p = pattern
        for s in number_patterns(ns):
            if s in p:
                p = p.replace(s, "(?:%s|%s)" % (s, ATOMS))
                break
        # hexadecimal digit classes also accept hex-digit atoms
        for cls in ("0-9A-Fa-f", "0-9a-fA-F", "a-fA-F0-9", "A-Fa-f0-9"):
            p = p.replace("[" + cls + "]", "[" + cls + "\U00100000-\U0010FFFD]")
        return _re.compile(p, flags)


# ------------------------------------------------------------------ imports
class FakeNumpyMissing(Exception):
    pass


def make_builtins(registry):
    d = dict(vars(builtins))
    d.update(float=SReal, int=SInt, complex=SComplex, min=b_min, max=b_max, range=b_range, round=b_round, pow=b_pow,
             sum=b_sum, print=b_print)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == "svgio" or name.startswith("svgio."):
            base = name if level == 0 else ("svgio" + ("." + name if name else ""))
            m = registry.get(base)
            if m is None and "load" in registry:
                m = registry["load"](base)
            if m is None:
                raise ImportError(base)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and base == "svgio" and "load" in registry:
                        registry["load"]("svgio." + f)
                return m
            return registry["svgio"]
        if name == "math":
            return registry["math"]
        if name == "re":
            return registry["re"]
        if name in ("xml", "xml.etree", "xml.etree.ElementTree", "io") and name in registry:
            return registry[name] if fromlist else registry[name.split(".")[0]]
        if name in ("numpy", "scipy", "scipy.integrate", "scipy.special"):
            hook = registry.get("numeric_import")
            if hook is None:
                raise ImportError(name)
            return hook(name, fromlist)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    d["__import__"] = imp
    return d
