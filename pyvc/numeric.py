"""A numpy stand-in for symbolic runs: 1- and 2-dimensional arrays as nested lists of real terms.

Only the operations listed here exist; any other numpy name is reported as unsupported (never proved).
The concrete runs of the same contracts use the real numpy."""
import types

from . import shim
from .sym import Ctx, SNum, SBool, SReal, Unsupported, mkbool, tob, is_num, isinstance_b
from . import term as tm

KINDS = ["without numpy", "numpy"]


def _isarr(x):
    return isinstance_b(x, (Arr, list, tuple))


def _list(x):
    if isinstance_b(x, Arr):
        return x.d
    return x


def _deep(x):
    x = _list(x)
    if isinstance_b(x, (list, tuple)):
        return [_deep(v) for v in x]
    if is_num(x):
        return SReal(x)
    if isinstance_b(x, (SBool, bool)):
        return x
    if hasattr(x, "x") and hasattr(x, "y"):
        return [_deep(x.x), _deep(x.y)]
    if hasattr(x, "__len__") and hasattr(x, "__getitem__"):
        return [_deep(v) for v in x]
    raise Unsupported("numpy array of %s" % type(x).__name__)


class Arr:
    """d: list of numbers (1-D) or list of lists (2-D)"""
    __array_priority__ = 100

    def __init__(self, d):
        self.d = d

    @property
    def ndim(self):
        return 2 if self.d and isinstance_b(self.d[0], list) else 1

    @property
    def shape(self):
        return (len(self.d), len(self.d[0])) if self.ndim == 2 else (len(self.d),)

    @property
    def size(self):
        return len(self.d) * (len(self.d[0]) if self.ndim == 2 else 1)

    @property
    def T(self):
        return Arr([list(r) for r in zip(*self.d)]) if self.ndim == 2 else self

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        for v in self.d:
            yield Arr(v) if isinstance_b(v, list) else v

    def tolist(self):
        return [list(v) if isinstance_b(v, list) else v for v in self.d]

    def copy(self):
        return Arr(self.tolist())

    def astype(self, *a, **k):
        return self.copy()

    # ---------------------------------------------------------------- element-wise
    def _bin(self, o, f):
        if isinstance_b(o, Arr) or isinstance_b(o, (list, tuple)):
            o = Arr(_deep(o)) if not isinstance_b(o, Arr) else o
            if self.ndim == 2 and o.ndim == 1:
                return Arr([[f(x, y) for x, y in zip(r, o.d)] for r in self.d])
            if self.ndim == 2:
                return Arr([[f(x, y) for x, y in zip(r, s)] for r, s in zip(self.d, o.d)])
            if len(self.d) != len(o.d):
                raise ValueError("operands could not be broadcast together")
            return Arr([f(x, y) for x, y in zip(self.d, o.d)])
        if self.ndim == 2:
            return Arr([[f(x, o) for x in r] for r in self.d])
        return Arr([f(x, o) for x in self.d])

    def _un(self, f):
        if self.ndim == 2:
            return Arr([[f(x) for x in r] for r in self.d])
        return Arr([f(x) for x in self.d])

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, shim.vc_div)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: shim.vc_div(b, a))
    def __pow__(self, o): return self._bin(o, shim.vc_pow)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __neg__(self): return self._un(lambda a: -a)
    def __abs__(self): return self._un(abs)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b)
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b)
    def __and__(self, o): return self._bin(o, lambda a, b: mkbool(tm.band(tob(a), tob(b))))
    def __or__(self, o): return self._bin(o, lambda a, b: mkbool(tm.bor(tob(a), tob(b))))
    def __invert__(self): return self._un(lambda a: mkbool(tm.bnot(tob(a))))
    __rand__, __ror__ = __and__, __or__
    __hash__ = None

    def _inplace(self, r):
        self.d = r.d
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __bool__(self):
        if len(self.d) == 1:
            return bool(self.d[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def any(self):
        return mkbool(tm.bor(*[tob(x) for x in self.d])) if self.d else False

    def all(self):
        return mkbool(tm.band(*[tob(x) for x in self.d])) if self.d else True

    def sum(self):
        return shim.b_sum(self.d)

    def min(self):
        return shim.b_min(self.d)

    def max(self):
        return shim.b_max(self.d)

    # ---------------------------------------------------------------- indexing
    def _rows(self, i):
        """the row numbers selected, or an int"""
        n = len(self.d)
        if isinstance_b(i, slice):
            return list(range(n))[i]
        if isinstance_b(i, (Arr, list)):
            m = _list(i)
            if len(m) == 0:
                return []
            if isinstance_b(m[0], (SBool, bool)):
                return [k for k, b in enumerate(m) if bool(b)]
            return [int(k) for k in m]
        if isinstance_b(i, SNum):
            return i.__index__()
        return i

    def __getitem__(self, i):
        if isinstance_b(i, tuple):
            rows, col = self._rows(i[0]), i[1]
            if isinstance_b(rows, list):
                if isinstance_b(col, slice):
                    return Arr([self.d[k][col] for k in rows])
                return Arr([self.d[k][col] for k in rows])
            v = self.d[rows][col]
            return Arr(v) if isinstance_b(v, list) else v
        rows = self._rows(i)
        if isinstance_b(rows, list):
            return Arr([self.d[k] if not isinstance_b(self.d[k], list) else list(self.d[k]) for k in rows])
        v = self.d[rows]
        return View(self, rows) if isinstance_b(v, list) else v

    def __setitem__(self, i, v):
        col = None
        if isinstance_b(i, tuple):
            i, col = i
            if isinstance_b(col, slice):
                if col != slice(None):
                    raise Unsupported("numpy partial row assignment")
                col = None
        rows = self._rows(i)
        if not isinstance_b(rows, list):
            rows = [rows]
            if col is None and self.ndim == 2:
                v = [_deep(v)]
        if col is not None:
            if is_num(v):
                for k in rows:
                    self.d[k][col] = SReal(v)
            else:
                v = _deep(v)
                if len(v) == 1:
                    v = v * len(rows)
                if len(v) != len(rows):
                    raise ValueError("could not broadcast input array")
                for k, x in zip(rows, v):
                    self.d[k][col] = x
            return
        if not rows:
            return
        if self.ndim == 2:
            if is_num(v):
                for k in rows:
                    self.d[k] = [SReal(v)] * len(self.d[k])
                return
            v = _deep(v)
            if not rows:
                return
            if v and not isinstance_b(v[0], list):
                v = [v] * len(rows)
            if len(v) == 1:
                v = v * len(rows)
            if len(v) != len(rows):
                raise ValueError("could not broadcast input array")
            for k, x in zip(rows, v):
                if len(x) != len(self.d[k]):
                    raise ValueError("could not broadcast input array")
                self.d[k] = list(x)
            return
        if is_num(v):
            for k in rows:
                self.d[k] = SReal(v)
            return
        v = _deep(v)
        if len(v) == 1:
            v = v * len(rows)
        if len(v) != len(rows):
            raise ValueError("could not broadcast input array")
        for k, x in zip(rows, v):
            self.d[k] = x

    def __repr__(self):
        return "Arr(%r)" % (self.d,)


class View(Arr):
    """a row of a 2-D array: writes go through"""

    def __init__(self, base, k):
        self.d = base.d[k]


class FakeNumpy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        raise Unsupported("numpy.%s" % name)


def _shape(shape):
    return tuple(int(k) for k in shape) if isinstance_b(shape, (tuple, list)) else (int(shape),)


def make(ctxname="numpy"):
    np = FakeNumpy()
    np.float64 = np.float32 = np.double = shim_float = SReal
    np.ndarray = Arr
    np.pi = shim.make_math().pi

    def fill(shape, val):
        s = _shape(shape)
        if len(s) == 1:
            return Arr([val() for _ in range(s[0])])
        return Arr([[val() for _ in range(s[1])] for _ in range(s[0])])
    np.empty = lambda shape, dtype=None: fill(shape, lambda: SReal(0) if Ctx.cur is None else shim.mkreal(
        Ctx.cur.fresh("uninitialised")))
    np.zeros = lambda shape, dtype=None: fill(shape, lambda: SReal(0))
    np.ones = lambda shape, dtype=None: fill(shape, lambda: SReal(1))
    np.full = lambda shape, v, dtype=None: fill(shape, lambda: SReal(v))
    np.array = np.asarray = lambda x, dtype=None, copy=True: Arr(_deep(x)) if not is_num(x) else SReal(x)
    np.atleast_1d = lambda x: Arr([SReal(x)]) if is_num(x) else Arr(_deep(x))
    np.empty_like = np.zeros_like = lambda x: Arr(_deep(x)) * 0
    np.linspace = lambda a, b, n=50: Arr([a + (b - a) * k / (n - 1) for k in range(int(n))])
    np.arange = lambda *a: Arr([SReal(k) for k in range(*[int(x) for x in a])])

    def un(f):
        return lambda x: x._un(f) if isinstance_b(x, Arr) else Arr(_deep(x))._un(f) if isinstance_b(
            x, (list, tuple)) else f(x)
    math = shim.make_math()
    for nm in ("cos", "sin", "sqrt", "tan", "floor", "ceil"):
        setattr(np, nm, un(getattr(math, nm)))
    np.abs = np.absolute = un(abs)
    np.radians = np.deg2rad = un(math.radians)
    np.degrees = np.rad2deg = un(math.degrees)
    np.column_stack = lambda cols: Arr([list(r) for r in zip(*[_deep(c) for c in cols])])

    def stack(xs, axis=0):
        m = [_deep(x) for x in xs]
        if axis in (0,):
            return Arr(m)
        return Arr([list(r) for r in zip(*m)])
    np.stack = stack
    np.vstack = lambda xs: Arr([r for x in xs for r in ([_deep(x)] if not isinstance_b(_deep(x)[0], list) else _deep(x))])
    np.concatenate = lambda xs: Arr([v for x in xs for v in _deep(x)])
    np.transpose = lambda x: Arr(_deep(x)).T
    np.cumsum = lambda x: Arr(_cumsum(_deep(x)))
    np.sum = lambda x: shim.b_sum(_deep(x))
    np.any = lambda x: Arr(_deep(x)).any()
    np.all = lambda x: Arr(_deep(x)).all()
    np.isscalar = is_num

    def clip(x, lo, hi):
        f = lambda v: shim.b_min([shim.b_max([v, lo]), hi])
        return un(f)(x)
    np.clip = clip
    np.minimum = lambda a, b: Arr(_deep(a))._bin(b, lambda x, y: shim.b_min([x, y]))
    np.maximum = lambda a, b: Arr(_deep(a))._bin(b, lambda x, y: shim.b_max([x, y]))

    def where(c, a=None, b=None):
        if a is None:
            return (Arr([shim.mkint(tm.const(k, "I")) for k, v in enumerate(c.d) if bool(v)]),)
        n = len(c.d)
        a = _deep(a) if not is_num(a) else [a] * n
        b = _deep(b) if not is_num(b) else [b] * n
        return Arr([x if bool(v) else y for v, x, y in zip(c.d, a, b)])
    np.where = where
    np.flatnonzero = lambda c: where(c)[0]

    def interp(xs, xp, fp):
        xp, fp = _deep(xp), _deep(fp)

        def one(x):
            if x <= xp[0]:
                return fp[0]
            if x >= xp[-1]:
                return fp[-1]
            for k in range(len(xp) - 1):
                if x <= xp[k + 1]:
                    return fp[k] + (fp[k + 1] - fp[k]) * shim.vc_div(x - xp[k], xp[k + 1] - xp[k])
            return fp[-1]
        return one(xs) if is_num(xs) else Arr([one(SReal(x)) for x in _deep(xs)])
    np.interp = interp

    def searchsorted(a, v, side="left"):
        a = _deep(a)

        def one(x):
            for k, y in enumerate(a):
                if (x <= y) if side == "left" else (x < y):
                    return k
            return len(a)
        return one(v) if is_num(v) else Arr([shim.mkint(tm.const(one(x), "I")) for x in _deep(v)])
    np.searchsorted = searchsorted
    return np


def _cumsum(xs):
    out, s = [], None
    for x in xs:
        s = x if s is None else s + x
        out.append(s)
    return out


def install(L, kind):
    np = make()

    def hook(name, fromlist):
        c = Ctx.cur
        if name == "numpy" and c is not None and c.notes.get("numpy"):
            return np
        raise ImportError(name)
    L.registry["numeric_import"] = hook
