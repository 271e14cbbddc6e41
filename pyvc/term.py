"""Hash-consed terms over the reals/integers/booleans and a rational-function normal form.

Reals are mathematical reals (see the trusted base in DESIGN.md).  A term is built by the
proxies in sym.py while the real code of /repo runs; the normal form in this file decides
identities between terms (polynomial / rational / trigonometric), everything else goes to z3/cvc5.
"""
from fractions import Fraction

ZERO = Fraction(0)
ONE = Fraction(1)


class T:
    __slots__ = ("op", "args", "sort", "id", "val", "nfc", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def mk(op, args=(), sort="R", val=None):
    key = (op, sort, val, tuple(a.id for a in args))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.sort = sort
        t.val = val
        t.nfc = None
        t.id = _count[0]
        _count[0] += 1
        _table[key] = t
    return t


def show(t, depth=8):
    if t.op == "const":
        return str(t.val)
    if t.op in ("var", "bvar"):
        return str(t.val)
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) for x in t.args]
    if t.op == "add":
        return "(" + " + ".join(a) + ")"
    if t.op == "mul":
        return "*".join(a)
    if t.op == "div":
        return "(%s)/(%s)" % tuple(a)
    if t.op in ("lt", "le", "eq"):
        return "%s %s %s" % (a[0], {"lt": "<", "le": "<=", "eq": "=="}[t.op], a[1])
    return "%s(%s)" % (t.op, ", ".join(a))


def const(v, sort=None):
    v = Fraction(v)
    if sort is None:
        sort = "R"
    return mk("const", (), sort, v)


def var(name, sort="R"):
    return mk("bvar" if sort == "B" else "var", (), sort, name)


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
TAU = var("tau")


def is_const(t):
    return t.op == "const"


def _sort(args):
    return "I" if all(a.sort == "I" for a in args) else "R"


def add(*args):
    c = ZERO
    out = []
    srt = _sort(args)
    for a in args:
        if a.op == "const":
            c += a.val
        elif a.op == "add":
            for b in a.args:
                if b.op == "const":
                    c += b.val
                else:
                    out.append(b)
        else:
            out.append(a)
    if not out:
        return const(c, srt)
    if c != 0:
        out.append(const(c, "I" if c.denominator == 1 and srt == "I" else "R"))
    if len(out) == 1:
        return out[0] if (out[0].sort == srt) else toreal(out[0])
    out.sort(key=lambda t: t.id)
    return mk("add", out, srt)


def toreal(t):
    if t.sort == "R":
        return t
    if t.op == "const":
        return const(t.val, "R")
    return mk("toreal", (t,), "R")


def mul(*args):
    c = ONE
    out = []
    srt = _sort(args)
    for a in args:
        if a.op == "const":
            c *= a.val
        elif a.op == "mul":
            for b in a.args:
                if b.op == "const":
                    c *= b.val
                else:
                    out.append(b)
        else:
            out.append(a)
    if c == 0 or not out:
        return const(c, srt)
    if c != 1:
        out.append(const(c, "I" if c.denominator == 1 and srt == "I" else "R"))
    if len(out) == 1:
        return out[0] if out[0].sort == srt else toreal(out[0])
    out.sort(key=lambda t: t.id)
    return mk("mul", out, srt)


def neg(a):
    return mul(const(-1, "I"), a)


def sub(a, b):
    if a is b:
        return const(0, _sort((a, b)))
    return add(a, neg(b))


def div(a, b):
    if b.op == "const":
        return toreal(mul(a, const(1 / b.val)))
    if a.op == "const" and a.val == 0:
        return const(0)
    return mk("div", (toreal(a), toreal(b)), "R")


def powi(a, n):
    if n == 0:
        return const(1, a.sort)
    if n == 1:
        return a
    if a.op == "const":
        return const(a.val ** n, a.sort)
    return mul(*([a] * n))


def fun(op, *args, sort="R"):
    """Function application with the argument(s) in canonical form (congruence via the nf)."""
    if all(a.op == "const" for a in args):
        v = _fold(op, [a.val for a in args])
        if v is not None:
            return const(v, sort)
    return mk(op, args, sort)


def _isqrt_frac(v):
    from math import isqrt
    if v < 0:
        return None
    n, d = isqrt(v.numerator), isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    return None


def pyround(v):
    return Fraction(round(v))


def _fold(op, vals):
    import math
    if op == "sqrt":
        return _isqrt_frac(vals[0])
    if op == "sin":
        return ZERO if vals[0] == 0 else None
    if op == "cos":
        return ONE if vals[0] == 0 else None
    if op == "atan2":
        if vals[0] == 0 and vals[1] >= 0:
            return ZERO
        return None
    if op == "atan":
        return ZERO if vals[0] == 0 else None
    if op == "abs":
        return abs(vals[0])
    if op == "min":
        return min(vals)
    if op == "max":
        return max(vals)
    if op == "floor":
        return Fraction(math.floor(vals[0]))
    if op == "ceil":
        return Fraction(math.ceil(vals[0]))
    if op == "trunc":
        return Fraction(math.trunc(vals[0]))
    if op == "round":
        return pyround(vals[0])
    if op == "idiv":
        return Fraction(vals[0] // vals[1]) if vals[1] != 0 else None
    if op == "imod":
        return Fraction(vals[0] % vals[1]) if vals[1] != 0 else None
    if op == "acos":
        return ZERO if vals[0] == 1 else None
    return None


def absv(a):
    if a.op == "const":
        return const(abs(a.val), a.sort)
    if a.op in ("abs", "sqrt"):
        return a
    return mk("abs", (a,), a.sort)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
    return mk("ite", (c, a, b), a.sort)


def minmax(op, args):
    args = list(dict.fromkeys(args))
    flat = []
    for a in args:
        if a.op == op:
            flat.extend(a.args)
        else:
            flat.append(a)
    args = sorted(set(flat), key=lambda t: t.id)
    cs = [a for a in args if a.op == "const"]
    if len(cs) > 1:
        f = min if op == "min" else max
        best = f(cs, key=lambda t: t.val)
        args = [a for a in args if a.op != "const"] + [best]
    if len(args) == 1:
        return args[0]
    srt = _sort(args)
    if srt == "R":
        args = [toreal(a) for a in args]
    args.sort(key=lambda t: t.id)
    return mk(op, args, srt)


# ---------------------------------------------------------------- booleans
def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        return TRUE if a.val < b.val else FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return TRUE if a.val <= b.val else FALSE
    return mk("le", (a, b), "B")


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return bnot(b)
        if b is FALSE:
            return bnot(a)
        return mk("iff", (a, b), "B")
    if a.op == "const" and b.op == "const":
        return TRUE if a.val == b.val else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def band(*args):
    out = []
    for a in args:
        if a is FALSE:
            return FALSE
        if a is TRUE:
            continue
        if a.op == "and":
            out.extend(a.args)
        else:
            out.append(a)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", out, "B")


def bor(*args):
    out = []
    for a in args:
        if a is TRUE:
            return TRUE
        if a is FALSE:
            continue
        if a.op == "or":
            out.extend(a.args)
        else:
            out.append(a)
    out = list(dict.fromkeys(out))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", out, "B")


def implies(a, b):
    return bor(bnot(a), b)


# ---------------------------------------------------------------- polynomials
# poly: dict monomial->Fraction ; monomial: tuple of (atom_id, exp) sorted by atom_id
_atoms = {}       # key -> atom id
_atom_info = []   # id -> (op, argRFs, repr term or None, sort)
PONE = {(): ONE}


class TooBig(Exception):
    pass


MAXTERMS = 60000


def atom(key, op, args, sort):
    i = _atoms.get(key)
    if i is None:
        i = len(_atom_info)
        _atoms[key] = i
        _atom_info.append((op, args, sort))
    return i


def padd(p, q, c=ONE):
    if len(p) < len(q) and c == 1:
        p, q = q, p
    r = dict(p)
    for m, v in q.items():
        s = r.get(m, ZERO) + v * c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > MAXTERMS * 8:
        raise TooBig()
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = mono_mul(m, n)
            s = r.get(k, ZERO) + v * w
            if s == 0:
                r.pop(k, None)
            else:
                r[k] = s
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()}


def pkey(p):
    return tuple(sorted(p.items()))


def ppow(p, n):
    r = PONE
    for _ in range(n):
        r = pmul(r, p)
    return r


class RF:
    """numerator poly / product of denominator factors (canonical polys with exponents)."""
    __slots__ = ("n", "d", "_key")

    def __init__(self, n, d=()):
        self.n = n
        self.d = d  # tuple of (pkey, exp) sorted
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (pkey(self.n), self.d)
        return self._key


RZERO = RF({})
RONE = RF(PONE)


def rf_const(c):
    return RF({(): Fraction(c)} if c != 0 else {})


def den_poly(d, skip=None):
    r = PONE
    for k, e in d:
        r = pmul(r, ppow(dict(k), e))
    return r


def rf_add(a, b):
    if a.d == b.d:
        return rf_simpl(RF(padd(a.n, b.n), a.d))
    da, db = dict(a.d), dict(b.d)
    lcm = dict(da)
    for k, e in db.items():
        lcm[k] = max(lcm.get(k, 0), e)
    na, nb = a.n, b.n
    for k, e in lcm.items():
        ea = e - da.get(k, 0)
        eb = e - db.get(k, 0)
        if ea:
            na = pmul(na, ppow(dict(k), ea))
        if eb:
            nb = pmul(nb, ppow(dict(k), eb))
    return rf_simpl(RF(padd(na, nb), tuple(sorted(lcm.items()))))


def rf_simpl(r):
    if not r.n:
        return RZERO
    return r


def rf_mul(a, b):
    if not a.n or not b.n:
        return RZERO
    d = dict(a.d)
    for k, e in b.d:
        d[k] = d.get(k, 0) + e
    an, bn = a.n, b.n
    # cancel monomial/poly factors that appear literally
    n = None
    for k in list(d):
        pk = dict(k)
        while d.get(k, 0) > 0:
            q = _exact_div(an, pk)
            if q is not None:
                an = q
                d[k] -= 1
                continue
            q = _exact_div(bn, pk)
            if q is not None:
                bn = q
                d[k] -= 1
                continue
            break
        if d.get(k) == 0:
            del d[k]
    n = pmul(an, bn)
    return RF(reduce_poly_simple(n), tuple(sorted(d.items())))


def reduce_poly_simple(n):
    return n


def _exact_div(p, q):
    """p / q when q is a single monomial dividing every term of p, or p a constant multiple of q."""
    if len(q) == 1:
        (m, c), = q.items()
        dm = dict(m)
        out = {}
        for n, v in p.items():
            dn = dict(n)
            for a, e in dm.items():
                if dn.get(a, 0) < e:
                    return None
                dn[a] -= e
                if dn[a] == 0:
                    del dn[a]
            out[tuple(sorted(dn.items()))] = v / c
        return out
    if len(p) == len(q) and p.keys() == q.keys():
        it = iter(q.items())
        m, c = next(it)
        ratio = p[m] / c
        for m, c in it:
            if p[m] != ratio * c:
                return None
        return {(): ratio}
    return None


def rf_inv(a):
    """1/a (caller guarantees a != 0 under the path condition)."""
    num = den_poly(a.d)
    p = a.n
    if len(p) == 1:
        (m, c), = p.items()
        d = {}
        for at, e in m:
            d[pkey({((at, 1),): ONE})] = e
        return RF(pscale(num, 1 / c), tuple(sorted(d.items())))
    # normalise: leading coefficient 1, pull common monomial
    ks = sorted(p)
    com = None
    for m in ks:
        dm = dict(m)
        if com is None:
            com = dm
        else:
            com = {a: min(e, dm[a]) for a, e in com.items() if a in dm}
        if not com:
            break
    d = {}
    if com:
        cm = {tuple(sorted(com.items())): ONE}
        p = _exact_div(p, cm)
        for at, e in com.items():
            d[pkey({((at, 1),): ONE})] = e
        ks = sorted(p)
    lead = p[ks[0]]
    p = pscale(p, 1 / lead)
    if len(p) == 2 and () in p:
        (m2, c2), = [(m, c) for m, c in p.items() if m]
        if len(m2) == 1 and m2[0][1] == 2 and c2 == -p[()] and _atom_info[m2[0][0]][0] == "cos":
            # const * (1 - cos^2) is a square
            sk = pkey({((fatom("sin", _atom_info[m2[0][0]][1]), 1),): ONE})
            d[sk] = d.get(sk, 0) + 2
            return rf_mul(RF(pscale(num, 1 / (lead * p[()]))), RF(PONE, tuple(sorted(d.items()))))
    d[pkey(p)] = d.get(pkey(p), 0) + 1
    res = RF(pscale(num, 1 / lead), ())
    return rf_mul(res, RF(PONE, tuple(sorted(d.items()))))


# ---------------------------------------------------------------- normal form
class Restart(Exception):
    pass


angle_den = {}   # base monomial -> lcm denominator of coefficients seen
_nf_epoch = [0]
_red_cache = {}


def reset_nf():
    _nf_epoch[0] += 1
    _red_cache.clear()


def nf(t):
    while True:
        try:
            return _nf(t)
        except Restart:
            reset_nf()


def _var_atom(t):
    return atom(("var", t.id), "var", (t,), t.sort)


def _nf(t):
    c = t.nfc
    if c is not None and c[0] == _nf_epoch[0]:
        return c[1]
    # iterative post-order to avoid recursion depth trouble
    stack = [t]
    while stack:
        u = stack[-1]
        if u.nfc is not None and u.nfc[0] == _nf_epoch[0]:
            stack.pop()
            continue
        pend = [a for a in u.args if a.sort != "B" and not (a.nfc is not None and a.nfc[0] == _nf_epoch[0])]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        u.nfc = (_nf_epoch[0], _nf1(u))
    return t.nfc[1]


def _n(t):
    return t.nfc[1]


def _nf1(t):
    op = t.op
    if op == "const":
        return rf_const(t.val)
    if op == "var":
        return RF({((_var_atom(t), 1),): ONE})
    if op == "toreal":
        return _n(t.args[0])
    if op == "add":
        r = RZERO
        for a in t.args:
            r = rf_add(r, _n(a))
        return rf_reduce(r)
    if op == "mul":
        r = RONE
        for a in t.args:
            r = rf_mul(r, _n(a))
        return rf_reduce(r)
    if op == "div":
        d = _n(t.args[1])
        if not d.n:
            return RF({((atom(("div0", t.id), "var", (t,), "R"), 1),): ONE})
        return rf_reduce(rf_mul(_n(t.args[0]), rf_inv(d)))
    if op == "sqrt":
        return nf_sqrt(_n(t.args[0]))
    if op == "abs":
        return nf_abs(_n(t.args[0]), t.sort)
    if op in ("sin", "cos"):
        s, c = nf_sincos(_n(t.args[0]))
        return s if op == "sin" else c
    if op == "ite":
        c = t.args[0]
        a, b = _n(t.args[1]), _n(t.args[2])
        if a.key() == b.key():
            return a
        return RF({((atom(("ite", c.id, a.key(), b.key()), "ite", (c, a, b), t.sort), 1),): ONE})
    if op in ("min", "max"):
        rs = {}
        for a in t.args:
            r = _n(a)
            rs[r.key()] = r
        ks = sorted(rs)
        if len(ks) == 1:
            return rs[ks[0]]
        return RF({((atom((op, tuple(ks)), op, tuple(rs[k] for k in ks), t.sort), 1),): ONE})
    # generic function
    rs = tuple(_n(a) for a in t.args)
    if op in ("floor", "ceil", "trunc", "round") and not rs[0].d and all(
            c.denominator == 1 and all(_atom_info[a][2] == "I" for a, _ in m) for m, c in rs[0].n.items()):
        return rs[0]
    return RF({((atom((op, t.val, tuple(r.key() for r in rs)), op, rs, t.sort), 1),): ONE})


def fatom(op, rs, sort="R", val=None):
    return atom((op, val, tuple(r.key() for r in rs)), op, tuple(rs), sort)


def nf_sqrt(r):
    if not r.n:
        return RZERO
    if not r.d and len(r.n) == 1 and () in r.n:
        v = _isqrt_frac(r.n[()])
        if v is not None:
            return rf_const(v)
    if not r.d and len(r.n) == 1:
        (m, c), = r.n.items()
        v = _isqrt_frac(c) if c > 0 else None
        if v is not None and even_mono(m):
            return nf_abs(RF({tuple((a, e // 2) for a, e in m): v}), "R")
    # sqrt(n/d) with d = k^2 style: sqrt(n * d)/d requires sign of d; keep whole, but split content
    # rational content
    lead = abs(r.n[min(r.n)])
    v = _isqrt_frac(lead)
    if v is None:
        # try extracting the square part of the leading coefficient
        return RF({((fatom("sqrt", (r,)), 1),): ONE})
    rr = RF(pscale(r.n, 1 / lead), r.d)
    return RF({((fatom("sqrt", (rr,)), 1),): v})


def even_mono(m):
    return m and all(e % 2 == 0 for a, e in m)


def _mkey(m):
    return (sum(e for a, e in m), m)


def poly_sqrt(p):
    """q with q*q == p as polynomials, or None"""
    if not p or len(p) > 60:
        return None
    ids = sorted({a for m in p for a, e in m})
    ix = {a: i for i, a in enumerate(ids)}

    def key(m):
        v = [0] * len(ids)
        for a, e in m:
            v[ix[a]] = e
        return (sum(v), v)
    lm = max(p, key=key)
    c = _isqrt_frac(p[lm])
    if c is None or c == 0 or any(e % 2 for a, e in lm):
        return None
    l0 = tuple((a, e // 2) for a, e in lm)
    q = {l0: c}
    d0 = dict(l0)
    last = key(l0)
    for _ in range(len(p) + 2):
        r = padd(p, pmul(q, q), -ONE)
        if not r:
            return q
        m = max(r, key=key)
        dm = dict(m)
        for a, e in d0.items():
            if dm.get(a, 0) < e:
                return None
            dm[a] -= e
        n = tuple(sorted((a, e) for a, e in dm.items() if e))
        if key(n) >= last:
            return None
        last = key(n)
        q = padd(q, {n: r[m] / (2 * c)})
    return None


def rf_to_term(r):
    """a term whose normal form is r (None when an atom cannot be rebuilt)"""
    n = poly_to_term(r.n)
    if n is None:
        return None
    for k, e in r.d:
        d = poly_to_term(dict(k))
        if d is None:
            return None
        for _ in range(e):
            n = div(n, d)
    return n


def poly_to_term(p):
    out = []
    for m, c in sorted(p.items()):
        fs = [const(c)]
        for a, e in m:
            t = atom_to_term(a)
            if t is None:
                return None
            fs.append(powi(t, e))
        out.append(mul(*fs))
    return add(*out) if out else const(0)


_atom_term = {}


def atom_to_term(a):
    t = _atom_term.get(a)
    if t is None:
        op, args, sort = _atom_info[a]
        if op == "var":
            t = args[0]
        elif op == "ite":
            x, y = rf_to_term(args[1]), rf_to_term(args[2])
            t = None if x is None or y is None else ite(args[0], x, y)
        elif op in ("sqrt", "sin", "cos", "atan2", "acos", "atan", "abs", "min", "max", "floor", "ceil", "trunc", "round",
                    "exp", "log"):
            xs = [rf_to_term(r) for r in args]
            if None in xs:
                return None
            if op == "abs":
                t = absv(xs[0])
            elif op in ("min", "max"):
                t = minmax(op, xs)
            else:
                t = fun(op, *xs, sort=sort)
        if t is None:
            return None
        _atom_term[a] = t
    return t


def nf_abs(r, sort):
    if not r.n:
        return RZERO
    if len(r.n) == 1 and not r.d:
        (m, c), = r.n.items()
        # |c*prod| = |c|*prod|atom|
        out = {(): abs(c)}
        for a, e in m:
            op = _atom_info[a][0]
            if e % 2 == 0 or op in ("sqrt", "abs"):
                out = pmul(out, {((a, e),): ONE})
            else:
                b = RF({((a, 1),): ONE})
                aa = fatom("abs", (b,), _atom_info[a][2])
                out = pmul(out, {((aa, 1),): ONE} if e == 1 else {tuple(sorted(((a, e - 1), (aa, 1)))): ONE})
        return RF(out)
    k = min(r.n)
    lead = r.n[k]
    rr = RF(pscale(r.n, 1 / lead), r.d)
    return RF({((fatom("abs", (rr,), sort), 1),): abs(lead)})


def _is_tau_mono(m):
    if len(m) == 1 and m[0][1] == 1:
        info = _atom_info[m[0][0]]
        return info[0] == "var" and info[1][0] is TAU
    return False


def _tau_int_mono(m):
    """tau * k with k an integer-sorted product -> True"""
    has_tau = 0
    for a, e in m:
        info = _atom_info[a]
        if info[0] == "var" and info[1][0] is TAU:
            has_tau += e
        elif info[2] != "I":
            return False
    return has_tau == 1 and len(m) > 1


def nf_sincos(r):
    """(sin, cos) of an angle given as RF."""
    if r.d:
        s = RF({((fatom("sin", (r,)), 1),): ONE})
        c = RF({((fatom("cos", (r,)), 1),): ONE})
        return s, c
    s, c = RZERO, RONE
    for m, coef in sorted(r.n.items()):
        if _is_tau_mono(m):
            frac = coef - (coef.numerator // coef.denominator)
            q = frac * 4
            if q.denominator == 1:
                s1, c1 = [(0, 1), (1, 0), (0, -1), (-1, 0)][int(q)]
                s1, c1 = rf_const(s1), rf_const(c1)
            else:
                qi = q.numerator // q.denominator
                rest = (q - qi) / 4
                base = RF({m: rest})
                s0 = RF({((fatom("sin", (base,)), 1),): ONE})
                c0 = RF({((fatom("cos", (base,)), 1),): ONE})
                if rest == Fraction(1, 12):
                    s0 = rf_const(Fraction(1, 2))
                    c0 = nf_sqrt(rf_const(3))
                    c0 = RF(pscale(c0.n, Fraction(1, 2)))
                elif rest == Fraction(1, 6):
                    c0 = rf_const(Fraction(1, 2))
                    s0 = nf_sqrt(rf_const(3))
                    s0 = RF(pscale(s0.n, Fraction(1, 2)))
                elif rest == Fraction(1, 8):
                    s0 = nf_sqrt(rf_const(2))
                    s0 = c0 = RF(pscale(s0.n, Fraction(1, 2)))
                rs, rc = [(0, 1), (1, 0), (0, -1), (-1, 0)][qi % 4]
                s1 = rf_add(RF(pscale(s0.n, Fraction(rc)) if rc else {}), RF(pscale(c0.n, Fraction(rs)) if rs else {}))
                c1 = rf_add(RF(pscale(c0.n, Fraction(rc)) if rc else {}), RF(pscale(s0.n, Fraction(-rs)) if rs else {}))
        elif _tau_int_mono(m) and coef.denominator == 1:
            continue
        else:
            q = coef.denominator
            L = angle_den.get(m, 1)
            if L % q:
                from math import gcd
                angle_den[m] = L * q // gcd(L, q)
                raise Restart()
            k = int(coef * L)
            s0, c0 = base_sincos(m, L)
            s1, c1 = multi_angle(s0, c0, k)
        s, c = (rf_reduce(rf_add(rf_mul(s, c1), rf_mul(c, s1))),
                rf_reduce(rf_add(rf_mul(c, c1), rf_mul(RF(pscale(s.n, Fraction(-1)), s.d) if s.n else RZERO, s1))))
    return s, c


def base_sincos(m, L):
    if L == 1 and len(m) == 1 and m[0][1] == 1:
        op, args, _ = _atom_info[m[0][0]]
        if op == "atan2":
            y, x = args
            h = nf_sqrt(rf_reduce(rf_add(rf_mul(x, x), rf_mul(y, y))))
            hi = rf_inv(h)
            return rf_reduce(rf_mul(y, hi)), rf_reduce(rf_mul(x, hi))
        if op == "acos":
            x, = args
            return nf_sqrt(rf_reduce(rf_add(RONE, RF(pscale(rf_mul(x, x).n, Fraction(-1)), rf_mul(x, x).d)))), x
        if op == "atan":
            x, = args
            h = nf_sqrt(rf_reduce(rf_add(RONE, rf_mul(x, x))))
            hi = rf_inv(h)
            return rf_reduce(rf_mul(x, hi)), hi
    base = RF({m: Fraction(1, L)})
    return (RF({((fatom("sin", (base,)), 1),): ONE}), RF({((fatom("cos", (base,)), 1),): ONE}))


def multi_angle(s, c, k):
    if k == 0:
        return RZERO, RONE
    neg_ = k < 0
    k = abs(k)
    rs, rc = RZERO, RONE
    bs, bc = s, c
    while k:
        if k & 1:
            rs, rc = (rf_reduce(rf_add(rf_mul(rs, bc), rf_mul(rc, bs))),
                      rf_reduce(rf_add(rf_mul(rc, bc), rf_neg(rf_mul(rs, bs)))))
        k >>= 1
        if k:
            bs, bc = (rf_reduce(rf_mul(rf_const(2), rf_mul(bs, bc))),
                      rf_reduce(rf_add(rf_mul(bc, bc), rf_neg(rf_mul(bs, bs)))))
    if neg_:
        rs = rf_neg(rs)
    return rs, rc


def rf_neg(r):
    return RF(pscale(r.n, Fraction(-1)), r.d) if r.n else RZERO


def rf_reduce(r):
    """apply sqrt(x)^2 -> x, abs(x)^2 -> x^2, sin^2 -> 1-cos^2 in the numerator; and in denominators
    factors that reduce."""
    if not r.n:
        return RZERO
    r2 = _reduce_num(r)
    # denominators: powers of sqrt atoms
    if r2.d:
        changed = False
        d = {}
        extra = RONE
        for k, e in r2.d:
            if len(k) == 1 and len(k[0][0]) == 1 and k[0][0][0][1] == 1:
                a = k[0][0][0][0]
                op, args, _ = _atom_info[a]
                if op == "sqrt" and e >= 2:
                    changed = True
                    for _i in range(e // 2):
                        extra = rf_mul(extra, rf_inv(args[0]))
                    if e % 2:
                        d[k] = d.get(k, 0) + 1
                    continue
            else:
                # a polynomial factor that itself reduces (e.g. contains sqrt^2)
                rr = _reduce_num(RF(dict(k)))
                if rr.key() != (k, ()):
                    if not rr.n:
                        d[k] = d.get(k, 0) + e
                        continue
                    changed = True
                    inv = rf_inv(rr)
                    for _i in range(e):
                        extra = rf_mul(extra, inv)
                    continue
            d[k] = d.get(k, 0) + e
        if changed:
            return rf_reduce(rf_mul(RF(r2.n, tuple(sorted(d.items()))), extra))
        # numerator divisible by factor
        r2 = rf_mul(RF(r2.n), RF(PONE, r2.d))
    return r2


_half = {}


def half_info(a):
    """for sin/cos of atan2(y, x)/2: (sin atom, cos atom, sin*cos, cos^2) as rational functions"""
    v = _half.get(a, 0)
    if v == 0:
        v = None
        op, args, _ = _atom_info[a]
        if op in ("sin", "cos") and len(args[0].n) == 1 and not args[0].d:
            (m, c), = args[0].n.items()
            if len(m) == 1 and m[0][1] == 1 and abs(c) == Fraction(1, 2) and _atom_info[m[0][0]][0] == "atan2":
                y, x = _atom_info[m[0][0]][1]
                h = nf_sqrt(rf_reduce(rf_add(rf_mul(x, x), rf_mul(y, y))))
                hi = rf_inv(h)
                hf = rf_const(Fraction(1, 2))
                v = (fatom("sin", args), fatom("cos", args), rf_mul(rf_const(c), rf_mul(y, hi)),
                     rf_add(hf, rf_mul(hf, rf_mul(x, hi))))
        _half[a] = v
    return v


def _half_reduce(m):
    """(remaining monomial, factor) when m holds sin*cos or cos^2 of a half polar angle, else None"""
    d = dict(m)
    for a, e in m:
        h = half_info(a)
        if h is None:
            continue
        s, c, sc, cc = h
        if a == c and e >= 2:
            d[c] = e % 2
            f = RONE
            for _ in range(e // 2):
                f = rf_mul(f, cc)
            return tuple(sorted((k, x) for k, x in d.items() if x)), f
        if a == s and d.get(c, 0) >= 1:
            d[s] -= 1
            d[c] -= 1
            return tuple(sorted((k, x) for k, x in d.items() if x)), sc
    return None


def _reduce_num(r):
    n = r.n
    todo = False
    half = False
    for m in n:
        for a, e in m:
            op = _atom_info[a][0]
            if e >= 2 and op in ("sqrt", "abs", "sin"):
                todo = True
            if op == "sin" and half_info(a) is not None or op == "cos" and e >= 2 and half_info(a) is not None:
                half = True
    if half:
        out, keep = RZERO, {}
        hit = False
        for m, v in n.items():
            h = _half_reduce(m)
            if h is None:
                keep[m] = v
            else:
                hit = True
                out = rf_add(out, rf_mul(RF({h[0]: v}), h[1]))
        if hit:
            out = _reduce_num(rf_add(RF(keep), out))
            return rf_mul(out, RF(PONE, r.d)) if r.d else out
    if not todo:
        return r
    out = RZERO
    keep = {}
    for m, v in n.items():
        rest = []
        fac = None
        for a, e in m:
            op, args, sort = _atom_info[a]
            if e >= 2 and op in ("sqrt", "abs", "sin"):
                if op == "sqrt":
                    b = args[0]
                elif op == "abs":
                    b = rf_mul(args[0], args[0])
                else:
                    ca = RF({((fatom("cos", args), 2),): Fraction(-1), (): ONE})
                    b = ca
                k = e // 2
                for _ in range(k):
                    fac = b if fac is None else rf_mul(fac, b)
                if e % 2:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        if fac is None:
            keep[m] = v
        else:
            out = rf_add(out, rf_mul(RF({tuple(rest): v}), fac))
    out = rf_add(RF(keep), out)
    out = _reduce_num(out)
    return rf_mul(out, RF(PONE, r.d)) if r.d else out


def is_zero(t):
    """True if the term is identically zero by normal form (assuming denominators nonzero)."""
    try:
        r = nf(t)
        return not r.n
    except TooBig:
        return False


def nf_equal(a, b):
    if a is b:
        return True
    try:
        ra, rb = nf(a), nf(b)
        # denominators may have been changed by a Restart
        ra = nf(a)
        if ra.key() == rb.key():
            return True
        d = rf_reduce(rf_add(ra, rf_neg(rb)))
        return not d.n
    except TooBig:
        return False
    except Restart:
        reset_nf()
        return nf_equal(a, b)


def free_vars(t, acc=None, seen=None):
    if acc is None:
        acc = set()
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ("var", "bvar"):
            acc.add(u)
        st.extend(u.args)
    return acc


def evaluate(t, env, memo=None):
    """float evaluation of a term; env: var name -> number."""
    import math
    if memo is None:
        memo = {}
    st = [t]
    while st:
        u = st[-1]
        if u.id in memo:
            st.pop()
            continue
        pend = [a for a in u.args if a.id not in memo]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        v = [memo[a.id] for a in u.args]
        o = u.op
        if o == "const":
            r = u.val
        elif o in ("var", "bvar"):
            r = math.tau if u is TAU else env[u.val]
        elif o == "add":
            r = sum(v)
        elif o == "mul":
            r = 1
            for x in v:
                r = r * x
        elif o == "div":
            r = v[0] / v[1]
        elif o == "toreal":
            r = v[0]
        elif o == "sqrt":
            r = math.sqrt(v[0])
        elif o == "sin":
            r = math.sin(v[0])
        elif o == "cos":
            r = math.cos(v[0])
        elif o == "atan2":
            r = math.atan2(v[0], v[1])
        elif o == "acos":
            r = math.acos(v[0])
        elif o == "atan":
            r = math.atan(v[0])
        elif o == "abs":
            r = abs(v[0])
        elif o == "min":
            r = min(v)
        elif o == "max":
            r = max(v)
        elif o == "ite":
            r = v[1] if v[0] else v[2]
        elif o == "floor":
            r = math.floor(v[0])
        elif o == "ceil":
            r = math.ceil(v[0])
        elif o == "trunc":
            r = math.trunc(v[0])
        elif o == "round":
            r = round(v[0])
        elif o == "idiv":
            r = v[0] // v[1]
        elif o == "imod":
            r = v[0] % v[1]
        elif o == "lt":
            r = v[0] < v[1]
        elif o == "le":
            r = v[0] <= v[1]
        elif o == "eq":
            r = v[0] == v[1]
        elif o == "not":
            r = not v[0]
        elif o == "and":
            r = all(v)
        elif o == "or":
            r = any(v)
        elif o == "iff":
            r = v[0] == v[1]
        elif o == "true":
            r = True
        elif o == "false":
            r = False
        else:
            raise KeyError(o)
        memo[u.id] = r
    return memo[t.id]
