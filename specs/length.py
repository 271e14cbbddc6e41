# Length: unit conversion, arithmetic, comparison, text; Point and Angle text.

KNOWN = ["", "px", "pt", "pc", "mm", "cm", "in"]
# exact size of one unit: (family, factor) with families "px" (px, pt, pc) and "in" (mm, cm, in)
EXACT = {"": ("px", 1, 1), "px": ("px", 1, 1), "pt": ("px", 4, 3), "pc": ("px", 16, 1), "mm": ("in", 10, 254),
         "cm": ("in", 100, 254), "in": ("in", 1, 1)}


def fam(u):
    return EXACT[u][0]


def exact(v, u):
    """the length v u in px (px family) or inches (inch family)"""
    return v * EXACT[u][1] / EXACT[u][2]


def near(t, label, got, want, rel=1e-4, extra=0):
    """the code's unit factors (1.3333, 0.393701, 0.0393701) are exact to better than 1e-4"""
    m = t.max(want, -want) * rel + 1e-11 + extra
    t.ensure(label, t.And(got - want <= m, want - got <= m), "got %r, expected %r" % (got, want))


def length(t, v, u):
    L = t.svg.basic.Length
    k = t.choice("how", ["pair", "text", "copy"])
    if k == "pair":
        return L(v, u)
    if k == "text":
        return L("%s%s" % (v, u))
    return L(L(v, u)) if t.mode == "conc" else L(v, u).__copy__()


@contract("P09", ["basic.Length.__init__", "basic.Length.value", "basic.Length.in_pixels", "basic.Length.in_inches",
                  "basic.Length.__float__"])
def length_value(t):
    """every unit converts to user units by its SVG/CSS definition given the context it needs, else stays a length."""
    L = t.svg.basic.Length
    v = t.real("v", -1000, 1000)
    u = t.choice("unit", KNOWN + ["%", "em", "ex", "vw", "vh", "vmin", "vmax"])
    a = L(v, u)
    ppi = t.real("ppi", 1, 2000)
    w, h = t.real("w", 0.01, 5000), t.real("h", 0.01, 5000)
    rel = t.real("rel", -5000, 5000)
    fs, fh = t.real("fs", 0.1, 500), t.real("fh", 0.1, 500)
    vb = t.choice("viewbox", ["text", "object"])
    vb = "%s %s %s %s" % (0, 0, w, h) if vb == "text" else t.svg.basic.Viewbox("%s %s %s %s" % (0, 0, w, h))
    if t.choice("context", [True, False]):
        if u == "%":
            # relative to a length, or the text of one
            ru = t.choice("relative unit", ["number", "px", "in", "em", "vw"])
            if ru != "number":
                whole = t.choice("relative as", ["length", "text"])
                whole = L(rel, ru) if whole == "length" else "%s%s" % (rel, ru)
                t.require(t.And(t.Not(rel == 0), t.Not(v == 0)))
                got = a.value(ppi=ppi, relative_length=whole, font_size=fs, font_height=fh, viewbox=vb)
                t.eq("part of a length", got, v / 100 * rel * {"px": 1, "in": ppi, "em": fs, "vw": w / 100}[ru])
                t.eq("unchanged", (a.amount, a.units), (v, u))
                return
        got = a.value(ppi=ppi, relative_length=rel, font_size=fs, font_height=fh, viewbox=vb)
        if u in KNOWN:
            near(t, "value", got, exact(v, u) * (1 if fam(u) == "px" else ppi))
        else:
            want = {"%": v * rel / 100, "em": v * fs, "ex": v * fh, "vw": v * w / 100, "vh": v * h / 100,
                    "vmin": v * t.min(w, h) / 100, "vmax": v * t.max(w, h) / 100}[u]
            t.eq("value", got, want)
    else:
        got = a.value()
        if u in KNOWN and fam(u) == "px":
            near(t, "value", got, exact(v, u))
        else:
            t.ensure("left unsolved", isinstance(got, L))
            t.eq("amount", got.amount, v)
            t.eq("unit", got.units, u)
    p, i = a.in_pixels(), a.in_inches()
    if u in KNOWN and fam(u) == "px":
        near(t, "in_pixels", p, exact(v, u))
    else:
        t.ensure("no pixels", p is None)
    if u in KNOWN and fam(u) == "in":
        near(t, "in_inches", i, exact(v, u))
    else:
        t.ensure("no inches", i is None)
    t.eq("unchanged", (a.amount, a.units), (v, u))


@contract("P09", ["basic.Length.to_mm", "basic.Length.to_cm", "basic.Length.to_inch"])
def length_to_unit(t):
    """to_mm, to_cm and to_inch denote the same length: their value at the same ppi is the original's."""
    L = t.svg.basic.Length
    v = t.real("v", -1000, 1000)
    u = t.choice("unit", KNOWN + ["%"])
    a = L(v, u)
    ppi = t.real("ppi", 1, 2000)
    rel = t.real("rel", -1000, 1000)
    k = t.choice("to", ["mm", "cm", "inch"])
    b = getattr(a, "to_" + k)(ppi=ppi, relative_length=rel)
    t.eq("unit", b.units, {"mm": "mm", "cm": "cm", "inch": "in"}[k])
    t.close("same value", b.value(ppi=ppi), a.value(ppi=ppi, relative_length=rel), 1e-8)
    t.eq("unchanged", (a.amount, a.units), (v, u))


@contract("P09", ["basic.Length.__add__", "basic.Length.__iadd__", "basic.Length.__sub__", "basic.Length.__isub__",
                  "basic.Length.__rsub__", "basic.Length.__neg__", "basic.Length.__copy__"])
def length_sum(t):
    """sums and differences of convertible units are the sum of the lengths; operands stay as they were; other
    combinations are refused."""
    L = t.svg.basic.Length
    v, w = t.real("v", -1000, 1000), t.real("w", -1000, 1000)
    u1, u2 = t.choice("u1", KNOWN + ["%", "em"]), t.choice("u2", KNOWN + ["%", "em"])
    a, b = L(v, u1), L(w, u2)
    op = t.choice("op", ["+", "-", "+=", "-=", "text +", "+ text", "text -", "- text", "+= text", "-= text", "+ number",
                         "number +", "- number", "number -", "+= number", "-= number"])
    sgn = -1 if "-" in op else 1
    # a plain number is a length without unit
    if op.startswith("number"):
        t.require(u1 == "")
    elif op.endswith("number"):
        t.require(u2 == "")

    def run():
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "text +":
            return ("%s%s" % (v, u1)) + b
        if op == "+ text":
            return a + ("%s%s" % (w, u2))
        if op == "text -":
            return ("%s%s" % (v, u1)) - b
        if op == "number +":
            return v + b
        if op == "number -":
            return v - b
        x = b if op in ("+=", "-=") else "%s%s" % (w, u2) if op.endswith("text") else w
        if op in ("- text", "- number"):
            return a - x
        if op == "+ number":
            return a + x
        c = L(v, u1)
        if op.startswith("+="):
            c += x
        else:
            c -= x
        return c
    ok = u1 == u2 or (u1 in KNOWN and u2 in KNOWN and fam(u1) == fam(u2))
    if ok:
        c = run()
        if u1 in KNOWN:
            t.eq("family", fam(c.units), fam(u1))
            x, y = exact(v, u1), exact(w, u2)
            near(t, "sum", exact(c.amount, c.units), x + sgn * y, 0, (t.max(x, -x) + t.max(y, -y)) * 1e-4)
        else:
            t.eq("sum", (c.amount, c.units), (v + sgn * w, u1))
    else:
        t.require(t.And(t.Not(v == 0), t.Not(w == 0)))
        t.raises("refused", ValueError, run)
    t.eq("left unchanged", (a.amount, a.units), (v, u1))
    t.eq("right unchanged", (b.amount, b.units), (w, u2))


@contract("P09", ["basic.Length.__iadd__"])
def length_zero_is_neutral(t):
    """adding a zero length of any unit leaves the other operand."""
    L = t.svg.basic.Length
    v = t.real("v", -1000, 1000)
    u1, u2 = t.choice("u1", KNOWN + ["%", "em"]), t.choice("u2", KNOWN + ["%", "em"])
    t.require(t.Not(v == 0))
    c = L(v, u1) + L(0.0, u2)
    t.eq("right zero", (c.amount, c.units), (v, u1))
    c = L(0.0, u2) + L(v, u1)
    ok = u1 in KNOWN and u2 in KNOWN and fam(u1) == fam(u2)
    if ok:
        near(t, "left zero", exact(c.amount, c.units), exact(v, u1))
    else:
        t.eq("left zero", (c.amount, c.units), (v, u1))


@contract("P09", ["basic.Length.__mul__", "basic.Length.__imul__", "basic.Length.__truediv__", "basic.Length.__abs__",
                  "basic.Length.__neg__"])
def length_scale(t):
    """multiplying and dividing by a number, negation and abs scale the amount and keep the unit; the ratio of two
    convertible lengths is the ratio of their sizes; a percentage of a length is that part of it."""
    L = t.svg.basic.Length
    v, k = t.real("v", -1000, 1000), t.real("k", -100, 100)
    u = t.choice("unit", KNOWN + ["%", "em"])
    a = L(v, u)
    op = t.choice("op", ["*", "r*", "*=", "/", "neg", "abs", "ratio", "percent", "no ratio", "no product"])
    if op == "*":
        c, w = a * k, v * k
    elif op == "r*":
        c, w = k * a, v * k
    elif op == "*=":
        c = L(v, u)
        c *= k
        w = v * k
    elif op == "/":
        t.require(t.Or(k > 0.001, k < -0.001))
        c, w = a / k, v / k
    elif op == "neg":
        c, w = -a, -v
    elif op == "abs":
        c, w = abs(a), t.max(v, -v)
    elif op == "ratio":
        u2 = t.choice("u2", KNOWN + ["%", "em"])
        t.require(u == u2 or u in KNOWN and u2 in KNOWN and fam(u) == fam(u2))
        q = t.real("w", 0.01, 1000)
        r = a / L(q, u2) if t.choice("as", ["length", "text"]) == "length" else a / ("%s%s" % (q, u2))
        if u in KNOWN:
            near(t, "ratio", r * exact(q, u2), exact(v, u))
        else:
            t.eq("ratio", r * q, v)
        t.eq("unchanged", (a.amount, a.units), (v, u))
        return
    elif op == "no ratio":
        u2 = t.choice("u2", KNOWN + ["%", "em"])
        t.require(u != u2 and not (u in KNOWN and u2 in KNOWN and fam(u) == fam(u2)))
        t.require(t.And(t.Not(v == 0), t.Not(k == 0)))
        t.raises("refused", ValueError, lambda: a / L(k, u2))
        t.eq("unchanged", (a.amount, a.units), (v, u))
        return
    elif op == "no product":
        u2 = t.choice("u2", KNOWN + ["em"])
        t.require(u != u2 and u != "%")
        t.require(t.And(t.Not(v == 0), t.Not(k == 0)))
        t.raises("refused", ValueError, lambda: a * L(k, u2))
        t.eq("unchanged", (a.amount, a.units), (v, u))
        return
    else:
        t.require(t.Not(v == 0))
        t.require(u != "%")
        side = t.choice("side", [0, 1, 2, 3])
        if side in (1, 3):
            t.require(t.Not(k == 0))
        if side == 0:
            c = a * L(k, "%")
        elif side == 1:
            c = L(k, "%") * a
        elif side == 2:
            c = a * ("%s%%" % k)
        else:
            c = ("%s%%" % k) * a
        w = v * k / 100
    t.eq("amount", c.amount, w)
    t.eq("unit", c.units, u)
    t.eq("unchanged", (a.amount, a.units), (v, u))


@contract("P09", ["basic.Length.__eq__", "basic.Length.__ne__", "basic.Length.__lt__", "basic.Length.__le__",
                  "basic.Length.__gt__", "basic.Length.__ge__", "basic.Length.__sub__"])
def length_order(t):
    """comparisons of convertible lengths follow their sizes (beyond the 1e-4 of the unit factors)."""
    L = t.svg.basic.Length
    v, w = t.real("v", -1000, 1000), t.real("w", -1000, 1000)
    u1, u2 = t.choice("u1", KNOWN), t.choice("u2", KNOWN)
    t.require(fam(u1) == fam(u2))
    a, b = L(v, u1), L(w, u2)
    x, y = exact(v, u1), exact(w, u2)
    gap = (t.max(x, -x) + t.max(y, -y)) * 1e-4 + 1e-6
    k = t.choice("case", ["less", "same", "other unit", "text", "number"])
    if k == "less":
        t.require(x + gap < y)
        t.ensure("<", t.And(a < b, a <= b, t.Not(a > b), t.Not(a >= b)))
        t.ensure(">", t.And(b > a, b >= a, t.Not(b < a), t.Not(b <= a)))
        t.ensure("!=", t.And(t.Not(a == b), a != b))
    elif k == "same":
        t.require(u1 == u2)
        c = L(v, u1)
        t.ensure("==", t.And(a == c, t.Not(a != c), a <= c, a >= c, t.Not(a < c), t.Not(a > c)))
    elif k == "other unit":
        c = L(v, t.choice("nc", ["%", "em", "vw"]))
        t.require(t.Not(v == 0))
        t.ensure("differs", t.And(t.Not(a == c), a != c))
    elif k == "text":
        t.ensure("equal to its text", a == "%s%s" % (v, u1))
        t.require(x + gap < y)
        t.ensure("not to another", a != "%s%s" % (w, u2))
        t.ensure("less than text", a < "%s%s" % (w, u2))
    else:
        t.require(u1 in ("", "px"))
        t.ensure("number", a == v)
        t.require(v + 0.001 < w)
        t.ensure("other number", a != w)


@contract("P10", ["basic.Length.__init__", "basic.Length.__str__", "basic.Length.__repr__", "basic.Length.str"])
def length_text(t):
    """a length parsed from text has that amount and unit; writing and reading it back keeps both (12 decimals)."""
    L = t.svg.basic.Length
    v = t.real("v", -100000, 100000)
    u = t.choice("unit", KNOWN + ["%", "em", "ex", "vw", "vh", "vmin", "vmax"])
    a = L("%s%s%s" % (t.choice("pad", ["", " "]), v, u))
    t.eq("parsed", (a.amount, a.units), (v, u))
    s = str(a)
    b = L(s)
    t.eq("unit", b.units, u)
    t.close("amount", b.amount, v, 5.0e-13 if t.mode == "sym" else 1e-10)
    r = repr(a)
    t.ensure("repr", r.startswith("Length('") and r.endswith("')"))
    b = L(r[8:-2])
    t.eq("repr unit", b.units, u)
    t.close("repr amount", b.amount, v, 5.0e-13 if t.mode == "sym" else 1e-10)


@contract("P10", ["basic.Point.__init__", "basic.Point.__str__", "basic.Point.__repr__"])
def point_text(t):
    """a point parsed from text has those coordinates; writing and reading it back keeps 12 significant digits."""
    P = t.svg.basic.Point
    x, y = t.real("x"), t.real("y")
    sep = t.choice("sep", [",", " ", ", ", " , "])
    if t.mode == "conc":
        x, y = x * t.choice("scale x", [1, 1, 1e-7, 1e-3, 1e6]), y * t.choice("scale y", [1, 1, 1e-7, 1e-3, 1e6])
    p = P("%s%s%s" % (x, sep, y))
    t.eq("parsed", p, (x, y))
    q = P(str(p))
    for got, want in ((q.x, x), (q.y, y)):
        m = t.max(want, -want) * 5.1e-12
        t.ensure("text", t.And(got - want <= m, want - got <= m), "got %r, expected %r" % (got, want))
    r = repr(p)
    t.ensure("repr", r.startswith("Point(") and r.endswith(")"))
    q = P(r[6:-1])
    for got, want in ((q.x, x), (q.y, y)):
        near(t, "repr", got, want, 0)


# ---------------------------------------------------------------- Angle
UNITS = [("deg", 360), ("grad", 400), ("rad", None), ("turn", 1), ("%", 100), ("", 360)]


@contract("P11", ["basic.Angle.parse", "basic.Angle.degrees", "basic.Angle.radians", "basic.Angle.gradians",
                  "basic.Angle.turns", "basic.Angle.as_degrees", "basic.Angle.as_radians", "basic.Angle.as_gradians",
                  "basic.Angle.as_turns"])
def angle_units(t):
    """degrees, gradians, radians, turns and percentages convert by their definitions, both ways, in any letter case."""
    A = t.svg.basic.Angle
    v = t.real("v", -10000, 10000)
    k = t.choice("unit", list(range(len(UNITS))))
    u, per = UNITS[k]
    want = v if per is None else v * t.tau / per
    how = t.choice("how", ["text", "upper", "ctor"])
    if how == "text":
        a = A.parse("%s%s" % (v, u))
    elif how == "upper":
        a = A.parse("%s%s" % (v, u.upper()))
    else:
        t.require(u not in ("", "%"))
        a = {"deg": A.degrees, "grad": A.gradians, "rad": A.radians, "turn": A.turns}[u](v)
    t.eq("radians", a.as_radians, want)
    t.eq("degrees", a.as_degrees * t.tau, want * 360)
    t.eq("gradians", a.as_gradians * t.tau, want * 400)
    t.eq("turns", a.as_turns * t.tau, want)
    t.ensure("is an angle", isinstance(a, A))


@contract("P11", ["basic.Angle.normalized", "basic.Angle.as_positive_degrees"])
def angle_normal_range(t):
    """normalized() is the same direction in [0, tau); as_positive_degrees the same direction, never negative."""
    A = t.svg.basic.Angle
    v = t.real("v", -1000, 1000)
    a = A(v)
    n = a.normalized()
    t.ensure("range", t.And(n.as_radians >= 0, n.as_radians < t.tau) if t.mode == "sym" else 0 <= n <= t.tau)
    k = (n.as_radians - v) / t.tau
    if t.mode == "sym":
        t.eq("whole turns", k, t.floor(k))
    else:
        t.close("whole turns", k, round(k), 1e-6)
    d = a.as_positive_degrees
    t.ensure("not negative", d >= 0)
    k = (d - a.as_degrees) / 360
    if t.mode == "sym":
        t.eq("whole turns of degrees", k, t.floor(k))
    else:
        t.close("whole turns of degrees", k, round(k), 1e-6)
    t.ensure("kept when not negative", t.Or(v < 0, d == a.as_degrees))
    t.ensure("at most one extra turn", t.Or(v >= 0, d < 360))


@contract("P11", ["basic.Angle.__eq__", "basic.Angle.__ne__", "basic.Angle.__copy__"])
def angle_equality(t):
    """angles are equal exactly when they differ by whole turns (1e-11), symmetrically; != is the negation."""
    A = t.svg.basic.Angle
    v = t.real("v", -1000, 1000)
    k = t.int("k", -20, 20)
    a = A(v)
    case = t.choice("case", ["turns", "near", "far", "copy"])
    if case == "turns":
        b = A(v + k * t.tau)
        if t.mode == "conc":
            t.require(abs(k) <= 2 and abs(v) < 50)
        t.ensure("same direction", t.And(a == b, b == a, t.Not(a != b), t.Not(b != a)))
    elif case == "near":
        d = t.real("d", -0.999e-11, 0.999e-11)
        b = A(v + k * t.tau + d)
        if t.mode == "conc":
            t.require(abs(k) <= 2 and abs(v) < 50 and abs(d) < 0.9e-11)
        t.ensure("within tolerance", t.And(a == b, t.Not(a != b)))
    elif case == "far":
        d = t.real("d", 1.1e-11, 6.28)
        if t.mode == "conc":
            t.require(d > 1e-10)
        b = A(v + k * t.tau + d)
        t.ensure("different", t.And(t.Not(a == b), t.Not(b == a), a != b))
    else:
        b = a.__copy__()
        t.eq("copy", b.as_radians, v)
        t.ensure("copy is an angle", isinstance(b, A))


@contract("P11", ["basic.Angle.is_orthogonal"])
def angle_orthogonal(t):
    """is_orthogonal holds for every quarter turn and for nothing in between."""
    A = t.svg.basic.Angle
    k = t.int("k", -40, 40)
    if t.mode == "sym":
        t.ensure("quarter turns", A(k * t.tau / 4).is_orthogonal())
    else:
        t.ensure("quarter turns", A((k % 4) * t.tau / 4).is_orthogonal())
    f = t.real("f", 0.001, 0.999)
    t.ensure("between", not A((k + f) * t.tau / 4).is_orthogonal())


# ---------------------------------------------------------------- Point
def operand(t, name):
    """a point in any accepted notation, with its coordinates"""
    x, y = t.real(name + "x"), t.real(name + "y")
    k = t.choice(name + "as", ["point", "tuple", "list", "complex", "number"])
    if k == "number":
        return x, (x, 0)
    return {"point": t.svg.basic.Point(x, y), "tuple": (x, y), "list": [x, y], "complex": complex(x, y)}[k], (x, y)


@contract("P12", ["basic.Point.__add__", "basic.Point.__sub__", "basic.Point.__rsub__", "basic.Point.__mul__",
                  "basic.Point.__iadd__", "basic.Point.__isub__", "basic.Point.__imul__", "basic.Point.__init__"])
def point_arithmetic(t):
    """+, - and * with a point, pair, complex or number are vector sum, difference and complex product, in place and
    reflected too; a plain operation leaves both operands alone."""
    P = t.svg.basic.Point
    px, py = t.real("px"), t.real("py")
    p = P(px, py)
    o, (x, y) = operand(t, "o")
    op = t.choice("op", ["+", "r+", "-", "r-", "*", "r*", "+=", "-=", "*="])
    s, d, m = (px + x, py + y), (px - x, py - y), (px * x - py * y, px * y + py * x)
    if op == "+":
        r, w = p + o, s
    elif op == "r+":
        r, w = o + p, s
    elif op == "-":
        r, w = p - o, d
    elif op == "r-":
        r, w = o - p, (x - px, y - py)
    elif op == "*":
        r, w = p * o, m
    elif op == "r*":
        r, w = o * p, m
    else:
        r = P(px, py)
        if op == "+=":
            r += o
            w = s
        elif op == "-=":
            r -= o
            w = d
        else:
            r *= o
            w = m
    t.ensure("is a point", isinstance(r, P))
    t.eq("value", r, w)
    t.eq("left unchanged", p, (px, py))
    if isinstance(o, (P, list, tuple)):
        t.eq("right unchanged", (o[0], o[1]), (x, y))


@contract("P12", ["basic.Point.__mul__", "basic.Point.__imul__", "basic.Point.matrix_transform"])
def point_times_matrix(t):
    """a point times a matrix (or a transform text) is the transformed point; in place and matrix_transform agree."""
    P = t.svg.basic.Point
    p = t.point("p")
    m = t.matrix("m")
    w = m.point_in_matrix_space(p)
    x, y = p.x, p.y
    t.eq("definition", w, (m.a * x + m.c * y + m.e, m.b * x + m.d * y + m.f))
    t.eq("*", p * m, w)
    t.eq("unchanged", p, (x, y))
    q = P(p)
    q *= m
    t.eq("*=", q, w)
    q = P(p)
    r = q.matrix_transform(m)
    t.eq("matrix_transform", q, w)
    t.ensure("returns itself", r is q)
    t.eq("text", p * "scale(2,3)", (2 * x, 3 * y))
    q = P(p)
    q *= "scale(2,3)"
    t.eq("text in place", q, (2 * x, 3 * y))


@contract("P12", ["basic.Point.__init__", "basic.Point.__copy__", "basic.Point.__getitem__", "basic.Point.__setitem__",
                  "basic.Point.__len__", "basic.Point.__complex__", "basic.Point.real", "basic.Point.imag",
                  "basic.Point.conjugate", "basic.Point.__eq__", "basic.Point.__ne__"])
def point_views(t):
    """every notation of a point has the same x, y, index, complex and equality views; copies are independent."""
    P = t.svg.basic.Point
    x, y = t.real("x"), t.real("y")
    k = t.choice("as", ["xy", "point", "tuple", "list", "complex"])
    p = {"xy": lambda: P(x, y), "point": lambda: P(P(x, y)), "tuple": lambda: P((x, y)), "list": lambda: P([x, y]),
         "complex": lambda: P(complex(x, y))}[k]()
    t.eq("xy", (p.x, p.y), (x, y))
    t.eq("index", (p[0], p[1]), (x, y))
    t.eq("sequence", tuple([c for c in p]), (x, y))
    t.eq("complex", (p.real, p.imag), (x, y))
    z = p.__complex__()
    t.eq("complex value", (z.real, z.imag), (x, y))
    t.eq("conjugate", p.conjugate(), (x, -y))
    t.ensure("len", len(p) == 2)
    t.raises("index 2", IndexError, lambda: p[2])
    q = p.__copy__()
    t.ensure("equal to its copy", t.And(q == p, t.Not(q != p), q == (x, y), q == [x, y], q == complex(x, y)))
    q[0] = x + 1
    q[1] = y + 2
    t.eq("index write", q, (x + 1, y + 2))
    t.eq("copy is independent", p, (x, y))
    t.ensure("different", t.And(q != p, t.Not(q == p), q != (x, y)))
    dx, dy = t.real("dx"), t.real("dy")
    far = t.Or(dx > 1.1e-12, dx < -1.1e-12, dy > 1.1e-12, dy < -1.1e-12)
    t.require(far)
    if t.mode == "conc":
        t.require(abs(dx) + abs(dy) > 1e-3)
    t.ensure("points further than the tolerance differ", p != P(x + dx, y + dy))
    t.ensure("never equal to nothing", p != None)


@contract("P12", ["basic.Point.__eq__", "basic.Point.__ne__"])
def point_equality(t):
    """points are equal exactly when neither coordinate is more than 1e-12 apart, in whatever notation the other is."""
    P = t.svg.basic.Point
    x, y, u, v = t.real("x"), t.real("y"), t.real("u"), t.real("v")
    if t.mode == "conc":
        t.require(max(abs(x - u), abs(y - v)) > 1e-9 or (x == u and y == v))
    tol = 1e-12
    near = t.And(x - u <= tol, u - x <= tol, y - v <= tol, v - y <= tol)
    p = P(x, y)
    q = {"point": P(u, v), "tuple": (u, v), "list": [u, v], "complex": complex(u, v)}[
        t.choice("as", ["point", "tuple", "list", "complex"])]
    t.ensure("equal", t.iff(p == q, near))
    t.ensure("different", t.iff(p != q, t.Not(near)))
    t.eq("unchanged", (p.x, p.y), (x, y))


@stub("basic.Point.__eq__", "point_equality")
def stub_point_eq(t, real, self, other):
    """within the tolerance, as one condition"""
    if not isinstance(other, t.svg.basic.Point):
        return real(self, other)
    dx, dy = self.x - other.x, self.y - other.y
    return t.And(dx <= 1e-12, dx >= -1e-12, dy <= 1e-12, dy >= -1e-12)


@contract("P12", ["basic.Point.__abs__", "basic.Point.distance", "basic.Point.distance_to", "basic.Point.towards",
                  "basic.Point.move_towards", "basic.Point.reflected_across", "basic.Point.orientation"])
def point_distance(t):
    """distance is the Euclidean norm, symmetric; towards/move_towards interpolate linearly; reflection is central;
    orientation is the sign of the turn."""
    P = t.svg.basic.Point
    p, q = t.point("p"), t.point("q")
    d = P.distance(p, q)
    w = t.sqrt((p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y))
    t.eq("distance", d, w)
    t.eq("distance_to", p.distance_to(q), w)
    t.eq("symmetric", q.distance_to(p), w)
    t.eq("abs", abs(p - q), w)
    t.eq("pairs", P.distance((p.x, p.y), [q.x, q.y]), w)
    a = t.real("a")
    want = (p.x + a * (q.x - p.x), p.y + a * (q.y - p.y))
    t.eq("towards", P.towards(p, q, a), want)
    r = P(p)
    r.move_towards(q, a)
    t.eq("move_towards", r, want)
    r = P(p)
    r.move_towards((q.x, q.y))
    t.eq("all the way", r, q)
    t.eq("reflected", p.reflected_across(q), (2 * q.x - p.x, 2 * q.y - p.y))
    s = t.point("s")
    cr = (q.x - p.x) * (s.y - q.y) - (q.y - p.y) * (s.x - q.x)
    if t.mode == "conc":
        t.require(abs(cr) > 1e-6)
    o = P.orientation(p, q, s)
    t.ensure("orientation", t.Or(t.And(o == 0, cr == 0), t.And(o == 1, cr < 0), t.And(o == 2, cr > 0)))


@contract("P12", ["basic.Point.polar", "basic.Point.polar_to", "basic.Point.angle", "basic.Point.angle_to"])
def point_polar(t):
    """polar(p, angle, r) lies at distance |r| in that direction; angle(p, q) is the direction of q seen from p."""
    P = t.svg.basic.Point
    p = t.point("p")
    th, r = t.real("th", -10, 10), t.real("r")
    q = P.polar(p, th, r)
    t.eq("polar", q, (p.x + r * t.cos(th), p.y + r * t.sin(th)))
    w = P(p)
    got = w.polar_to(th, r)
    t.eq("polar_to", w, q)
    t.ensure("returns itself", got is w)
    t.eq("distance", P.distance(p, q) * P.distance(p, q), r * r)
    s = t.point("s")
    dx, dy = s.x - p.x, s.y - p.y
    t.require(t.Or(dx > 1e-3, dx < -1e-3, dy > 1e-3, dy < -1e-3))
    h = t.sqrt(dx * dx + dy * dy)
    for name, a in (("angle", P.angle(p, s)), ("angle_to", p.angle_to(s))):
        t.ensure(name + " is an angle", isinstance(a, t.svg.basic.Angle))
        t.eq(name + " cos", t.cos(a.as_radians) * h, dx)
        t.eq(name + " sin", t.sin(a.as_radians) * h, dy)


def turn(p, q, r):
    """twice the signed area of the triangle"""
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def hull_is_the_outline(t, form, counts):
    """the hull starts at the leftmost (of those the lowest) point and turns strictly left at every corner; its corners are
    given points, each once, and every given point is on or left of every side."""
    P = t.svg.basic.Point
    if t.mode == "sym":
        pts = [(t.real("x%d" % i), t.real("y%d" % i)) for i in range(t.choice("n", counts))]
        t.flat_hash()
        if form == "point":
            # coordinates that differ, differ by more than the 1e-12 within which points are equal
            for i in range(len(pts)):
                for q in pts[:i]:
                    for u in (0, 1):
                        t.require(t.Or(pts[i][u] == q[u], pts[i][u] > q[u] + 1e-9, q[u] > pts[i][u] + 1e-9))
    else:
        most = t.choice("grid", [1, 2, 3, 6])
        pts = [(t.choice("x%d" % i, list(range(most + 1))), t.choice("y%d" % i, list(range(most + 1))))
               for i in range(t.choice("n", list(range(1, 13))))]
    given = [p if form == "pair" else P(*p) for p in pts]
    hull = []
    for p in P.convex_hull(given):
        hull.append((p[0], p[1]))
        if len(hull) > len(pts):
            break
    t.ensure("each corner once", len(hull) <= len(pts))
    t.ensure("some corner", len(hull) > 0)
    for h in hull:
        t.ensure("corners are given points", t.Or(*[t.And(h[0] == p[0], h[1] == p[1]) for p in pts]))
    for p in pts:
        t.ensure("starts at the leftmost lowest", t.Or(hull[0][0] < p[0], t.And(hull[0][0] == p[0], hull[0][1] <= p[1])))
    n = len(hull)
    if n == 1:
        for p in pts:
            t.ensure("one point", t.And(p[0] == hull[0][0], p[1] == hull[0][1]))
    elif n == 2:
        a, b = hull
        t.ensure("two corners", t.Or(a[0] != b[0], a[1] != b[1]))
        for p in pts:
            t.eq("straight", turn(a, b, p), 0)
            k = (p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])
            t.ensure("between", t.And(k >= 0, k <= (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2))
    else:
        for i in range(n):
            t.ensure("strictly convex", turn(hull[i - 2], hull[i - 1], hull[i]) > 0)
            for p in pts:
                t.ensure("inside", turn(hull[i - 1], hull[i], p) >= 0)
    for p, q in zip(given, pts):
        t.eq("points unchanged", (p[0], p[1]), q)
    t.eq("no points, no hull", len(list(P.convex_hull([]))), 0)


@contract("P34", ["basic.Point.convex_hull", "basic.Point.orientation", "basic.Point.__hash__"], secs=200,
          bounded="three points of any coordinates; up to twelve on small whole numbers", samples=400)
def convex_hull_is_the_outline(t):
    """the hull starts at the leftmost (of those the lowest) point and turns strictly left at every corner; its corners are
    given points, each once, and every given point is on or left of every side."""
    hull_is_the_outline(t, t.choice("form", ["pair", "point"]), [1, 2, 3])


@contract("P34", ["basic.Point.convex_hull", "basic.Point.orientation"], secs=800, quick=False,
          bounded="four points of any coordinates; up to twelve on small whole numbers", samples=50)
def convex_hull_of_four_points(t):
    """the same for four points (thorough only: four minutes)."""
    hull_is_the_outline(t, "pair", [4])


@contract("P12", ["basic.Point.__pow__", "basic.Point.argz", "basic.Point.conjugate", "basic.Point.__abs__",
                  "basic.Point.__complex__"])
def point_as_a_complex_number(t):
    """a point's absolute value, argument and conjugate are those of x + yi, and its powers the repeated product."""
    P = t.svg.basic.Point
    x, y = t.real("x"), t.real("y")
    p = P(x, y)
    r = abs(p)
    t.eq("modulus", r * r, x * x + y * y)
    t.ensure("modulus not negative", r >= 0)
    a = p.argz()
    if t.mode == "sym":
        t.eq("r cos", r * t.cos(a), x)
        t.eq("r sin", r * t.sin(a), y)
    else:
        t.close("r cos", r * t.cos(a), x, 1e-9 * (1 + r))
        t.close("r sin", r * t.sin(a), y, 1e-9 * (1 + r))
    c = p.conjugate()
    t.ensure("a point", isinstance(c, P))
    t.eq("conjugate", (c.x, c.y), (x, -y))
    n = t.choice("n", [0, 1, 2, 3, 4])
    w = (1, 0)
    for _ in range(n):
        w = (w[0] * x - w[1] * y, w[0] * y + w[1] * x)
    q = p ** n
    t.ensure("a point", isinstance(q, P))
    t.eq("power", (q.x, q.y), w)
    t.eq("unchanged", (p.x, p.y), (x, y))
