# P35: a repr is the expression that rebuilds the object.


def rebuilt(t, x):
    r = repr(x)
    t.ensure("a text", isinstance(r, str))
    y = t.eval(r)
    t.ensure("kind", type(y) is type(x))
    t.ensure("equal", bool(x == y))
    t.ensure("equal turned round", bool(y == x))
    return y


@contract("P35", ["basic.Length.__repr__", "basic.Length.__str__", "basic.Length.str", "basic.Color.__repr__",
                  "basic.Point.__repr__", "basic.Angle.__repr__", "basic.Matrix.__repr__"])
def values_are_rebuilt(t):
    """evaluating the repr of a length, colour, point, angle or matrix gives an equal one, each number to 12 decimals."""
    b = t.svg.basic
    kind = t.choice("kind", ["Length", "Color", "none", "Point", "Angle", "Matrix"])
    tol = 5.1e-13 if t.mode == "sym" else 1e-9
    if kind == "Length":
        v = t.real("v")
        x = b.Length(v, t.choice("unit", ["", "px", "pt", "pc", "mm", "cm", "in", "%", "em", "ex", "vw", "vh", "vmin", "vmax"]))
        y = t.eval(repr(x))
        t.ensure("kind", type(y) is b.Length)
        t.eq("units", y.units, x.units)
        t.close("amount", y.amount, v, tol)
        t.eq("unchanged", x.amount, v)
    elif kind == "Color":
        x = b.Color(0, 0, 0)
        x.value = t.int("value", 0, 0xFFFFFFFF)
        y = rebuilt(t, x)
        t.eq("value", y.value, x.value)
    elif kind == "none":
        y = rebuilt(t, b.Color(None))
        t.ensure("absent", y.value is None)
    elif kind == "Point":
        p = (t.real("x"), t.real("y"))
        y = rebuilt(t, b.Point(*p))
        for u, v in zip(xy(y), p):
            t.close("coordinate", u, v, tol)
    elif kind == "Angle":
        v = t.real("v")
        y = rebuilt(t, b.Angle(v))
        t.close("angle", float(y), v, tol)
    else:
        m = t.matrix("m")
        m0 = six(m)
        y = rebuilt(t, m)
        for u, v in zip(six(y), m0):
            t.close("entry", u, v, tol)


@contract("P35", ["path.Move.__repr__", "path.Linear.__init__", "path.Close.__repr__", "path.Line.__repr__",
                  "path.QuadraticBezier.__repr__", "path.CubicBezier.__repr__", "path.Arc.__repr__"])
def segments_are_rebuilt(t):
    """evaluating the repr of a segment, with or without start, gives an equal one, each number to 12 decimals."""
    kind = t.choice("kind", ["Move", "Line", "Close", "QuadraticBezier", "CubicBezier", "Arc", "empty close",
                             "Arc with angle"])
    if kind == "empty close":
        y = rebuilt(t, t.svg.path.Close())
        t.ensure("empty", y.start is None and y.end is None)
        return
    n = {"Move": 2, "Line": 2, "Close": 2, "QuadraticBezier": 3, "CubicBezier": 4}.get(kind, 5)
    pts = free_points(t, "p", n)
    if kind[:3] != "Arc" and t.choice("no start", [False, True]):
        pts[0] = None
    sweep = t.real("sweep") if n == 5 else None
    if kind == "Arc with angle":
        sweep = t.svg.basic.Angle(sweep)
    g = (kind[:3] if n == 5 else kind, pts, sweep)
    P = t.svg.basic.Point
    seg = getattr(t.svg.path, g[0])(*([None if p is None else P(*p) for p in pts] + ([] if sweep is None else [sweep])))
    y = rebuilt(t, seg)
    tol = 5.1e-13 if t.mode == "sym" else 1e-9
    same_numbers(t, snap(y), g, tol)
    same_numbers(t, snap(seg), g, 0)


def same_numbers(t, a, b, tol):
    t.ensure("kind", a[0] == b[0])
    for p, q in zip(a[1], b[1]):
        if p is None or q is None:
            t.ensure("missing point", p is None and q is None)
        else:
            for u, v in zip(p, q):
                t.close("number", u, v, tol)
    if b[2] is not None:
        t.close("sweep", float(a[2]), float(b[2]), tol)


@contract("P35", ["path.Path.__repr__", "path.Subpath.__repr__", "path.Path.__init__"],
          bounded="paths of up to five segments (eight on doubles)", max_paths=4000)
def paths_are_rebuilt(t):
    """evaluating the repr of a path gives an equal path; that of a sub-path the path made of its segments."""
    path, ghost = base_path(t)
    which = t.choice("what", ["path", "subpath", "empty"])
    tol = 5.1e-13 if t.mode == "sym" else 1e-9
    if which == "empty":
        y = rebuilt(t, t.svg.path.Path())
        t.eq("empty", len(y), 0)
    elif which == "path":
        y = rebuilt(t, path)
        t.eq("count", len(y), len(ghost))
        for s, g in zip(y, ghost):
            same_numbers(t, snap(s), g, tol)
    else:
        sub = path.subpath(0)
        part = snaps(sub)
        y = t.eval(repr(sub))
        t.ensure("kind", type(y) is t.svg.path.Path)
        t.ensure("equal", bool(y == sub))
        t.eq("count", len(y), len(part))
        for s, g in zip(y, part):
            same_numbers(t, snap(s), g, tol)
    for s, g in zip(path, ghost):
        same_numbers(t, snap(s), g, 0)
