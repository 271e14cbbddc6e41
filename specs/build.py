# P36: points and segments are made from what the caller gives.


def point_forms(t, xy_):
    """the same point in one of the forms a Point is made from"""
    x, y = xy_
    how = t.choice("form", ["Point", "tuple", "list", "complex"] + (["text"] if t.mode == "conc" else []))
    if how == "Point":
        return t.svg.basic.Point(x, y)
    if how == "tuple":
        return (x, y)
    if how == "list":
        return [x, y]
    if how == "text":
        return "%r,%r" % (float(x), float(y))
    return complex(x, y)


@contract("P36", ["basic.Point.__init__", "basic.Point.__getitem__", "basic.Point.__setitem__", "basic.Point.__iter__",
                  "basic.Point.__len__", "basic.Point.__copy__", "basic.Point.real", "basic.Point.imag",
                  "basic.Point.__complex__"])
def points_are_made_from_any_pair(t):
    """Point of two numbers, a pair, a point or a text is that point, reads as [0], [1], x, y, real, imag, and is a new
    object; setting a coordinate sets that one alone."""
    P = t.svg.basic.Point
    x, y = t.real("x"), t.real("y")
    how = t.choice("how", ["two", "pair", "list", "point", "complex", "copy", "text", "negative text"])
    if how == "two":
        p = P(x, y)
    elif how == "pair":
        p = P((x, y))
    elif how == "list":
        p = P([x, y])
    elif how == "point":
        q = P(x, y)
        p = P(q)
        q.x = q.x + 1
        q.y = q.y + 1
    elif how == "complex":
        p = P(complex(x, y))
    elif how == "copy":
        p = copy_of(P(x, y))
    else:
        x, y = (2.5, -1e-3) if how == "text" else (-7.0, 0.25)
        p = P(t.choice("text", ["2.5,-1e-3", "2.5 -1e-3", "2.5-.001", " 2.5 , -0.001 ", "(+2.5,-1E-3)"]) if how == "text"
              else t.choice("text", ["-7,.25", "-7.0 0.25", "-7 +.25", "-70e-1,25e-2"]))
    t.eq("x", p.x, x)
    t.eq("y", p.y, y)
    t.eq("[0]", p[0], x)
    t.eq("[1]", p[1], y)
    t.eq("real", p.real, x)
    t.eq("imag", p.imag, y)
    t.eq("as a pair", tuple(p), (x, y))
    t.eq("length", len(p), 2)
    t.raises("no third", IndexError, lambda: p[2])
    v = t.real("v")
    i = t.choice("set", [0, 1])
    p[i] = v
    t.eq("set", (p.x, p.y), (v, y) if i == 0 else (x, v))


def copy_of(p):
    import copy
    return copy.copy(p)


@contract("P36", ["path.PathSegment.__init__", "path.Move.__init__", "path.Linear.__init__", "path.Curve.__init__",
                  "path.QuadraticBezier.__init__", "path.CubicBezier.__init__", "basic.Point.__init__"], max_paths=20000)
def segments_are_made_as_documented(t):
    """a segment holds exactly the points given, by place or by name, as points of its own; a point not given is absent;
    relative and smooth are what was given, or False and True."""
    pa = t.svg.path
    kind = t.choice("kind", ["Move", "Line", "Close", "QuadraticBezier", "CubicBezier"])
    names = {"QuadraticBezier": ["start", "control", "end"],
             "CubicBezier": ["start", "control1", "control2", "end"]}.get(kind, ["start", "end"])
    pts = dict(zip(names, free_points(t, "p", len(names))))
    flags = t.choice("flags", [{}, {"relative": True}, {"relative": False, "smooth": False}, {"smooth": True},
                               {"relative": 1, "smooth": 0}])
    if kind == "Move":
        given, named = t.choice("given", [((), ()), ((), ("end",)), ((), ("start",)), ((), ("start", "end")), (("end",), ()),
                                          (("end",), ("start",)), (("start",), ("end",)), (("start", "end"), ())])
    elif kind in ("Line", "Close"):
        given, named = t.choice("given", [((), ()), ((), ("end",)), ((), ("start",)), ((), ("start", "end")),
                                          (("start",), ()), (("start",), ("end",)), (("start", "end"), ())])
    else:
        n = t.choice("by place", range(len(names) + 1))
        given, named = tuple(names[:n]), tuple(names[n:])
    absent = t.choice("None", [None] + list(given + named)) if given + named else None
    args = {k: None if k == absent else point_forms(t, pts[k]) for k in given + named}
    shapes = {k: list(v) if type(v) is list else v for k, v in args.items()}
    kw = dict(flags)
    kw.update((k, args[k]) for k in named)
    s = getattr(pa, kind)(*[args[k] for k in given], **kw)
    t.ensure("kind", type(s) is getattr(pa, kind))
    for k in names:
        v = getattr(s, k)
        if k == absent or k not in given + named:
            t.ensure("%s absent" % k, v is None)
        else:
            t.ensure("%s a Point" % k, isinstance(v, t.svg.basic.Point))
            t.ensure("%s its own" % k, v is not args[k])
            t.eq(k, (v.x, v.y), pts[k])
            t.ensure("argument kept", type(shapes[k]) is not list or shapes[k] == args[k])
    t.eq("relative", s.relative, bool(flags.get("relative", False)))
    t.eq("smooth", s.smooth, bool(flags.get("smooth", True)))
    t.ensure("own points", len(set(id(getattr(s, k)) for k in names if getattr(s, k) is not None))
             == len([k for k in names if getattr(s, k) is not None]))


@contract("P36", ["path.PathSegment.__init__", "path.Arc.__init__", "path.Curve.__init__", "basic.Point.__init__"],
          max_paths=9000)
def arcs_are_made_of_their_points(t):
    """an arc given start, end, centre, axis ends and sweep, by place or by name, holds exactly these, as points of its
    own, with the flags given."""
    names = ["start", "end", "center", "prx", "pry", "sweep"]
    pts = dict(zip(names, free_points(t, "p", 5)))
    sweep = t.real("sweep")
    flags = t.choice("flags", [{}, {"relative": True}, {"relative": False}])
    n = t.choice("by place", range(7))
    other = t.choice("in another form", names[:5])
    args = {k: point_forms(t, pts[k]) if k == other else t.svg.basic.Point(*pts[k]) for k in names[:5]}
    t.require(n < 6 or isinstance(args["end"], (tuple, list, str, t.svg.basic.Point)))  # a complex there is an SVG radius
    args["sweep"] = sweep
    kw = dict(flags)
    kw.update((k, args[k]) for k in names[n:])
    s = t.svg.path.Arc(*[args[k] for k in names[:n]], **kw)
    t.ensure("an arc", type(s) is t.svg.path.Arc)
    for k in names[:5]:
        v = getattr(s, k)
        t.ensure("%s a Point" % k, isinstance(v, t.svg.basic.Point))
        t.ensure("%s its own" % k, v is not args[k])
        t.eq(k, (v.x, v.y), pts[k])
    t.eq("sweep", s.sweep, sweep)
    t.eq("relative", s.relative, bool(flags.get("relative", False)))
    t.ensure("own points", len(set(id(getattr(s, k)) for k in names[:5])) == 5)


@contract("P36", ["path.Arc.__init__", "path.Arc._svg_parameterize", "path.Arc._svg_complex_parameterize"],
          bounded="runtime")
def svg_arcs_own_their_points(t):
    """an arc made of SVG's arguments keeps none of the point objects it is given, and its own points are five different
    objects: moving it moves each once, also where the arc is a point (ends that coincide, a radius of 0)."""
    P = t.svg.basic.Point
    s, e = P(t.real("x"), t.real("y")), P(t.real("u"), t.real("v"))
    case = t.choice("case", ["arc", "short radii", "same ends", "rx 0", "ry 0"])
    if case == "same ends":
        e = P(s)
    else:
        t.require(abs(s.x - e.x) + abs(s.y - e.y) > 0.01)
    far = abs(s.x - e.x) + abs(s.y - e.y) + 1
    rx, ry = {"arc": (far, 2 * far), "short radii": (0.1, 0.2), "rx 0": (0, 2), "ry 0": (2, 0)}.get(case, (1, 2))
    rot, large, sw = t.real("rot"), t.choice("large", [0, 1]), t.choice("sw", [0, 1])
    A = t.svg.path.Arc
    form = t.choice("form", ["args", "complex", "named"])
    if form == "args":
        a = A(s, rx, ry, rot, large, sw, e)
    elif form == "complex":
        a = A(s, complex(rx, ry), rot, large, sw, e)
    else:
        a = A(start=s, radius=complex(rx, ry), rotation=rot, arc_flag=large, sweep_flag=sw, end=e)
    own = [a.start, a.end, a.center, a.prx, a.pry]
    t.ensure("its own points", not any([p is s or p is e for p in own]))
    t.ensure("different objects", len(set(id(p) for p in own)) == 5)
    t.eq("start", (a.start.x, a.start.y), (s.x, s.y))
    t.eq("end", (a.end.x, a.end.y), (e.x, e.y))
    t.eq("arguments kept", (s.x, s.y, e.x, e.y), tuple(t.values[k] for k in "xyuv") if case != "same ends" else (
        s.x, s.y, s.x, s.y))
    before = [(p.x, p.y) for p in own]
    a *= t.svg.basic.Matrix(1, 0, 0, 1, 3, 5)
    for p, q in zip(before, [a.start, a.end, a.center, a.prx, a.pry]):
        t.eq("moved once", (q.x, q.y), (p[0] + 3, p[1] + 5))


@contract("P36", ["path.Move.__getitem__", "path.Linear.__getitem__", "path.QuadraticBezier.__getitem__",
                  "path.CubicBezier.__getitem__", "path.Arc.__getitem__", "path.Move.__len__", "path.Linear.__len__",
                  "path.QuadraticBezier.__len__", "path.CubicBezier.__len__", "path.Arc.__len__",
                  "path.PathSegment.__iter__"])
def segments_are_sequences_of_their_points(t):
    """a segment is the sequence of its points: length, index, iteration and unpacking agree, in the order they are
    given in; an index past the end is an IndexError."""
    kind = t.choice("kind", ["Move", "Line", "Close", "QuadraticBezier", "CubicBezier", "Arc"])
    names = {"QuadraticBezier": ["start", "control", "end"], "CubicBezier": ["start", "control1", "control2", "end"],
             "Arc": ["start", "end", "center", "prx", "pry"]}.get(kind, ["start", "end"])
    pts = free_points(t, "p", len(names))
    s = getattr(t.svg.path, kind)(*([t.svg.basic.Point(*p) for p in pts] + ([t.real("sweep")] if kind == "Arc" else [])))
    stored = [getattr(s, k) for k in names]
    n = len(s)
    for i in range(len(names)):
        t.ensure("index", s[i] is stored[i])
    t.raises("past the end", IndexError, lambda: s[n])
    it = list(s)
    t.eq("count", len(it), len(names))
    for a, b in zip(it, stored):
        t.ensure("iterated", a is b)
    again = list(s)
    t.eq("iterated again", len(again), len(names))
    pairs = [(a, b) for a in s for b in s]
    t.eq("nested", len(pairs), len(names) ** 2)
