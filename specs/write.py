# Writing path data.


def note_flags(t, seg, i):
    seg.relative = t.choice("relative%d" % i, [False, True])
    if hasattr(seg, "smooth"):
        seg.smooth = t.choice("smooth%d" % i, [False, True])


def near_points(t, label, got, want, eps):
    """segments agree to the given absolute error in every coordinate"""
    t.ensure(label + ": count", len(got) == len(want), "%d, expected %d" % (len(got), len(want)))
    for i in range(len(want)):
        k, pts, sweep = snap(got[i])
        K, P, S = want[i]
        t.ensure(label + ": kind", k == K)
        for j, (a, b) in enumerate(zip(pts, P)):
            if j == 0 and (i == 0 or t.mode == "sym" and t.identical(a[0], got[i - 1].end.x) and
                           t.identical(a[1], got[i - 1].end.y)):
                continue                     # the start is the previous end
            if k == "Close":
                continue
            for u in (0, 1):
                if t.mode == "sym" and t.identical(a[u], b[u]):
                    continue
                t.close(label, a[u], b[u], eps * (i + 1))


@stub("basic.Point.__str__", "point_text")
def stub_point_str(t, real, self):
    """text of two numbers, each within the printed precision of its coordinate"""
    return "%.12G,%.12G" % (self.x, self.y)


WRITTEN = ["L", "Q", "C", "LZ", "QQ", "LC", "CLM"]


@contract("P21", ["path.Path.d", "path.Path.svg_d", "path.Path.__str__", "path.Move.d", "path.Line.d", "path.Close.d",
                  "path.QuadraticBezier.d", "path.CubicBezier.d", "path.QuadraticBezier.is_smooth_from",
                  "path.CubicBezier.is_smooth_from", "path.PathLexicalParser.parse", "basic.Point.__str__"],
          bounded="paths of a move and up to two more segments (eight in runs on doubles), coordinates up to 1000",
          uses=["basic.Point.__eq__", "basic.Point.__str__"], max_paths=9000, samples=400)
def path_data_reads_back(t):
    """d() in any notation (absolute, relative, as recorded; smooth shorthand or not) reads back as the same segments,
    to the printed 12 digits per step."""
    kinds = "M" + some_kinds(t, "kinds", WRITTEN, 8, "LQCZM")
    segs, ghost = build_segments(t, kinds)
    for k, pts, s in ghost:
        for p in pts:
            if p is not None:
                for v in p:
                    t.require(t.And(v <= 1000, v >= -1000))
    relative, mk = t.choice("relative", [(None, False), (None, True), (False, True), (True, False)])
    if t.mode == "conc":
        for i, s in enumerate(segs):
            note_flags(t, s, i)
            if i and ghost[i][0] in ("QuadraticBezier", "CubicBezier") and t.choice("reflect%d" % i, [False, True]):
                # a segment that really continues the last one smoothly
                p = segs[i - 1]
                if type(p) is type(s):  # the same kind of curve
                    c = ghost[i - 1][1][-2]
                    r = t.svg.basic.Point(2 * p.end.x - c[0], 2 * p.end.y - c[1])
                else:
                    r = t.svg.basic.Point(p.end)
                ghost[i][1][1] = (r.x, r.y)
                if hasattr(s, "control"):
                    s.control = r
                else:
                    s.control1 = r
    else:
        for s in segs:
            s.relative = mk
    smooth = t.choice("smooth", [None, False, True]) if "Q" in kinds or "C" in kinds else None
    path = t.svg.path.Path()
    path._segments = segs
    text = path.d(relative=relative, smooth=smooth)
    same_segments(t, "path unchanged", path, ghost)
    near_points(t, "reads back", t.svg.path.Path(text), ghost, 2e-8)
    if t.mode == "conc":
        near_points(t, "str reads back", t.svg.path.Path(str(path)), ghost, 2e-8)


@contract("P21", ["path.CubicBezier.d", "path.QuadraticBezier.d", "path.CubicBezier.is_smooth_from",
                  "path.QuadraticBezier.is_smooth_from", "path.Path.svg_d"],
          bounded="one curve after a move, a line or a curve",
          uses=["basic.Point.__eq__", "basic.Point.__str__"], max_paths=4000)
def smooth_shorthand_reads_back(t):
    """a curve written in shorthand is one whose first control point continues the last curve of its kind (or sits on
    the start); it reads back as itself."""
    before = t.choice("before", ["M", "ML", "MQ", "MC"])
    k = t.choice("kind", ["Q", "C"])
    segs, ghost = build_segments(t, before + k)
    last, seg = segs[-2], segs[-1]
    s = ghost[-1][1][0]
    if t.choice("continues", [True, False]):
        if ghost[-2][0] == ghost[-1][0]:
            c = ghost[-2][1][-2]
            r = (2 * s[0] - c[0], 2 * s[1] - c[1])
        else:
            r = s
        ghost[-1][1][1] = r
        p = t.svg.basic.Point(*r)
        if k == "Q":
            seg.control = p
        else:
            seg.control1 = p
        t.ensure("seen as smooth", bool(seg.is_smooth_from(last)))
    seg.smooth = True
    for _, pts, _ in ghost:
        for p in pts:
            if p is not None:
                for v in p:
                    t.require(t.And(v <= 1000, v >= -1000))
    path = t.svg.path.Path()
    path._segments = segs
    relative = t.choice("relative", [None, True])
    q = t.svg.path.Path(path.d(relative=relative))
    near_points(t, "reads back", q, ghost, 2e-8)


@contract("P21", ["path.Arc.d", "path.PathLexicalParser.parse", "path.Path.arc", "path.Arc.rx", "path.Arc.ry",
                  "path.Arc.get_rotation"],
          uses=["path.Arc._svg_parameterize", "basic.Point.__str__"], max_paths=4000)
def arc_text_names_the_arc(t):
    """the text of any arc of less than a turn, absolute or relative, reads back as a request for an arc of its radii
    and rotation (to the twelve digits printed) from its start to its end, the large flag set exactly when it sweeps more
    than half a turn and the sweep flag exactly when it turns positively."""
    e = Ell(t, hand=1)
    t.require(e.sweep > -t.tau)
    t.require(e.sweep < t.tau)
    t.require(e.sweep != 0)
    if t.mode == "conc":
        # leave room for the text's rounding; half turns on the dot have no larger side
        t.require(abs(abs(e.sweep) - t.tau / 2) > 1e-9)
    arc = e.arc()
    # the text names the ends the arc has (that they lie on the ellipse is not needed)
    ends = [t.real("x0"), t.real("y0"), t.real("x1"), t.real("y1")]
    for v in ends:
        t.require(t.And(v <= 1000, v >= -1000))
    arc.start.x, arc.start.y, arc.end.x, arc.end.y = ends
    P, M = t.svg.basic.Point, t.svg.path.Move
    relative = t.choice("relative", [None, False, True])
    arc.relative = t.choice("mark", [False, True])
    rotation = arc.get_rotation().as_degrees
    here = P(arc.start)
    text = arc.d(here, relative=relative)
    if t.mode == "conc":
        import re
        m = re.fullmatch(r"[aA] ([^ ,]+),([^ ,]+) ([^ ,]+) ([01]),([01]) ([^ ,]+),([^ ,]+)", text)
        t.ensure("form", m is not None, text)
        rx, ry, rot, fa, fs, x, y = [float(v) for v in m.groups()]
        if text[0] == "a":
            x, y = x + here.x, y + here.y
        flags = (bool(fa), bool(fs))
    else:
        path = t.svg.path.Path()
        path._segments = [M(None, here)]
        path.parse(text)
        t.ensure("one arc", len(path) == 2 and type(path[1]) is t.svg.path.Arc and len(t.svg_arcs) == 1)
        (sx, sy, rx, ry, rot, x, y), flags, _ = t.svg_arcs[0]
        t.eq("start x", sx, here.x)
        t.eq("start y", sy, here.y)
    t.ensure("large flag", flags[0] == (abs(e.sweep) > t.tau / 2))
    t.ensure("sweep flag", flags[1] == (e.sweep > 0))
    t.ensure("radius x", abs(rx - e.rx) <= 1e-11 * e.rx + 1e-12)
    t.ensure("radius y", abs(ry - e.ry) <= 1e-11 * e.ry + 1e-12)
    t.ensure("rotation", abs(rot - rotation) <= 1e-8)
    t.close("end x", x, arc.end.x, 1e-7)
    t.close("end y", y, arc.end.y, 1e-7)


@contract("P21", ["path.Arc.d", "path.Arc._svg_parameterize"], bounded="runtime")
def arc_data_reads_back(t):
    """an arc of less than a turn, written in either notation, reads back as the same arc (radii and rotation are
    printed to twelve digits)."""
    e = Ell(t, hand=1)
    # near half a turn the digits of the radii decide the centre only roughly
    t.require(abs(e.sweep) < 6.1 and abs(t.sin(e.sweep / 2)) > 0.1 and abs(t.cos(e.sweep / 2)) > 0.1)
    t.require(0.1 < min(e.rx, e.ry) and max(e.rx, e.ry) < 10 * min(e.rx, e.ry))
    P = t.svg.basic.Point
    arc = e.arc()
    relative = t.choice("relative", [None, False, True])
    arc.relative = t.choice("mark", [False, True])
    path = t.svg.path.Path()
    path._segments = [t.svg.path.Move(None, P(arc.start)), arc]
    q = t.svg.path.Path(path.d(relative=relative))
    t.ensure("segments", len(q) == 2 and type(q[1]) is t.svg.path.Arc)
    size = max(e.rx, e.ry)
    t.close("sweep", q[1].sweep, e.sweep, 1e-6)
    t.ensure("arc flags", (q[1].sweep > 0) == (e.sweep > 0))
    for i in range(11):
        p = q[1].point(i / 10.0)
        w = e.at(e.t0 + e.sweep * i / 10.0)
        t.close("point x", p.x, w[0], 1e-6 * size)
        t.close("point y", p.y, w[1], 1e-6 * size)
    t.close("end x", q[1].end.x, arc.end.x, 1e-7)
    t.close("end y", q[1].end.y, arc.end.y, 1e-7)


@contract("P21", ["path.Arc.d", "path.Arc._svg_parameterize"], bounded="runtime")
def half_turns_read_back(t):
    """half ellipses of any size (radii with any digits), whose radii only just span their chord, read back as the half
    ellipse they are."""
    P, M = t.svg.basic.Point, t.svg.path.Move
    rx, ry = t.real("rx", 0.5, 2) * t.choice("size", [1, 1000, 1234567, 0.01]), t.real("aspect", 0.3, 3)
    ry = rx * ry if t.choice("kind", ["circle", "ellipse"]) == "ellipse" else rx
    phi, m = t.real("phi", -3, 3), t.real("m", -3, 3)
    cx, cy = t.real("cx") * rx / 100, t.real("cy") * rx / 100
    sg = t.choice("sg", [1, -1])
    cp, sp = t.cos(phi), t.sin(phi)

    def at(u):
        x, y = rx * t.cos(u), ry * t.sin(u)
        return (cx + x * cp - y * sp, cy + x * sp + y * cp)
    arc = t.svg.path.Arc(P(*at(m)), P(*at(m + t.tau / 2)), P(cx, cy), P(cx + rx * cp, cy + rx * sp),
                         P(cx - ry * sp, cy + ry * cp), sg * t.tau / 2)
    path = t.svg.path.Path()
    path._segments = [M(None, P(arc.start)), arc]
    q = t.svg.path.Path(path.d(relative=t.choice("relative", [None, False, True])))
    t.ensure("segments", len(q) == 2 and type(q[1]) is t.svg.path.Arc)
    t.eq("sweep", q[1].sweep, sg * t.tau / 2, 1e-4)
    for i in range(5):
        p, w = q[1].point(i / 4.0), at(m + sg * i * t.tau / 8)
        t.eq("point", (p.x / rx, p.y / rx), (w[0] / rx, w[1] / rx), 1e-4)


@contract("P21", ["path.Path.d", "path.Path.svg_d", "path.Subpath.d", "path.Move.d", "path.Line.d", "path.Close.d", "path.Arc.d",
                  "path.QuadraticBezier.d", "path.CubicBezier.d"],
          bounded="a move and up to four more segments (eight in runs on doubles)", uses=["basic.Point.__eq__", "basic.Point.__str__"],
          max_paths=9000, samples=600)
def data_is_in_the_notation_asked(t):
    """each segment of the data has its own letter: lower case exactly where relative notation is asked (or recorded, when
    nothing is asked), T and S exactly where smooth shorthand is asked (or recorded) and the curve continues the last one."""
    kinds = "M" + some_kinds(t, "kinds", ["", "L", "QQ", "CC", "LMLZ", "A", "AZ", "QC"], 8, "LQCZMA")
    segs, ghost = build_segments(t, kinds)
    for i, s in enumerate(segs):
        if t.mode == "conc":
            note_flags(t, s, i)
        else:
            s.relative = t.choice("mark", [False, True]) if i == len(segs) - 1 else i % 2 == 0
            if kinds[i] in "QC":
                s.smooth = t.choice("smooth mark", [False, True]) if i == len(segs) - 1 else i % 2 == 0
        if kinds[i] in "QC" and i and t.choice("continue", [False, True]):
            p = segs[i - 1]
            r = t.svg.basic.Point(p.end)
            if kinds[i] == kinds[i - 1]:
                c = p.control if kinds[i] == "Q" else p.control2
                r = t.svg.basic.Point(2 * p.end.x - c.x, 2 * p.end.y - c.y)
            if kinds[i] == "Q":
                s.control = r
            else:
                s.control1 = r
    relative, smooth = t.choice("relative", [None, False, True]), t.choice("smooth", [None, False, True])
    path = t.svg.path.Path()
    path._segments = segs
    if t.choice("through", ["path", "sub-path"]) == "path":
        text = path.d(relative=relative, smooth=smooth)
    else:
        text = t.svg.path.Subpath(path, 0, len(segs) - 1).d(relative=relative, smooth=smooth)
    got = [c for c in text if c in "MLQCZATSmlqczats"]
    t.ensure("as many letters as segments", len(got) == len(kinds), text)
    for i, (c, k, s) in enumerate(zip(got, kinds, segs)):
        lower = s.relative if relative is None else relative
        t.ensure("case", c.islower() == lower, text)
        short = k in "QC" and (s.smooth if smooth is None else smooth) and i > 0 and bool(s.is_smooth_from(segs[i - 1]))
        t.ensure("letter", c.upper() == ({"Q": "T", "C": "S"}[k] if short else k), text)
