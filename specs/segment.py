# Lines and Bezier curves: evaluation, affine images, reversal, bounding boxes.

@contract("P13", ["path.PathSegment.point", "path.Linear.npoint", "path.QuadraticBezier.npoint",
                  "path.CubicBezier.npoint", "basic.Point.towards"], numeric=True)
def bezier_point_is_the_curve(t):
    """point(s) of a line, close or Bezier segment is the Bernstein combination of its control points for every s in
    [0, 1], with numpy and without; evaluation changes nothing."""
    kind = t.choice("kind", KINDS)
    pts = bezier_points(t, kind)
    seg = make_segment(t, kind, pts)
    s = t.real("s", 0, 1)
    p = seg.point(s)
    t.ensure("a Point", isinstance(p, t.svg.basic.Point))
    t.eq("point", xy(p), bernstein(pts, s))
    t.eq("segment unchanged", control_points(seg), pts)
    t.eq("start", xy(seg.point(0)), pts[0])
    t.eq("end", xy(seg.point(1)), pts[-1])
    p += (1, 1)
    t.eq("segment not aliased", control_points(seg), pts)


@contract("P13", ["path.PathSegment.npoint", "path.Linear.npoint", "path.QuadraticBezier.npoint",
                  "path.CubicBezier.npoint", "path.Move"], numeric=True,
          uses=["basic.Point.__eq__"])
def npoint_is_pointwise(t):
    """npoint gives one point per position, in order, each the one point() gives for it; a move is its end everywhere."""
    kind = t.choice("kind", KINDS + ["Move"])
    pts = bezier_points(t, kind)
    seg = make_segment(t, kind, pts)
    ss = [t.real("s%d" % i, 0, 1) for i in range(t.choice("n", [0, 1, 2, 3, 5] if t.mode == "sym" else [0, 1, 2, 3, 5, 9, 33]))]
    r = seg.npoint(ss)
    t.ensure("one per position", len(r) == len(ss))
    for i in range(len(ss)):
        want = pts[1] if kind == "Move" else bernstein(pts, ss[i])
        t.eq("point", as_xy(r[i]), want)
    t.eq("segment unchanged", control_points(seg), pts)


@contract("P14", ["path.PathSegment.__mul__", "path.Move.__imul__", "path.Linear.__imul__",
                  "path.QuadraticBezier.__imul__", "path.CubicBezier.__imul__", "path.Move.__copy__",
                  "path.Linear.__copy__", "path.QuadraticBezier.__copy__", "path.CubicBezier.__copy__"],
          uses=["basic.Matrix.point_in_matrix_space"])
def bezier_affine_image(t):
    """segment * matrix is a new segment of the same kind whose points are the images; *= does it in place."""
    kind = t.choice("kind", KINDS + ["Move"])
    pts = bezier_points(t, kind)
    rel, smooth = t.choice("relative", [False, True]), t.choice("smooth", [False, True])
    seg = make_segment(t, kind, pts, relative=rel, smooth=smooth) if kind != "Move" else make_segment(t, kind, pts, relative=rel)
    M = t.matrix("m")
    M0 = six(M)
    how = t.choice("how", ["mul", "rmul", "imul"])
    if how == "mul":
        r = seg * M
    elif how == "rmul":
        r = seg.__rmul__(M)
    else:
        r = seg
        r *= M
    if how == "imul":
        t.ensure("in place", r is seg)
    else:
        t.ensure("new segment", r is not seg)
        t.eq("original unchanged", control_points(seg), pts)
    t.ensure("kind", type(r) is type(seg))
    t.eq("image", control_points(r), [m_apply(M0, *p) for p in pts])
    t.ensure("relative kept", r.relative == rel)
    if kind in ("QuadraticBezier", "CubicBezier"):
        t.ensure("smooth kept", r.smooth == smooth)
    t.eq("matrix unchanged", six(M), M0)
    if kind != "Move":
        s = t.real("s", 0, 1)
        t.eq("pointwise image", bernstein(control_points(r), s), m_apply(M0, *bernstein(pts, s)))


@contract("P14", ["path.Move.__imul__", "path.Linear.__imul__", "path.QuadraticBezier.__imul__",
                  "path.CubicBezier.__imul__", "path.PathSegment.__mul__"])
def text_transform_of_segment(t):
    """a transform given as text acts like the matrix it denotes; a missing (None) start point stays missing."""
    kind = t.choice("kind", KINDS + ["Move"])
    pts = bezier_points(t, kind)
    seg = make_segment(t, kind, pts)
    dx, dy = t.real("dx", -1000, 1000), t.real("dy", -1000, 1000)
    text = "translate(%r, %r) scale(2)" % (dx, dy)
    none = t.choice("start missing", [False, True])
    if none:
        seg.start = None
    if t.choice("in place", [False, True]):
        r = seg
        r *= text
    else:
        r = seg * text
    want = [(2 * x + dx, 2 * y + dy) for x, y in pts]
    if none:
        want[0] = None
    t.eq("image", control_points(r), want)


@contract("P15", ["path.PathSegment.reverse", "path.CubicBezier.reverse"])
def bezier_reverse(t):
    """reverse() runs the same curve backwards: point(s) becomes point(1-s); twice restores the segment exactly."""
    kind = t.choice("kind", KINDS)
    pts = bezier_points(t, kind)
    seg = make_segment(t, kind, pts)
    seg.reverse()
    t.eq("control points reversed", control_points(seg), pts[::-1])
    s = t.real("s", 0, 1)
    t.eq("same curve backwards", bernstein(control_points(seg), s), bernstein(pts, 1 - s))
    seg.reverse()
    t.eq("twice is identity", control_points(seg), pts)


@contract("P34", ["path.Linear.closest_segment_point", "basic.Point.towards"])
def closest_point_of_a_line(t):
    """closest_segment_point is a new point of the segment (or, without bounds, of its line), and no point of it is nearer
    to the given point; nothing else changes."""
    pts = bezier_points(t, "Line")
    (ax, ay), (bx, by) = pts
    seg = make_segment(t, t.choice("kind", ["Line", "Close"]), pts)
    x, y = t.real("x"), t.real("y")
    form = t.choice("point", ["pair", "point"])
    p = (x, y) if form == "pair" else t.svg.basic.Point(x, y)
    how = t.choice("bounds", ["default", "yes", "no"])
    same = t.choice("zero length", [False, True])
    if same:
        seg = make_segment(t, "Line", [pts[0], pts[0]])
        pts = [pts[0], pts[0]]
        bx, by = ax, ay
    r = seg.closest_segment_point(p) if how == "default" else seg.closest_segment_point(p, how == "yes")
    t.ensure("a Point", isinstance(r, t.svg.basic.Point))
    t.eq("on the line", (r.x - ax) * (by - ay), (r.y - ay) * (bx - ax), 1e-6)
    k = (r.x - ax) * (bx - ax) + (r.y - ay) * (by - ay)
    if how != "no":
        t.ensure("between the ends", t.And(le(t, 0, k), le(t, k, (bx - ax) ** 2 + (by - ay) ** 2)))
    s = t.real("s", 0, 1) if how != "no" else t.real("s")
    qx, qy = ax + s * (bx - ax), ay + s * (by - ay)
    t.ensure("no point is nearer", le(t, (r.x - x) ** 2 + (r.y - y) ** 2, (qx - x) ** 2 + (qy - y) ** 2))
    if t.mode == "conc" and not same:
        # the same a million times smaller, about the start
        z = 10.0 ** -t.choice("scale", [3, 6, 9])
        u, v = (bx - ax) * z, (by - ay) * z
        t.require(abs(u) + abs(v) > z)
        tiny = make_segment(t, "Line", [(0.0, 0.0), (u, v)])
        f = t.real("f", 0, 1)
        w = tiny.closest_segment_point((f * u - v, f * v + u))
        t.eq("foot on a short line", (w.x / z, w.y / z), (f * u / z, f * v / z))
    t.eq("segment unchanged", control_points(seg), pts)
    t.eq("point unchanged", (p[0], p[1]), (x, y))
    r += (1, 1)
    t.eq("segment not aliased", control_points(seg), pts)
