# Bounding boxes: every point of the curve is inside, and every side is touched.

def quad_axis(t, a, lo, hi, s, label):
    """[lo, hi] is the range of the quadratic with Bernstein coefficients a over [0, 1]"""
    f = lambda u: (1 - u) * ((1 - u) * a[0] + u * a[1]) + u * ((1 - u) * a[1] + u * a[2])
    v = f(s)
    t.ensure(label + " contained above", le(t, v, hi))
    t.ensure(label + " contained below", le(t, lo, v))
    n, d = a[0] - a[1], a[0] - 2 * a[1] + a[2]
    # critical point r = n/d strictly inside, without dividing
    inside = t.Or(t.And(d > 0, n > 0, n < d), t.And(d < 0, n < 0, n > d))
    # f(r) = a0 - n*n/d
    touch = lambda b: t.Or(near(t, b, a[0]), near(t, b, a[2]), t.And(inside, near(t, (a[0] - b) * d, n * n)))
    t.ensure(label + " lower side touched", touch(lo))
    t.ensure(label + " upper side touched", touch(hi))


@contract("P16", ["path.PathSegment.bbox", "path.QuadraticBezier.bbox"])
def line_and_move_bbox(t):
    """a line, close or move: exactly the box spanned by its points."""
    kind = t.choice("kind", ["Line", "Close", "Move"])
    pts = bezier_points(t, kind)
    seg = make_segment(t, kind, pts)
    b = seg.bbox()
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    t.eq("box", tuple(b), (t.min(xs), t.min(ys), t.max(xs), t.max(ys)))
    s = t.real("s", 0, 1)
    p = bernstein(pts, s)
    t.ensure("contains x", t.And(le(t, b[0], p[0]), le(t, p[0], b[2])))
    t.ensure("contains y", t.And(le(t, b[1], p[1]), le(t, p[1], b[3])))
    t.eq("segment unchanged", control_points(seg), pts)


@contract("P16", ["path.QuadraticBezier.bbox"])
def quadratic_bbox(t):
    """quadratic Bezier: every point of the curve is in the box and every side is touched by the curve."""
    pts = bezier_points(t, "QuadraticBezier")
    seg = make_segment(t, "QuadraticBezier", pts)
    s = t.real("s", 0, 1)
    b = seg.bbox()
    ax = t.choice("axis", [0, 1])
    quad_axis(t, [p[ax] for p in pts], b[ax], b[ax + 2], s, "xy"[ax])
    t.eq("segment unchanged", control_points(seg), pts)


def cubic_axis(t, shape, i):
    """Bernstein coefficients of a cubic polynomial c0 + c1 u + c2 u^2 + c3 u^3 in one of four shapes that together cover
    all of them: two real critical points r1, r2; none (complex p +- iq); vanishing cubic term.  Also the polynomial and
    the list of its critical points."""
    c0 = t.real("c0" + i)
    if shape == "real":
        k, r1, r2 = t.real("k" + i), t.real("r1" + i), t.real("r2" + i)
        t.require(t.And(r1 <= r2, t.Or(k > 0, k < 0)))
        c3, c2, c1 = 2 * k, -3 * k * (r1 + r2), 6 * k * r1 * r2
        crit = [r1, r2]
    elif shape == "complex":
        k, p, q = t.real("k" + i), t.real("p" + i), t.real("q" + i, nonzero=True)
        t.require(t.Or(k > 0, k < 0))
        c3, c2, c1 = k, -3 * k * p, 3 * k * (p * p + q * q)
        crit = []
    else:
        c3, c2, c1 = 0, t.real("k" + i), t.real("l" + i)
        crit = [None]
    f = lambda u: c0 + u * (c1 + u * (c2 + u * c3))
    return [c0, c0 + c1 / 3, c0 + 2 * c1 / 3 + c2 / 3, c0 + c1 + c2 + c3], f, crit, (c0, c1, c2, c3)


@contract("P16", ["path.CubicBezier.bbox", "path.CubicBezier._real_minmax"])
def cubic_bbox_across(t):
    """cubic Bezier: every point of the curve is between the left and right side, and both are touched by the curve."""
    cubic_box_axis(t, 0)


@contract("P16", ["path.CubicBezier.bbox", "path.CubicBezier._real_minmax"])
def cubic_bbox_along(t):
    """cubic Bezier: every point of the curve is between the upper and lower side, and both are touched by the curve."""
    cubic_box_axis(t, 1)


def cubic_box_axis(t, ax):
    a, f, crit, c = cubic_axis(t, t.choice("shape", ["real", "complex", "flat"]), "")
    other = [t.real("o%d" % i) for i in range(4)]
    pts = list(zip(a, other)) if ax == 0 else list(zip(other, a))
    seg = make_segment(t, "CubicBezier", pts)
    b = seg.bbox()
    lo, hi = b[ax], b[ax + 2]
    s = t.real("s", 0, 1)
    t.ensure("contained above", le(t, f(s), hi))
    t.ensure("contained below", le(t, lo, f(s)))
    for name, bound in (("lower", lo), ("upper", hi)):
        ways = [near(t, bound, f(0)), near(t, bound, f(1))]
        for r in crit:
            if r is None:
                n, d = -c[1], 2 * c[2]
                inside = t.Or(t.And(d > 0, n > 0, n < d), t.And(d < 0, n < 0, n > d))
                ways.append(t.And(inside, near(t, (bound - c[0]) * 2 * d, -n * n)))
            else:
                ways.append(t.And(r > 0, r < 1, near(t, bound, f(r))))
        t.ensure(name + " side touched", t.Or(*ways))
    t.eq("segment unchanged", control_points(seg), pts)


@contract("P16", [])
def lemma_cubic_shapes_cover(t):
    """lemma: every cubic polynomial with a non-zero cubic coefficient has one of the shapes used in cubic_bbox."""
    c1, c2, c3 = t.real("c1"), t.real("c2"), t.real("c3", nonzero=True)
    d = c2 * c2 - 3 * c1 * c3
    if d >= 0:
        w = t.sqrt(d)
        k, r1, r2 = c3 / 2, (-c2 + w) / (3 * c3), (-c2 - w) / (3 * c3)
        if c3 > 0:
            r1, r2 = r2, r1
        t.ensure("in order", r1 <= r2)
        t.eq("real critical points", (2 * k, -3 * k * (r1 + r2), 6 * k * r1 * r2), (c3, c2, c1))
    else:
        p, q = -c2 / (3 * c3), t.sqrt(-d / (9 * c3 * c3))
        t.ensure("q > 0", q > 0)
        t.eq("complex critical points", (-3 * c3 * p, 3 * c3 * (p * p + q * q)), (c2, c1))


@contract("P16", ["path.QuadraticBezier.bbox", "path.CubicBezier.bbox"], bounded="runtime", samples=300)
def near_degenerate_boxes(t):
    """on doubles of any size: a quadratic curve, or line, written as a cubic has the box of the curve; so have curves
    with nearly vanishing terms."""
    from fractions import Fraction
    scale = 10.0 ** t.choice("scale", [-6, -3, 0, 2, 3, 4, 6, 9])
    offset = t.choice("offset", [0, 1, 100]) * scale
    rnd = lambda n: t.real(n, -1, 1) * scale + offset
    shape = t.choice("shape", ["quadratic", "line", "nearly", "flat quadratic"])
    p = [[rnd("p%d%d" % (i, j)) for j in (0, 1)] for i in range(3)]
    if shape == "line":
        a, b = p[0], p[2]
        pts = [a, [a[j] + (b[j] - a[j]) / 3 for j in (0, 1)], [a[j] + (b[j] - a[j]) * 2 / 3 for j in (0, 1)], b]
    elif shape == "flat quadratic":
        pts = [p[0], [(p[0][j] + p[2][j]) / 2 for j in (0, 1)], p[2]]
    else:
        e = 0 if shape == "quadratic" else 10.0 ** t.choice("term", [-15, -13, -12, -11, -10, -8, -6]) * scale
        pts = [p[0], [p[0][j] + (p[1][j] - p[0][j]) * 2 / 3 + e for j in (0, 1)],
               [p[2][j] + (p[1][j] - p[2][j]) * 2 / 3 - e for j in (0, 1)], p[2]]
    seg = make_segment(t, "QuadraticBezier" if len(pts) == 3 else "CubicBezier", pts)
    box = seg.bbox()
    exact = [[Fraction(v) for v in q] for q in pts]
    at = [bernstein(exact, Fraction(i, 256)) for i in range(257)]
    # on 256 steps a side is at most max|B''|/8/256^2 away from the nearest point tried
    bend = max(abs(u[j] - 2 * v[j] + w[j]) for u, v, w in zip(exact, exact[1:], exact[2:]) for j in (0, 1)) * 6
    tol = bend / 8 / 256 ** 2
    eps = Fraction(1, 10 ** 13) * Fraction(scale * 100 + offset)
    for j in (0, 1):
        lo, hi = min(q[j] for q in at), max(q[j] for q in at)
        t.ensure("contained", Fraction(box[j]) <= lo + eps and hi <= Fraction(box[j + 2]) + eps)
        t.ensure("touched", Fraction(box[j]) >= lo - tol - eps and Fraction(box[j + 2]) <= hi + tol + eps)


@contract("P16", ["path.Arc.bbox", "path.Arc.theta", "path.Arc.delta"], bounded="runtime")
def arc_bbox(t):
    """an arc's box (at most one turn) contains every point of it and each side touches the arc."""
    e = Ell(t, hand=1)
    t.require(abs(e.sweep) < 6.28 and abs(e.sweep) > 0.01 and min(e.rx, e.ry) > 0.05)
    k = t.choice("rotation", [None, 0, 1, 2, -1, 5])
    if k is not None:
        e.phi = k * t.tau / 4
        e.cp, e.sp = t.cos(e.phi), t.sin(e.phi)
    arc = e.arc()
    box = arc.bbox()
    steps = 720
    ps = [e.at(e.t0 + e.sweep * i / steps) for i in range(steps + 1)]
    size = max(e.rx, e.ry)
    tol = 1e-4 * size
    want = (min(x for x, y in ps), min(y for x, y in ps), max(x for x, y in ps), max(y for x, y in ps))
    for i, (a, b) in enumerate(zip(box, want)):
        t.ensure("contains" if (a <= b) == (i < 2) else "touches", abs(a - b) <= tol)
