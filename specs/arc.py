# Elliptical arcs.


ARC_T = ["path.Arc.get_start_t", "path.Arc.point_at_t", "path.Arc.t_at_point", "path.Arc.point_at_angle",
         "path.Arc.angle_at_point", "path.Arc.get_start_angle", "path.Arc.get_rotation", "path.Arc.rx", "path.Arc.ry",
         "basic.Point.angle", "basic.Point.angle_to", "basic.Point.distance"]


@contract(["P13", "P18", "P31"], ARC_T + ["path.Arc.get_end_t", "path.Arc.get_end_angle"])
def arc_start_parameter(t):
    """get_start_t() and get_end_t() are the ellipse parameters of the start and end points, less whole turns, in
    (-1/4, 3/4] turn."""
    t.quadrants()
    if t.choice("which", ["start", "end"]) == "start":
        e = Ell(t)
        arc, u = e.arc(), e.t0
        r = arc.get_start_t()
    else:
        u = t.real("u")
        e = Ell(t, sweep=u - t.real("t0"))
        arc = e.arc()
        r = arc.get_end_t()
    t.eq("cos", t.cos(r), t.cos(u))
    t.eq("sin", t.sin(r), t.sin(u))
    t.ensure("above -1/4 turn", le(t, -t.tau / 4, r))
    t.ensure("below 3/4 turn", le(t, r, 3 * t.tau / 4))
    t.eq("arc unchanged", control_points(arc), e.five())


@stub("path.Arc.get_start_t", "arc_start_parameter")
def stub_get_start_t(t, real, self):
    five = control_points(self)
    if None not in five:
        for e in t.__dict__.get("ells", []):
            want = e.five()
            if all([t.identical(five[i][k], want[i][k]) for i in (0, 2, 3, 4) for k in (0, 1)]):
                return t.turns(e.t0, -t.tau / 3, 3 * t.tau / 4)
    if "circles" in t.__dict__:
        return circle_parameter(t, self, self.start, "start")
    return real(self)


@stub("path.Arc.get_end_t", "arc_start_parameter")
def stub_get_end_t(t, real, self):
    return circle_parameter(t, self, self.end, "end") if "circles" in t.__dict__ else real(self)


def circle_parameter(t, arc, p, name):
    """the angle of a point of an upright circle, in (-1/4, 3/4] turn: any with that cosine and sine"""
    (cx, cy), r = xy(arc.center), arc.prx.x - arc.center.x
    t.ensure("upright circle", t.And(r > 0, arc.prx.y == cy, arc.pry.x == cx, arc.pry.y - cy == r))
    dx, dy = p.x - cx, p.y - cy
    t.ensure(name + " on the circle", dx * dx + dy * dy == r * r)
    v = t.real(name + "_t")
    t.require(t.And(-t.tau / 4 < v, v <= 3 * t.tau / 4, t.cos(v) * r == dx, t.sin(v) * r == dy))
    t.circles.append((name, v))
    for (other, w), q in zip(t.circles[:-1], t.placed):
        # equal angles have equal cosines and sines: different points have different angles
        t.ensure("apart", t.Or(p.x != q[0], p.y != q[1]))
        t.require(v != w)
    t.placed.append(xy(p))
    return v


@contract("P13", ["path.Arc.npoint", "path.Arc._points_numpy", "path.PathSegment.point", "path.Arc.point_at_t"],
          numeric=True, uses=["path.Arc.get_start_t"])
def arc_point_is_on_the_ellipse(t):
    """point(s) of an arc is the ellipse point at start parameter + s * sweep; the ends are exactly start and end."""
    t.quadrants()
    e = Ell(t)
    t.require(e.sweep != 0)
    arc = e.arc()
    five = e.five()
    s = t.choice("s", [0, 1, None])
    if s is None:
        s = t.real("s", 0, 1)
        t.eq("point", xy(arc.point(s)), e.at(e.t0 + s * e.sweep))
    else:
        t.eq("ends", xy(arc.point(s)), five[s])
    t.eq("arc unchanged", control_points(arc), five)


@contract("P13", ["path.Arc.npoint", "path.Arc._points_numpy", "path.Arc.point_at_t"],
          numeric=True, uses=["path.Arc.get_start_t"])
def arc_npoint_is_pointwise(t):
    """npoint of an arc gives, in order, the point of each position, ends exact; an empty arc stays at its start."""
    t.quadrants()
    empty = t.choice("empty arc", [False, True])
    if empty:
        p = t.point("p")
        arc = t.svg.path.Arc(p, p, p, p, p, 0)
    else:
        e = Ell(t, hand=1)
        t.require(e.sweep != 0)
        arc = e.arc()
    ss = t.choice("positions", [[], [1, 0], ["a", 0], [1, "a"], ["a", "b"]])
    ss = [t.real(s, 0, 1) if isinstance(s, str) else s for s in ss]
    r = arc.npoint(ss)
    t.ensure("one per position", len(r) == len(ss))
    for i in range(len(ss)):
        if empty:
            want = xy(p)
        elif isinstance(ss[i], int):
            want = e.five()[ss[i]]
        else:
            want = e.at(e.t0 + ss[i] * e.sweep)
        t.eq("point", as_xy(r[i]), want)


@contract("P13", ["path.Arc.point_at_t", "path.Arc.t_at_point", "path.Arc.rx", "path.Arc.ry", "path.Arc.get_rotation",
                  "path.Arc.radius", "path.Arc.is_circular", "path.Arc.angle_at_point"])
def arc_parameter_round_trip(t):
    """point_at_t is the ellipse parameterisation and t_at_point inverts it up to whole turns; rx, ry and rotation
    are those of the ellipse."""
    t.quadrants()
    e = Ell(t)
    arc = e.arc()
    u = t.real("u")
    p = arc.point_at_t(u)
    t.eq("point_at_t", xy(p), e.at(u))
    t.eq("radii", (arc.rx, arc.ry), (e.rx, e.ry))
    t.eq("radius", xy(arc.radius), (e.rx, e.ry))
    t.ensure("is_circular", t.iff(arc.is_circular(), e.circle) if t.mode == "sym" else True)
    r = arc.get_rotation()
    t.eq("rotation", (t.cos(r), t.sin(r)), (e.cp, e.sp))
    v = arc.t_at_point(p)
    t.eq("t_at_point", (t.cos(v), t.sin(v)), (t.cos(u), t.sin(u)))


@contract("P13", ["path.Arc.point_at_angle", "path.Arc.get_rotation"])
def arc_point_at_angle(t):
    """point_at_angle(a) is the point of the ellipse in direction a from the centre."""
    t.quadrants()
    e = Ell(t)
    arc = e.arc()
    a = t.real("a")
    p = arc.point_at_angle(t.svg.basic.Angle(a))
    dx, dy = p.x - e.cx, p.y - e.cy
    x, y = dx * e.cp + dy * e.sp, dy * e.cp - dx * e.sp
    t.eq("on the ellipse", x * x * e.ry * e.ry + y * y * e.rx * e.rx, e.rx * e.rx * e.ry * e.ry)
    t.eq("on the line", dx * t.sin(a), dy * t.cos(a))
    t.ensure("on the right side", dx * t.cos(a) + dy * t.sin(a) > 0)


@contract("P14", ["path.Arc.__imul__", "path.PathSegment.__mul__", "path.Arc.__copy__", "path.Arc.__init__"],
          uses=["basic.Matrix.point_in_matrix_space"],
          note="non-singular matrices; images of the axes are exactly perpendicular or differ by more than the code's 1e-12")
def arc_affine_image(t):
    """arc * matrix is the image: start, end and centre are the images, the new axes are perpendicular conjugate
    semidiameters of the image ellipse, and the sweep keeps its size and changes sign exactly for mirror images."""
    h = t.choice("hand", [1, -1])
    k = t.choice("ratio", [1, None])
    k = t.real("k", 0.01) if k is None else k
    cx, cy, p, q = t.real("cx"), t.real("cy"), t.real("p"), t.real("q")
    t.require(p * p + q * q > 0)
    U0, V0 = (p, q), (-h * k * q, h * k * p)
    sweep, t0 = t.real("sweep"), t.real("t0")
    at = lambda u: (cx + p * t.cos(u) - k * q * t.sin(u), cy + q * t.cos(u) + k * p * t.sin(u))
    if t.mode == "sym":
        ends = [(t.real("sx"), t.real("sy")), (t.real("ex"), t.real("ey"))]      # in general position
    else:
        ends = [at(t0), at(t0 + sweep)]
    five = ends + [(cx, cy), (cx + U0[0], cy + U0[1]), (cx + V0[0], cy + V0[1])]
    arc = t.svg.path.Arc(*([t.svg.basic.Point(*z) for z in five] + [sweep]))
    M = t.matrix("m", -50, 50)
    M0 = six(M)
    D0 = det(M0)
    t.require(D0 != 0)
    lin = (M0[0], M0[1], M0[2], M0[3], 0, 0)
    MU = m_apply(lin, *U0)
    MV = m_apply(lin, *V0)
    sk = 2 * (MU[0] * MV[0] + MU[1] * MV[1])
    size = MU[0] * MU[0] + MU[1] * MU[1] + MV[0] * MV[0] + MV[1] * MV[1]
    if t.mode == "conc":
        t.require(abs(D0) > 0.01 and min(1, k) ** 2 * (p * p + q * q) > 0.1)
    t.require(size > 0)
    if t.choice("how", ["mul", "imul"]) == "mul":
        r = arc * M
        t.eq("original unchanged", control_points(arc), five)
        t.eq("original sweep unchanged", arc.sweep, sweep)
        t.ensure("new", r is not arc)
    else:
        r = arc
        r *= M
        t.ensure("same object", r is arc)
    got = control_points(r)
    t.eq("start, end, centre", got[:3], [m_apply(M0, *p) for p in five[:3]])
    c = got[2]
    U = (got[3][0] - c[0], got[3][1] - c[1])
    V = (got[4][0] - c[0], got[4][1] - c[1])
    cross = lambda a, b: a[0] * b[1] - a[1] * b[0]
    D, A, B = cross(MU, MV), cross(U, MV), cross(MU, U)
    if t.mode == "sym":
        t.eq("major axis on the image ellipse", A * A + B * B, D * D)
        t.eq("minor axis conjugate x", V[0] * D, A * MV[0] - B * MU[0])
        t.eq("minor axis conjugate y", V[1] * D, A * MV[1] - B * MU[1])
    perp = U[0] * V[0] + U[1] * V[1]
    if t.mode == "conc" or not t.identical(perp, 0):
        t.ensure("axes perpendicular", t.And(le(t, 2 * perp, 1e-12 * size), le(t, -2 * perp, 1e-12 * size)))
    else:
        t.ensure("axes perpendicular", t.identical(perp, 0))
    t.eq("sweep", r.sweep, sweep if D0 > 0 else -sweep)
    t.eq("matrix unchanged", six(M), M0)
    if t.mode == "conc":
        t.require(abs(sweep) > 0.001 and abs(sweep) < 20)
        s = t.real("s", 0, 1)
        t.eq("pointwise image", xy(r.point(s)), m_apply(M0, *at(t0 + s * sweep)), 1e-5)


@contract("P15", ["path.Arc.reverse", "path.PathSegment.reverse"])
def arc_reverse(t):
    """reverse() swaps the ends and negates the sweep on the same ellipse, so point(s) becomes point(1-s)."""
    t.quadrants()
    e = Ell(t)
    t.require(e.sweep != 0)
    arc = e.arc()
    five = e.five()
    arc.reverse()
    t.eq("ends swapped, same ellipse", control_points(arc), [five[1], five[0]] + five[2:])
    t.eq("sweep negated", arc.sweep, -e.sweep)
    s = t.real("s", 0, 1)
    if t.mode == "conc":
        t.eq("same curve backwards", xy(arc.point(s)), e.at(e.t0 + (1 - s) * e.sweep))
    arc.reverse()
    t.eq("twice is identity", control_points(arc), five)
    t.eq("twice restores the sweep", arc.sweep, e.sweep)


@contract("P14", [])
def lemma_arc_image_points(t):
    """lemma: axes related as in arc_affine_image, with the sweep changing sign exactly for mirror images, make every
    point at fraction s of the new arc the image of the point at fraction s of the old one."""
    mu, mv = (t.real("ux"), t.real("uy")), (t.real("vx"), t.real("vy"))        # images of the right-handed axes
    delta, t0, sweep, s = t.real("delta"), t.real("t0"), t.real("sweep"), t.real("s", 0, 1)
    a, b = t.cos(delta), t.sin(delta)
    cross = mu[0] * mv[1] - mu[1] * mv[0]
    t.require(cross != 0)
    U = (a * mu[0] + b * mv[0], a * mu[1] + b * mv[1])
    V = (a * mv[0] - b * mu[0], a * mv[1] - b * mu[1])
    eps = 1 if cross > 0 else -1
    VR = (eps * V[0], eps * V[1])
    t.ensure("right-handed", U[0] * VR[1] - U[1] * VR[0] > 0)
    at = lambda x: (U[0] * t.cos(x) + VR[0] * t.sin(x), U[1] * t.cos(x) + VR[1] * t.sin(x))
    old = lambda x: (mu[0] * t.cos(x) + mv[0] * t.sin(x), mu[1] * t.cos(x) + mv[1] * t.sin(x))
    x0 = eps * (t0 - delta)
    t.eq("start parameter", at(x0), old(t0))
    t.eq("every point", at(x0 + s * (eps * sweep)), old(t0 + s * sweep))


def svg_form(t, start, rx, ry, rot, large, sw, end):
    P = t.svg.basic.Point
    form = t.choice("form", ["args", "negative", "complex", "named"])
    sx, sy = {"args": (1, 1), "negative": (-1, -1), "complex": (1, -1), "named": (-1, 1)}[form]
    if form in ("args", "negative"):
        return t.svg.path.Arc(P(*start), sx * rx, sy * ry, rot, large, sw, P(*end))
    radius = complex(sx * rx, sy * ry)
    if form == "complex":
        return t.svg.path.Arc(P(*start), radius, rot, large, sw, P(*end))
    return t.svg.path.Arc(start=P(*start), radius=radius, rotation=rot, arc_flag=large, sweep_flag=sw, end=P(*end))


SVG = ["path.Arc.__init__", "path.Arc._svg_parameterize", "path.Arc._svg_complex_parameterize"]


@contract("P17", SVG)
def svg_arc_recovers_centre_form(t):
    """from start, radii, rotation, flags and end, the arc recovers exactly the ellipse and sweep these describe."""
    t.quadrants()
    m = t.real("m")
    h = t.half_turn("h")
    t.require(t.And(h != 0, h != t.tau / 2, h != t.tau / 4, h != -t.tau / 4))
    rot = t.real("rot")
    cx, cy, rx, ry = t.real("cx"), t.real("cy"), t.real("rx", 0.001), t.real("ry", 0.001)
    phi = rot * t.tau / 360
    cp, sp = t.cos(phi), t.sin(phi)

    def at(u):
        x, y = rx * t.cos(u), ry * t.sin(u)
        return (cx + x * cp - y * sp, cy + x * sp + y * cp)
    start, end = at(m - h), at(m + h)
    P = t.svg.basic.Point
    t.require(P(*start) != P(*end))
    if t.mode == "conc":
        t.require(abs(t.sin(h)) > 0.05 and abs(t.cos(h)) > 0.05 and min(rx, ry) > 0.2)
    large = 1 if t.Or(h > t.tau / 4, h < -t.tau / 4) else 0
    sw = 1 if h > 0 else 0
    arc = svg_form(t, start, rx, ry, rot, large, sw, end)
    t.eq("start", xy(arc.start), start)
    t.eq("end", xy(arc.end), end)
    t.eq("centre", xy(arc.center), (cx, cy))
    t.eq("prx", xy(arc.prx), (cx + rx * cp, cy + rx * sp))
    t.eq("pry", xy(arc.pry), (cx - ry * sp, cy + ry * cp))
    t.eq("sweep", arc.sweep, 2 * h)


@contract("P17", SVG)
def svg_arc_grows_short_radii(t):
    """radii too short to span the end points are enlarged in proportion until they just do: a half ellipse about the
    midpoint, turning the way the sweep flag says."""
    t.quadrants()
    m = t.real("m")
    rot = t.real("rot")
    cx, cy, rx, ry = t.real("cx"), t.real("cy"), t.real("rx", 0.001), t.real("ry", 0.001)
    k = t.real("k", 0.001, 1)
    phi = rot * t.tau / 360
    cp, sp = t.cos(phi), t.sin(phi)
    x, y = rx * t.cos(m), ry * t.sin(m)
    off = (x * cp - y * sp, x * sp + y * cp)
    start, end = (cx - off[0], cy - off[1]), (cx + off[0], cy + off[1])
    P = t.svg.basic.Point
    t.require(P(*start) != P(*end))
    if t.mode == "conc":
        t.require(min(rx, ry) > 0.2 and k < 0.999)
    large, sw = t.choice("large", [0, 1]), t.choice("sw", [0, 1])
    arc = svg_form(t, start, k * rx, k * ry, rot, large, sw, end)
    t.eq("start", xy(arc.start), start)
    t.eq("end", xy(arc.end), end)
    t.eq("centre", xy(arc.center), (cx, cy), 1e-4)
    t.eq("prx", xy(arc.prx), (cx + rx * cp, cy + rx * sp), 1e-4)
    t.eq("pry", xy(arc.pry), (cx - ry * sp, cy + ry * cp), 1e-4)
    t.eq("sweep", arc.sweep, t.tau / 2 if sw else -t.tau / 2, 1e-4)


@contract("P17", SVG, bounded="runtime")
def svg_arcs_at_their_limits(t):
    """Ends that nearly coincide (2h of the ellipse apart, h down to 1e-9), and radii that just span the chord or are too
    short for it: the sweep is the standard's to nine digits of its own size (a whole turn less a trifle stays one, a
    trifle stays a trifle), and half ellipses are centred on the middle of their chord."""
    P = t.svg.basic.Point
    m, rot = t.real("m"), t.real("rot", -180, 180)
    rx, ry = t.real("rx", 0.5, 5), t.real("ry", 0.5, 5)
    k = t.choice("size", [1, 1000])
    rx, ry = rx * k, ry * k
    cp, sp = t.cos(rot * t.tau / 360), t.sin(rot * t.tau / 360)
    turn = lambda x, y: (x * cp - y * sp, x * sp + y * cp)
    sw, large = t.choice("sw", [0, 1]), t.choice("large", [0, 1])
    case = t.choice("case", ["near ends", "half", "nearly half"])
    sg = 1 if sw else -1
    if case == "nearly half":
        # a shade under or over half a turn: the centre stays on its side of the chord
        d = 10.0 ** -t.choice("shade", [1, 2, 3, 4, 5])
        h = sg * (t.tau / 4 + d if large else t.tau / 4 - d)
        s0, s1 = turn(rx * t.cos(m - h), ry * t.sin(m - h)), turn(rx * t.cos(m + h), ry * t.sin(m + h))
        arc = svg_form(t, s0, rx, ry, rot, large, sw, s1)
        t.eq("centre near the chord", (arc.center.x / k / d, arc.center.y / k / d), (0, 0), 1e-3)
        t.eq("nearly half a turn", (arc.sweep - sg * t.tau / 2) / d, (2 if large else -2) * sg, 1e-3)
        return
    if case == "half":
        off = turn(rx * t.cos(m), ry * t.sin(m))
        q = t.choice("short", [1e-6, 0.1, 0.5, 0.9, 0.999999, 1 - 1e-10])
        arc = svg_form(t, (-off[0], -off[1]), q * rx, q * ry, rot, large, sw, off)
        t.eq("middle", (arc.center.x / k, arc.center.y / k), (0, 0), 1e-10)
        t.eq("half a turn", arc.sweep, sg * t.tau / 2, 1e-10)
        t.eq("radii", (arc.rx / k, arc.ry / k), (rx / k, ry / k), 1e-10)
        return
    h = 10.0 ** -t.choice("h", [3, 5, 6, 7, 8, 9]) * t.choice("mantissa", [1, 2.5, 7])
    # walk from m - s h to m + s h the short way, from m + s h the long way
    c = [turn(rx * t.cos(u), ry * t.sin(u)) for u in (m - sg * h, m + sg * h)]
    d = turn(-2 * t.sin(sg * h) * rx * t.sin(m), 2 * t.sin(sg * h) * ry * t.cos(m))
    end = d if not large else (-d[0], -d[1])
    t.require(P(0, 0) != P(*end))
    arc = svg_form(t, (0.0, 0.0), rx, ry, rot, large, sw, end)
    if not large:
        t.eq("a trifle", arc.sweep / (2 * h), sg, 1e-7)
    else:
        t.eq("a turn less a trifle", (t.tau - sg * arc.sweep) / (2 * h), 1, 1e-5)
    t.eq("centre", (arc.center.x / k, arc.center.y / k),
         tuple(-z / k for z in c[1 if large else 0]), 1e-5)
    f = 0.25
    u = m + sg * (h * (2 * f - 1)) if not large else m + sg * (h + (t.tau - 2 * h) * f)
    o = c[1 if large else 0]
    w = turn(rx * t.cos(u), ry * t.sin(u))
    t.eq("on the way", tuple(z / k for z in xy(arc.point(f))), ((w[0] - o[0]) / k, (w[1] - o[1]) / k), 1e-5)


@contract("P31", ["path.Arc.__init__", "basic.Point.orientation", "basic.Point.towards", "basic.Point.distance"],
          uses=["path.Arc.get_start_t", "path.Arc.get_end_t"])
def circle_through_three_points(t):
    """Arc(start, control=p, end), any three points off one line: the centre is equally far from the three, the axes are
    that long, and the sweep leads from start to end, less than a whole turn, in the direction in which the three points
    turn (so it passes p: the points of a circle on either side of a chord are the two arcs)."""
    P, A = t.svg.basic.Point, t.svg.path.Arc
    t.circles, t.placed = [], []
    (ax, ay), (bx, by), (cx, cy) = [(t.real("x%d" % i), t.real("y%d" % i)) for i in range(3)]
    cross = (bx - ax) * (cy - by) - (by - ay) * (cx - bx)
    t.require(cross != 0 if t.mode == "sym" else abs(cross) > 0.1)
    if t.mode == "sym" or t.choice("form", ["keywords", "positions"]) == "keywords":
        arc = A(start=P(ax, ay), control=(bx, by), end=P(cx, cy))
    else:
        arc = A((ax, ay), P(cx, cy), control=P(bx, by))
    t.eq("start", xy(arc.start), (ax, ay))
    t.eq("end", xy(arc.end), (cx, cy))
    ox, oy = xy(arc.center)
    far = lambda x, y: (x - ox) * (x - ox) + (y - oy) * (y - oy)
    t.eq("as far from start and passed point", far(ax, ay), far(bx, by))
    t.eq("as far from start and end", far(ax, ay), far(cx, cy))
    r = arc.prx.x - ox
    t.eq("radius", r * r, far(ax, ay))
    t.eq("axes", (arc.prx.y, arc.pry.x, arc.pry.y - oy), (oy, ox, r))
    if cross > 0:
        t.ensure("direction", arc.sweep > 0)
    else:
        t.ensure("direction", arc.sweep < 0)
    t.ensure("less than a turn", t.And(arc.sweep < t.tau, arc.sweep > -t.tau))
    if t.mode == "sym":
        (n0, u), (n1, v) = t.circles
        t.ensure("from start to end", t.And(n0 == "start", n1 == "end"))
        t.ensure("whole turns", t.Or(arc.sweep == v - u, arc.sweep == v - u + t.tau, arc.sweep == v - u - t.tau))
    else:
        t.eq("reaches the end", xy(arc.point(0.999999999999)), (cx, cy), 1e-4)
        t.eq("starts at the start", xy(arc.point(1e-12)), (ax, ay), 1e-4)


@contract("P31", ["path.Arc.__init__", "basic.Point.orientation", "basic.Point.distance"],
          uses=["path.Arc.get_start_t", "path.Arc.get_end_t"])
def shorter_arc_of_a_radius(t):
    """Arc(start, end, r=..): the shorter of the circular arcs of that radius that turn the way asked (clockwise, the
    positive direction, by default); a radius too short to reach is half the distance instead."""
    P, A = t.svg.basic.Point, t.svg.path.Arc
    t.circles, t.placed = [], []
    (ax, ay), (bx, by) = [(t.real("x%d" % i), t.real("y%d" % i)) for i in range(2)]
    r = t.real("r", 0)
    t.require(r > 0)
    apart = t.Or(ax != bx, ay != by)
    t.require(apart)
    d2 = (bx - ax) * (bx - ax) + (by - ay) * (by - ay)
    if t.mode == "conc":
        t.require(d2 > 0.01 and r > 0.05 and abs(4 * r * r / d2 - 1) > 1e-3)
    ccw = t.choice("ccw", [None, True, False])
    kw = {} if ccw is None else {"ccw": ccw}
    arc = A(start=P(ax, ay), end=P(bx, by), r=r, **kw)
    t.eq("start", xy(arc.start), (ax, ay))
    t.eq("end", xy(arc.end), (bx, by))
    ox, oy = xy(arc.center)
    far = lambda x, y: (x - ox) * (x - ox) + (y - oy) * (y - oy)
    if 4 * r * r < d2:
        t.eq("half way", (2 * ox, 2 * oy), (ax + bx, ay + by))
        q = arc.prx.x - ox
        t.eq("half the distance", 4 * q * q, d2)
    else:
        q = r
        t.eq("distance of the start", far(ax, ay), r * r)
        t.eq("distance of the end", far(bx, by), r * r)
        cross = (ax - ox) * (by - oy) - (ay - oy) * (bx - ox)
        t.ensure("shorter", le(t, cross, 0) if ccw else le(t, 0, cross))
    t.ensure("positive", q > 0)
    t.eq("axes", (arc.prx.x, arc.prx.y, arc.pry.x, arc.pry.y), (ox + q, oy, ox, oy + q))
    t.ensure("direction", arc.sweep < 0 if ccw else arc.sweep > 0)
    t.ensure("less than a turn", t.And(arc.sweep < t.tau, arc.sweep > -t.tau))
    if t.mode == "sym":
        (n0, u), (n1, v) = t.circles
        t.ensure("from start to end", t.And(n0 == "start", n1 == "end"))
        t.ensure("whole turns", t.Or(arc.sweep == v - u, arc.sweep == v - u + t.tau, arc.sweep == v - u - t.tau))
    else:
        t.eq("reaches the end", xy(arc.point(0.999999999999)), (bx, by), 1e-4)
        t.eq("starts at the start", xy(arc.point(1e-12)), (ax, ay), 1e-4)
        t.ensure("at most half a turn", abs(arc.sweep) <= t.tau / 2 + 1e-6)


@contract("P31", ["path.Arc.__init__", "basic.Point.orientation", "basic.Point.towards"], bounded="runtime")
def arc_through_three_points(t):
    """Arc(start, control=p, end): the circular arc from start to end through p (any three points off one line)."""
    P = t.svg.basic.Point
    cx, cy, r, t0 = t.real("cx"), t.real("cy"), t.real("r", 0.2, 50), t.real("t0")
    a, b = t.real("a", 0.05, 6), t.real("b", 0.05, 6)
    t.require(a + b < 6.2)
    sg = t.choice("turning", [1, -1])
    axis = t.choice("axis", [0, 1, 2, 3])
    if axis == 1:
        t0, a = t.tau / 4 * round(t0), t.tau / 4
        t.require(a + b < 6.2)
    at = lambda u: (cx + r * t.cos(u), cy + r * t.sin(u))
    p = [at(t0), at(t0 + sg * a), at(t0 + sg * (a + b))]
    if axis > 1:
        # one or both of the steps along an axis, exactly
        w, h = t.choice("w", [-6, -2, 1, 4]), t.choice("h", [-3, 2, 5])
        v = t.choice("v", [0, 0, 1, -4])
        x, y = float(round(cx)), float(round(cy))
        steps = [(w, v), (0, h)] if t.choice("second upright", [True, False]) else [(w, v), (h, 0)]
        if t.choice("swap", [False, True]):
            steps = steps[::-1]
        p = [(x, y)]
        for s in steps:
            p.append((p[-1][0] + s[0], p[-1][1] + s[1]))
        cross = steps[0][0] * steps[1][1] - steps[0][1] * steps[1][0]
        t.require(cross != 0)
        # the centre is as far from each of the three
        (ax, ay), (bx, by) = steps[0], (steps[0][0] + steps[1][0], steps[0][1] + steps[1][1])
        k = 2 * (ax * by - ay * bx)
        ux = (by * (ax * ax + ay * ay) - ay * (bx * bx + by * by)) / k
        uy = (ax * (bx * bx + by * by) - bx * (ax * ax + ay * ay)) / k
        arc = t.svg.path.Arc(start=P(*p[0]), control=P(*p[1]), end=P(*p[2]))
        t.eq("start", xy(arc.start), p[0])
        t.eq("end", xy(arc.end), p[2])
        t.eq("centre", xy(arc.center), (x + ux, y + uy), 1e-9)
        r = (ux * ux + uy * uy) ** 0.5
        t.eq("radii", (arc.rx, arc.ry), (r, r), 1e-9)
        t.ensure("turning", (arc.sweep > 0) == (cross > 0))
        u = [t.atan2(q[1] - y - uy, q[0] - x - ux) for q in p]
        sg = 1 if cross > 0 else -1
        t.eq("sweep", arc.sweep, sg * ((sg * (u[1] - u[0])) % t.tau + (sg * (u[2] - u[1])) % t.tau), 1e-9)
        return
    form = t.choice("form", ["control", "sagitta", "bulge", "keywords"])
    A = t.svg.path.Arc
    if form == "control":
        arc = A(start=P(*p[0]), end=P(*p[2]), control=P(*p[1]))
    elif form == "keywords":
        arc = A(P(*p[0]), P(*p[2]), control=p[1])
    else:
        # the height of the middle of the arc over the chord, to the left of the direction start -> end if positive
        chord = 2 * r * abs(t.sin((a + b) / 2))
        t.require(chord > 0.05)
        h = sg * r * (1 - t.cos((a + b) / 2))
        arc = A(start=P(*p[0]), end=P(*p[2]), **({"sagitta": h} if form == "sagitta" else {"bulge": 2 * h / chord}))
    t.eq("start", xy(arc.start), p[0])
    t.eq("end", xy(arc.end), p[2])
    t.eq("centre", xy(arc.center), (cx, cy), 1e-4)
    t.eq("radii", (arc.rx, arc.ry), (r, r), 1e-4)
    t.eq("sweep", arc.sweep, sg * (a + b), 1e-4)
    t.eq("through the control point", xy(arc.point(a / (a + b))), p[1], 1e-3)


@contract("P31", ["path.Arc.__init__"], bounded="runtime")
def arcs_with_nearly_upright_chords(t):
    """Chords that are upright or level up to rounding (1e-17 .. 1e-6 of their length) are no special case: the centre is
    as far from each of the three points, near where the exactly upright chord would put it."""
    P, A = t.svg.basic.Point, t.svg.path.Arc
    x, y = t.real("x"), t.real("y")
    w, h = t.real("w", 0.5, 20) * t.choice("sw", [1, -1]), t.real("h", 0.5, 20) * t.choice("sh", [1, -1])
    e = [10.0 ** -t.choice("e%d" % i, [6, 9, 12, 14, 15, 16, 17]) * t.choice("s%d" % i, [-1, 0, 1]) for i in range(2)]
    form = t.choice("form", ["level first", "upright first", "bulge"])
    if form == "bulge":
        # half circles over a diagonal: the middle of the arc lies beside a corner of the square
        start, end = (x, y), (x + w, y + abs(w) * t.choice("slope", [1, -1]))
        arc = A(P(*start), P(*end), bulge=t.choice("bulge", [1, -1]))
        mid, rr = ((start[0] + end[0]) / 2, (start[1] + end[1]) / 2), abs(w) / 2 ** 0.5
        t.eq("centre", xy(arc.center), mid, 1e-9)
        t.eq("radius", arc.rx, rr, 1e-9)
        t.eq("sweep", abs(arc.sweep), t.tau / 2, 1e-9)
        return
    steps = [(w, e[0]), (e[1], h)] if form == "level first" else [(e[1], h), (w, e[0])]
    p = [(0.0, 0.0)]
    for s in steps:
        p.append((p[-1][0] + s[0], p[-1][1] + s[1]))
    if t.choice("moved", [True, False]):
        p = [(a + x, b + y) for a, b in p]
    arc = A(start=P(*p[0]), control=P(*p[1]), end=P(*p[2]))
    t.eq("start", xy(arc.start), p[0])
    t.eq("end", xy(arc.end), p[2])
    t.eq("centre", xy(arc.center), ((p[0][0] + p[2][0]) / 2, (p[0][1] + p[2][1]) / 2), 1e-4)
    t.eq("radius", arc.rx, (w * w + h * h) ** 0.5 / 2, 1e-4)
    far = lambda q: ((q[0] - arc.center.x) ** 2 + (q[1] - arc.center.y) ** 2) ** 0.5
    t.eq("as far from each", (far(p[1]), far(p[2])), (far(p[0]),) * 2, 1e-9)


@contract("P31", ["path.Arc.__init__"])
def arc_from_centre(t):
    """Arc(start, end, center, ccw=..): the circular arc about that centre, turning the way asked (clockwise, the
    positive direction, by default)."""
    P = t.svg.basic.Point
    t.quadrants()
    cx, cy, r, t0 = t.real("cx"), t.real("cy"), t.real("r", 0.2, 50) if t.mode == "conc" else t.real("r"), t.real("t0")
    a = t.real("a", 0.05, 6.2) if t.mode == "conc" else t.real("a")
    t.require(t.And(r > 0, a > 0, a < t.tau))
    ccw = t.choice("ccw", [None, True, False])
    sg = -1 if ccw else 1
    at = lambda u: (cx + r * t.cos(u), cy + r * t.sin(u))
    kw = {} if ccw is None else {"ccw": ccw}
    arc = t.svg.path.Arc(start=P(*at(t0)), end=P(*at(t0 + sg * a)), center=P(cx, cy), **kw)
    t.eq("sweep", arc.sweep, sg * a, 1e-5)
    t.eq("controls", control_points(arc), [at(t0), at(t0 + sg * a), (cx, cy), (cx + r, cy), (cx, cy + r)])
    if t.mode == "conc":                # in proofs: arc_point_is_on_the_ellipse
        s = t.real("s", 0, 1)
        t.eq("points", xy(arc.point(s)), at(t0 + s * sg * a), 1e-4)
