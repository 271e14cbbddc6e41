# Path segments with symbolic geometry, and the curves they denote.
KINDS = ["Line", "Close", "QuadraticBezier", "CubicBezier"]


def bezier_points(t, kind):
    """control points (x, y) pairs of a segment of this kind, all coordinates free"""
    n = {"Line": 2, "Close": 2, "Move": 2, "QuadraticBezier": 3, "CubicBezier": 4}[kind]
    return [(t.real("x%d" % i), t.real("y%d" % i)) for i in range(n)]


def make_segment(t, kind, pts, **kw):
    return getattr(t.svg.path, kind)(*[t.svg.basic.Point(*p) for p in pts], **kw)


def control_points(seg):
    """the defining points as stored now"""
    k = type(seg).__name__
    if k == "QuadraticBezier":
        r = [seg.start, seg.control, seg.end]
    elif k == "CubicBezier":
        r = [seg.start, seg.control1, seg.control2, seg.end]
    elif k == "Arc":
        r = [seg.start, seg.end, seg.center, seg.prx, seg.pry]
    else:
        r = [seg.start, seg.end]
    return [None if p is None else (p.x, p.y) for p in r]


def bernstein(pts, s):
    """de Casteljau: the point at parameter s of the Bezier curve with these control points"""
    while len(pts) > 1:
        pts = [((1 - s) * a[0] + s * b[0], (1 - s) * a[1] + s * b[1]) for a, b in zip(pts, pts[1:])]
    return pts[0]


def as_xy(p):
    """a Point, or a row of the list npoint returns"""
    if hasattr(p, "x"):
        return (p.x, p.y)
    return (p[0], p[1])


def le(t, a, b):
    """a <= b (up to rounding in a run on doubles)"""
    return a <= b if t.mode == "sym" else a <= b + 1e-6 * (1 + abs(a) + abs(b))


def near(t, a, b):
    """equal (to rounding in a run on doubles)"""
    if t.mode == "sym":
        return a == b
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


class Ell:
    """an ellipse arc given by centre, radii, rotation, start parameter and swept parameter (all symbolic)"""

    def __init__(self, t, circle=None, sweep=None, hand=None):
        self.t = t
        if circle is None:
            circle = t.choice("circle", [False, True])
        self.circle = circle
        # the side of the major axis on which pry lies (the parameter always runs from prx towards the positive side)
        self.hand = t.choice("hand", [1, -1]) if hand is None else hand
        self.cx, self.cy = t.real("cx"), t.real("cy")
        self.rx = t.real("rx", 0.001, nonzero=True)
        self.ry = self.rx if circle else t.real("ry", 0.001, nonzero=True)
        if not circle:
            t.require(self.rx != self.ry)
        if t.mode == "conc":
            # well away from a straight line, where doubles lose the ellipse
            t.require(max(self.rx, self.ry) <= 300 * min(self.rx, self.ry))
        self.phi = t.real("phi")
        self.t0 = t.real("t0")
        self.sweep = t.real("sweep") if sweep is None else sweep
        self.cp, self.sp = t.cos(self.phi), t.sin(self.phi)

        t.__dict__.setdefault("ells", []).append(self)

    def at(self, u):
        """the point with parameter u"""
        x, y = self.rx * self.t.cos(u), self.ry * self.t.sin(u)
        return (self.cx + x * self.cp - y * self.sp, self.cy + x * self.sp + y * self.cp)

    def slope(self, u):
        """derivative of at"""
        x, y = -self.rx * self.t.sin(u), self.ry * self.t.cos(u)
        return (x * self.cp - y * self.sp, x * self.sp + y * self.cp)

    def five(self):
        """start, end, centre, prx, pry"""
        return [self.at(self.t0), self.at(self.t0 + self.sweep), (self.cx, self.cy),
                (self.cx + self.rx * self.cp, self.cy + self.rx * self.sp),
                (self.cx - self.hand * self.ry * self.sp, self.cy + self.hand * self.ry * self.cp)]

    def arc(self, **kw):
        P = self.t.svg.basic.Point
        return self.t.svg.path.Arc(*([P(*p) for p in self.five()] + [self.sweep]), **kw)
