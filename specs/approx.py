# Replacing arcs by Bezier curves.


def pieces_of(t, arc, how, n):
    f = arc.as_cubic_curves if how == "cubic" else arc.as_quad_curves
    return list(f() if n is None else f(n))


def check_pieces(t, e, how, arc, pieces, n, half):
    """pieces replace the arc: equal parameter steps of 2*half, joints on the ellipse, handles along the tangents"""
    five = e.five()
    t.ensure("count", len(pieces) == n)
    cls = t.svg.path.CubicBezier if how == "cubic" else t.svg.path.QuadraticBezier
    c, s = t.cos(half), t.sin(half)
    prev = five[0]
    for i in range(n):
        g = pieces[i]
        t.ensure("kind", type(g) is cls)
        u, v = e.t0 + 2 * i * half, e.t0 + 2 * (i + 1) * half
        t.eq("starts where the last one ended", xy(g.start), prev)
        prev = five[1] if i == n - 1 else e.at(v)
        t.eq("joint on the ellipse", xy(g.end), prev)
        start, end = e.at(u), e.at(v)
        if how == "quad":
            alpha = (5 - 2 * c * c) / 3
            m = e.at(u + half)
            t.eq("control", xy(g.control), (e.cx + alpha * (m[0] - e.cx), e.cy + alpha * (m[1] - e.cy)))
        else:
            alpha = 2 * s * (t.sqrt(c * c + 3) - c) / 3
            d0, d1 = e.slope(u), e.slope(v)
            t.eq("control1", xy(g.control1), (start[0] + alpha * d0[0], start[1] + alpha * d0[1]))
            t.eq("control2", xy(g.control2), (end[0] - alpha * d1[0], end[1] - alpha * d1[1]))
    t.eq("arc unchanged", control_points(arc), five)
    t.eq("sweep unchanged", arc.sweep, e.sweep)


@contract("P18", ["path.Arc.as_cubic_curves", "path.Arc.as_quad_curves"], uses=["path.Arc.get_start_t"],
          bounded="up to 3 pieces (8 in runs on doubles)")
def arc_pieces(t):
    """as_cubic_curves(n) / as_quad_curves(n): n pieces of equal parameter step, joined on the ellipse."""
    how = t.choice("how", ["cubic", "quad"])
    n = t.choice("n", [1, 2, 3] if t.mode == "sym" else [1, 2, 3, 5, 8])
    half = t.real("half")
    t.require(t.And(half > -t.tau / 5, half < t.tau / 5))
    t.require(t.cos(half) > 0)
    t.require(half != 0)
    e = Ell(t, sweep=2 * n * half)
    arc = e.arc()
    check_pieces(t, e, how, arc, pieces_of(t, arc, how, n), n, half)


@contract("P18", ["path.Arc.as_cubic_curves", "path.Arc.as_quad_curves"], uses=["path.Arc.get_start_t"],
          bounded="sweeps up to a quarter turn (two turns in runs on doubles)")
def arc_pieces_by_default(t):
    """without a count the pieces are the fewest that sweep at most 1/12 turn each; an empty arc gives none."""
    how = t.choice("how", ["cubic", "quad"])
    n = t.choice("n", [0, 1, 2, 3] if t.mode == "sym" else [0, 1, 2, 5, 8, 20])
    if n == 0:
        e = Ell(t, sweep=0)
        t.ensure("nothing to replace", pieces_of(t, e.arc(), how, None) == [])
        return
    if t.mode == "conc":
        half = (n - 1 + t.real("size", 0.001, 1)) / n * t.tau / 24
    else:
        half = t.real("half", 0, 1)
        t.require(t.And(n * half > (n - 1) * t.tau / 24, half <= t.tau / 24))
    t.whole(n)
    half = half * t.choice("sign", [1, -1])
    t.require(t.cos(half) > 0)
    e = Ell(t, sweep=2 * n * half)
    arc = e.arc()
    check_pieces(t, e, how, arc, pieces_of(t, arc, how, None), n, half)


@contract("P18", [])
def lemma_quad_piece_is_close(t):
    """lemma: a quadratic piece over at most 1/12 turn stays within 0.6% of the radius of the unit circle (hence, being
    affine images, within 0.6% in the ellipse's own scale); cos(tau/24) > 0.9659."""
    c = t.real("c", 0.9659, 1)
    w = t.real("w", 0, 0.5)                      # 2 * position * (1 - position)
    alpha = (5 - 2 * c * c) / 3
    x = c * (1 - w) + alpha * w
    yy = (1 - c * c) * (1 - 2 * w)
    rr = x * x + yy
    t.ensure("not outside", rr <= 1.006 ** 2)
    t.ensure("not inside", rr >= 0.994 ** 2)
    # the formula used above is the quadratic curve
    s, h = t.real("s"), t.real("h", 0, 1)
    t.require(s * s == 1 - c * c if t.mode == "sym" else True)
    if t.mode == "conc":
        s = t.sqrt(1 - c * c)
    b = bernstein([(c, -s), (alpha, 0), (c, s)], h)
    k = 2 * h * (1 - h)
    t.eq("x", b[0], c * (1 - k) + alpha * k)
    t.eq("y squared", b[1] * b[1], s * s * (1 - 2 * k))


@contract("P18", [])
def lemma_cubic_piece_is_close(t):
    """lemma: a cubic piece over at most 1/12 turn stays within 0.001% of the radius; cos(tau/24) > 0.9659."""
    c = t.real("c", 0.9659, 1)
    w = t.real("w", 0, 0.25)                     # position * (1 - position)
    q = t.sqrt(c * c + 3)
    alpha = 2 * (q - c) / 3                      # handle length over sin of the half angle
    ss = 1 - c * c
    x = c + 3 * w * alpha * ss
    k = 1 + 2 * w - 3 * w * alpha * c            # y = s (2 h - 1) k
    rr = x * x + ss * (1 - 4 * w) * k * k
    t.ensure("not outside", rr <= 1.00001 ** 2)
    t.ensure("not inside", rr >= 0.99999 ** 2)
    s, h = t.real("s"), t.real("h", 0, 1)
    a = t.real("a")
    b = bernstein([(c, -s), (c + a * s * s, -s + a * s * c), (c + a * s * s, s - a * s * c), (c, s)], h)
    v = h * (1 - h)
    t.eq("x", b[0], c + 3 * v * a * s * s)
    t.eq("y", b[1], s * (2 * h - 1) * (1 + 2 * v - 3 * v * a * c))


@contract("P18", ["path.Path.approximate_arcs_with_cubics", "path.Path.approximate_arcs_with_quads",
                  "path.Arc.as_cubic_curves", "path.Arc.as_quad_curves", "path.Path.__setitem__"],
          uses=["basic.Point.__eq__", "path.Arc.get_start_t"], bounded="one arc of up to two pieces among other segments; any number of arcs "
          "and pieces in runs on doubles")
def arcs_of_a_path_become_curves(t):
    """approximate_arcs_with_cubics / _quads replace every arc of a path by its pieces, each sweeping at most the given
    share of a turn, and leave the rest of the path alone."""
    how = t.choice("how", ["cubic", "quad"])
    error = t.choice("error", [None, 0.05, 0.25])
    limit = t.tau * (error or 0.1)
    n = t.choice("n", [0, 1, 2] if t.mode == "sym" else [0, 1, 2, 5, 9])
    if n == 0:
        sweep = 0
    elif t.mode == "conc":
        sweep = (n - 1 + t.real("size", 0.01, 0.99)) * limit * t.choice("sign", [1, -1])
    else:
        half = t.real("half", 0, 2)
        t.require(t.And(2 * half * n > (n - 1) * limit, 2 * half <= limit))
        t.whole(n)
        half = half * t.choice("sign", [1, -1])
        t.require(t.cos(half) > 0)
        sweep = 2 * n * half
    e = Ell(t, sweep=sweep, hand=1, circle=False)
    arc = e.arc()
    five = e.five()
    P, pa = t.svg.basic.Point, t.svg.path
    a, b = free_points(t, "a", 2)
    before = t.choice("before", ["M", "ML", "MQ"])
    segs = [pa.Move(None, P(*(five[0] if before == "M" else a)))]
    if before == "ML":
        segs.append(pa.Line(P(*a), P(*five[0])))
    elif before == "MQ":
        segs.append(pa.QuadraticBezier(P(*a), P(*b), P(*five[0])))
    k = len(segs)
    segs.append(arc)
    after = t.choice("after", ["", "L", "Z", "AL"] if t.mode == "conc" else ["", "L", "Z"])
    if after == "L":
        segs.append(pa.Line(P(*five[1]), P(*b)))
    elif after == "Z":
        segs.append(pa.Close(P(*five[1]), segs[0].end))
    elif after == "AL":
        back = e.arc()
        back.reverse()
        segs += [back, pa.Line(P(*five[0]), P(*b))]
    path = pa.Path()
    path._segments = list(segs)
    want = [snap(s) for s in segs]
    f = path.approximate_arcs_with_cubics if how == "cubic" else path.approximate_arcs_with_quads
    r = f() if error is None else f(error) if t.choice("keyword", [False, True]) else f(error=error)
    m = n * (2 if after == "AL" else 1)
    t.ensure("count", len(path) == len(want) - (2 if after == "AL" else 1) + m)
    same_segments(t, "before", path[:k], want[:k])
    if n:
        check_pieces(t, e, how, arc, path[k:k + n], n, sweep / (2 * n))
    same_segments(t, "after", path[k + m:], want[k + (2 if after == "AL" else 1):])
    t.ensure("no arcs left", not any([type(s) is pa.Arc for s in path]))
    if after == "AL":
        rev = path[k + n:k + m]
        for g, h in zip(rev, path[k:k + n][::-1]):
            t.eq("second arc", xy(g.start) + xy(g.end), xy(h.end) + xy(h.start))
