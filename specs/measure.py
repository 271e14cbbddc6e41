# Lengths and positions along a path.


@contract("P22", ["path.Linear.length", "path.PathSegment.length", "basic.Point.distance"])
def straight_length(t):
    """the length of a line or close is the distance of its ends; a move has none."""
    k = t.choice("kind", ["Line", "Close", "Move"])
    pts = bezier_points(t, k)
    seg = make_segment(t, k, pts)
    n = seg.length()
    if k == "Move":
        t.eq("length", n, 0)
    else:
        dx, dy = pts[1][0] - pts[0][0], pts[1][1] - pts[0][1]
        t.eq("length squared", n * n, dx * dx + dy * dy)
        t.ensure("not negative", n >= 0)
    t.eq("unchanged", control_points(seg), pts)


@stub("path.Linear.length", "straight_length")
def stub_line_length(t, real, self, *a, **k):
    """any positive length (the same for the same ends)"""
    if self.start is None or self.end is None:
        return real(self, *a, **k)
    key = list(xy(self.start)) + list(xy(self.end))
    known = t.__dict__.setdefault("lengths", [])
    for kk, r in known:
        if all([t.identical(a, b) for a, b in zip(kk, key)]):
            return r
    r = t.real("len%d" % len(known), 0)
    t.require(r > 0)
    known.append((key, r))
    return r


@contract("P22", ["path.Path.point", "path.Path.npoint", "path.Path._calc_lengths", "path.Path.length"], numeric=True,
          uses=["path.Linear.length"], bounded="paths of up to three lines and two moves", max_paths=4000)
def point_at_fraction_of_length(t):
    """point(p) of a path lies at fraction p of its length: in the segment where the running length reaches p, at the
    remaining share of that segment; 0 and 1 are the ends; npoint agrees."""
    kinds = t.choice("base", ["L", "LL", "ML", "MLL", "MLML", "MLZ"])
    path, ghost = base_path(t, kinds)
    if t.mode == "sym":
        lens = [s.length() for s in path]
        for a, b, s in zip(lens, ghost, path):
            t.ensure("moves have no length", b[0] != "Move" or t.identical(a, 0))
    else:
        d = lambda p: ((p[1][0] - p[0][0]) ** 2 + (p[1][1] - p[0][1]) ** 2) ** 0.5
        lens = [0 if k == "Move" else d(p) for k, p, s in ghost]
        t.require(all([k == "Move" or x > 0.01 for x, (k, p, s) in zip(lens, ghost)]))
    total = sum(lens)
    before = t.choice("length asked before", [True, False])
    if before:
        t.eq("length", path.length(), total)
    pos = t.choice("position", [0, 1, "p"])
    many = t.choice("call", ["point", "npoint"])
    get = (lambda q: xy(path.point(q))) if many == "point" else (
        lambda q: as_xy(path.npoint([q] if t.mode == "sym" else [0.9, q, 0.1, 0.5])[0 if t.mode == "sym" else 1]))
    if pos == 0:
        t.eq("start", get(0), ghost[0][1][0] if ghost[0][0] != "Move" else ghost[0][1][1])
    elif pos == 1:
        t.eq("end", get(1), ghost[-1][1][1])
    else:
        p = t.real("p", 0.001, 0.999)
        got = get(p)
        at, want = p * total, None
        run = 0
        for i in range(len(ghost)):
            k, pts, s = ghost[i]
            if k == "Move":
                # at the very jump either side is right
                t.require(run == 0 or at != run)
                continue
            last = all([g[0] == "Move" for g in ghost[i + 1:]])
            if want is None and (last or at <= run + lens[i]):
                u = (at - run) / lens[i]
                want = (pts[0][0] + u * (pts[1][0] - pts[0][0]), pts[0][1] + u * (pts[1][1] - pts[0][1]))
            run = run + lens[i]
        t.eq("point", got, want)
    if not before:
        t.eq("length", path.length(), total)
    same_segments(t, "unchanged", path, ghost)


@contract("P22", ["path.Path._calc_lengths", "path.Path.length", "path.Path.append", "path.Path.insert", "path.Path.extend",
                  "path.Path.__setitem__", "path.Path.__delitem__", "path.Path.__imatmul__", "path.Path.reverse",
                  "path.Subpath.__imul__", "path.Subpath.reverse", "path.Path.__iadd__",
                  "path.Path.approximate_arcs_with_cubics"],
          uses=["basic.Point.__eq__", "path.Linear.length"], bounded="paths of up to six lines and moves, one operation after measuring",
          max_paths=4000, samples=300)
def lengths_follow_edits(t):
    """after any edit of a path already measured, length() and point() are those of the path as it is now."""
    kinds = t.choice("base", ["MLL", "MLZML"])
    path, ghost = base_path(t, kinds)
    first = path.length()
    op = t.choice("op", ["append", "insert", "extend", "set", "set text", "slice", "del", "+=", "+= text", "@=", "reverse",
                         "sub *=", "sub reverse", "sub +=", "sub set", "sub del", "parse", "move point", "pop", "clear",
                         "segment *=", "append text", "insert text", "extend text", "slice text", "direct_close",
                         "+= path", "remove"])
    takes = op in ("append", "insert", "extend", "set", "slice", "+=", "sub +=", "sub set")
    news, add = build_segments(t, t.choice("new", ["L", "M", "Z"]) if takes else "L", name="n", loose=True)
    x, y = t.real("tx"), t.real("ty")
    text = "L%s,%s" % (x, y)
    if "text" in op and "set" not in op:
        text = t.choice("text", ["L%s,%s", "M%s,%s", "L%s,%sz", "M%s,%sL1,2"]) % (x, y)
    M = t.svg.basic.Matrix(2, 0, 0, 3, 0, 0)
    sub = list(path.as_subpaths())[0]
    if op == "append":
        path.append(news[0])
    elif op == "insert":
        path.insert(1, news[0])
    elif op == "extend":
        path.extend(news)
    elif op == "set":
        path[1] = news[0]
    elif op == "set text":
        path[1] = text
    elif op == "slice":
        path[1:3] = news
    elif op == "del":
        del path[1]
    elif op == "+=":
        path += news[0]
    elif op == "+= text":
        path += text
    elif op == "@=":
        path @= M
    elif op == "reverse":
        path.reverse()
    elif op == "sub *=":
        sub *= M
    elif op == "sub reverse":
        sub.reverse()
    elif op == "sub +=":
        sub += news[0]
    elif op == "sub set":
        sub[1] = news[0]
    elif op == "sub del":
        del sub[1]
    elif op == "parse":
        path.parse(text)
    elif op == "pop":
        path.pop()
    elif op == "clear":
        path.clear()
    elif op == "segment *=":
        path[1] *= M
    elif op == "append text":
        path.append(text)
    elif op == "insert text":
        path.insert(t.choice("at", [0, 1, -1] if text[0] == "M" else [1, -1]), text)
    elif op == "extend text":
        path.extend(text)
    elif op == "slice text":
        path[1:2] = text
    elif op == "direct_close":
        path.direct_close()
    elif op == "+= path":
        path += base_path2(t)[0]
    elif op == "remove":
        path.remove(path[2])
    else:
        path.line((x, y))
    want = sum([s.length() for s in path])
    t.eq("length", path.length(), want)
    if t.mode == "conc" and len(path) and want > 0.01:
        fresh = t.svg.path.Path()
        fresh._segments = [copy_of(t, s) for s in path]
        for k in range(11):
            t.eq("points", xy(path.point(k / 10.0)), xy(fresh.point(k / 10.0)))


@contract("P22", ["path.QuadraticBezier.length", "path.CubicBezier.length", "path.Arc.length",
                  "path.PathSegment.segment_length"], bounded="runtime", numeric=True, samples=200)
def curved_length(t):
    """the length of a curve is that of a fine inscribed polyline (relative 1e-4), with or without numpy."""
    kind = t.choice("kind", ["QuadraticBezier", "CubicBezier", "Arc", "circle"])
    if kind in ("Arc", "circle"):
        e = Ell(t, hand=1, circle=kind == "circle")
        t.require(abs(e.sweep) < 12 and abs(e.sweep) > 0.01 and 0.1 < min(e.rx, e.ry))
        seg = e.arc()
        at = lambda u: e.at(e.t0 + u * e.sweep)
    else:
        pts = bezier_points(t, kind)
        shape = t.choice("shape", ["any", "evenly spaced", "straight", "straight"]) if kind == "QuadraticBezier" else None
        if shape == "evenly spaced":
            pts[1] = ((pts[0][0] + pts[2][0]) / 2, (pts[0][1] + pts[2][1]) / 2)
        elif shape == "straight":
            # along an axis, with whole numbers: possibly running past its end, or before its start, and back
            dx, dy = t.choice("along", [(1, 0), (0, 1), (-1, 0), (0, -2)])
            i, j = t.choice("control", [-7, -2, 1, 3, 5, 8]), t.choice("to", [0, 2, 4, 9])
            x, y = float(round(pts[0][0])), float(round(pts[0][1]))
            pts = [(x, y), (x + i * dx, y + i * dy), (x + j * dx, y + j * dy)]
        seg = make_segment(t, kind, pts)
        at = lambda u: bernstein(pts, u)
    n = 4000
    ps = [at(i / n) for i in range(n + 1)]
    want = sum([((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5 for a, b in zip(ps, ps[1:])])
    t.require(want > 0.5)
    t.eq("length", seg.length(error=1e-6), want, 1e-4)
    back = copy_of(t, seg)
    back.reverse()
    t.eq("same length backwards", back.length(error=1e-6), want, 1e-4)
