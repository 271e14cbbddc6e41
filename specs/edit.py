# Editing paths: connections, copies, sub-paths, reversal.


NEWS = ["L", "Q", "M", "Z", "A"]
EDIT = ["path.Path.append", "path.Path.insert", "path.Path.extend", "path.Path.__setitem__", "path.Path.__delitem__",
        "path.Path.__iadd__", "path.Path.__add__", "path.Path.__radd__", "path.Path.__init__",
        "path.Path.validate_connections", "path.Path._validate_connection", "path.Path._validate_close"]


@contract("P19", EDIT, bounded="paths of up to six segments, one or two new ones, one operation", max_paths=9000,
          samples=500, uses=["basic.Point.__eq__"])
def edits_keep_the_path_connected(t):
    """after any edit each segment starts where the one before ends and each close ends at its sub-path's start; the
    segments are those of the same edit of a plain list, other points as given."""
    path, ghost = base_path(t)
    n = len(ghost)
    op = t.choice("op", ["append", "insert", "extend", "set", "setslice", "del", "delslice", "+=", "+", "radd", "list",
                         "tuple"])
    news, add = [], []
    if op not in ("del", "delslice"):
        kinds = t.choice("new", NEWS)
        if op in ("extend", "setslice", "list", "tuple"):
            kinds += t.choice("new2", ["", "L"])
        news, add = build_segments(t, kinds, name="n", loose=True)
    P = t.svg.path.Path
    i = t.choice("at", [0, 1, -1]) if op in ("insert", "set", "del", "setslice", "delslice") else None
    ref = list(ghost)
    before = list(path._segments)
    result = path
    if op == "append":
        path.append(news[0])
        ref.append(add[0])
    elif op == "insert":
        path.insert(i, news[0])
        ref.insert(i, add[0])
    elif op == "extend":
        path.extend(news)
        ref.extend(add)
    elif op == "set":
        path[i] = news[0]
        ref[i] = add[0]
    elif op == "setslice":
        path[i:i + 2] = news
        ref[i:i + 2] = add
    elif op == "del":
        del path[i]
        del ref[i]
    elif op == "delslice":
        del path[i:i + 2]
        del ref[i:i + 2]
    elif op == "+=":
        path += news[0]
        ref.append(add[0])
        result = path
    elif op == "+":
        result = path + news[0]
        ref.append(add[0])
        t.ensure("a new path", result is not path)
    elif op == "radd":
        result = news[0] + path if t.choice("segment + path", [False]) else path.__radd__(news[0])
        ref.insert(0, add[0])
    elif op in ("list", "tuple"):
        result = P(before + news if op == "list" else tuple(before + news))
        ref.extend(add)
    linked_segments(t, "edited", result, relinked(ref))
    points = [id(p) for x in result for p in point_objects(x)]
    t.ensure("points of their own", len(points) == len(set(points)))
    if op in ("+", "radd"):
        linked_segments(t, "operand", path, ghost)
        linked_segments(t, "operand", news, add)
    if len(ref):
        end = result.current_point
        t.eq("current point", xy(end), control_points(result[-1])[1 if type(result[-1]).__name__ == "Arc" else -1])
        if t.mode == "conc":
            t.ensure("valid", bool(result._is_valid()))


@contract("P19", ["path.Path.z_point", "path.Path.first_point", "path.Path.current_point", "path.Path.smooth_point",
                  "path.Path.as_points"], bounded="paths of up to six segments")
def path_pen_readings(t):
    """current_point is the last end, z_point the end of the last move (or of the first segment), first_point the start
    of the path, as_points every stored point in order."""
    path, ghost = base_path(t)
    ends = [p[1] if k in ("Arc", "Move", "Line", "Close") else p[-1] for k, p, s in ghost]
    t.eq("current", xy(path.current_point), ends[-1])
    z = ends[0]
    for (k, p, s), e in zip(ghost, ends):
        if k == "Move":
            z = e
    t.eq("z", xy(path.z_point), z)
    t.eq("first", xy(path.first_point), ghost[0][1][0] if ghost[0][1][0] is not None else ends[0])
    k, p, s = ghost[-1]
    if k in ("QuadraticBezier", "CubicBezier"):
        want = (2 * ends[-1][0] - p[-2][0], 2 * ends[-1][1] - p[-2][1])
    else:
        want = ends[-1]
    t.eq("smooth", xy(path.smooth_point), want)
    pts = [q for k, p, s in ghost for q in p if q is not None]
    got = [xy(q) for q in path.as_points()]
    t.ensure("number of points", len(got) == len(pts))
    linked_segments(t, "unchanged", path, ghost)


@contract(["P14", "P19"], ["path.Path.__imatmul__", "path.Path.__matmul__", "path.PathSegment.__mul__", "path.Move.__imul__",
                           "path.Linear.__imul__"], bounded="paths of up to six segments",
          uses=["basic.Matrix.point_in_matrix_space"])
def path_affine_image(t):
    """path @ matrix maps every segment by the matrix (and so stays connected); the original is unchanged."""
    path, ghost = base_path(t, t.choice("base", ["ML", "MQ", "MCZ", "LQ", "MLZML"]))
    M = t.matrix("m", -20, 20)
    m = six(M)
    how = t.choice("how", ["@", "@=", "text"])
    if how == "@":
        r = path @ M
        t.ensure("new path", r is not path)
    elif how == "@=":
        r = path
        r @= M
        t.ensure("same path", r is path)
    else:
        tx, ty = t.real("tx"), t.real("ty")
        m = (1, 0, 0, 1, tx, ty)
        r = path @ ("translate(%s,%s)" % (tx, ty))
    want = [(k, [None if p is None else m_apply(m, *p) for p in pts], s) for k, pts, s in ghost]
    same_segments(t, "image", r, want)
    if how != "@=":
        same_segments(t, "original", path, ghost)


@contract("P14", ["path.Path.__imatmul__", "path.Subpath.__imul__", "path.Subpath.__mul__"],
          bounded="one arc between other segments", uses=["path.Arc.__imul__"])
def path_with_arc_affine_image(t):
    """an arc inside a path or sub-path is mapped as the arc alone is."""
    path, ghost = base_path(t, "MAL")
    M = t.matrix("m", -20, 20)
    alone = copy_of(t, path[1])
    alone *= M
    if t.choice("how", ["path", "subpath"]) == "path":
        r = path @ M
    else:
        r = list(path.as_subpaths())[0] * M
    k, pts, s = snap(r[1])
    K, P, S = snap(alone)
    for a, b in zip(pts, P):
        t.eq("arc point", a, b)
    t.eq("sweep", s, S)
    t.eq("line end", xy(r[2].end), m_apply(six(M), *ghost[2][1][1]))


@stub("path.Arc.__imul__", "arc_affine_image")
def stub_arc_imul(t, real, self, other):
    """the arc's image: any function of its points, its sweep and the matrix"""
    M = t.svg.basic.Matrix
    if isinstance(other, str):
        other = M(other)
    if not isinstance(other, M):
        return real(self, other)
    key = [v for p in control_points(self) for v in p] + [self.sweep] + list(six(other))
    known = t.__dict__.setdefault("arc_images", [])
    for k, r in known:
        if all([t.identical(a, b) for a, b in zip(k, key)]):
            break
    else:
        n = "image%d" % len(known)
        r = [t.real(n + c) for c in ("cx", "cy", "ux", "uy", "vx", "vy", "s")]
        known.append((key, r))
    m = six(other)
    P = t.svg.basic.Point
    self.start, self.end = P(*m_apply(m, *xy(self.start))), P(*m_apply(m, *xy(self.end)))
    self.center, self.prx, self.pry, self.sweep = P(r[0], r[1]), P(r[2], r[3]), P(r[4], r[5]), r[6]
    return self


# ---------------------------------------------------------------- copies
def point_objects(seg):
    return [p for p in [getattr(seg, a, None) for a in ("start", "end", "control", "control1", "control2", "center",
                                                        "prx", "pry")] if p is not None]


def disjoint(a, b):
    """no segment or point object in common"""
    ids = [id(x) for s in a for x in [s] + point_objects(s)]
    return not any([id(x) in ids for s in b for x in [s] + point_objects(s)])


COPY = ["path.Path.__copy__", "path.Path.__init__", "path.Path.__add__", "path.Path.__radd__", "path.Path.__matmul__",
        "path.Subpath.__copy__", "path.Subpath.__add__", "path.Subpath.__radd__", "path.Subpath.__mul__",
        "path.Move.__copy__", "path.Linear.__copy__", "path.QuadraticBezier.__copy__", "path.CubicBezier.__copy__",
        "path.Arc.__copy__", "path.PathSegment.__mul__"]


@contract("P25", COPY, bounded="paths of up to six segments", samples=300, uses=["path.Arc.__imul__"])
def copies_share_nothing(t):
    """copy(), Path(path), path @ m, path + x and the like give equal or derived paths that share no segment or point
    with their operands, keep each segment's notation flags and leave the operands as they were."""
    if t.choice("empty", [False, True]):
        path, ghost = t.svg.path.Path(), []
    else:
        path, ghost = base_path(t)
    segs = list(path._segments)
    for i, s in enumerate(segs):
        s.relative = t.choice("relative", [False, True]) if i < 2 else i % 2 == 0
        s.smooth = i % 2 == 1
    flags = [(s.relative, s.smooth) for s in segs]
    how = t.choice("how", ["copy", "Path(path)", "Path(subpath)", "copy subpath", "segments", "@", "subpath *",
                           "path + seg", "path + path", "path += path", "seg + path", "text + path", "subpath + seg",
                           "segment *"])
    x = t.point("x")
    new = t.svg.path.Line(x, x)
    n = len(ghost)
    t.require(n > 0 or "sub" not in how)
    same = True
    keep = [new]
    if how == "copy":
        r = t.copy(path)
    elif how == "Path(path)":
        r = t.svg.path.Path(path)
    elif how in ("Path(subpath)", "copy subpath", "subpath *", "subpath + seg"):
        sub = t.svg.path.Subpath(path, 0, n - 1)
        if how == "Path(subpath)":
            r = t.svg.path.Path(sub)
        elif how == "copy subpath":
            r = t.copy(sub)
        elif how == "subpath *":
            r = sub * t.svg.basic.Matrix(2, 0, 0, 2, 0, 0)
            same = False
        else:
            r = sub + new
            same = False
    elif how in ("segments", "segment *"):
        r = [t.copy(s) if how == "segments" else s * t.svg.basic.Matrix(2, 0, 0, 2, 0, 0) for s in segs]
        same = how == "segments"
    elif how == "@":
        r = path @ t.svg.basic.Matrix(2, 0, 0, 2, 0, 0)
        same = False
    elif how == "path + seg":
        r = path + new
    elif how == "path + path":
        other, g2 = base_path2(t)
        keep = list(other._segments)
        r = path + other
    elif how == "path += path":
        other, g2 = base_path2(t)
        keep = list(other._segments)
        r = path
        r += other
        t.ensure("appended segments are copies", disjoint(keep, list(r)[n:]))
        same_segments(t, "operand", other, g2)
        return
    elif how == "seg + path":
        r = path.__radd__(new)
        same = False
    else:
        r = "M1,1" + path
        same = False
    t.ensure("shares nothing", disjoint(segs + keep, list(r)))
    t.ensure("operand keeps its segments", all([a is b for a, b in zip(path._segments, segs)]) and len(path) == n)
    same_segments(t, "operand", path, ghost)
    t.ensure("operand flags", [(s.relative, s.smooth) for s in segs] == flags)
    if same:
        same_segments(t, "copy", list(r)[:n], ghost)
    if same or how in ("@", "subpath *", "segment *"):
        curve = [k in ("QuadraticBezier", "CubicBezier") for k, p, s in ghost]
        t.ensure("same notation", all([a.relative == f[0] and (not c or a.smooth == f[1])
                                       for a, f, c in zip(list(r)[:n], flags, curve)]))


# ---------------------------------------------------------------- reversal
def reversed_ghost(ghost):
    """what reversing means: the sub-paths in opposite order, each run backwards; a closed one stays closed"""
    subs, cur = [], []
    for g in ghost:
        if g[0] == "Move" and cur:
            subs.append(cur)
            cur = []
        cur.append(g)
    subs.append(cur)
    out = []
    for sub in reversed(subs):
        move, body = sub[0], list(sub[1:])
        closed = bool(body) and body[-1][0] == "Close"
        if closed:
            body.pop()
        back = []
        for k, p, s in reversed(body):
            if k == "Arc":
                back.append((k, [p[1], p[0]] + list(p[2:]), -s))
            else:
                back.append((k, list(reversed(p)), s))
        first = back[0][1][0] if back else move[1][1]
        last = move[1][1]
        out.append(("Move", [None, first], None))
        out.extend(back)
        if closed:
            out.append(("Close", [last, first], None))
    out = relinked(out)
    return [(out[0][0], [ghost[0][1][0]] + list(out[0][1][1:]), None)] + out[1:]


def sub_path_shapes():
    """every path of one or two sub-paths out of six, and of three out of four"""
    six_ = ["M", "ML", "MLQ", "MZ", "MLZ", "MCAZ"]
    four = ["M", "ML", "MLZ", "MA"]
    return six_ + [a + b for a in six_ for b in six_] + [a + b + c for a in four for b in four for c in four]


@contract("P23", ["path.Path.reverse", "path.Subpath.reverse", "path.Subpath._reverse_segments", "path.PathSegment.reverse",
                  "path.CubicBezier.reverse", "path.Arc.reverse", "path.Path.as_subpaths", "path.Path.__iadd__"],
          bounded="paths of up to three sub-paths: every combination of open, closed, empty, straight and curved ones",
          max_paths=4000, samples=600, uses=["basic.Point.__eq__"])
def path_reverse(t):
    """reversing a path runs every sub-path backwards and visits them in opposite order; closed ones stay closed;
    reversing an all-open path twice restores it."""
    kinds = t.choice("base", sub_path_shapes() + ["MCA", "MLCZ", "MLLZMAMCQ", "MLLLL", "MQCQCZ"])
    path, ghost = base_path(t, kinds)
    want = reversed_ghost(ghost)
    path.reverse()
    linked_segments(t, "reversed", path, want)
    if "Z" not in kinds:
        path.reverse()
        linked_segments(t, "twice", path, ghost)


@contract(["P23", "P24"], ["path.Subpath.reverse", "path.Subpath._reverse_segments", "path.Path._validate_connection",
                  "path.Path._validate_subpath"], max_paths=4000, samples=600,
          bounded="paths of up to three sub-paths: every combination of open, closed, empty, straight and curved ones",
          uses=["basic.Point.__eq__"])
def subpath_reverse(t):
    """reversing one sub-path in place runs it backwards and leaves the others alone but for the following move's
    start."""
    kinds = t.choice("base", sub_path_shapes() + ["MLMQL", "MLMCQZML", "MLLMAMC", "MLLLL", "MQCQCZ"])
    path, ghost = base_path(t, kinds)
    subs = list(path.as_subpaths())
    i = t.choice("which", [0, 1, 2])
    t.require(i < len(subs))
    starts = [j for j in range(len(kinds)) if kinds[j] == "M"] + [len(kinds)]
    a, b = starts[i], starts[i + 1]
    part = reversed_ghost(ghost[a:b])
    want = ghost[:a] + part + ghost[b:]
    subs[i].reverse()
    linked_segments(t, "whole path", path, relinked(want))


# ---------------------------------------------------------------- sub-paths
@contract("P24", ["path.Path.as_subpaths", "path.Path.subpath", "path.Path.count_subpaths", "path.Subpath.__len__",
                  "path.Subpath.__iter__", "path.Subpath.__getitem__", "path.Subpath.segments", "path.Subpath.__eq__",
                  "path.Subpath.index_to_path_index", "path.Subpath._numeric_index", "path.Subpath.d", "path.Subpath.bbox"],
          bounded="paths of up to eight segments")
def subpaths_partition_the_path(t):
    """the sub-paths cut the path before each move: together, in order, exactly its segments; each reads like the path
    made of its segments."""
    kinds = t.choice("base", ["ML", "MLQ", "MLMQL", "MLZML", "MLMCQZML", "MMLM", "LLML", "MLZLML"] + sub_path_shapes() + (
        [] if t.mode == "sym" else ["MACMALZ", "MLLQCLL"]))
    path, ghost = base_path(t, kinds)
    starts = [0] + [j for j in range(1, len(kinds)) if kinds[j] == "M"] + [len(kinds)]
    subs = list(path.as_subpaths())
    t.ensure("count", len(subs) == len(starts) - 1 and path.count_subpaths() == len(subs))
    for i, s in enumerate(subs):
        want = path._segments[starts[i]:starts[i + 1]]
        n = len(want)
        eq = lambda a: len(a) == n and all([x is y for x, y in zip(a, want)])
        t.ensure("iteration", eq(list(s)) and eq(list(iter(iter(s)))) and [(x, y) for x in s for y in s]
                 == [(x, y) for x in want for y in want])
        t.ensure("length", len(s) == n)
        t.ensure("segments", eq(s.segments()))
        t.ensure("indices", all([s[j] is want[j] and s[j - n] is want[j] for j in range(n)]))
        t.ensure("slices", eq(s[:]) and eq(s[0:n]) and list(s[1:]) == want[1:] and list(s[:-1]) == want[:-1])
        for x in (None, 0, 1, -1, -2):
            for y in (None, 1, -1):
                for z in (2, -1, -2, 1, 3):
                    t.ensure("stepped slices", list(s[x:y:z]) == want[x:y:z])
        for j in (n, -n - 1, n + 3):
            try:
                got = s[j]
            except IndexError:
                got = None
            t.ensure("nothing beyond its ends", got is None)
        t.ensure("slices end where it ends", eq(s[0:n + 5]) and list(s[n:]) == [] and eq(s[-n - 5:]))
        t.ensure("by number", eq(list(path.subpath(i))))
        alone = t.svg.path.Path()
        alone._segments = want
        t.ensure("equal to its path", bool(s == alone) and not bool(s != alone))
        if t.mode == "conc":
            t.ensure("data", s.d() == alone.d())
        if kinds not in ("M", "ML", "MLM", "MMLM") and t.mode == "sym":
            continue                        # boxes of curves branch a lot: lines here, all kinds in runs on doubles
        boxes = [x.bbox() for x in want if type(x).__name__ != "Move"]
        if not boxes:
            t.ensure("no box", s.bbox() is None)
        else:
            b = s.bbox()
            for u in range(4):
                f = t.min if u < 2 else t.max
                w = boxes[0][u]
                for x in boxes[1:]:
                    w = f(w, x[u])
                t.eq("box", b[u], w)


@contract("P24", ["path.Subpath.__setitem__", "path.Subpath.__delitem__", "path.Subpath.__iadd__", "path.Subpath.__imul__",
                  "path.Subpath.__add__"], bounded="paths of up to eight segments, one operation", max_paths=4000,
          uses=["basic.Point.__eq__"])
def subpath_edits_edit_the_path(t):
    """editing a sub-path edits its path inside the window only; the window follows its segments."""
    kinds = t.choice("base", ["MLLMQMC", "MLMLZ", "MLZMQZ", "MCLMLLM", "MQLZMZML"])
    path, ghost = base_path(t, kinds)
    subs = list(path.as_subpaths())
    i = t.choice("which", [0, 1])
    starts = [j for j in range(len(kinds)) if kinds[j] == "M"] + [len(kinds)]
    a, b = starts[i], starts[i + 1]
    s = subs[i]
    op = t.choice("op", ["set", "del", "+=", "*=", "+= text", "set slice", "widen", "del slice", "empty slice", "text +"])
    ref = list(ghost)
    news, add = build_segments(t, "Q", name="n", loose=True)
    if op == "set":
        s[1] = news[0]
        ref[a + 1] = add[0]
    elif op == "del":
        del s[1]
        del ref[a + 1]
        b -= 1
    elif op == "set slice":
        s[-1:] = news
        ref[b - 1:b] = add
    elif op == "widen":
        s[1:2] = news + [copy_of(t, news[0])]
        ref[a + 1:a + 2] = add + add
        b += 1
    elif op == "del slice":
        del s[1:]
        del ref[a + 1:b]
        b = a + 1
    elif op == "empty slice":
        s[len(s):9] = news
        ref[b:b] = add
        b += 1
    elif op == "text +":
        x, y = t.real("tx"), t.real("ty")
        p = "M%s,%s" % (x, y) + s
        same_segments(t, "whole path", path, ref)
        linked_segments(t, "sum", p, relinked([("Move", [None, (x, y)], None)] + ref[a:b]))
        return
    elif op == "+=":
        s += news[0]
        ref.insert(b, add[0])
        b += 1
    elif op == "+= text":
        x, y = t.real("tx"), t.real("ty")
        s += "L%s,%s" % (x, y)
        ref.insert(b, ("Line", [None, (x, y)], None))
        b += 1
    else:
        M = t.matrix("m", -20, 20)
        s *= M
        m = six(M)
        for j in range(a, b):
            k, p, sw = ref[j]
            ref[j] = (k, [None if q is None else m_apply(m, *q) for q in p], sw)
        same_segments(t, "whole path", path, ref)
        return
    want = relinked(ref)
    linked_segments(t, "whole path", path, want)
    t.ensure("window", len(s) == b - a)
    linked_segments(t, "window", s, want[a:b])


@contract(["P24", "P25"], ["path.Subpath.__add__", "path.Subpath.__radd__", "path.Subpath.__iadd__", "path.Subpath.__mul__",
                           "path.Subpath.__imul__", "path.Subpath.__copy__", "path.Path.__add__", "path.Path.__iadd__",
                           "path.Path.__init__", "path.Path.insert", "path.Path.extend"],
          bounded="paths of up to eight segments, one operation", max_paths=4000,
          uses=["basic.Point.__eq__"])
def subpath_sums(t):
    """sums and products of a sub-path with segments, paths and text hold the segments of its window alone with the
    others before or behind, share nothing with their operands and leave them as they were."""
    path, ghost = base_path(t, t.choice("base", ["MLQMLZ", "MLLMQMC", "MLZMLZ", "MQMZ", "LQMLM"]))
    kinds = "".join([g[0][0] for g in ghost])
    starts = [0] + [j for j in range(1, len(kinds)) if kinds[j] == "M"] + [len(kinds)]
    i = t.choice("which", [0, 1])
    a, b = starts[i], starts[i + 1]
    s = list(path.as_subpaths())[i]
    segs = list(path._segments)
    win = ghost[a:b]
    n = b - a
    how = t.choice("how", ["segment +", "text +", "+ segment", "+ text", "+ path", "path +", "path +=", "Path", "copy",
                           "* text", "*", "+= path", "*= text"])
    x, y = t.real("tx"), t.real("ty")
    text = "L%s,%s" % (x, y)
    line = ("Line", [None, (x, y)], None)
    keep = []
    inplace = False
    if how == "segment +":
        new = t.svg.path.Move(t.svg.basic.Point(x, y))
        keep = [new]
        r = s.__radd__(new)
        want = relinked([("Move", [None, (x, y)], None)] + win)
    elif how == "text +":
        r = "M%s,%s" % (x, y) + s
        want = relinked([("Move", [None, (x, y)], None)] + win)
    elif how in ("+ segment", "+ text"):
        if how == "+ text":
            r = s + text
        else:
            keep = [t.svg.path.Line(None, t.svg.basic.Point(x, y))]
            r = s + keep[0]
            t.ensure("segment keeps its points", keep[0].start is None)
            t.eq("segment's end", xy(keep[0].end), (x, y))
        want = relinked(ghost[:b] + [line] + ghost[b:])[a:b + 1]
    elif how in ("+ path", "path +", "path +=", "+= path"):
        other = t.svg.path.Path()
        news, add = build_segments(t, "ML", name="o")
        other._segments = news
        keep = news
        if how == "+ path":
            r = s + other
            want = relinked(ghost[:b] + add + ghost[b:])[a:b + 2]
        elif how == "+= path":
            r = s
            r += other
            t.ensure("the same sub-path", r is s)
            inplace = True
            want = relinked(ghost[:b] + add + ghost[b:])[a:b + 2]
            t.ensure("inserted segments are copies", disjoint(keep, list(path)))
            linked_segments(t, "whole path", path, relinked(ghost[:b] + add + ghost[b:]))
        elif how == "path +":
            r = other + s
            want = relinked(add + win)
        else:
            r = other
            r += s
            t.ensure("the same path", r is other)
            keep = []
            want = relinked(add + win)
        if how != "path +=":
            same_segments(t, "other operand", other, add)
    elif how in ("Path", "copy"):
        r = t.svg.path.Path(s) if how == "Path" else t.copy(s)
        want = win
    else:
        m = (1, 0, 0, 1, x, y)
        if how == "*":
            r = s * t.svg.basic.Matrix(*m)
        elif how == "* text":
            r = s * ("translate(%s,%s)" % (x, y))
        else:
            r = s
            r *= "translate(%s,%s)" % (x, y)
            t.ensure("the same sub-path", r is s)
            inplace = True
        want = [(k, [None if p is None else m_apply(m, *p) for p in pts], sw) for k, pts, sw in win]
        if inplace:
            same_segments(t, "whole path", path, ghost[:a] + want + ghost[b:])
    if len(want) == 0 or how in ("Path", "copy") or "*" in how:
        same_segments(t, "result", list(r), want)
    else:
        linked_segments(t, "result", list(r), want)
    t.ensure("its length", len(r) == len(want))
    if not inplace:
        t.ensure("shares nothing", disjoint(segs + keep, list(r)))
        t.ensure("the path keeps its segments", len(path) == len(segs) and all([p is q for p, q in zip(path, segs)]))
        same_segments(t, "operand", path, ghost)
        same_segments(t, "window", list(s), win)


@contract("P23", ["path.Path.direct_close", "path.Path.insert"], bounded="paths of up to three sub-paths", max_paths=4000,
          uses=["basic.Point.__eq__"])
def closes_made_direct(t):
    """direct_close puts a line in the place of every close that has a length, which then closes at once; nothing else
    changes, and doing it again changes nothing."""
    kinds = t.choice("base", ["M", "MLQ", "MLZ", "MLLZ", "MLZMQZ", "MLQZLC", "MLZMLMCZ", "MZ", "MZML", "MLZZL", "LLZL"])
    if kinds[0] == "M":
        path, ghost = base_path(t, kinds)
    else:
        start = free_points(t, "start", 1)[0]
        segs, ghost = build_segments(t, kinds, start=start)
        ghost = relinked(ghost)
        path = t.svg.path.Path()
        path._segments = segs
        for s, g in zip(segs, ghost):
            if g[0] == "Close":
                s.end = t.svg.basic.Point(*g[1][1])
    ghost = [(k, list(pts), sweep) for k, pts, sweep in ghost]
    want = []
    for i, (k, pts, sweep) in enumerate(ghost):
        if k == "Close":
            before = ghost[i - 1]
            if before[0] not in ("Move", "Close") and t.choice("closing point there %d" % i, [False, True]):
                # the outline is back at the start of its sub-path already
                e = 1 if before[0] in ("Line", "Arc") else -1
                before[1][e] = pts[0] = pts[1]
                path[i - 1].end = t.svg.basic.Point(*pts[1])
                path[i].start = t.svg.basic.Point(*pts[1])
            elif before[0] not in ("Move", "Close"):
                far = [pts[0][u] - pts[1][u] for u in (0, 1)]
                t.require(t.Or(far[0] > 1e-9, far[0] < -1e-9, far[1] > 1e-9, far[1] < -1e-9))
                want.append(("Line", pts, None))
                pts = [pts[1], pts[1]]
        want.append((k, pts, sweep))
    r = path.direct_close()
    t.ensure("the path itself", r is path)
    linked_segments(t, "direct", path, want)
    path.direct_close()
    linked_segments(t, "again", path, want)
    P = t.svg.basic.Point
    ids = [id(x) for s in path for x in vars(s).values() if isinstance(x, P)]
    t.eq("no point shared", len(set(ids)), len(ids))
