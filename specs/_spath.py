# Paths with symbolic geometry.


def snap(seg):
    """what a segment is: kind, defining points, swept angle, notation flags"""
    k = type(seg).__name__
    return (k, control_points(seg), seg.sweep if k == "Arc" else None)


def snaps(path):
    return [snap(s) for s in path]


def same_segments(t, label, path, want):
    """the path's segments are the expected (kind, points, sweep) tuples"""
    t.ensure(label + ": count", len(path) == len(want), "%d segments, expected %d" % (len(path), len(want)))
    for i in range(len(want)):
        k, pts, sweep = snap(path[i])
        K, P, S = want[i]
        t.ensure(label + ": kind", k == K)
        for a, b in zip(pts, P):
            if a is None or b is None:
                t.ensure(label + ": point", a is None and b is None)
            else:
                t.eq(label + ": point", a, b)
        if S is not None:
            t.eq(label + ": sweep", sweep, S)


def free_points(t, name, n):
    return [(t.real("%sx%d" % (name, i)), t.real("%sy%d" % (name, i))) for i in range(n)]


LETTER = {"M": "Move", "L": "Line", "Q": "QuadraticBezier", "C": "CubicBezier", "A": "Arc", "Z": "Close"}


def build_segments(t, kinds, name="p", start=None, z=None, loose=False):
    """segments of these kinds (letters) joined end to end, everything else free; (segments, ghost tuples).
    loose: every segment has its own free start instead"""
    P = t.svg.basic.Point
    pa = t.svg.path
    segs, ghost = [], []
    cur = start
    for i, k in enumerate(kinds):
        nm = "%s%d" % (name, i)
        if loose:
            cur = free_points(t, nm + "s", 1)[0]
        pt = lambda q: None if q is None else P(*q)
        if k == "Z":
            end = z if not loose and z is not None else free_points(t, nm, 1)[0]
            segs.append(pa.Close(pt(cur), pt(end)))
            ghost.append(("Close", [cur, end], None))
        elif k == "A":
            a = free_points(t, nm, 4)
            sw = t.real(nm + "sweep")
            segs.append(pa.Arc(pt(cur), *([P(*q) for q in a] + [sw])))
            ghost.append(("Arc", [cur] + a, sw))
            end = a[0]
        else:
            pts = free_points(t, nm, {"M": 1, "L": 1, "Q": 2, "C": 3}[k])
            segs.append(getattr(pa, LETTER[k])(*[pt(q) for q in [cur] + pts]))
            ghost.append((LETTER[k], [cur] + pts, None))
            end = pts[-1]
        if k == "M" or z is None:
            z = end
        cur = end
    return segs, ghost


def some_kinds(t, name, sym, most, letters="LQCAZM"):
    """a list of segment kinds: from the given lists in proofs, any up to the given size on doubles"""
    if t.mode == "sym":
        return t.choice(name, sym)
    n = t.choice(name + " count", list(range(most + 1)))
    return "".join([t.choice("%s %d" % (name, i), list(letters)) for i in range(n)])


def relinked(ghost):
    """the same segments joined end to end: each start moves to the previous end, each close to its sub-path's start"""
    out = []
    z = prev = None
    for k, pts, sweep in ghost:
        pts = list(pts)
        if prev is not None:
            pts[0] = prev
        if z is None or k == "Move":
            z = pts[1] if k in ("Move", "Line", "Close", "Arc") else pts[-1]
        if k == "Close":
            pts[1] = z
        out.append((k, pts, sweep))
        prev = pts[1] if k in ("Move", "Line", "Close", "Arc") else pts[-1]
    return out


def linked_segments(t, label, path, want):
    """segments as expected; joints compared to the 1e-12 within which the code calls points equal"""
    t.ensure(label + ": count", len(path) == len(want), "%d segments, expected %d" % (len(path), len(want)))
    for i in range(len(want)):
        k, pts, sweep = snap(path[i])
        K, P, S = want[i]
        t.ensure(label + ": kind", k == K)
        for j, (a, b) in enumerate(zip(pts, P)):
            if a is None or b is None:
                t.ensure(label + ": point", a is None and b is None)
            elif j == 0 or k == "Close":
                for u in (0, 1):
                    if t.mode == "conc" or not t.identical(a[u], b[u]):
                        t.close(label + ": joint", a[u], b[u], 1e-11)
            else:
                t.eq(label + ": point", a, b)
        if S is not None:
            t.eq(label + ": sweep", sweep, S)


BASES = ["MLQ", "MLZL", "MAC", "LQ", "MLMLZ"]


def base_path(t, kinds=None):
    """a connected path whose close segments end at their sub-path's start"""
    if kinds is None:
        if t.mode == "sym":
            kinds = t.choice("base", BASES)
        else:
            kinds = t.choice("first", ["M", "M", "M", ""]) + some_kinds(t, "base", [], 6)
            if len(kinds) < 3:
                kinds = "MLQ"
            elif kinds[0] in "ZA":
                kinds = "L" + kinds[1:]
    start = free_points(t, "start", 1)[0] if kinds[0] != "M" else None
    segs, ghost = build_segments(t, kinds, start=start)
    path = t.svg.path.Path()
    path._segments = segs
    return path, ghost


def base_path2(t):
    segs, ghost = build_segments(t, "MQ", name="o")
    path = t.svg.path.Path()
    path._segments = segs
    return path, ghost


def copy_of(t, seg):
    P = t.svg.basic.Point
    k, pts, s = snap(seg)
    return getattr(t.svg.path, k)(*([None if p is None else P(*p) for p in pts] + ([] if s is None else [s])))
