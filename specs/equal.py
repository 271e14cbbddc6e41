# P32: equality of segments, paths and sub-paths.


def near_point(t, p, q):
    """two stored points (or None) are the same to the 1e-12 per coordinate within which the code calls points equal"""
    if p is None or q is None:
        return p is None and q is None
    return t.And(*[t.And(a - b <= 1e-12, b - a <= 1e-12) for a, b in zip(p, q)])


def same_snap(t, a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    if any((p is None) != (q is None) for p, q in zip(a[1], b[1])):
        return False
    return t.And(*([near_point(t, p, q) for p, q in zip(a[1], b[1])] + ([a[2] == b[2]] if a[2] is not None else [])))


def moved(t, g, name, which=None):
    """the same segment with its numbers changed: every number in a proof, at most one on doubles"""
    k, pts, sweep = g
    if t.mode == "conc":
        n = 2 * len(pts) + 1
        which = t.choice(name + " changed", list(range(-1, n))) if which is None else which
    j = 0
    out = []
    for p in pts:
        q = []
        for c in range(2):
            d = 0
            if p is not None and (t.mode == "sym" or j == which):
                d = t.real("%sd%d" % (name, j))
                if t.mode == "conc":
                    t.require(d == 0 or abs(d) > 1e-6)
            q.append(None if p is None else p[c] + d)
            j += 1
        out.append(None if p is None else tuple(q))
    if sweep is not None:
        if t.mode == "sym" or which == j:
            sweep = sweep + t.real(name + "ds")
    return k, out, sweep


def from_snap(t, g):
    P = t.svg.basic.Point
    k, pts, s = g
    return getattr(t.svg.path, k)(*([None if p is None else P(*p) for p in pts] + ([] if s is None else [s])))


def verdict(t, label, same, a, b):
    """a == b and b == a say so, and != says the opposite"""
    t.ensure(label + ": ==", t.iff(bool(a == b), same))
    t.ensure(label + ": == turned round", t.iff(bool(b == a), same))
    t.ensure(label + ": !=", t.iff(bool(a != b), t.Not(same)))
    t.ensure(label + ": != turned round", t.iff(bool(b != a), t.Not(same)))


@contract("P32", ["path.Move.__eq__", "path.Move.__ne__", "path.Linear.__eq__", "path.Linear.__ne__",
                  "path.QuadraticBezier.__eq__", "path.QuadraticBezier.__ne__", "path.CubicBezier.__eq__",
                  "path.CubicBezier.__ne__", "path.Arc.__eq__", "path.Arc.__ne__"], max_paths=6000)
def segments_are_equal_by_their_points(t):
    """two segments of one kind are equal exactly when each defining point (and the swept angle) is the same."""
    k = t.choice("kind", "MLZQCA")
    first = t.choice("start", ["given", "missing"]) if k == "M" else "given"
    segs, ghost = build_segments(t, k, start=None if first == "missing" else (t.real("sx"), t.real("sy")))
    other = moved(t, ghost[0], "o")
    if first == "missing" and t.choice("other start", ["missing", "given"]) == "given":
        other = (other[0], [(t.real("zx"), t.real("zy"))] + other[1][1:], other[2])
    o = from_snap(t, other)
    verdict(t, "segments", same_snap(t, ghost[0], other), segs[0], o)


@contract("P32", ["path.Move.__eq__", "path.Linear.__eq__", "path.QuadraticBezier.__eq__", "path.CubicBezier.__eq__",
                  "path.Arc.__eq__"])
def kinds_of_segments_differ(t):
    """segments of different kinds are never equal, whatever their points; nor is a segment equal to anything else."""
    k = t.choice("kind", "MLZQCA")
    l = t.choice("other", "MLZQCA5")
    t.require(k != l)
    segs, ghost = build_segments(t, k, start=(t.real("sx"), t.real("sy")))
    if l == "5":
        other = t.choice("what", [5, "M0,0", None, (1, 2)])
    else:
        other = build_segments(t, l, start=(t.real("sx"), t.real("sy")))[0][0]
    verdict(t, "kinds", False, segs[0], other)


@contract("P32", ["path.Path.__eq__", "path.Path.__ne__", "path.Subpath.__eq__", "path.Subpath.__ne__"],
          bounded="paths of up to four segments", max_paths=8000,
          uses=["basic.Point.__eq__"])
def paths_are_equal_by_their_segments(t):
    """paths and sub-paths, in any combination, are equal exactly when they have as many segments and each is equal."""
    pair = t.choice("pair", ["path path", "path sub", "sub sub"])
    kinds = t.choice("kinds", ["ML", "MQZ", "MLA", "MCLZ", "M"])
    other = t.choice("other", ["same", "one changed", "longer", "shorter", "kind"])
    path, ghost = base_path(t, kinds)
    if other == "one changed":
        j = t.choice("at", list(range(len(kinds))))
        want = [moved(t, g, "o") if i == j else g for i, g in enumerate(ghost)]
    elif other == "longer":
        want = ghost + [("Line", [(t.real("lx"), t.real("ly")), (t.real("mx"), t.real("my"))], None)]
    elif other == "shorter":
        want = ghost[:-1]
    elif other == "kind":
        last = ghost[-1]
        k = {"Line": "Close", "Close": "Line"}.get(last[0])
        t.require(k is not None)
        want = ghost[:-1] + [(k, last[1], None)]
    else:
        want = list(ghost)
    t.require(len(want) > 0)
    q = t.svg.path.Path()
    q._segments = [from_snap(t, g) for g in want]
    a = path if pair != "sub sub" else path.subpath(0)
    b = q if pair == "path path" else q.subpath(0)
    if other in ("longer", "shorter", "kind"):
        same = False
    else:
        same = t.And(True, *[same_snap(t, g, w) for g, w in zip(ghost, want)])
    verdict(t, "paths", same, a, b)
    same_segments(t, "left alone", path, ghost)


@contract("P32", ["path.Path.__eq__", "path.Path.__ne__", "path.Subpath.__eq__"], bounded="paths of three segments")
def text_stands_for_its_path(t):
    """path data given as text is compared as the path it denotes."""
    path, ghost = base_path(t, "MLQ")
    n = [x for g in ghost for p in (g[1] if g[0] == "Move" else g[1][1:]) if p is not None for x in p]
    d = t.real("d") if t.choice("changed", [False, True]) else 0
    if t.mode == "conc":
        t.require(d == 0 or abs(d) > 1e-6)
    m = list(n)
    j = t.choice("at", list(range(len(m))))
    m[j] = m[j] + d
    text = "M%s,%sL%s,%sQ%s,%s %s,%s" % tuple(m)
    a = path if t.choice("side", ["path", "subpath"]) == "path" else path.subpath(0)
    same = t.And(d <= 1e-12, -d <= 1e-12)
    t.ensure("==", t.iff(bool(a == text), same))
    t.ensure("!=", t.iff(bool(a != text), t.Not(same)))
    t.ensure("== turned round", t.iff(bool(text == a), same))
