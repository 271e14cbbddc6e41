# The viewport transform of a viewBox (SVG 2, section 8.2).

ALIGN = ["none"] + ["x%sY%s" % (a, b) for a in ("Min", "Mid", "Max") for b in ("Min", "Mid", "Max")]


def fit(t, e, v, align, mode):
    """scale and translation the standard prescribes for element rectangle e and view box v"""
    sx, sy = e[2] / v[2], e[3] / v[3]
    if align != "none":
        if mode == "slice":
            sx = sy = t.ite(sx > sy, sx, sy) if t.mode == "sym" else max(sx, sy)
        else:
            sx = sy = t.ite(sx < sy, sx, sy) if t.mode == "sym" else min(sx, sy)
    tx, ty = e[0] - v[0] * sx, e[1] - v[1] * sy
    share = {"Min": 0, "Mid": 0.5, "Max": 1}
    if align != "none":
        tx = tx + share[align[1:4]] * (e[2] - v[2] * sx)
        ty = ty + share[align[5:8]] * (e[3] - v[3] * sy)
    return sx, sy, tx, ty


def rectangle(t, n):
    return [t.real(n + "x", -1000, 1000), t.real(n + "y", -1000, 1000), t.real(n + "w", 0.01, 1000, nonzero=True),
            t.real(n + "h", 0.01, 1000, nonzero=True)]


@contract("P26", ["basic.Viewbox.viewbox_transform", "basic.Viewbox.transform", "basic.Viewbox.__init__",
                  "basic.Viewbox.set_viewbox", "basic.Viewbox.property_by_values", "basic.Viewbox.property_by_object",
                  "nodes.SVG.viewbox_transform"], max_paths=4000)
def viewbox_transform_is_the_standard_one(t):
    """the transform text written for a view box is the standard's scale and translation (to the printed 12 decimals),
    for every alignment and meet/slice, however the box and the element are given."""
    V, M = t.svg.basic.Viewbox, t.svg.basic.Matrix
    e, v = rectangle(t, "e"), rectangle(t, "v")
    case = t.choice("coincidence", ["", "same scale", "same box"])
    if case == "same scale":
        e[2], e[3] = v[2], v[3]
    elif case == "same box":
        e = list(v)
    align = t.choice("align", ALIGN)
    mode = t.choice("mode", ["", "meet", "slice"])
    aspect = align + t.choice("space", [" ", "  "] if align[0] == "x" and align[-1] == "d" else [" "]) + mode if mode else align
    if align == "xMidYMid" and not mode and t.choice("default", [False, True]):
        aspect = t.choice("default aspect", [None, ""])
    if t.mode == "conc" or (align == "xMinYMax" and not case) or aspect in (None, ""):
        how = t.choice("how", ["static", "text", "dict", "copy", "svg"])
    else:
        how = "static"
    seps = ["%s %s %s %s", "%s,%s,%s,%s", " %s, %s  %s %s "]
    text = (t.choice("commas", seps) if how == "text" else seps[0]) % tuple(v)
    if how == "static":
        r = V.viewbox_transform(*(e + v + [aspect]))
    else:
        if how == "dict":
            d = {"viewBox": text}
            if aspect is not None:
                d["preserveAspectRatio"] = aspect
            box = V(d)
        else:
            box = V(text, aspect)
            if how == "copy":
                box = V(box)
        t.eq("parsed box", (box.x, box.y, box.width, box.height), tuple(v))
        if how == "svg":
            svg = t.svg.nodes.SVG(x=e[0], y=e[1], width=e[2], height=e[3], viewBox=box)
            r = svg.viewbox_transform
        else:
            class Element:
                pass
            el = Element()
            el.x, el.y, el.width, el.height = e
            r = box.transform(el)
    m = M(r)
    sx, sy, tx, ty = fit(t, e, v, align, mode)
    eps = 5.0e-13 if t.mode == "sym" else 1e-9
    t.eq("no rotation or skew", (m.b, m.c), (0, 0))
    t.close("scale x", m.a, sx, eps)
    t.close("scale y", m.d, sy, eps)
    t.close("translate x", m.e, tx, eps)
    t.close("translate y", m.f, ty, eps)


@contract("P26", ["basic.Viewbox.viewbox_transform", "basic.Viewbox.set_viewbox", "basic.Viewbox.transform"])
def incomplete_viewbox(t):
    """with any of the eight measures missing there is no transform; a box of fewer than four numbers is incomplete."""
    V = t.svg.basic.Viewbox
    e, v = rectangle(t, "e"), rectangle(t, "v")
    n = t.choice("missing", [0, 1, 2, 3, 4, 5, 6, 7, "short", "absent"])
    aspect = t.choice("aspect", [None, "none", "xMidYMid slice"])
    if n in ("short", "absent"):
        k = t.choice("numbers", [0, 1, 2, 3])
        box = V(" ".join(["%s" % x for x in v[:k]]) if n == "short" else None, aspect)

        class Element:
            pass
        el = Element()
        el.x, el.y, el.width, el.height = e
        t.ensure("nothing", box.transform(el) == "")
    else:
        a = e + v
        a[n] = None
        t.ensure("nothing", V.viewbox_transform(*(a + [aspect])) == "")


@contract("P26", [])
def lemma_viewbox_geometry(t):
    """lemma: under that transform the view box meets its viewport as the alignment says: scaled alike on both axes
    (unless none), the largest that fits inside (meet) or the smallest that covers (slice), and aligned as asked."""
    e, v = rectangle(t, "e"), rectangle(t, "v")
    align = t.choice("align", ALIGN)
    mode = t.choice("mode", ["meet", "slice"])
    sx, sy, tx, ty = fit(t, e, v, align, mode)
    x0, y0, w, h = v[0] * sx + tx, v[1] * sy + ty, v[2] * sx, v[3] * sy
    if align == "none":
        t.eq("exactly the viewport", (x0, y0, w, h), tuple(e))
        return
    t.eq("uniform", sx, sy)
    if mode == "meet":
        t.ensure("inside", t.And(w <= e[2] + 1e-9, h <= e[3] + 1e-9))
    else:
        t.ensure("covers", t.And(w >= e[2] - 1e-9, h >= e[3] - 1e-9))
    if t.mode == "sym":
        t.ensure("touches", t.Or(w == e[2], h == e[3]))
    else:
        t.ensure("touches", abs(w - e[2]) < 1e-6 or abs(h - e[3]) < 1e-6)
    for name, a, p, s, q, n in (("x", align[1:4], x0, w, e[0], e[2]), ("y", align[5:8], y0, h, e[1], e[3])):
        if a == "Min":
            t.eq(name + " start", p, q)
        elif a == "Mid":
            t.eq(name + " middle", p + s / 2, q + n / 2)
        else:
            t.eq(name + " end", p + s, q + n)
