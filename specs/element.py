# Creating elements and reading their attributes.

POSITIONAL = {"rect": ["x", "y", "width", "height", "rx", "ry"], "circle": ["cx", "cy", "r"],
              "ellipse": ["cx", "cy", "rx", "ry"], "line": ["x1", "y1", "x2", "y2"], "polyline": ["points"],
              "polygon": ["points"], "path": ["d"]}
XLINK = "{http://www.w3.org/1999/xlink}href"
OWN = {"rect": {"x": "x", "y": "y", "width": "width", "height": "height", "rx": "rx", "ry": "ry"},
       "circle": {"cx": "cx", "cy": "cy", "r": "r"},
       "ellipse": {"cx": "cx", "cy": "cy", "rx": "rx", "ry": "ry"},
       "line": {"x1": "x1", "y1": "y1", "x2": "x2", "y2": "y2"},
       "polyline": {"points": "points"}, "polygon": {"points": "points"}, "path": {"d": "d"},
       "text": {"x": "x", "y": "y", "width": "width", "height": "height", "dx": "dx", "dy": "dy"},
       "tspan": {"x": "x", "y": "y", "dx": "dx", "dy": "dy"},
       "image": {"x": "x", "y": "y", "width": "width", "height": "height", "href": "href", "viewBox": "viewBox",
                 "preserveAspectRatio": "preserveAspectRatio"},
       "svg": {"x": "x", "y": "y", "width": "width", "height": "height", "viewBox": "viewBox",
               "preserveAspectRatio": "preserveAspectRatio"},
       "use": {"x": "x", "y": "y", "width": "width", "height": "height"},
       "mask": {"x": "x", "y": "y", "width": "width", "height": "height"},
       "pattern": {"x": "x", "y": "y", "width": "width", "height": "height", "href": "href"},
       "a": {"href": "href"}, "script": {"href": "href"}}
DRAWN = ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "text", "tspan", "image"]
PAINT = {"stroke_width": "stroke-width", "stroke_opacity": "stroke-opacity", "fill_opacity": "fill-opacity"}


def some_value(t, name):
    return t.real(name) if t.choice(name + " kind", ["number", "text"]) == "number" else words(t, name)


def equal(t, a, b):
    """the same value (numbers by value)"""
    if isinstance(b, str):
        return a == b
    if isinstance(a, str):
        return False
    return t.identical(a, b) if t.mode == "sym" else a == b


def same_attributes(t, label, got, want):
    t.ensure(label + ": names", set(got) == set(want), "%s for %s" % (sorted(got), sorted(want)))
    for k in want:
        t.ensure(label + ": " + k, equal(t, got[k], want[k]), "%s for %s" % (got[k], want[k]))


@contract("P30", ["nodes.Node.__init__", "nodes.Rect.__init__", "nodes.Circle.__init__", "nodes.Ellipse.__init__",
                  "nodes.Line.__init__", "nodes.Polyline.__init__", "nodes.Polygon.__init__", "nodes.Path.__init__",
                  "nodes.ElementBuilder.__init__", "nodes.ElementBuilder.__call__", "nodes.Node.__getattribute__",
                  "nodes.Node.xml"], samples=400)
def elements_are_created_as_asked(t):
    """an element built from positional and named arguments, or by the builder method of its tag, has exactly these
    attributes; the builder adds it as last child of the node it is called on and to nothing else."""
    N = t.svg.nodes
    tag = t.choice("tag", sorted(CLASS_OF))
    names = POSITIONAL.get(tag, [])
    k = t.choice("positional", [0, len(names), 1, 2, 3, 4, 5])
    t.require(k <= len(names))
    vals = [some_value(t, "p%d" % i) for i in range(k)] if t.mode == "conc" else [t.real("p%d" % i) for i in range(k)]
    extra = t.choice("named", [[], ["fill"], ["id", "transform"]] + ([names[k:]] if names[k:] else []))
    kw = {n: words(t, "k" + n) for n in extra}
    if t.choice("dashed", [False, True]):
        kw["stroke-width"] = words(t, "kw")
    want = dict(kw)
    for n, v in zip(names, vals):
        want[n] = v
    given = dict(kw)
    cls = getattr(N, CLASS_OF[tag])
    how = t.choice("how", ["constructor", "document", "child", "grandchild"])
    if how == "constructor":
        node = cls(*vals, **kw)
        t.ensure("no parent", node.parent is None and not node.is_connected)
    else:
        doc = N.Document()
        doc.svg(width=10)
        doc[0].g()
        doc[0].g(id="second")
        host = {"document": doc, "child": doc[0], "grandchild": doc[0][1]}[how]
        before = list(host)
        others = [n for n in [doc] + nodes_of(doc[0]) if n is not host]
        counts = [len(n) for n in others]
        getattr(host, tag)(*vals, **kw)
        t.ensure("one more child", len(host) == len(before) + 1)
        for a, b in zip(host, before):
            t.ensure("earlier children", a is b)
        t.ensure("no other child", [len(n) for n in others] == counts)
        node = host[-1]
        t.ensure("parent", node.parent is host and node.is_connected)
        t.ensure("document", node.document is doc)
    t.ensure("type", type(node) is cls)
    t.ensure("no children", len(node) == 0)
    same_attributes(t, "attributes", node.attributes, want)
    t.ensure("arguments unchanged", kw == given)
    other = cls()
    t.ensure("nothing shared", len(other.attributes) == 0)
    same_tree(t, "XML", tree_of(t, str(node)), (tag, {a: str(want[a]) for a in want}, None, None, []))


@contract("P27", ["nodes.Document.get_values", "nodes.Document.get_ancestors", "nodes.Element.id"] +
          ["nodes.%s.%s" % (CLASS_OF[k], p) for k in ("rect", "circle", "ellipse", "line", "text", "image", "svg", "use",
                                                      "mask", "pattern") for p in OWN[k]] +
          ["nodes._Polyshape.points", "nodes.Path.d", "nodes.Hyperlink.href", "nodes.Script.href", "nodes.Rect.position",
           "nodes.Circle.center", "nodes.Ellipse.center"], samples=300)
def own_attributes_are_read(t):
    """an attribute an element sets is what its property reads, whatever the enclosing elements set, and a later change
    of it is seen at once; setting one attribute does not show in the properties of others."""
    N = t.svg.nodes
    tag = t.choice("tag", sorted(OWN))
    mine = OWN[tag]
    depth = t.choice("depth", [0, 1, 2])
    doc = N.Document()
    host = doc
    for i in range(depth):
        getattr(host, "g" if t.mode == "sym" else t.choice("host%d" % i, sorted(CLASS_OF)))()
        host = host[-1]
        for a in sorted(set(mine.values())) + [XLINK, "id"]:
            host.attributes[a] = words(t, "h%d%s" % (i, a))
    getattr(host, tag)()
    node = host[-1]
    want = {}
    for prop in sorted(mine):
        v = some_value(t, prop) if t.mode == "conc" else t.real(prop)
        node.attributes[mine[prop]] = v
        want[prop] = v
    node.attributes["id"] = i = words(t, "id")
    t.ensure("id", node.id == i)

    def check():
        for prop in mine:
            t.ensure("property " + prop, equal(t, getattr(node, prop), want[prop]))
    check()
    prop = t.choice("changed", sorted(mine))
    want[prop] = t.real("new")
    node.attributes[mine[prop]] = want[prop]
    check()
    if "href" in mine:
        del node.attributes["href"]
        t.ensure("no link", node.href is None)
        node.attributes[XLINK] = v = words(t, "xlink")
        t.ensure("xlink", node.href == v)
        del node.attributes[XLINK]
    if tag in ("circle", "ellipse", "rect"):
        p, q = ("x", "y") if tag == "rect" else ("cx", "cy")
        node.attributes[p], node.attributes[q] = a, b = t.real("a"), t.real("b")
        t.eq("position", xy(node.position if tag == "rect" else node.center), (a, b))


@contract("P27", ["nodes.GraphicalElement.fill", "nodes.GraphicalElement.stroke", "nodes.GraphicalElement.fill_opacity",
                  "nodes.GraphicalElement.stroke_opacity", "nodes.GraphicalElement.stroke_width",
                  "nodes.Document.get_values", "nodes.Document.get_ancestors"],
          bounded="up to three enclosing elements (six on doubles)", samples=300)
def paint_is_inherited(t):
    """fill, stroke, their opacities and the stroke width of a drawn element are those of the nearest element, itself
    first, that sets them; paint is read as a colour with that opacity; moving or changing elements shows at once."""
    N, C = t.svg.nodes, t.svg.basic.Color
    tag = t.choice("tag", DRAWN if t.mode == "conc" else ["rect"])
    doc = N.Document()
    doc.svg()
    chain = [doc[0]]
    for i in range(t.choice("depth", [0, 1, 2] if t.mode == "sym" else [0, 1, 2, 3, 5])):
        kind = t.choice("kind%d" % i, ["g", "foo"]) if i == 0 or t.mode == "conc" else "g"
        if kind == "g":
            chain[-1].g()
        else:
            # an element of no known kind
            other = N.Node()
            other.parent, other.document = chain[-1], doc
            chain[-1].append(other)
        chain[-1].g()                       # a sibling that must not matter
        chain[-1][-1].attributes.update({"fill": "lime", "stroke": "lime", "stroke-width": "77", "fill-opacity": "0.77"})
        chain.append(chain[-1][0])
    getattr(chain[-1], tag)()
    chain.append(chain[-1][-1])
    node = chain[-1]
    what = t.choice("what", ["fill", "stroke"])
    for k, name in enumerate(["%s" % what, what + "-opacity", "stroke-width"]):
        # the nearest one that sets it, and in proofs all beyond that one
        at = t.choice("%s at" % name, list(range(-1, len(chain))))
        for i in range(at + 1):
            if i == at or t.mode == "sym" or t.choice("%s also at %d" % (name, i), [False, True]):
                if k:
                    n = "%s" % t.real("%s%d" % (name, i), 0, 1)
                elif i == at:
                    n = t.choice("paint", ["red", "#12345678", "none"])
                else:
                    n = "#0a0b0c"
                chain[i].attributes[name] = n

    def nearest(name):
        for n in chain[::-1]:
            if name in n.attributes:
                return n.attributes[name]
        return None

    def check(label):
        for prop in PAINT:
            t.ensure(label + prop, getattr(node, prop) == nearest(PAINT[prop]) if nearest(PAINT[prop]) is not None else
                     getattr(node, prop) is None)
        c, paint, opacity = getattr(node, what), nearest(what), nearest(what + "-opacity")
        if paint is None:
            t.ensure(label + "no paint", c is None)
            return
        w = C(paint)
        if opacity is not None and w.value is not None:
            w.opacity = t.num_in(opacity) if t.mode == "sym" else float(opacity)
        t.ensure(label + "paint", c == w)
    saved = [dict(n.attributes) for n in chain]
    check("")
    for n, s in zip(chain, saved):
        t.ensure("attributes unchanged", n.attributes == s)
    k = t.choice("change", [None] + list(range((0 if len(chain) > 2 else 2) if t.mode == "sym" else len(chain))))
    if k is not None:
        chain[k].attributes[what] = "blue"
        chain[-1].attributes.pop(what + "-opacity", None)
        check("after a change: ")


@contract("P27", ["nodes.Image.data", "nodes.Image.href"])
def embedded_image_data(t):
    """the data of an image embedded as base64 are the encoded bytes; a link to another file has none."""
    import base64
    kind = t.choice("kind", ["png", "jpg", "jpeg", "svg+xml"])
    n = t.choice("size", [0, 1, 2, 3, 64, 1000])
    data = bytes([(7 * i * i + 3 * n + 5) % 256 for i in range(n)])
    img = t.svg.nodes.Image()
    key = t.choice("key", ["href", XLINK])
    img.attributes[key] = "data:image/%s;base64," % kind + base64.b64encode(data).decode("ascii")
    t.ensure("bytes", img.data == data)
    img.attributes[key] = "picture.png"
    t.ensure("no data", img.data is None)


@contract(["P30"], ["nodes.ElementBuilder.__call__", "nodes.Node.__getattribute__", "nodes.Node.__init__"],
          bounded="elements of every kind in elements of every kind")
def elements_are_built_on_every_element(t):
    """every element can be built on every element; it is added there, after what was built before, and nowhere else."""
    N = t.svg.nodes
    tags = sorted(CLASS_OF)
    outer = t.choice("outer", tags)
    doc = N.Document()
    doc.svg()
    doc[0].g()
    getattr(doc[0][0], outer)()
    doc[0][0].rect()
    host = doc[0][0][0]
    v = words(t, "v")
    for i, tag in enumerate(tags):
        getattr(host, tag)(fill=v, id="n%d" % i)
    t.ensure("count", len(host) == len(tags) and len(doc[0][0]) == 2 and len(doc[0]) == 1 and len(doc) == 1)
    for i, tag in enumerate(tags):
        n = host[i]
        t.ensure("type", type(n) is getattr(N, CLASS_OF[tag]))
        t.ensure("linked", n.parent is host and n.document is doc and len(n) == 0)
        same_attributes(t, "attributes", n.attributes, {"fill": v, "id": "n%d" % i})
        getattr(n, outer)()
        t.ensure("inside", len(n) == 1 and type(n[0]) is type(host) and n[0].parent is n and n[0].document is doc)
        t.ensure("without attributes", len(n[0].attributes) == 0)
    t.ensure("still there", len(host) == len(tags) and len(host.attributes) == 0)


@contract("P27", ["nodes.GraphicalElement.fill", "nodes.GraphicalElement.stroke", "nodes.GraphicalElement.stroke_width",
                  "nodes.GraphicalElement.fill_opacity", "nodes.GraphicalElement.stroke_opacity",
                  "nodes.Document.get_values", "nodes.Document.get_ancestors"],
          bounded="every drawn element two levels inside elements of every kind")
def paint_passes_through_every_element(t):
    """paint set on an element of any kind holds for what is drawn inside it, directly or further in; the element's
    own setting goes first."""
    N, C = t.svg.nodes, t.svg.basic.Color
    tags = sorted(CLASS_OF)
    outer, inner = t.choice("outer", tags), t.choice("inner", ["g", "same", "unknown"])
    doc = N.Document()
    getattr(doc, outer)()
    a = doc[0]
    if inner == "unknown":
        b = N.Node()
        b.parent, b.document = a, doc
        a.append(b)
    else:
        getattr(a, outer if inner == "same" else inner)()
        b = a[0]
    names = ["fill", "stroke", "stroke-width", "fill-opacity", "stroke-opacity"]
    at = t.choice("at", ["outer", "inner", "both"])
    values = {}
    for host, n in ((a, 1), (b, 2)):
        if at in ("both", "outer" if n == 1 else "inner"):
            for k in names:
                v = "#0a0b%02d" % n if k in ("fill", "stroke") else "%s" % t.real("%s%d" % (k, n), 0, 1)
                host.attributes[k] = values[k] = v
    for tag in DRAWN:
        getattr(b, tag)()
        getattr(b, tag)(**{"fill": "#123456", "stroke": "#654321", "stroke-width": "9", "fill-opacity": "1",
                           "stroke-opacity": "1"})
        n, own = b[-2], b[-1]
        t.ensure("width", n.stroke_width == values["stroke-width"] and own.stroke_width == "9")
        for what, mine in (("fill", "#123456"), ("stroke", "#654321")):
            op = values[what + "-opacity"]
            t.ensure("opacity", getattr(n, what + "_opacity") == op and getattr(own, what + "_opacity") == "1")
            w = C(values[what])
            w.opacity = t.num_in(op) if t.mode == "sym" else float(op)
            t.ensure("paint", getattr(n, what) == w)
            t.ensure("own paint", getattr(own, what) == mine)
