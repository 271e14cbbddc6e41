# Documents as ghost trees: (tag, attributes, text, tail, children).

CLASS_OF = {"svg": "SVG", "g": "Group", "defs": "Defs", "symbol": "Symbol", "marker": "Marker", "use": "Use",
            "style": "Style", "script": "Script", "a": "Hyperlink", "text": "Text", "tspan": "TSpan", "path": "Path",
            "line": "Line", "rect": "Rect", "circle": "Circle", "ellipse": "Ellipse", "polyline": "Polyline",
            "polygon": "Polygon", "image": "Image", "title": "Title", "desc": "Desc", "metadata": "Metadata",
            "mask": "Mask", "pattern": "Pattern"}
UNKNOWN = ["foo", "linearGradient", "clipPath", "feGaussianBlur", "Rect", "{urn:other}rect"]
XMLNS = "http://www.w3.org/XML/1998/namespace"
SVGNS = "{http://www.w3.org/2000/svg}"


def escape(s):
    out = str(s).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")
    return out.replace("\n", "&#10;").replace("\t", "&#9;")


def serialise(tree, ns, top=True):
    """XML text of a ghost tree; ns: declare the SVG namespace as default, by prefix or not at all"""
    tag, attrs, text, tail, kids = tree
    decl = ""
    pre = ""
    if top and ns == "default":
        decl = ' xmlns="http://www.w3.org/2000/svg"'
    elif top and ns == "prefix":
        decl = ' xmlns:v="http://www.w3.org/2000/svg"'
    if ns == "prefix":
        pre = "v:"
    if tag[:1] == "{":
        uri, name = tag[1:].split("}")
        pre, decl = "o:", decl + ' xmlns:o="%s"' % uri
    else:
        name = tag
    s = "<%s%s%s" % (pre, name, decl)
    for k in attrs:
        if k[:1] == "{":
            uri, local = k[1:].split("}")
            if uri == XMLNS:
                s += ' xml:%s="%s"' % (local, escape(attrs[k]))
                continue
            s += ' xmlns:at="%s" at:%s="%s"' % (uri, local, escape(attrs[k]))
        else:
            s += ' %s="%s"' % (k, escape(attrs[k]))
    s += ">" + escape(text or "")
    for k in kids:
        s += serialise(k, ns, False)
    return s + "</%s%s>" % (pre, name) + escape(tail or "")


def qualified(tree, ns):
    """the tree with tags as an XML parser reports them"""
    tag, attrs, text, tail, kids = tree
    q = tag if tag[:1] == "{" or ns == "none" else SVGNS + tag
    return (q, attrs, text, tail, [qualified(k, ns) for k in kids])


def source_of(t, tree, ns="none"):
    """something Document can read"""
    if t.mode == "sym":
        et = t.svg.registry["xml.etree.ElementTree"]
        return et.Source(qualified(tree, ns))
    import io
    text = serialise(tree, ns)
    kind = t.choice("stream", ["text", "bytes"])
    if kind == "text":
        return io.StringIO(text)
    return io.BytesIO(("<?xml version='1.0' encoding='utf-8'?>\n" + text).encode("utf-8"))


def tree_of(t, xml):
    """the ghost tree that XML text denotes"""
    if t.mode == "sym":
        root = getattr(xml, "root", None)
        t.ensure("is XML", root is not None)
        return root
    import xml.etree.ElementTree as ET

    def conv(e):
        return (e.tag, dict(e.attrib), e.text, e.tail, [conv(k) for k in e])
    return conv(ET.fromstring(xml))


def blank(s):
    return s is None or s.strip() == ""


def same_tree(t, label, got, want, top=True):
    """equal tags, attributes, children in order and character data (blank runs aside)"""
    t.ensure(label + ": tag", got[0] == want[0], "%s for %s" % (got[0], want[0]))
    t.ensure(label + ": attributes", dict(got[1]) == dict(want[1]), "%s for %s" % (got[1], want[1]))
    t.ensure(label + ": text", got[2] == want[2] or blank(got[2]) and blank(want[2]))
    if not top:
        t.ensure(label + ": tail", got[3] == want[3] or blank(got[3]) and blank(want[3]))
    t.ensure(label + ": children", len(got[4]) == len(want[4]))
    for a, b in zip(got[4], want[4]):
        same_tree(t, label, a, b, False)


SHAPES = [[], [[]], [[[]]], [[], []], [[[]], []], [[], [[]]], [[], [], []], [[[], []]], [[[[]]]], [[[]], [[]]],
          [[[[]], []], []]]


def count_nodes(shape):
    return 1 + sum([count_nodes(s) for s in shape])


def words(t, name):
    """an attribute value or piece of text nothing is known about (but for its length)"""
    if t.mode == "sym":
        return "%s" % t.real(name)
    pool = ["a", "0.5", "#ff0000", "M0,0 L1,1", "x & y < z > \"q\"", "\u00e9\u4e2d\U0001f600", "1e-3", " lead", "two words",
            "url(#n1)", "a\tb\nc", "", "none", "currentColor", "3px"]
    return t.choice(name, pool)


def some_tree(t, most=40):
    """a document tree: of the listed shapes with one element of any kind in proofs, any on doubles"""
    if t.mode == "sym":
        shape = t.choice("shape", SHAPES)
        n = count_nodes(shape)
        special = t.choice("which", list(range(n)))
        tag = t.choice("tag", ["rect", "{urn:other}rect"] if n > 1 else sorted(CLASS_OF) + UNKNOWN)
        at = [0]

        def grow(s):
            i = at[0]
            at[0] += 1
            attrs = {"id": "n-%d" % i, "width": words(t, "w%d" % i)} if i % 3 != 2 else {}
            if i == special:
                attrs["{http://www.w3.org/1999/xlink}href"] = words(t, "h")
                attrs["fill"] = words(t, "f")
            text = words(t, "t%d" % i) if i != 1 else None
            kids = [grow(k) for k in s]
            return (tag if i == special else "svg" if i == 0 else "g", attrs, text,
                    None if i == 0 else words(t, "e%d" % i), kids)
        return grow(shape)
    left = [t.choice("size", [1, 2, 3, 5, 9, most])]
    at = [0]
    form = t.choice("ids", ["n%d", "layer-%d", "%d", "a.b:%d", "\u00e9_%d", "two words %d", "Rect%d", "#%d"])
    long = t.choice("long text", [False] * 9 + [True])
    names = ["width", "fill", "d", "style", "class", "stroke-width", "transform", "data-x",
             "{http://www.w3.org/1999/xlink}href", "{http://www.w3.org/XML/1998/namespace}space"]

    def grow(depth):
        i = at[0]
        at[0] += 1
        left[0] -= 1
        tag = t.choice("tag%d" % i, (sorted(CLASS_OF) + UNKNOWN) if i else ["svg", "svg", "g", "foo"])
        attrs = {}
        if t.choice("id%d" % i, [True, False]):
            attrs["id"] = form % i
        for j in range(t.choice("attrs%d" % i, [0, 1, 2, 4])):
            attrs[t.choice("name%d_%d" % (i, j), names)] = words(t, "v%d_%d" % (i, j))
        text = words(t, "t%d" % i) if t.choice("text%d" % i, [False, True]) else None
        if long and text:
            text = text * 30000
        kids = []
        while left[0] > 0 and depth < 7 and t.choice("more%d_%d" % (i, len(kids)), [True, True, False]):
            kids.append(grow(depth + 1))
        tail = words(t, "e%d" % i) if i and t.choice("tail%d" % i, [False, True]) else None
        return (tag, attrs, text, tail, kids)
    return grow(0)


def in_order(tree):
    out = [tree]
    for k in tree[4]:
        out += in_order(k)
    return out


def nodes_of(node):
    out = [node]
    for c in list(node):
        out += nodes_of(c)
    return out
