# The document tree.


def check_node(t, node, tree, parent, doc):
    """node and its descendants mirror the ghost tree"""
    N = t.svg.nodes
    tag, attrs, text, tail, kids = tree
    cls = CLASS_OF.get(tag)
    t.ensure("type", type(node) is (getattr(N, cls) if cls else N.Node), "%s for %s" % (type(node).__name__, tag))
    t.ensure("attributes", dict(node.attributes) == attrs, "%s for %s" % (node.attributes, attrs))
    t.ensure("tag", node.tag() == tag, "%s for %s" % (node.tag(), tag))
    t.ensure("parent", node.parent is parent and node.parent_node is parent and node.parent_element is parent)
    t.ensure("connected", node.is_connected)
    t.ensure("document", node.document is doc and node.owner_document is doc)
    check_children(t, node, len(kids))
    for c, k in zip(list(node), kids):
        check_node(t, c, k, node, doc)


def check_children(t, node, n):
    """first, last and sibling links follow the list of children"""
    t.ensure("children", len(node) == n, "%d for %d" % (len(node), n))
    cs = list(node)
    t.ensure("has children", node.has_child_nodes() == (n > 0))
    t.ensure("first child", node.first_child is (cs[0] if n else None))
    t.ensure("last child", node.last_child is (cs[-1] if n else None))
    if isinstance(node, t.svg.nodes.Element):
        t.ensure("element count", node.child_element_count == n)
        t.ensure("first element", node.first_element_child is (cs[0] if n else None))
        t.ensure("last element", node.last_element_child is (cs[-1] if n else None))
        t.ensure("id", node.id == node.attributes.get("id"))
    for i in range(n):
        t.ensure("next sibling", cs[i].next_sibling is (cs[i + 1] if i + 1 < n else None))
        t.ensure("previous sibling", cs[i].previous_sibling is (cs[i - 1] if i else None))
        t.ensure("same node", cs[i].is_same_node(cs[i]) and not cs[i].is_same_node(cs[i - 1] if i else node))


READ = ["nodes.Node.parse", "nodes.Document.__init__", "nodes.Node.first_child", "nodes.Node.last_child",
        "nodes.Node.next_sibling", "nodes.Node.previous_sibling", "nodes.Node.parent_node", "nodes.Node.owner_document",
        "nodes.Node.has_child_nodes", "nodes.Document.get_element_by_id", "nodes.Document.get_element_by_url",
        "nodes.Document.read", "nodes.Node.tag", "nodes.Node.__getattribute__"]


@contract("P28", READ, bounded="trees of up to six elements (forty on doubles)", samples=400, max_paths=9000)
def document_mirrors_xml(t):
    """reading XML gives a tree with, for every element in order, a node of the type its tag names, with its attributes,
    linked to parent, document, siblings and children; each id finds its node."""
    tree = some_tree(t)
    ns = t.choice("namespace", ["none", "default", "prefix"])
    D = t.svg.nodes.Document
    src = source_of(t, tree, ns)
    how = t.choice("how", ["constructor", "read", "parse"])
    if how == "constructor":
        doc = D(src)
    else:
        doc = D()
        doc.read(src) if how == "read" else doc.parse(src)
    t.ensure("one root", len(doc) == 1)
    t.ensure("document of itself", doc.document is doc and doc.parent is None)
    check_node(t, doc[0], tree, doc, doc)
    flat = nodes_of(doc[0])
    ids = [n.attributes.get("id") for n in flat]
    for n, i in zip(flat, ids):
        if i is not None:
            t.ensure("by id", doc.get_element_by_id(i) is n)
            t.ensure("by url", doc.get_element_by_url("url(#%s)" % i) is n)
    t.ensure("no such id", doc.get_element_by_id("missing") is None)


@contract("P28", ["nodes.Node.parse"], bounded="trees of up to six elements", samples=200)
def reading_into_a_node(t):
    """XML read into an element of a document becomes its new last child, in the same document; what was there stays."""
    D = t.svg.nodes.Document
    base = ("svg", {}, None, None, [("g", {"id": "a"}, None, None, [("rect", {"id": "b"}, None, None, [])]),
                                    ("g", {}, None, None, [])])
    doc = D(source_of(t, base))
    where = t.choice("where", ["root", "first", "inner", "last"])
    target = {"root": doc[0], "first": doc[0][0], "inner": doc[0][0][0], "last": doc[0][1]}[where]
    before = list(target)
    tree = some_tree(t, 9)
    target.parse(source_of(t, tree))
    t.ensure("one more", len(target) == len(before) + 1)
    for a, b in zip(target, before):
        t.ensure("earlier children", a is b)
    check_node(t, target[-1], tree, target, doc)
    for n in nodes_of(target[-1]):
        if "id" in n.attributes:
            t.ensure("by id", doc.get_element_by_id(n.attributes["id"]) is n)
    t.ensure("old id", doc.get_element_by_id("b") is doc[0][0][0])


@contract("P29", ["nodes.Node.xml", "nodes.Node.__str__", "nodes.Node.tag", "nodes.Node.parse", "nodes.Document.write",
                  "nodes.Document.read"], bounded="trees of up to six elements (forty on doubles)", samples=400, max_paths=9000)
def reading_and_writing_is_lossless(t):
    """the XML written for a document read from XML, or for any element of it, has the same elements, attributes, order
    and non-blank character data; a file written is read back as the same tree."""
    tree = some_tree(t)
    D = t.svg.nodes.Document
    doc = D(source_of(t, tree, t.choice("namespace", ["none", "default", "prefix"])))
    how = t.choice("how", ["str", "xml", "each", "twice", "file"])
    if how in ("str", "xml"):
        same_tree(t, "text", tree_of(t, str(doc[0]) if how == "str" else doc[0].xml()), tree)
    elif how == "each":
        for n, k in zip(nodes_of(doc[0]), in_order(tree)):
            same_tree(t, "element", tree_of(t, n.xml()), k)
    elif how == "twice":
        same_tree(t, "first time", tree_of(t, doc[0].xml()), tree)
        same_tree(t, "second time", tree_of(t, doc[0].xml()), tree)
    elif t.mode == "sym":
        doc.write("out.svg")
        again = D("out.svg")
        check_node(t, again[0], tree, again, again)
        same_tree(t, "file", tree_of(t, again[0].xml()), tree)
    else:
        import os
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            name = os.path.join(d, "out.svg")
            doc.write(name)
            again = D(name)
            with open(name, "rb") as f:
                same_tree(t, "file text", tree_of(t, f.read()), tree)
        check_node(t, again[0], tree, again, again)
        same_tree(t, "file", tree_of(t, again[0].xml()), tree)


@contract("P29", ["nodes.Node.xml", "nodes.Node.__str__", "nodes.ElementBuilder.__call__"],
          bounded="trees of up to six elements, up to three edits on doubles", samples=400, max_paths=9000)
def edited_documents_are_written(t):
    """what is written is the tree as it is now: after attributes are set or removed and children added, removed or moved."""
    tree = some_tree(t, 9)
    N = t.svg.nodes
    doc = N.Document(source_of(t, tree))

    def ghost(n):
        return [n[0], dict(n[1]), n[2], n[3], [ghost(k) for k in n[4]]]
    g = ghost(tree)
    for step in range(1 if t.mode == "sym" else t.choice("steps", [1, 2, 3])):
        nodes, ghosts = nodes_of(doc[0]), in_order(g)
        i = t.choice("node", list(range(min(3, len(nodes)))) if t.mode == "sym" else list(range(9)))
        t.require(i < len(nodes))
        n, k = nodes[i], ghosts[i]
        op = t.choice("op", ["set", "change", "delete", "build", "build empty", "append", "pop", "rotate", "number"])
        if op == "set":
            v = words(t, "new%d" % step)
            n.attributes["x-new"] = v
            k[1]["x-new"] = v
        elif op == "number":
            v = t.real("new number%d" % step)
            n.attributes["height"] = v
            k[1]["height"] = str(v)
        elif op == "change":
            v = words(t, "new%d" % step)
            n.attributes["width"] = v
            k[1]["width"] = v
        elif op == "delete":
            n.attributes.pop("width", None)
            k[1].pop("width", None)
        elif op == "build":
            v = words(t, "new%d" % step)
            n.rect(fill=v)
            k[4].append(["rect", {"fill": v}, None, None, []])
        elif op == "build empty":
            n.g()
            k[4].append(["g", {}, None, None, []])
        elif op == "append":
            v = words(t, "new%d" % step)
            n.append(N.Circle(r=v))
            k[4].append(["circle", {"r": v}, None, None, []])
        elif len(k[4]):
            c, q = n.pop(0), k[4].pop(0)
            if op == "rotate":
                n.append(c)
                k[4].append(q)
    same_tree(t, "text", tree_of(t, str(doc[0])), g)


@contract(["P28", "P29"], ["nodes.Node.parse", "nodes.Node.xml", "nodes.Node.tag", "nodes.Node.next_sibling",
                           "nodes.Node.previous_sibling", "nodes.Document.get_element_by_id"],
          bounded="elements of every kind in elements of every kind, four levels")
def every_element_inside_every_element(t):
    """whatever elements are nested in one another, also in their own kind, the tree and the XML written from it are
    those of the XML read."""
    tags = sorted(CLASS_OF) + UNKNOWN
    outer = t.choice("outer", tags)
    w = [words(t, "w%d" % i) for i in range(4)]

    def leaf(tag, i):
        return (tag, {"id": "n-%s" % i, "class": w[2]}, w[3], None, [])
    kids = []
    for i, tag in enumerate(tags):
        kids.append((tag, {"id": "m-%d" % i, "width": w[0]} if i % 2 else {}, w[1] if i % 3 else None, w[2],
                     [leaf(outer, "%da" % i), leaf(tag, "%db" % i)]))
    tree = ("svg", {"id": "root"}, None, None, [(outer, {"id": "outer"}, None, None, kids), leaf("g", "last")])
    D = t.svg.nodes.Document
    doc = D(source_of(t, tree, t.choice("namespace", ["none", "default", "prefix"]) if t.mode == "conc" else "default"))
    check_node(t, doc[0], tree, doc, doc)
    for n in nodes_of(doc[0]):
        if "id" in n.attributes:
            t.ensure("by id", doc.get_element_by_id(n.attributes["id"]) is n)
    same_tree(t, "XML", tree_of(t, doc[0].xml()), tree)
    for n, k in zip(nodes_of(doc[0][0]), in_order(tree[4][0])):
        if n.parent is doc[0][0]:
            same_tree(t, "XML of one", tree_of(t, n.xml()), k)
