"""Stand-ins for xml.etree.ElementTree and io in symbolic runs: element trees whose texts may hold symbolic numbers, and
files that remember what was written.  Assumption (trusted): ElementTree writes a tree so that reading it gives the tree
back; iterparse reports starts and ends in document order, and an element's text, tail and children are complete only once
its end (for the tail: the next event) has been reported.  Runs on doubles use the real library."""
import re
import types

from .sym import Unsupported


class Element:
    def __init__(self, tag, attrib=None, **extra):
        self.tag = tag
        self.attrib = dict(attrib or {})
        self.attrib.update(extra)
        self.text = None
        self.tail = None
        self.kids = []

    def set(self, k, v):
        if not isinstance(k, str) or not isinstance(v, str):
            raise TypeError("attribute names and values are text")
        self.attrib[k] = v

    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()

    def append(self, e):
        self.kids.append(e)

    def extend(self, es):
        self.kids.extend(es)

    def insert(self, i, e):
        self.kids.insert(i, e)

    def __len__(self):
        return len(self.kids)

    def __iter__(self):
        return iter(self.kids)

    def __getitem__(self, i):
        return self.kids[i]

    def __bool__(self):
        return True

    def iter(self, tag=None):
        if tag is None or tag == "*" or tag == self.tag:
            yield self
        for k in self.kids:
            yield from k.iter(tag)


def SubElement(parent, tag, attrib=None, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e


texts = {}       # every text so far: what was joined, formatted or added to is recognised by the names


def root_of(text):
    """the tree of an XML text, with white space or a declaration around it"""
    names = re.findall("<ghost [0-9]+>", str.__str__(text))
    rest = re.sub("<ghost [0-9]+>", "", str.__str__(text))
    rest = re.sub(r"^\s*<\?xml[^<>]*\?>", "", rest)
    if len(names) != 1 or rest.strip() or names[0] not in texts:
        raise Unsupported("file that is not one XML text")
    return texts[names[0]]


class Xml(str):
    """the text of a tree"""
    def __new__(cls, root):
        name = "<ghost %d>" % len(texts)
        s = str.__new__(cls, name)
        s.root = texts[name] = snapshot(root)
        return s

    def _no(self, *a, **k):
        raise Unsupported("string operation on XML text")

    __getitem__ = replace = split = strip = lower = upper = find = startswith = endswith = _no
    __contains__ = __mod__ = encode = format = join = partition = _no



def snapshot(e):
    """(tag, attributes, text, tail, children)"""
    return (e.tag, dict(e.attrib), e.text, e.tail, [snapshot(k) for k in e.kids])


def tostring(element, encoding=None, method=None, **kw):
    if encoding != "unicode" or method not in (None, "xml") or kw:
        raise Unsupported("tostring(%r, %r)" % (encoding, method))
    return Xml(element)


class Source:
    """something iterparse can read: a snapshot"""
    def __init__(self, root):
        self.root = root

    def read(self, *a):
        raise Unsupported("reading XML text")


def make(registry):
    files = {}

    def events_of(snap, kinds, pending, parent=None):
        tag, attrib, text, tail, kids = snap
        e = Element(tag, attrib)
        if parent is not None:
            parent.kids.append(e)
        if pending:
            pending.pop()()
        if "start" in kinds:
            yield "start", e
        for k in kids:
            for ev in events_of(k, kinds, pending, e):
                yield ev
        if pending:
            pending.pop()()
        e.text = text
        if "end" in kinds:
            yield "end", e

        def late():
            e.tail = tail
        pending.append(late)

    def iterparse(source, events=None, parser=None):
        if parser is not None:
            raise Unsupported("iterparse with a parser")
        if isinstance(source, str):
            if source not in files:
                raise FileNotFoundError(source)
            root = root_of("".join(files[source]))
        elif isinstance(source, Source):
            root = source.root
        elif hasattr(source, "getvalue") and isinstance(source.getvalue(), str):
            root = root_of(source.getvalue())
        else:
            raise Unsupported("iterparse of %s" % type(source).__name__)
        kinds = ("end",) if events is None else tuple(events)
        if "start-ns" in kinds or "end-ns" in kinds:
            pass                                       # trees here declare no prefixes
        pending = []
        for ev in events_of(root, kinds, pending):
            yield ev
        if pending:
            pending.pop()()

    class Out:
        def __init__(self, name):
            self.name, self.parts = name, []
            self.open = True

        def write(self, s):
            if not isinstance(s, str):
                raise TypeError("text expected")
            self.parts.append(s)
            return len(s)

        def writelines(self, ss):
            for s in ss:
                self.write(s)

        def close(self):
            self.open = False
            files[self.name] = self.parts

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    def open_(file, mode="r", *a, **k):
        if mode not in ("w", "wt") or not isinstance(file, str):
            raise Unsupported("open(%r, %r)" % (file, mode))
        files.pop(file, None)
        return Out(file)

    et = types.ModuleType("xml.etree.ElementTree")
    et.Element, et.SubElement, et.tostring, et.iterparse = Element, SubElement, tostring, iterparse
    et.Source, et.Xml, et.files, et.snapshot = Source, Xml, files, snapshot
    io = types.ModuleType("io")
    io.open = open_

    class StringIO:
        def __init__(self, value=""):
            self.value = value

        def getvalue(self):
            return self.value
    io.StringIO = StringIO

    def missing(mod):
        def get(name):
            if name.startswith("__"):
                raise AttributeError(name)
            raise Unsupported("%s.%s" % (mod, name))
        return get
    et.__getattr__ = missing("xml.etree.ElementTree")
    io.__getattr__ = missing("io")
    registry["xml.etree.ElementTree"] = et
    registry["io"] = io
    etree = types.ModuleType("xml.etree")
    etree.ElementTree = et
    xml = types.ModuleType("xml")
    xml.etree = etree
    registry["xml.etree"] = etree
    registry["xml"] = xml
    return et
