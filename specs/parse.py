# Path data text.

PREFIX = ["M", "ML", "MQ", "MC", "MLZ", "MLM", "MLMA"]
CMDS = "MmLlHhVvCcSsQqTtAaZz"


@stub("path.Arc._svg_parameterize", "svg_arc_recovers_centre_form")
def stub_svg_parameterize(t, real, self, start, rx, ry, rotation, large, sweep, end):
    P = t.svg.basic.Point
    start, end = P(start), P(end)
    key = [start.x, start.y, rx, ry, rotation, end.x, end.y]
    flags = (bool(large), bool(sweep))
    known = t.__dict__.setdefault("svg_arcs", [])
    for k, f, r in known:
        if f == flags and all([t.identical(a, b) for a, b in zip(k, key)]):
            break
    else:
        n = "arc%d" % len(known)
        r = [t.real(n + c) for c in ("cx", "cy", "ux", "uy", "vx", "vy", "s")]
        known.append((key, flags, r))
    self.start, self.end = start, end
    self.center, self.prx, self.pry, self.sweep = P(r[0], r[1]), P(r[2], r[3]), P(r[4], r[5]), r[6]


class Interp:
    """what path data means, command by command (SVG 2, section 9.3)"""

    def __init__(self, t, ghost):
        self.t = t
        self.out = []
        self.cur = self.z = None
        self.kind, self.control = None, None
        for k, pts, sweep in ghost:
            self.done(k, pts, None)
        self.out = []

    def done(self, kind, pts, sweep=None, relative=None, smooth=None):
        self.kind = kind
        self.control = pts[-2] if kind in ("QuadraticBezier", "CubicBezier") else None
        self.cur = pts[1] if kind == "Arc" else pts[-1]
        if kind == "Move" or self.z is None:
            self.z = self.cur
        self.out.append((kind, pts, sweep, relative, smooth))

    def reflected(self, kind):
        if self.kind != kind:
            return self.cur
        return (2 * self.cur[0] - self.control[0], 2 * self.cur[1] - self.control[1])

    def command(self, letter, args, inline=False):
        """one argument group; inline: the last coordinate pair is written z"""
        up = letter.upper()
        rel = letter != up
        ox, oy = self.cur if rel and self.cur is not None else (0, 0)
        cur = self.cur
        if up == "Z":
            return self.done("Close", [cur, self.z], relative=rel)
        if up == "H":
            return self.done("Line", [cur, (args[0] + ox, cur[1])], relative=rel)
        if up == "V":
            return self.done("Line", [cur, (cur[0], args[0] + oy)], relative=rel)
        nums, flags = (args, None) if up != "A" else (args[5:], args[:5])
        pts = [(nums[i] + ox, nums[i + 1] + oy) for i in range(0, len(nums), 2)]
        if inline:
            pts.append(self.z)
        if up == "M":
            self.done("Move", [cur] + pts, relative=rel)
        elif up == "L":
            self.done("Line", [cur] + pts, relative=rel)
        elif up == "Q":
            self.done("QuadraticBezier", [cur] + pts, relative=rel, smooth=False)
        elif up == "T":
            self.done("QuadraticBezier", [cur, self.reflected("QuadraticBezier")] + pts, relative=rel, smooth=True)
        elif up == "C":
            self.done("CubicBezier", [cur] + pts, relative=rel, smooth=False)
        elif up == "S":
            self.done("CubicBezier", [cur, self.reflected("CubicBezier")] + pts, relative=rel, smooth=True)
        elif up == "A":
            P = self.t.svg.basic.Point
            arc = self.t.svg.path.Arc(P(*cur), *(list(flags) + [P(*pts[0])]))
            self.done("Arc", control_points(arc), arc.sweep, relative=rel)
        if inline:
            self.done("Close", [self.z, self.z])

    def check(self, segs):
        t = self.t
        same_segments(t, "parsed", segs, [o[:3] for o in self.out])
        for s, o in zip(segs, self.out):
            if o[3] is not None:
                t.ensure("notation: relative", bool(s.relative) == o[3])
            if o[4] is not None:
                t.ensure("notation: smooth", bool(s.smooth) == o[4])


ARITY = {"M": 2, "L": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "T": 2, "A": 7, "Z": 0}


def write_number(t, v, name):
    """(text, value) of a number in one of its notations"""
    if t.mode == "sym":
        return "%s" % v, v
    s = ["%r" % v, "%.4g" % v, "%.2f" % v, "%.3e" % v, "+%g" % abs(v), ("%.3f" % v).replace("0.", ".", 1),
         "%d" % v, "%gE+1" % round(v, 3)][t.choice(name, list(range(8)))]
    return s, float(s)


def gap(t, name):
    """what may stand between two argument groups"""
    return t.choice(name, [" ", ",", " , "] if t.mode == "sym" else [" ", ",", " ,", ", ", "\n", "\t,\n"])


def write_args(t, letter, name, inline=False):
    """(text, values) of one argument group"""
    up = letter.upper()
    n = ARITY[up] - (2 if inline else 0)
    vals, text, prev = [], "", ""
    for i in range(n):
        if up == "A" and i in (3, 4):
            v = t.choice("%s flag%d" % (name, i), [0, 1])
            s = "%d" % v
        else:
            lo = 0.01 if up == "A" and i < 2 else None
            v = t.real("%s%d" % (name, i), lo)
            s, v = write_number(t, v, "%s form%d" % (name, i))
            if up == "A" and i < 2 and t.mode == "conc":
                t.require(v > 0.005)
        if t.mode == "sym":
            sep = " " if i % 2 == 0 and i else "," if i else ""
        else:
            glue = i > 0 and (s[0] in "+-" or (s[0] == "." and ("." in prev or "e" in prev or "E" in prev)) or
                              (up == "A" and i in (4, 5)))
            # the gap before the first value is the caller's
            sep = t.choice("%s sep%d" % (name, i), [" ", ",", "\n ", " , ", "" if glue else " "]) if i else ""
        text += sep + s
        prev = s
        vals.append(v)
    return text, vals


@contract("P20", ["path.PathLexicalParser.parse", "path.Path.parse", "path.Path.move", "path.Path.line", "path.Path.quad",
                  "path.Path.horizontal", "path.Path.vertical", "path.Path.cubic", "path.Path.smooth_quad",
                  "path.Path.smooth_cubic", "path.Path.arc", "path.Path.closed", "path.Path.append",
                  "path.Path.current_point", "path.Path.z_point", "path.Path.smooth_point"],
          uses=["path.Arc._svg_parameterize"], max_paths=6000)
def one_more_path_command(t):
    """inductive step for data of any length: one more command (any letter, one or two argument groups, any numbers)
    after any path appends exactly the segments the SVG grammar gives for the pen position, sub-path start and last
    control point, and leaves the earlier segments as they were."""
    pre = t.choice("before", PREFIX)
    letter = t.choice("command", list(CMDS))
    segs, ghost = build_segments(t, pre)
    path = t.svg.path.Path()
    path._segments = segs
    it = Interp(t, ghost)
    n = 1 if letter in "Zz" else t.choice("groups", [1, 2] if t.mode == "sym" else [1, 2, 3])
    text = letter
    for g in range(n):
        s, vals = write_args(t, letter, "g%d_" % g)
        text += (gap(t, "gap%d" % g) if g else t.choice("lead", ["", " "])) + s
        it.command(letter if not g or letter not in "Mm" else {"M": "L", "m": "l"}[letter], vals)
    if t.mode == "sym":
        t.ensure("text is data", True)
    path.parse(text)
    same_segments(t, "earlier segments", path[:len(ghost)], ghost)
    it.check(path[len(ghost):])


@contract("P20", ["path.PathLexicalParser.parse", "path.Path.z_point"], uses=["path.Arc._svg_parameterize"])
def inline_close_command(t):
    """a final coordinate pair may be written z: the segment ends at the sub-path's start, which is then closed."""
    pre = t.choice("before", PREFIX)
    letter = t.choice("command", list("LlCcSsQqTtAa"))
    segs, ghost = build_segments(t, pre)
    path = t.svg.path.Path()
    path._segments = segs
    it = Interp(t, ghost)
    s, vals = write_args(t, letter, "g", inline=True)
    it.command(letter, vals, inline=True)
    z = t.choice("z", ["z", "Z"])
    path.parse(letter + s + " " + z)
    same_segments(t, "earlier segments", path[:len(ghost)], ghost)
    it.check(path[len(ghost):])


@contract("P20", ["path.PathLexicalParser.parse", "path.Path.__init__"])
def first_path_command(t):
    """data starts with a move; a relative one is absolute there; further pairs are lines."""
    letter = t.choice("command", ["M", "m"])
    it = Interp(t, [])
    n = t.choice("groups", [1, 2, 3])
    text = t.choice("lead", ["", " "]) + letter
    for g in range(n):
        s, vals = write_args(t, letter, "g%d_" % g)
        text += (gap(t, "gap%d" % g) if g else "") + s
        it.command(letter if not g else {"M": "L", "m": "l"}[letter], vals)
    path = t.svg.path.Path(text)
    it.check(path)


@contract("P20", ["path.PathLexicalParser.parse"], bounded="runtime")
def whole_path_data(t):
    """random data of up to ten commands in all notations parses to the segments the grammar gives."""
    it = Interp(t, [])
    text = ""
    for i in range(t.choice("count", [2, 3, 5, 10])):
        letter = t.choice("c%d" % i, ["M", "m"] if i == 0 else list(CMDS))
        n = 1 if letter in "Zz" else t.choice("n%d" % i, [1, 2])
        text += t.choice("gap%d" % i, ["", " ", "\n"]) + letter
        for g in range(n):
            s, vals = write_args(t, letter, "g%d_%d_" % (i, g))
            text += (gap(t, "gap%d %d" % (i, g)) if g else "") + s
            it.command(letter if not g or letter not in "Mm" else {"M": "L", "m": "l"}[letter], vals)
    path = t.svg.path.Path(text)
    it.check(path)


@contract("P20", ["path.Path.append", "path.Path.extend", "path.Path.insert", "path.Path.__iadd__", "path.Path.__add__",
                  "path.Path.__radd__", "path.Path.__eq__", "path.Path.__setitem__"])
def path_text_in_operations(t):
    """text may stand for the path it denotes wherever a path is added, appended, inserted or compared; all of its
    segments take part, and empty text does nothing."""
    x0, y0, x1, y1 = t.real("x0"), t.real("y0"), t.real("x1"), t.real("y1")
    x2, y2, x3, y3 = t.real("x2"), t.real("y2"), t.real("x3"), t.real("y3")
    Path = t.svg.path.Path
    base = "M%s,%sL%s,%s" % (x0, y0, x1, y1)
    what = t.choice("what", ["", "L", "LQ", "MLZ"])
    more = {"": "", "L": "L%s,%s" % (x2, y2), "LQ": "L%s,%s Q%s %s 1 2" % (x2, y2, x3, y3),
            "MLZ": "M%s,%sL%s,%s z" % (x2, y2, x3, y3)}[what]
    a, b = (x2, y2), (x3, y3)
    add = {"": [], "L": [("Line", [None, a], None)],
           "LQ": [("Line", [None, a], None), ("QuadraticBezier", [a, b, (1, 2)], None)],
           "MLZ": [("Move", [None, a], None), ("Line", [a, b], None), ("Close", [b, a], None)]}[what]
    first = [("Move", [None, (x0, y0)], None), ("Line", [(x0, y0), (x1, y1)], None)]
    how = t.choice("how", ["+", "+=", "append", "extend", "radd", "insert", "slice", "item"])
    p = q = Path(base)
    at = 2
    if how == "+":
        q = p + more
        same_segments(t, "left operand", p, first)
    elif how == "+=":
        q += more
    elif how == "append":
        q.append(more)
    elif how == "extend":
        q.extend(more)
    elif how == "insert":
        at = t.choice("at", [2, 1, -1])
        q.insert(at, more)
        at = 2 if at == 2 else 1
    elif how == "slice":
        at = t.choice("at", [2, 1])
        if what:
            q[at:at] = more
    elif how == "item":
        at = 1
        if what in ("LQ", "MLZ"):
            t.raises("one place takes one segment", ValueError, lambda: q.__setitem__(1, more))
            same_segments(t, "refused", q, first)
            return
        q[1] = more
        if what:
            first = first[:1]
    else:
        q = base + Path(more)
    want = relinked(first[:at] + add + first[at:])
    linked_segments(t, "result", q, want)
    if at == 2 and how != "item":
        t.ensure("equal to its text", q == base + more)
        t.ensure("not unequal to its text", not (q != base + more))


@contract("P37", ["path.Path.move", "path.Path.line", "path.Path.quad", "path.Path.horizontal", "path.Path.vertical",
                  "path.Path.cubic", "path.Path.smooth_quad", "path.Path.smooth_cubic", "path.Path.arc",
                  "path.Path.closed", "path.Path.append", "path.Path.current_point", "path.Path.z_point",
                  "path.Path.smooth_point", "path.Path.first_point"], uses=["path.Arc._svg_parameterize"], max_paths=9000)
def path_building_calls(t):
    """inductive step for any chain of calls: one more call with one to three groups of arguments appends exactly the
    segments of that command, records the notation with each, and returns the path."""
    pre = t.choice("before", [""] + PREFIX)
    call, letter = t.choice("call", [("move", "M"), ("line", "L"), ("quad", "Q"), ("cubic", "C"), ("smooth_quad", "T"),
                                     ("smooth_cubic", "S"), ("arc", "A"), ("horizontal", "H"), ("vertical", "V"),
                                     ("closed", "Z")])
    relative = t.choice("relative", [None, False, True])
    segs, ghost = build_segments(t, pre)
    path = t.svg.path.Path()
    path._segments = segs
    it = Interp(t, ghost)
    if pre == "":
        t.require(call == "move")
    n = 1 if call == "closed" else t.choice("groups", [1, 2, 3])
    last_z = call not in ("horizontal", "vertical", "closed") and pre and t.choice("last", ["point", "z", "Z"])
    form = t.choice("as", ["tuple", "Point", "complex"]) if n == 1 else "tuple"
    args = []
    for g in range(n):
        a = free_points(t, "g%d" % g, {"M": 1, "L": 1, "Q": 2, "C": 3, "T": 1, "S": 2, "A": 1}.get(letter, 0))
        if letter in "HV":
            v = t.real("v%d" % g)
            args.append(v)
            it.command(letter.lower() if relative else letter, [v])
            continue
        if letter == "Z":
            it.command("Z", [])
            continue
        head = []
        if letter == "A":
            head = [t.real("rx%d" % g, 0.01), t.real("ry%d" % g, 0.01), t.real("rot%d" % g),
                    t.choice("large%d" % g, [0, 1]), t.choice("sweep%d" % g, [0, 1])] if g == 0 else [2, 1, 30, g % 2, 1]
        if g == n - 1 and last_z in ("z", "Z"):
            a[-1] = it.z if letter != "M" or g == 0 else it.z
            given = a[:-1] + [last_z]
        else:
            given = list(a)
        args += head + [q if type(q) is str or form == "tuple" else t.svg.basic.Point(*q) if form == "Point"
                        else complex(*q) for q in given]
        it.command(letter if not g or letter != "M" else "L", head + [v for q in a for v in q])
    kw = {} if relative is None else {"relative": relative}
    r = getattr(path, call)(*args, **kw)
    t.ensure("returns the path", r is path)
    same_segments(t, "earlier segments", path[:len(ghost)], ghost)
    same_segments(t, "appended", path[len(ghost):], [o[:3] for o in it.out])
    for s, o in zip(path[len(ghost):], it.out):
        t.ensure("relative", bool(s.relative) == bool(relative))
        if o[4] is not None:
            t.ensure("smooth", bool(s.smooth) == o[4])
    t.eq("current point", xy(path.current_point), it.cur)
    t.eq("sub-path start", xy(path.z_point), it.z)
    f = path.first_point
    t.eq("first point", xy(f), ghost[0][1][1] if ghost else it.out[0][2 - 1][1])
    if it.kind in ("QuadraticBezier", "CubicBezier"):
        t.eq("smooth point", xy(path.smooth_point), it.reflected(it.kind))
    else:
        t.eq("smooth point", xy(path.smooth_point), it.cur)
