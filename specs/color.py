# Colours: channel storage, text forms, HSL, compositing and distance.

MAXV = 0xFFFFFFFF


def color_of(t, n, r=None):
    """an arbitrary stored colour and its four channels"""
    C = t.svg.basic.Color
    r = t.int(n + "r", 0, 255) if r is None else r
    g, b, a = [t.int(n + k, 0, 255) for k in "gba"]
    c = C(0, 0, 0)
    c.value = r * 16777216 + g * 65536 + b * 256 + a
    return c, (r, g, b, a)


def clamp_int(t, v):
    """channel actually stored for a number v: clamped to 0..255, fraction dropped"""
    return t.floor(t.min(t.max(v, 0), 255))


def opacity_int(t, o):
    """nearest of 0..255 (ties to even, as Python rounds)"""
    return round(t.min(t.max(o, 0), 1) * 255.0)


def channels(c):
    return (c.red, c.green, c.blue, c.alpha)


@contract("P05", ["basic.Color.__init__", "basic.Color.rgb_to_int", "basic.Color.crimp", "basic.Color.red",
                  "basic.Color.green", "basic.Color.blue", "basic.Color.alpha"])
def color_from_channels(t):
    """a colour built from channels stores each one clamped to 0..255 without its fraction; alpha defaults to opaque."""
    C = t.svg.basic.Color
    kind = t.choice("kind", ["int", "real"])
    if kind == "int":
        r, g, b = [t.int(k, -300, 600) if t.mode == "conc" else t.int(k) for k in "rgb"]
    else:
        r, g, b = [t.real(k, -300, 600) for k in "rgb"]
    want = tuple(clamp_int(t, v) for v in (r, g, b))
    how = t.choice("how", ["3", "4", "keywords", "short keywords", "function"])
    if how == "3":
        t.eq("channels", channels(C(r, g, b)), want + (255,))
    elif how == "4":
        a = t.int("a", 0, 255)
        t.eq("channels", channels(C(r, g, b, a)), want + (a,))
    elif how == "keywords":
        t.eq("channels", channels(C(red=r, green=g, blue=b, alpha=t.int("a", 0, 255))), want + (t.int("a", 0, 255),))
    elif how == "short keywords":
        t.eq("channels", channels(C("white", r=r, g=g, b=b)), want + (255,))
    else:
        o = t.real("o", -1, 2)
        d = C(0, 0, 0)
        d.value = C.rgb_to_int(r, g, b, o)
        t.eq("channels", channels(d), want + (opacity_int(t, o),))


@contract("P05", ["basic.Color.red", "basic.Color.green", "basic.Color.blue", "basic.Color.alpha"])
def color_channel_write(t):
    """writing one channel stores its clamped value and leaves the other three as they were."""
    c, ch = color_of(t, "c")
    i = t.choice("channel", [0, 1, 2, 3])
    v = t.choice("kind", [0, 1])
    v = t.int("v", -300, 600) if v == 0 else t.real("w", -300, 600)
    t.eq("before", channels(c), ch)
    setattr(c, ["red", "green", "blue", "alpha"][i], v)
    w = list(ch)
    w[i] = clamp_int(t, v)
    t.eq("after", channels(c), tuple(w))


@contract("P05", ["basic.Color.opacity", "basic.Color.__init__"])
def color_opacity(t):
    """opacity is alpha/255; writing it stores the nearest 1/255 clamped to 0..1 and touches nothing else."""
    C = t.svg.basic.Color
    c, ch = color_of(t, "c")
    t.eq("read", c.opacity, ch[3] / 255.0)
    o = t.real("o", -1, 2)
    how = t.choice("how", ["setter", "two arguments", "keyword", "integer", "text"])
    if how == "integer":
        d = C(ch[0] * 65536 + ch[1] * 256 + ch[2], o)
    elif how == "text":
        d, ch = C(t.choice("text", ["#40c0ff", "#40c0ff20"]), o), (64, 192, 255, 255)
    elif how == "setter":
        c.opacity = o
        d = c
    elif how == "two arguments":
        d = C(c, o)
        t.eq("argument unchanged", channels(c), ch)
    else:
        d = C(c, opacity=o)
        t.eq("argument unchanged", channels(c), ch)
    w = opacity_int(t, o)
    t.eq("channels", channels(d), ch[:3] + (w,))
    t.ensure("within half a step", t.And(d.opacity - t.min(t.max(o, 0), 1) <= 0.5 / 255 + 1e-9,
                                         t.min(t.max(o, 0), 1) - d.opacity <= 0.5 / 255 + 1e-9))


@contract("P05", ["basic.Color.rgb", "basic.Color.rgba", "basic.Color.argb", "basic.Color.__int__",
                  "basic.Color.__eq__", "basic.Color.__ne__", "basic.Color.__abs__", "basic.Color.__init__"])
def color_integer_views(t):
    """rgb, rgba and argb integers are the channels in that order; writing one of them and reading channels agree."""
    C = t.svg.basic.Color
    c, ch = color_of(t, "c")
    r, g, b, a = ch
    rgb = r * 65536 + g * 256 + b
    rgba = rgb * 256 + a
    argb = a * 16777216 + rgb
    what = t.choice("what", ["read", "set rgb", "set rgba", "set argb", "ctor int", "kw", "copy", "abs", "eq", "ne", "eq int"])
    if what == "read":
        t.eq("views", (c.rgb, c.rgba, c.argb, int(c) if t.mode == "conc" else c.__int__()), (rgb, rgba, argb, rgba))
    elif what == "set rgb":
        d = C("white")
        d.rgb = rgb
        t.eq("channels", channels(d), (r, g, b, 255))
    elif what == "set rgba":
        d = C("white")
        d.rgba = rgba
        t.eq("channels", channels(d), ch)
    elif what == "set argb":
        d = C("white")
        d.argb = argb
        t.eq("channels", channels(d), ch)
        t.eq("view", d.argb, argb)
    elif what == "ctor int":
        t.eq("channels", channels(C(rgb)), (r, g, b, 255))
    elif what == "kw":
        t.eq("argb keyword", channels(C(argb=argb)), ch)
        t.eq("rgba keyword", channels(C(rgba=rgba)), ch)
        t.eq("rgb keyword", channels(C(rgb=rgb)), (r, g, b, 255))
    elif what == "copy":
        d = C(c)
        t.eq("channels", channels(d), ch)
        d.red = 255 - r
        t.eq("copy is independent", channels(c), ch)
    elif what == "abs":
        t.eq("opaque", channels(abs(c)), (r, g, b, 255))
        t.eq("unchanged", channels(c), ch)
    elif what == "eq":
        d = C(0, 0, 0)
        d.value = rgba
        t.ensure("same channels are equal", c == d)
        t.ensure("not unequal", not (c != d))
        t.ensure("equal to itself", c == c and not (c != c))
    elif what == "eq int":
        t.ensure("equal to its integer", c == rgba)
        n = t.int("n", 0, MAXV)
        t.require(n != rgba)
        t.ensure("different from another", c != n)
    else:
        d, dh = color_of(t, "d")
        t.require(t.Not(t.And(*[x == y for x, y in zip(ch, dh)])))
        t.ensure("different channels differ", c != d)
        t.ensure("not equal", not (c == d))


@contract(["P05", "P06"], ["basic.Color.__init__", "basic.Color.red", "basic.Color.hex", "basic.Color.hsl", "basic.Color.__eq__"])
def color_absent(t):
    """the absent colour (none): every reading is None, every channel write is refused, equal only to none."""
    C = t.svg.basic.Color
    c = C(t.choice("v", ["none", None, "None", "NONE"]))
    for k in ("value", "red", "green", "blue", "alpha", "opacity", "rgb", "rgba", "argb", "hexa", "hue", "saturation",
              "lightness", "hsl", "brightness", "luminance"):
        t.ensure(k + " is None", getattr(c, k) is None)
    for k in ("red", "green", "blue", "alpha", "opacity", "hue", "saturation", "lightness"):
        t.raises(k + " write refused", ValueError, lambda: setattr(c, k, 1))
    t.ensure("still None", c.value is None)
    t.ensure("equals none", c == "none" and c == C(None) and c == None)
    d, _ = color_of(t, "d")
    t.ensure("differs from any colour", c != d and d != c)
    t.ensure("abs", abs(c).value is None)
    t.ensure("text", str(c) == "None")
    t.ensure("text reads back", C(str(c)).value is None and C(c.hex).value is None)


# ---------------------------------------------------------------- text
def hexdigit(t, name):
    v = t.int(name, 0, 15)
    if t.mode == "conc":
        return t.rng.choice(["%x", "%X"]) % v, v
    return "%01x" % v, v


@contract("P06", ["basic.Color.parse", "basic.Color.parse_color_hex"])
def color_hex_text(t):
    """3, 4, 6 and 8 digit hexadecimal colours, with or without #: short forms double each digit, alpha defaults opaque."""
    C = t.svg.basic.Color
    n = t.choice("digits", [3, 4, 6, 8])
    ds = [hexdigit(t, "d%d" % i) for i in range(n)]
    s = t.choice("hash", ["#", ""]) + "".join([d[0] for d in ds])
    v = [d[1] for d in ds]
    if n in (3, 4):
        ch = [x * 17 for x in v]
    else:
        ch = [v[i] * 16 + v[i + 1] for i in range(0, n, 2)]
    if len(ch) == 3:
        ch.append(255)
    t.eq("channels", channels(C(s)), tuple(ch))


@contract("P06", ["basic.Color.hex", "basic.Color.hexa", "basic.Color.__str__", "basic.Color.__repr__",
                  "basic.Color.parse"])
def color_hex_round_trip(t):
    """writing any colour as text and reading it back gives the same colour."""
    C = t.svg.basic.Color
    c, ch = color_of(t, "c")
    how = t.choice("how", ["hex", "hexa", "str", "repr"])
    if how == "hex":
        s = c.hex
    elif how == "hexa":
        s = c.hexa
    elif how == "str":
        s = str(c)
    else:
        s = repr(c)
        t.ensure("repr form", s.startswith("Color('") and s.endswith("')"))
        s = s[7:-2]
    t.eq("channels", channels(C(s)), ch)
    t.ensure("equal to its text", c == s)


@contract("P06", ["basic.Color.parse", "basic.Color.parse_color_rgb"], note="channel texts are integers")
def color_rgb_text(t):
    """rgb() and rgba() with integer channels: clamped to 0..255; the optional fourth number is the opacity."""
    C = t.svg.basic.Color
    r, g, b = [t.int(k, -300, 600) if t.mode == "conc" else t.int(k) for k in "rgb"]
    f = t.choice("f", ["rgb(%s)", "rgba(%s)", "rgb( %s )"])
    sep = t.choice("sep", [",", ", ", " , "])
    parts = ["%s" % r, "%s" % g, "%s" % b]
    a = 255
    if t.choice("alpha", [0, 1]):
        o = t.real("o", -1, 2)
        parts.append("%s" % o)
        a = opacity_int(t, o)
    c = C(f % sep.join(parts))
    t.eq("channels", channels(c), tuple(clamp_int(t, v) for v in (r, g, b)) + (a,))


@contract("P06", ["basic.Color.parse", "basic.Color.parse_color_rgbp"])
def color_rgb_percent_text(t):
    """rgb() percentages: 100% is 255, rounded to the nearest channel value and clamped; optional opacity."""
    C = t.svg.basic.Color
    p = [t.real(k, -50, 150) for k in "rgb"]
    sep = t.choice("sep", [",", ", "])
    s = sep.join(["%s%%" % x for x in p])
    a = 255
    if t.choice("alpha", [0, 1]):
        o = t.real("o", -1, 2)
        s = s + sep + "%s" % o
        a = opacity_int(t, o)
    c = C(t.choice("f", ["rgb(", "rgba("]) + s + ")")
    want = []
    for i, x in enumerate(p):
        v = t.min(t.max(x, 0), 100) * 255 / 100
        got = [c.red, c.green, c.blue][i]
        t.ensure("nearest %d" % i, t.And(got - v <= 0.5 + 1e-6, v - got <= 0.5 + 1e-6))
    t.eq("alpha", c.alpha, a)


CSS = """aliceblue f0f8ff antiquewhite faebd7 aqua 00ffff aquamarine 7fffd4 azure f0ffff beige f5f5dc bisque ffe4c4
black 000000 blanchedalmond ffebcd blue 0000ff blueviolet 8a2be2 brown a52a2a burlywood deb887 cadetblue 5f9ea0
chartreuse 7fff00 chocolate d2691e coral ff7f50 cornflowerblue 6495ed cornsilk fff8dc crimson dc143c cyan 00ffff
darkblue 00008b darkcyan 008b8b darkgoldenrod b8860b darkgray a9a9a9 darkgreen 006400 darkgrey a9a9a9 darkkhaki bdb76b
darkmagenta 8b008b darkolivegreen 556b2f darkorange ff8c00 darkorchid 9932cc darkred 8b0000 darksalmon e9967a
darkseagreen 8fbc8f darkslateblue 483d8b darkslategray 2f4f4f darkslategrey 2f4f4f darkturquoise 00ced1
darkviolet 9400d3 deeppink ff1493 deepskyblue 00bfff dimgray 696969 dimgrey 696969 dodgerblue 1e90ff firebrick b22222
floralwhite fffaf0 forestgreen 228b22 fuchsia ff00ff gainsboro dcdcdc ghostwhite f8f8ff gold ffd700 goldenrod daa520
gray 808080 grey 808080 green 008000 greenyellow adff2f honeydew f0fff0 hotpink ff69b4 indianred cd5c5c indigo 4b0082
ivory fffff0 khaki f0e68c lavender e6e6fa lavenderblush fff0f5 lawngreen 7cfc00 lemonchiffon fffacd lightblue add8e6
lightcoral f08080 lightcyan e0ffff lightgoldenrodyellow fafad2 lightgray d3d3d3 lightgreen 90ee90 lightgrey d3d3d3
lightpink ffb6c1 lightsalmon ffa07a lightseagreen 20b2aa lightskyblue 87cefa lightslategray 778899
lightslategrey 778899 lightsteelblue b0c4de lightyellow ffffe0 lime 00ff00 limegreen 32cd32 linen faf0e6 magenta ff00ff
maroon 800000 mediumaquamarine 66cdaa mediumblue 0000cd mediumorchid ba55d3 mediumpurple 9370db mediumseagreen 3cb371
mediumslateblue 7b68ee mediumspringgreen 00fa9a mediumturquoise 48d1cc mediumvioletred c71585 midnightblue 191970
mintcream f5fffa mistyrose ffe4e1 moccasin ffe4b5 navajowhite ffdead navy 000080 oldlace fdf5e6 olive 808000
olivedrab 6b8e23 orange ffa500 orangered ff4500 orchid da70d6 palegoldenrod eee8aa palegreen 98fb98 paleturquoise afeeee
palevioletred db7093 papayawhip ffefd5 peachpuff ffdab9 peru cd853f pink ffc0cb plum dda0dd powderblue b0e0e6
purple 800080 red ff0000 rosybrown bc8f8f royalblue 4169e1 saddlebrown 8b4513 salmon fa8072 sandybrown f4a460
seagreen 2e8b57 seashell fff5ee sienna a0522d silver c0c0c0 skyblue 87ceeb slateblue 6a5acd slategray 708090
slategrey 708090 snow fffafa springgreen 00ff7f steelblue 4682b4 tan d2b48c teal 008080 thistle d8bfd8 tomato ff6347
turquoise 40e0d0 violet ee82ee wheat f5deb3 white ffffff whitesmoke f5f5f5 yellow ffff00 yellowgreen 9acd32""".split()


@contract("P06", ["basic.Color.parse_color_lookup", "basic.Color.parse"], samples=60)
def color_keywords(t):
    """each of the 147 CSS/SVG keywords, in any letter case, is its specified opaque colour; transparent has alpha 0."""
    C = t.svg.basic.Color
    i = t.choice("name", list(range(len(CSS) // 2)))
    name, hx = CSS[2 * i], CSS[2 * i + 1]
    v = int(hx, 16)
    for s in (name, name.upper(), name.capitalize()):
        t.eq(name, C(s).rgba, v * 256 + 255)
    t.eq("transparent", C("transparent").alpha, 0)


# ---------------------------------------------------------------- HSL
def hsl_channel(t, n, h, s, l):
    """CSS Color 4: hsl -> rgb channel in 0..1; h in turns, 0 <= h < 1"""
    k = n + h * 12
    if k >= 12:
        k = k - 12
    a = s * l if l < 0.5 else s * (1 - l)
    t.ensure("chroma", t.And(a >= 0, a <= l, a <= 1 - l) if t.mode == "sym" else True)
    if k <= 2:
        return l + a
    if k <= 4:
        return l - a * (k - 3)
    if k <= 8:
        return l - a
    if k <= 10:
        return l - a * (9 - k)
    return l + a


def near_channel(t, label, got, exact):
    """the stored channel is the truncation of the exact value (within 1e-6 for the concrete runs)"""
    if t.mode == "conc":
        t.ensure(label, abs(got - exact) <= 1 + 1e-6 and got <= exact + 1e-6, "%r vs %r" % (got, exact))
    else:
        t.ensure(label, t.And(got <= exact, exact < got + 1))


@contract("P07", ["basic.Color.hsl_to_int"], secs=300)
def hsl_to_rgb(t):
    """hue/saturation/lightness convert to the CSS colour, each channel truncated to an integer; hue wraps every turn."""
    C = t.svg.basic.Color
    s, l = t.real("s", 0, 1), t.real("l", 0, 1)
    turn = t.int("turn", -3, 3) if t.mode == "conc" else t.int("turn")
    h0 = t.real("h", 0, 1)
    h = h0 + turn
    t.require(h0 < 1)
    exact = [hsl_channel(t, n, h0, s, l) for n in (0, 8, 4)]
    for e in exact:
        t.ensure("exact channel within 0..1", t.And(e >= 0, e <= 1) if t.mode == "sym" else -1e-9 <= e <= 1 + 1e-9)
    o = t.int("o", 0, 255)
    v = C.hsl_to_int(h, s, l, o / 255.0)
    c = C(0, 0, 0)
    c.value = v
    for n, got, e in zip("rgb", (c.red, c.green, c.blue), exact):
        near_channel(t, "channel " + n, got, 255 * e)
    t.eq("alpha", c.alpha, o)


@stub("basic.Color.hsl_to_int", "hsl_to_rgb")
def stub_hsl(t, real, h, s, l, opacity=1.0):
    """some channels, the same for the same hue/saturation/lightness; the opacity to the nearest step"""
    from pyvc.sym import Ctx
    memo = Ctx.cur.notes.setdefault("hsl", [])
    h, s, l = float(h), float(s), float(l)
    t.ensure("saturation and lightness within 0..1", t.And(s >= 0, s <= 1, l >= 0, l <= 1))
    for a, ch in memo:
        if t.provable(t.And(a[0] == h, a[1] == s, a[2] == l)):
            break
    else:
        ch = [t.int("hsl%d%s" % (len(memo), k), 0, 255) for k in "rgb"]
        memo.append(((h, s, l), ch))
    return ch[0] * 16777216 + ch[1] * 65536 + ch[2] * 256 + opacity_int(t, opacity)


@contract("P07", ["basic.Color.parse", "basic.Color.parse_color_hsl"], uses=["basic.Color.hsl_to_int"])
def hsl_text(t):
    """hsl()/hsla() text: hue in degrees, percentages clamped to 0..100, optional opacity."""
    C = t.svg.basic.Color
    h, s, l = t.real("h", -1000, 1000), t.real("s", -20, 120), t.real("l", -20, 120)
    sep = t.choice("sep", [",", ", "])
    txt = t.choice("f", ["hsl(", "hsla("]) + "%s" % h + sep + "%s%%" % s + sep + "%s%%" % l
    a = 255
    if t.choice("alpha", [0, 1]):
        o = t.real("o", -1, 2)
        txt = txt + sep + "%s" % o
        a = opacity_int(t, o)
    c = C(txt + ")")
    s1, l1 = t.min(t.max(s, 0), 100) / 100, t.min(t.max(l, 0), 100) / 100
    w = C(0, 0, 0)
    w.value = C.hsl_to_int(h / 360, s1, l1, 1.0)
    for x, y in zip(channels(c)[:3], channels(w)[:3]):
        t.ensure("channels", x == y if t.mode == "sym" else abs(x - y) <= 1)
    t.eq("alpha", c.alpha, a)


def ref_hsl(t, r, g, b):
    """(hue degrees, saturation, lightness) of channels 0..255"""
    mx, mn = t.max(r, g, b), t.min(r, g, b)
    l = (mx + mn) / 510
    if mx == mn:
        return 0, 0, l
    d = mx - mn
    s = d / (mx + mn) if mx + mn < 255 else d / (510 - mx - mn)
    if r == mx:
        h = 60 * (g - b) / d
    elif g == mx:
        h = 120 + 60 * (b - r) / d
    else:
        h = 240 + 60 * (r - g) / d
    if h < 0:
        h = h + 360
    return h, s, l


@contract("P07", ["basic.Color.hue", "basic.Color.saturation", "basic.Color.lightness", "basic.Color.hsl",
                  "basic.Color.brightness", "basic.Color.blackness", "basic.Color.luma"], secs=300)
def hsl_readings(t):
    """hue (degrees), saturation and lightness of any stored colour are the textbook values."""
    c, (r, g, b, a) = color_of(t, "c")
    h, s, l = ref_hsl(t, r, g, b)
    hh = c.hue
    if t.mode == "conc":
        d = abs(hh - h) % 360
        t.ensure("hue", min(d, 360 - d) < 1e-6, "%r vs %r" % (hh, h))
    else:
        t.ensure("hue", t.Or(hh == h, t.And(hh == 360, h == 0)))
    t.eq("saturation", c.saturation, s)
    t.eq("lightness", c.lightness, l)
    t.eq("hsl", tuple(c.hsl), (hh, c.saturation, c.lightness))
    t.eq("brightness", c.brightness, t.max(r, g, b) / 255)
    t.eq("blackness", c.blackness, 1 - t.max(r, g, b) / 255)


@contract("P07", ["basic.Color.hsl", "basic.Color.hue", "basic.Color.saturation", "basic.Color.lightness"],
          uses=["basic.Color.hsl_to_int"])
def hsl_write(t):
    """writing hue, saturation or lightness keeps the other two and the alpha; writing hsl keeps the alpha."""
    C = t.svg.basic.Color
    c, ch = color_of(t, "c")
    which = t.choice("which", ["hue", "saturation", "lightness", "hsl"])
    v = t.real("v", 0, 1)
    if which == "hsl":
        h, s, l = v * 359, t.real("s", 0, 1), t.real("l", 0, 1)
        c.hsl = (h, s, l)
    else:
        h, s, l = c.hue, c.saturation, c.lightness
        if which == "hue":
            h = v * 359
            c.hue = h
        elif which == "saturation":
            s = v
            c.saturation = v
        else:
            l = v
            c.lightness = v
    w = C(0, 0, 0)
    w.value = C.hsl_to_int(h / 360.0, s, l, 1.0)
    for x, y in zip(channels(c)[:3], channels(w)[:3]):
        t.ensure("channels", x == y if t.mode == "sym" else abs(x - y) <= 1)
    t.eq("alpha kept", c.alpha, ch[3])


@contract("P07", ["basic.Color.__init__"], bounded="runtime")
def hsl_keywords(t):
    """hue, saturation and lightness keywords of the constructor are writes of these to the colour built so far."""
    C = t.svg.basic.Color
    c, ch = color_of(t, "c")
    v, s, l = t.real("v", 0, 359), t.real("s", 0, 1), t.real("l", 0, 1)
    d = C(c)
    short = t.choice("short", [True, False])
    which = t.choice("which", ["h", "s", "l", "hsl"])
    kw = {}
    if "h" in which:
        d.hue = kw["h" if short else "hue"] = v
    if "s" in which:
        d.saturation = kw["s" if short else "saturation"] = s
    if "l" in which:
        d.lightness = kw["l" if short else "lightness"] = l
    k = C(c, **kw)
    t.eq("keywords", channels(k), channels(d))
    t.eq("alpha kept", k.alpha, ch[3])
    t.eq("unchanged", channels(c), ch)


# ---------------------------------------------------------------- compositing and distance
@contract("P08", ["basic.Color.over", "basic.Color.blend", "basic.Color.rgb_to_int"], secs=300)
def over_is_porter_duff(t):
    """painting one colour over another: Porter-Duff source-over per channel, truncated, alpha to the nearest step."""
    C = t.svg.basic.Color
    c1, (r1, g1, b1, a1) = color_of(t, "p")
    c2, (r2, g2, b2, a2) = color_of(t, "q")
    how = t.choice("how", ["over", "blend"])
    if how == "over":
        v = C.over(c1, c2)
        t.eq("top unchanged", channels(c1), (r1, g1, b1, a1))
        t.eq("bottom unchanged", channels(c2), (r2, g2, b2, a2))
    else:
        c2.blend(c1)
        v = c2.value
        t.eq("top unchanged", channels(c1), (r1, g1, b1, a1))
    c = C(0, 0, 0)
    c.value = v
    if a1 == 0:
        t.eq("invisible top", channels(c), (r2, g2, b2, a2))
        return
    k = a1 * 255 + a2 * (255 - a1)
    for n, got, x1, x2 in (("red", c.red, r1, r2), ("green", c.green, g1, g2), ("blue", c.blue, b1, b2)):
        near_channel(t, n, got, (x1 * a1 * 255 + x2 * a2 * (255 - a1)) / k)
    t.ensure("alpha", t.And(c.alpha - k / 255 <= 0.5 + 1e-6, k / 255 - c.alpha <= 0.5 + 1e-6))


@contract("P08", ["basic.Color.over", "basic.Color.blend", "basic.Color.distance", "basic.Color.distance_sq"])
def over_accepts_text_and_opacity(t):
    """colours given as text stand for the colour; blending with an opacity uses that opacity for the top colour."""
    C = t.svg.basic.Color
    c, (r, g, b, a) = color_of(t, "c")
    k = t.choice("k", ["over integer", "distance integer", "over text", "over text 2", "distance text", "blend opacity", "blend colour opacity"])
    if k == "over integer":
        t.eq("same", C.over(0x102030, c), C.over(C("#102030"), c))
        t.eq("same below", C.over(c, 0x102030), C.over(c, C("#102030")))
    elif k == "distance integer":
        t.eq("same", C.distance_sq(c, 0x102030), C.distance_sq(C("#102030"), c))
        t.eq("same first", C.distance_sq(0x102030, c), C.distance_sq(C("#102030"), c))
        t.eq("text first", C.distance_sq("#102030", c), C.distance_sq(C("#102030"), c))
    elif k == "over text":
        t.eq("same", C.over("#102030", c), C.over(C("#102030"), c))
    elif k == "over text 2":
        t.eq("same", C.over(c, "#10203040"), C.over(c, C("#10203040")))
    elif k == "distance text":
        t.eq("same", C.distance_sq(c, "#102030"), C.distance_sq(C("#102030"), c))
    elif k == "blend colour opacity":
        p, ch = color_of(t, "p")
        o = t.choice("o", [0, 0.25, 1])
        d = C(c)
        d.blend(p, o)
        t.eq("top unchanged", channels(p), ch)
        top = C(p)
        top.opacity = o
        t.eq("same", d.value, C.over(top, c))
    else:
        o = t.choice("o", [0, 0.25, 1])
        d = C(c)
        d.blend("#102030", o)
        top = C("#102030")
        top.opacity = o
        t.eq("same", d.value, C.over(top, c))


@contract("P08", ["basic.Color.distance", "basic.Color.distance_sq", "basic.Color.distance_to"], secs=300)
def redmean_distance(t):
    """the squared distance is the red-mean formula (integer divisions by 256 floored), symmetric, zero only for equal
    visible channels; the distance is its square root."""
    C = t.svg.basic.Color
    what = t.choice("what", ["symmetric", "zero", "positive", "root", "value"])
    c2, (r2, g2, b2, a2) = color_of(t, "q")
    odd, q = 0, None
    if what == "value":
        # any red channel, written as (2 q + odd) - r2 so that the mean of the two reds is q + odd/2
        odd = t.choice("odd", [0, 1])
        q = t.int("half", 0, 255)
        r1 = 2 * q + odd - r2
        t.require(t.And(r1 >= 0, r1 <= 255))
        c1, (r1, g1, b1, a1) = color_of(t, "p", r1)
    else:
        c1, (r1, g1, b1, a1) = color_of(t, "p")
    d = C.distance_sq(c1, c2)
    m = (r1 + r2) / 2
    ex = (2 + m / 256) * (r1 - r2) * (r1 - r2) + 4 * (g1 - g2) * (g1 - g2) + (
        2 + (255 - m) / 256) * (b1 - b2) * (b1 - b2)
    if what == "symmetric":
        t.eq("symmetric", d, C.distance_sq(c2, c1))
    elif what == "zero":
        t.eq("self", C.distance_sq(c1, c1), 0)
    elif what == "positive":
        t.require(t.Not(t.And(r1 == r2, g1 == g2, b1 == b2)))
        t.ensure("positive", d > 0)
    elif what == "value":
        # each of the two floored terms loses less than 1, the truncated mean less than 65025/512
        for x in (r1 - r2, b1 - b2):
            t.ensure("squared difference of channels", t.And(x * x >= 0, x * x <= 65025))
        t.ensure("upper", d <= ex + 255)
        t.ensure("lower", d >= ex - 257)
    else:
        t.ensure("root", t.And(C.distance(c1, c2) >= 0, True))
        if t.mode == "sym":
            t.eq("square", C.distance(c1, c2) * C.distance(c1, c2), d)
            t.eq("method", c1.distance_to(c2) * c1.distance_to(c2), d)
        else:
            t.eq("square", C.distance(c1, c2) ** 2, d)
            t.eq("method", c1.distance_to(c2) ** 2, d)


# ------------------------------------------------------------------ distinct colours
def reversed_bits(q):
    """the eight bits of q in the opposite order"""
    s = 0
    for i in range(8):
        s = s * 2 + q % 2
        q = q // 2
    return s


def colour_of_a_shell(t, n):
    """index n^3 + k, of the (n+1)^3 - n^3 triples of 0..n with an n in them the k-th, has that triple's colour: each
    channel one less (of 256), its bits reversed."""
    C = t.svg.basic.Color
    kind = t.choice("triple", ["corner", "edge", "face"] if n else ["corner"])
    v = t.choice("v", [0, 1, 2]) if kind != "corner" else 0
    p = [n, n, n]
    index = n * n * n
    if kind == "edge":
        a = t.int("a", 0, n - 1)
        index = index + 1 + 3 * a + v
        p[v] = a
    elif kind == "face":
        a = t.int("a", 0, n - 1)
        b = t.int("b", 0, n - 1)
        index = index + 1 + 3 * (n + a * n + b) + v
        p[v] = a
        p[(v + 1) % 3] = b
    c = C.distinct(index)
    for name, k in zip(("red", "green", "blue"), p):
        t.eq(name, getattr(c, name), reversed_bits(k - 1))
    t.eq("opaque", c.alpha, 255)


for k in range(0, 256, 64):
    def distinct_colour_of_an_index(t, k=k):
        colour_of_a_shell(t, t.choice("n", list(range(k, k + 64))))
    distinct_colour_of_an_index.__name__ += "_%d" % k
    distinct_colour_of_an_index.__doc__ = colour_of_a_shell.__doc__ + " (n from %d to %d)" % (k, k + 63)
    contract("P33", ["basic.Color.distinct"], secs=120)(distinct_colour_of_an_index)


@contract("P33", [], note="")
def lemma_index_forms_are_one_to_one(t):
    """every index is a corner, an edge or a face of exactly one shell, different ones stand for different triples, and
    reversing bits loses nothing: different indexes below 256^3 have different colours."""
    if t.choice("part", ["every index", "different triples"]) == "every index":
        n = t.choice("n", list(range(256)))
        x = t.int("index", n ** 3, (n + 1) ** 3 - 1)
        k = x - n ** 3
        if k == 0:
            return
        v, q = (k - 1) % 3, (k - 1) // 3
        if q < n:
            t.ensure("edge", t.And(q >= 0, 1 + 3 * q + v == k, v >= 0, v <= 2))
        else:
            a, b = (q - n) // n, (q - n) % n
            t.ensure("face", t.And(a >= 0, a < n, b >= 0, b < n, 1 + 3 * (n + a * n + b) + v == k))
    else:
        n, m = t.int("n", 0, 255), t.int("m", 0, 255)
        forms = [("corner", 0)] + [(f, v) for f in ("edge", "face") for v in (0, 1, 2)]
        f, g = t.choice("first", forms), t.choice("second", forms)
        a, b, c, d = [t.int(i, 0, 254) for i in "abcd"]

        def triple(n, form, a, b):
            p = [n, n, n]
            if form[0] != "corner":
                t.require(a < n)
                p[form[1]] = a
            if form[0] == "face":
                t.require(b < n)
                p[(form[1] + 1) % 3] = b
            return p
        p, q = triple(n, f, a, b), triple(m, g, c, d)
        same = t.And(*[x == y for x, y in zip(p, q)])
        if f != g:
            t.ensure("another form, another triple", t.Not(same))
        else:
            one = [n == m] + ([a == c] if f[0] != "corner" else []) + ([b == d] if f[0] == "face" else [])
            t.ensure("the same triple only for the same index", t.iff(same, t.And(*one)))
        t.eq("reversing bits is one to one", len({reversed_bits(k) for k in range(-1, 255)}), 256)
