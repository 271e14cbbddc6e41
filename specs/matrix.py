# Affine matrices: product, application, inverse, elementary operations, transform-list text.

@contract("P01", ["basic.Matrix.matrix_multiply"])
def matrix_multiply_is_composition(t):
    """matrix_multiply(m, s) is the map "m first, then s", for all real entries; operands are untouched."""
    m, n = t.matrix("m"), t.matrix("n")
    m0, n0 = six(m), six(n)
    r = t.svg.basic.Matrix.matrix_multiply(m, n)
    t.eq("product", tuple(r), m_then(m0, n0))
    t.eq("left operand unchanged", six(m), m0)
    t.eq("right operand unchanged", six(n), n0)


@stub("basic.Matrix.matrix_multiply", "matrix_multiply_is_composition")
def stub_multiply(t, real, m, s):
    return m_then(six(m), six(s))


@contract("P01", ["basic.Matrix.point_in_matrix_space"])
def point_in_matrix_space_applies(t):
    """point_in_matrix_space(p) is the image of p, as a new point; neither argument changes."""
    m, p = t.matrix("m"), t.point("p")
    m0, p0 = six(m), xy(p)
    r = m.point_in_matrix_space(p)
    t.eq("image", xy(r), m_apply(m0, *p0))
    t.eq("matrix unchanged", six(m), m0)
    t.eq("point unchanged", xy(p), p0)
    t.ensure("fresh point", r is not p)
    r2 = m.point_in_matrix_space((p0[0], p0[1]))
    t.eq("tuple argument", xy(r2), m_apply(m0, *p0))


@stub("basic.Matrix.point_in_matrix_space", "point_in_matrix_space_applies")
def stub_point_in_matrix_space(t, real, self, v0):
    x, y = m_apply(six(self), v0[0], v0[1])
    return t.svg.basic.Point(x, y)


@contract("P01", ["basic.Matrix.__matmul__", "basic.Matrix.__imatmul__", "basic.Matrix.__rmatmul__",
                  "basic.Matrix.__copy__", "basic.Matrix.__init__"], uses=["basic.Matrix.matrix_multiply"])
def matrix_operators_compose(t):
    """A*B and A@B are new matrices applying A then B; *= and @= do so in place and keep identity of the object."""
    A, B = t.matrix("m"), t.matrix("n")
    A0, B0 = six(A), six(B)
    op = t.choice("op", ["*", "@", "*=", "@=", "text @", "@ text", "*= text", "reflected"])
    if op == "text @":
        r = "translate(3,4) scale(2)" @ A
        t.eq("product", six(r), m_then((2, 0, 0, 2, 3, 4), A0))
        t.eq("operand unchanged", six(A), A0)
        t.ensure("new object", r is not A)
        return
    if op in ("@ text", "*= text"):
        r = A
        if op == "@ text":
            r = A @ "translate(3,4) scale(2)"
            t.eq("operand unchanged", six(A), A0)
        else:
            r *= "translate(3,4) scale(2)"
        t.ensure("in place", (r is A) == (op == "*= text"))
        t.eq("product", six(r), m_then(A0, (2, 0, 0, 2, 3, 4)))
        return
    if op == "reflected":
        r = B.__rmatmul__(A)
        t.ensure("new object", r is not A and r is not B)
        t.eq("left operand unchanged", six(A), A0)
    elif op in ("*", "@"):
        r = A * B if op == "*" else A @ B
        t.ensure("new object", r is not A and r is not B)
        t.eq("left operand unchanged", six(A), A0)
    else:
        r = A
        if op == "*=":
            r *= B
        else:
            r @= B
        t.ensure("in place", r is A)
    t.eq("product", six(r), m_then(A0, B0))
    t.eq("right operand unchanged", six(B), B0)
    t.ensure("kind", isinstance(r, t.svg.basic.Matrix))


@contract("P01", ["basic.Matrix.__matmul__", "basic.Point.__mul__", "basic.Point.__imul__",
                  "basic.Point.matrix_transform", "basic.Matrix.transform_point", "basic.Matrix.transform_vector",
                  "basic.Matrix.vector"],
          uses=["basic.Matrix.matrix_multiply", "basic.Matrix.point_in_matrix_space"])
def product_acts_like_successive_application(t):
    """p * (A*B) == (p*A)*B through every way of applying a matrix to a point; vectors ignore the translation."""
    A, B, p = t.matrix("m"), t.matrix("n"), t.point("p")
    Point, Matrix = t.svg.basic.Point, t.svg.basic.Matrix
    p0, A0, B0 = xy(p), six(A), six(B)
    want = m_apply(B0, *m_apply(A0, *p0))
    C = A * B
    how = t.choice("how", ["mul", "rmul", "imul", "matrix_transform", "transform_point", "vector", "transform_vector",
                           "list"])
    if how == "mul":
        q = p * C
        t.eq("image", xy(q), want)
        t.eq("stepwise", xy((p * A) * B), want)
        t.eq("point unchanged", xy(p), p0)
    elif how == "rmul":
        q = Point.__rmul__(p, C)
        t.eq("image", xy(q), want)
        t.eq("point unchanged", xy(p), p0)
    elif how == "imul":
        q = p
        q *= C
        t.ensure("in place", q is p)
        t.eq("image", xy(p), want)
    elif how == "matrix_transform":
        q = p.matrix_transform(C)
        t.ensure("in place", q is p)
        t.eq("image", xy(p), want)
    elif how == "transform_point":
        q = C.transform_point(p)
        t.ensure("in place", q is p)
        t.eq("image", xy(p), want)
    elif how == "list":
        v = [p0[0], p0[1]]
        C.transform_point(v)
        t.eq("image", tuple(v), want)
    elif how == "transform_vector":
        v = [p0[0], p0[1]]
        C.transform_vector(v)
        o = m_apply(six(C), 0, 0)
        t.eq("image", tuple(v), (want[0] - o[0], want[1] - o[1]))
    else:
        V = C.vector()
        o = m_apply(six(C), 0, 0)
        t.eq("image", xy(p * V), (want[0] - o[0], want[1] - o[1]))
        t.eq("matrix", six(C), m_then(A0, B0))


@contract("P01", ["basic.Matrix.identity", "basic.Matrix.is_identity", "basic.Matrix.reset", "basic.Matrix.__getitem__",
                  "basic.Matrix.__setitem__", "basic.Matrix.determinant", "basic.Matrix.__init__",
                  "basic.Matrix.__eq__", "basic.Matrix.__ne__"])
def matrix_identity_and_components(t):
    """identity is neutral, reset restores it, indexed access is the a..f order, determinants multiply, == compares all six."""
    Matrix = t.svg.basic.Matrix
    A, B = t.matrix("m"), t.matrix("n")
    A0, B0 = six(A), six(B)
    what = t.choice("what", ["neutral", "items", "det", "reset", "eq", "ne", "ctor"])
    if what == "neutral":
        I = t.choice("i", [Matrix(), Matrix.identity()])
        t.ensure("is_identity", I.is_identity())
        t.eq("left", six(I * A), A0)
        t.eq("right", six(A * I), A0)
        t.eq("string product", six(A * "translate(3,4)"), m_then(A0, m_translate(3, 4)))
        t.eq("reflected string product", six("translate(3,4)" * A), m_then(m_translate(3, 4), A0))
    elif what == "items":
        t.eq("items", tuple(A[i] for i in range(6)), A0)
        t.ensure("len", len(A) == 6)
        for i in range(6):
            A[i] = B0[i]
        t.eq("assigned", six(A), B0)
    elif what == "det":
        t.eq("det of product", (A * B).determinant, det(A0) * det(B0))
    elif what == "reset":
        A.reset()
        t.eq("identity", six(A), IDENTITY)
    elif what == "eq":
        t.ensure("reflexive", A == Matrix(*A0))
        t.ensure("not None", not (A == None))
    elif what == "ctor":
        t.eq("from sequence", six(Matrix(list(A0))), A0)
        t.eq("from matrix", six(Matrix(A)), A0)
        t.ensure("copy is new", Matrix(A) is not A)
    else:
        i = t.choice("entry", [0, 1, 2, 3, 4, 5])
        d = t.real("d")
        t.require(t.Or(d > 1e-9, d < -1e-9))
        v = list(A0)
        v[i] = v[i] + d
        t.ensure("differs", A != Matrix(*v))
        t.ensure("not equal", not (A == Matrix(*v)))


@contract("P01", ["basic.Matrix.pre_cat", "basic.Matrix.post_cat"], uses=["basic.Matrix.matrix_multiply"])
def cat_orders(t):
    """pre_cat makes the given transform act first, post_cat makes it act last."""
    A, B = t.matrix("m"), t.matrix("n")
    A0, B0 = six(A), six(B)
    how = t.choice("how", ["pre", "post"])
    form = t.choice("form", ["components", "matrix"])
    args = B0 if form == "components" else (B,)
    if how == "pre":
        A.pre_cat(*args)
        t.eq("pre", six(A), m_then(B0, A0))
    else:
        A.post_cat(*args)
        t.eq("post", six(A), m_then(A0, B0))
    t.eq("operand unchanged", six(B), B0)


@contract("P02", ["basic.Matrix.inverse", "basic.Matrix.__invert__"], uses=["basic.Matrix.matrix_multiply"],
          note="inverse: determinant non-zero")
def inverse_is_two_sided(t):
    """for a non-singular matrix, inverse() (in place) and ~ (new object) compose with it to the identity both ways."""
    Matrix = t.svg.basic.Matrix
    A = t.matrix("m", -50, 50)
    A0 = six(A)
    if t.mode == "conc":
        # far from cancellation, whatever the scale
        t.require(abs(det(A0)) > 1e-3 * (abs(A0[0] * A0[3]) + abs(A0[1] * A0[2])))
        t.require(max(abs(x) for x in A0[:4]) < 1e4 * abs(det(A0)) * 1e3)
    t.require(t.Not(det(A0) == 0))
    how = t.choice("how", ["invert", "inverse"])
    if how == "invert":
        R = ~A
        t.eq("operand unchanged", six(A), A0)
        t.ensure("new object", R is not A)
    else:
        R = A.inverse()
        t.ensure("in place", R is A)
    t.eq("A then inverse", m_then(A0, six(R)), IDENTITY)
    t.eq("inverse then A", m_then(six(R), A0), IDENTITY)
    t.eq("product object", six(Matrix(*A0) * R), IDENTITY)


@contract("P02", ["basic.Matrix.inverse", "basic.Matrix.__invert__"])
def singular_has_no_inverse(t):
    """a matrix with zero determinant raises ZeroDivisionError, leaving the matrix as it was."""
    a, b, k, e, f = [t.real(n, -20, 20) for n in "abkef"]
    M = t.svg.basic.Matrix
    if t.mode == "conc":
        a, b, k = float(round(a)), float(round(b)), float(round(k))
    which = t.choice("dep", [0, 1, 2])
    A = [M(a, b, k * a, k * b, e, f), M(k * a, k * b, a, b, e, f), M(0, 0, a, b, e, f)][which]
    A0 = six(A)
    t.raises("singular", ZeroDivisionError, lambda: A.inverse())
    t.eq("unchanged", six(A), A0)
    t.raises("singular ~", ZeroDivisionError, lambda: ~A)


@contract("P02", ["basic.Matrix.point_in_inverse_space"], uses=["basic.Matrix.point_in_matrix_space"],
          note="inverse: determinant non-zero")
def inverse_space_round_trip(t):
    """mapping a point into the inverse space and back gives the point; the matrix is unchanged."""
    A, p = t.matrix("m", -50, 50), t.point("p", -50, 50)
    A0, p0 = six(A), xy(p)
    if t.mode == "conc":
        t.require(abs(det(A0)) > 0.05)
    t.require(t.Not(det(A0) == 0))
    q = A.point_in_inverse_space(p)
    t.eq("matrix unchanged", six(A), A0)
    t.eq("point unchanged", xy(p), p0)
    t.eq("round trip", m_apply(A0, q.x, q.y), p0)
    r = A.point_in_matrix_space(p)
    t.eq("round trip 2", xy(A.point_in_inverse_space(r)), p0)


def angle_arg(t, name):
    return t.real(name, -7, 7)


def tan_ok(t, *angles):
    for a in angles:
        if t.mode == "conc":
            t.require(abs(t.cos(a)) > 0.05)
        else:
            t.require(t.Not(t.cos(a) == 0))


@contract("P03", ["basic.Matrix.scale", "basic.Matrix.scale_x", "basic.Matrix.scale_y", "basic.Matrix.translate",
                  "basic.Matrix.translate_x", "basic.Matrix.translate_y", "basic.Matrix.rotate", "basic.Matrix.skew",
                  "basic.Matrix.skew_x", "basic.Matrix.skew_y"], note="skew angles away from odd quarter turns")
def elementary_matrices(t):
    """each named constructor is the textbook matrix of its transformation."""
    M = t.svg.basic.Matrix
    u, v = t.real("u"), t.real("v")
    k = t.choice("k", ["scale", "scale1", "scale_x", "scale_y", "translate", "translate_x", "translate_y", "rotate",
                       "skew", "skew_x", "skew_y"])
    if k == "scale":
        r, w = M.scale(u, v), m_scale(u, v)
    elif k == "scale1":
        r, w = M.scale(u), m_scale(u, u)
    elif k == "scale_x":
        r, w = M.scale_x(u), m_scale(u, 1)
    elif k == "scale_y":
        r, w = M.scale_y(u), m_scale(1, u)
    elif k == "translate":
        r, w = M.translate(u, v), m_translate(u, v)
    elif k == "translate_x":
        r, w = M.translate_x(u), m_translate(u, 0)
    elif k == "translate_y":
        r, w = M.translate_y(u), m_translate(0, u)
    elif k == "rotate":
        r, w = M.rotate(u), m_rotate(t, u)
    else:
        a, b = angle_arg(t, "a"), angle_arg(t, "b")
        tan_ok(t, a, b)
        if k == "skew":
            r, w = M.skew(a, b), m_skew(t, a, b)
        elif k == "skew_x":
            r, w = M.skew_x(a), (1, 0, t.tan(a), 1, 0, 0)
        else:
            r, w = M.skew_y(b), (1, t.tan(b), 0, 1, 0, 0)
    t.eq("matrix", six(r), w)


def centre_args(t):
    """centre given as two numbers, left out, or None"""
    c = t.choice("centre", ["both", "none", "None", "x only"])
    x, y = t.real("cx", -50, 50), t.real("cy", -50, 50)
    if c == "both":
        return (x, y), x, y
    if c == "none":
        return (), 0, 0
    if c == "None":
        return (None, None), 0, 0
    return (x,), x, 0


def pre_post(t, name, args, op):
    """m.pre_<name>(...) / m.post_<name>(...): the operation about the centre acts first / last"""
    A = t.matrix("m", -50, 50)
    A0 = six(A)
    cargs, cx, cy = centre_args(t)
    w = m_about(op, cx, cy)
    side = t.choice("side", ["pre", "post"])
    getattr(A, side + "_" + name)(*(tuple(args) + cargs))
    if side == "pre":
        t.eq("acts first", six(A), m_then(w, A0))
    else:
        t.eq("acts last", six(A), m_then(A0, w))


@contract("P03", ["basic.Matrix.pre_scale", "basic.Matrix.post_scale", "basic.Matrix.pre_scale_x",
                  "basic.Matrix.post_scale_x", "basic.Matrix.pre_scale_y", "basic.Matrix.post_scale_y"],
          uses=["basic.Matrix.matrix_multiply"])
def pre_post_scale(t):
    """scaling about a centre, before (pre) or after (post) the existing transform."""
    u, v = t.real("u", -50, 50), t.real("v", -50, 50)
    k = t.choice("k", ["scale", "scale None", "scale_x", "scale_y"])
    if k == "scale":
        pre_post(t, "scale", (u, v), m_scale(u, v))
    elif k == "scale None":
        pre_post(t, "scale", (u, None), m_scale(u, u))
    elif k == "scale_x":
        pre_post(t, "scale_x", (u,), m_scale(u, 1))
    else:
        pre_post(t, "scale_y", (u,), m_scale(1, u))


@contract("P03", ["basic.Matrix.pre_rotate", "basic.Matrix.post_rotate"], uses=["basic.Matrix.matrix_multiply"])
def pre_post_rotate(t):
    """rotation about a centre, before or after the existing transform."""
    a = t.real("angle", -20, 20)
    pre_post(t, "rotate", (a,), m_rotate(t, a))


@contract("P03", ["basic.Matrix.pre_skew", "basic.Matrix.post_skew", "basic.Matrix.pre_skew_x",
                  "basic.Matrix.post_skew_x", "basic.Matrix.pre_skew_y", "basic.Matrix.post_skew_y"],
          uses=["basic.Matrix.matrix_multiply"], note="skew angles away from odd quarter turns")
def pre_post_skew(t):
    """skewing about a centre, before or after the existing transform."""
    a, b = angle_arg(t, "a"), angle_arg(t, "b")
    tan_ok(t, a, b)
    k = t.choice("k", ["skew", "skew_x", "skew_y"])
    if k == "skew":
        pre_post(t, "skew", (a, b), m_skew(t, a, b))
    elif k == "skew_x":
        pre_post(t, "skew_x", (a,), (1, 0, t.tan(a), 1, 0, 0))
    else:
        pre_post(t, "skew_y", (b,), (1, t.tan(b), 0, 1, 0, 0))


@contract("P03", ["basic.Matrix.pre_translate", "basic.Matrix.post_translate", "basic.Matrix.pre_translate_x",
                  "basic.Matrix.post_translate_x", "basic.Matrix.pre_translate_y", "basic.Matrix.post_translate_y"],
          uses=["basic.Matrix.matrix_multiply"])
def pre_post_translate(t):
    """translation before or after the existing transform."""
    A = t.matrix("m")
    A0 = six(A)
    u, v = t.real("u"), t.real("v")
    k = t.choice("k", ["translate", "translate_x", "translate_y"])
    args, w = {"translate": ((u, v), m_translate(u, v)), "translate_x": ((u,), m_translate(u, 0)),
               "translate_y": ((u,), m_translate(0, u))}[k]
    side = t.choice("side", ["pre", "post"])
    getattr(A, side + "_" + k)(*args)
    t.eq("order", six(A), m_then(w, A0) if side == "pre" else m_then(A0, w))


# ---------------------------------------------------------------- transform-list text
ANGLE_UNITS = [("", 360), ("deg", 360), ("rad", None), ("grad", 400), ("turn", 1)]
LENGTH_UNITS = ["", "px", "pc", "pt"]


def unit_size(t, unit):
    """user units per unit: pt is the factor of Length itself, whose contract (P09) holds it to 1e-4 of 4/3"""
    return t.svg.basic.Length("1pt").in_pixels() if unit == "pt" else {"": 1, "px": 1, "pc": 16}[unit]


def text_angle(t, name, units=None):
    v = t.real(name, -3, 3) if t.mode == "conc" else t.real(name)
    unit, per = t.choice(name + " unit", units or ANGLE_UNITS)
    ang = v if per is None else t.tau * v / per
    return "%s%s" % (v, unit), ang


def text_length(t, name):
    v = t.real(name, -50, 50)
    unit = t.choice(name + " unit", LENGTH_UNITS)
    return "%s%s" % (v, unit), v * unit_size(t, unit)


def text_number(t, name):
    v = t.real(name, -50, 50)
    return "%s" % v, v


def joined(sep, *parts):
    return sep.join(parts)


def transform_item(t, kind, n=""):
    """(text, matrix) of one transform function with arbitrary numbers"""
    sep = t.choice("sep" + n, [",", " ", " , "])
    if kind == "matrix":
        p = [text_number(t, k + n) for k in "abcdef"]
        return "matrix(%s)" % joined(sep, *[x[0] for x in p]), tuple(x[1] for x in p)
    if kind == "translate2":
        (s, x), (r, y) = text_length(t, "x" + n), text_length(t, "y" + n)
        return "translate(%s)" % joined(sep, s, r), m_translate(x, y)
    if kind == "translate1":
        s, x = text_length(t, "x" + n)
        return "translate(%s)" % s, m_translate(x, 0)
    if kind == "translateX":
        s, x = text_length(t, "x" + n)
        return "translateX(%s)" % s, m_translate(x, 0)
    if kind == "translateY":
        s, y = text_length(t, "y" + n)
        return "translateY (%s)" % s, m_translate(0, y)
    if kind == "scale2":
        (s, x), (r, y) = text_number(t, "x" + n), text_number(t, "y" + n)
        return "scale(%s)" % joined(sep, s, r), m_scale(x, y)
    if kind == "scale1":
        s, x = text_number(t, "x" + n)
        return "scale( %s )" % s, m_scale(x, x)
    if kind == "scaleX":
        s, x = text_number(t, "x" + n)
        return "scaleX(%s)" % s, m_scale(x, 1)
    if kind == "scaleY":
        s, y = text_number(t, "y" + n)
        return "scaleY(%s)" % s, m_scale(1, y)
    if kind == "rotate1":
        s, a = text_angle(t, "a" + n)
        return "rotate(%s)" % s, m_rotate(t, a)
    if kind == "rotate3":
        s, a = text_angle(t, "a" + n)
        (p, x), (q, y) = text_number(t, "x" + n), text_number(t, "y" + n)
        u, w = t.choice("centre units" + n, [("", ""), ("px", ""), ("", "pt"), ("pc", "px"), ("pt", "pc")])
        x, y = x * unit_size(t, u), y * unit_size(t, w)
        return "rotate(%s)" % joined(sep, s, p + u, q + w), m_about(m_rotate(t, a), x, y)
    few = ANGLE_UNITS[:2] if kind.endswith("centre") else None
    if kind == "rotate2":
        s, a = text_angle(t, "a" + n)
        p, x = text_number(t, "x" + n)
        return "rotate(%s)" % joined(sep, s, p), m_about(m_rotate(t, a), x, 0)
    s, a = text_angle(t, "a" + n, few)
    tan_ok(t, a)
    texts, y = [s], 0
    if kind.startswith("skewX"):
        name, w = "skewX", (1, 0, t.tan(a), 1, 0, 0)
    elif kind.startswith("skewY"):
        name, w = "skewY", (1, t.tan(a), 0, 1, 0, 0)
    else:
        s2, b = text_angle(t, "b" + n, few)
        tan_ok(t, b)
        texts.append(s2)
        name, w = "skew", m_skew(t, a, b)
    if kind.endswith("centre"):
        # the centre of the skew, its y alone or both given
        p, x = text_number(t, "x" + n)
        u = t.choice("centre units" + n, ["", "px", "pt"])
        texts.append(p + u)
        if t.choice("centre y" + n, [True, False]):
            q, y = text_number(t, "y" + n)
            texts.append(q)
        w = m_about(w, x * unit_size(t, u), y)
    return "%s(%s)" % (name, joined(sep, *texts)), w


KINDS = ["matrix", "translate2", "translate1", "translateX", "translateY", "scale2", "scale1", "scaleX", "scaleY",
         "rotate1", "rotate2", "rotate3", "skewX", "skewY", "skew", "skewX centre", "skewY centre", "skew centre"]


@contract("P04", ["basic.Matrix.parse", "basic.Matrix.render", "basic.Angle.parse", "basic.Length.__init__",
                  "basic.Length.value"], uses=["basic.Matrix.matrix_multiply"],
          note="number texts: any text of the number grammar, abstracted as the real it denotes; separators , space or both")
def transform_function_text(t):
    """every transform function, with every argument count and unit, parses to its matrix, for all numbers."""
    kind = t.choice("kind", KINDS)
    s, w = transform_item(t, kind)
    case = t.choice("case", ["as is", "upper"])
    if case == "upper":
        s = s.upper()
        t.require("INTURN" not in s)
    t.eq("matrix", six(t.svg.basic.Matrix(s)), w)


@contract("P04", ["basic.Matrix.parse", "basic.Matrix.pre_cat"], uses=["basic.Matrix.matrix_multiply"],
          bounded="lists of two functions out of all ordered kinds", max_paths=6000)
def transform_list_order(t):
    """in a list of transforms the rightmost function is applied to a point first."""
    k1 = t.choice("k1", ["matrix", "translate2", "scale2", "rotate1", "skewX"])
    k2 = t.choice("k2", ["matrix", "translate1", "scale1", "rotate3", "skewY"])
    sep = t.choice("between", [" ", ",", ""])
    t1, w1 = item_plain(t, k1, "1")
    t2, w2 = item_plain(t, k2, "2")
    M = t.svg.basic.Matrix
    t.eq("composition", six(M(t1 + sep + t2)), m_then(w2, w1))
    t.eq("as product", six(M(t2) * M(t1)), m_then(w2, w1))


def item_plain(t, kind, n):
    c0 = t.choice
    t.choice = lambda name, opts: opts[0]
    try:
        return transform_item(t, kind, n)
    finally:
        t.choice = c0


@contract("P04", ["basic.Matrix.parse", "basic.Matrix.pre_cat"], uses=["basic.Matrix.matrix_multiply"])
def transform_list_appends(t):
    """inductive step for lists of any length: parsing one more function onto an arbitrary matrix M makes that
    function act before M."""
    kind = t.choice("kind", KINDS)
    s, w = item_plain(t, kind, "")
    A = t.matrix("m", -50, 50)
    A0 = six(A)
    A.parse(s)
    t.eq("step", six(A), m_then(w, A0))


@contract("P04", ["basic.Matrix.__init__"])
def empty_transform_text(t):
    """an empty transform list is the identity."""
    t.eq("identity", six(t.svg.basic.Matrix(t.choice("s", ["", " ", "none"]))), IDENTITY)


@contract("P04", ["basic.Matrix.parse", "basic.Matrix.render", "basic.Matrix.__init__", "basic.Length.value",
                  "basic.Length.__mul__", "basic.Length.__add__"],
          bounded="one translation, alone or before or after a scaling")
def translation_by_lengths_in_context(t):
    """translations by in, cm, mm or % are resolved from the resolution, width and height given, whatever follows or
    precedes them in the list; a later render gives the same."""
    B = t.svg.basic
    ppi, width, height = t.real("ppi", 1, 400), t.real("width", 1, 500), t.real("height", 1, 500)
    u = t.choice("x unit", ["in", "mm", "%", ""])
    w = t.choice("y unit", ["cm", "%", "px"])
    x, y = t.real("x", -50, 50), t.real("y", -50, 50)

    def size(v, unit, whole):
        if unit == "%":
            return v * whole / 100
        if unit in ("", "px"):
            return v
        # the factors of Length itself, which its contract (P09) holds to 1e-4
        return v * B.Length("1" + unit).value(ppi=ppi)

    X, Y = size(x, u, width), size(y, w, height)
    text, want = "translate(%s%s,%s%s)" % (x, u, y, w), m_translate(X, Y)
    more = t.choice("more", ["none", "scale first", "scale last"])
    if more != "none":
        sx, sy = t.real("sx", -5, 5), t.real("sy", -5, 5)
        scale = "scale(%s,%s)" % (sx, sy)
        if more == "scale last":
            text, want = text + " " + scale, m_then(m_scale(sx, sy), want)
        else:
            text, want = scale + " " + text, m_then(want, m_scale(sx, sy))
    how = t.choice("how", ["at once", "rendered later", "relative_length"])
    if how == "at once":
        M = B.Matrix(text, ppi=ppi, width=width, height=height)
    elif how == "rendered later":
        M = B.Matrix(text)
        M.render(ppi=ppi, width=width, height=height)
    else:
        t.require(t.And(width - height == 0) if t.mode == "sym" else True)
        if t.mode == "conc" and width != height:
            t.require(u != "%" and w != "%")
        M = B.Matrix(text, ppi=ppi, relative_length=width)
    t.eq("matrix", six(M), want)


@contract("P03", ["basic.Matrix." + s + n for s in ("pre_", "post_") for n in (
    "scale", "scale_x", "scale_y", "translate", "translate_x", "translate_y", "skew", "skew_x", "skew_y")],
          uses=["basic.Matrix.matrix_multiply"])
def left_out_arguments_are_neutral(t):
    """editing without arguments changes nothing; a left out second angle or shift is none, a left out second scale is
    the first, a left out coordinate of the centre is 0."""
    A = t.matrix("m")
    A0 = six(A)
    side = t.choice("side", ["pre", "post"])
    k = t.choice("k", ["scale", "scale_x", "scale_y", "translate", "translate_x", "translate_y", "skew", "skew_x", "skew_y",
                       "scale one", "translate one", "skew one", "scale about x", "scale about y", "scale_x about x",
                       "scale_y about y", "skew about y", "skew_x about y", "skew_y about x"])
    u, p = t.real("u", -50, 50), t.real("p")
    a = angle_arg(t, "a")
    tan_ok(t, a, a)
    edit = lambda name, *args, **kw: getattr(A, side + "_" + name)(*args, **kw)
    w = (1, 0, 0, 1, 0, 0)
    if " " not in k:
        edit(k)
    elif k == "scale one":
        edit("scale", u)
        w = m_scale(u, u)
    elif k == "translate one":
        edit("translate", u)
        w = m_translate(u, 0)
    elif k == "skew one":
        edit("skew", a)
        w = (1, 0, t.tan(a), 1, 0, 0)
    elif k == "scale about x":
        edit("scale", u, x=p)
        w = m_about(m_scale(u, u), p, 0)
    elif k == "scale about y":
        edit("scale", u, y=p)
        w = m_about(m_scale(u, u), 0, p)
    elif k == "scale_x about x":
        edit("scale_x", u, x=p)
        w = m_about(m_scale(u, 1), p, 0)
    elif k == "scale_y about y":
        edit("scale_y", u, y=p)
        w = m_about(m_scale(1, u), 0, p)
    elif k == "skew about y":
        edit("skew", a, y=p)
        w = m_about((1, 0, t.tan(a), 1, 0, 0), 0, p)
    elif k == "skew_x about y":
        edit("skew_x", a, y=p)
        w = m_about((1, 0, t.tan(a), 1, 0, 0), 0, p)
    else:
        edit("skew_y", a, x=p)
        w = m_about((1, t.tan(a), 0, 1, 0, 0), p, 0)
    t.eq("edited", six(A), m_then(w, A0) if side == "pre" else m_then(A0, w))
