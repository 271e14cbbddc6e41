# Reference semantics shared by the contracts (specification vocabulary; no code from /repo).
# A 2x3 matrix is the 6-tuple (a, b, c, d, e, f): (x, y) -> (a x + c y + e, b x + d y + f).
IDENTITY = (1, 0, 0, 1, 0, 0)


def m_apply(m, x, y):
    a, b, c, d, e, f = m
    return (a * x + c * y + e, b * x + d * y + f)


def m_then(m, n):
    """the map: apply m first, then n"""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (A * a + C * b, B * a + D * b, A * c + C * d, B * c + D * d, A * e + C * f + E, B * e + D * f + F)


def m_translate(x, y):
    return (1, 0, 0, 1, x, y)


def m_scale(x, y):
    return (x, 0, 0, y, 0, 0)


def m_rotate(t, ang):
    return (t.cos(ang), t.sin(ang), -t.sin(ang), t.cos(ang), 0, 0)


def m_skew(t, ax, ay):
    return (1, t.tan(ay), t.tan(ax), 1, 0, 0)


def m_about(m, x, y):
    return m_then(m_then(m_translate(-x, -y), m), m_translate(x, y))


def m_inverse(m):
    a, b, c, d, e, f = m
    k = a * d - b * c
    return (d / k, -b / k, -c / k, a / k, (c * f - d * e) / k, (b * e - a * f) / k)


def det(m):
    return m[0] * m[3] - m[1] * m[2]


def six(m):
    return (m.a, m.b, m.c, m.d, m.e, m.f)


def xy(p):
    return (p.x, p.y)
