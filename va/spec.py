"""Reference formulas (the specification side), written over the abstract domain."""
import math

from . import dom
from .dom import var

PI = math.pi


class C:
    """complex number over dom values"""
    __slots__ = ("re", "im")

    def __init__(self, re, im=0.0):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        return x if isinstance(x, C) else C(x, 0.0)

    def __add__(self, o):
        o = C.of(o)
        return C(dom.add(self.re, o.re), dom.add(self.im, o.im))
    __radd__ = __add__

    def __neg__(self):
        return C(dom.neg(self.re), dom.neg(self.im))

    def __sub__(self, o):
        return self + (-C.of(o))

    def __rsub__(self, o):
        return C.of(o) + (-self)

    def __mul__(self, o):
        o = C.of(o)
        return C(dom.sub(dom.mul(self.re, o.re), dom.mul(self.im, o.im)),
                 dom.add(dom.mul(self.re, o.im), dom.mul(self.im, o.re)))
    __rmul__ = __mul__

    def conj(self):
        return C(self.re, dom.neg(self.im))

    def __truediv__(self, o):
        o = C.of(o)
        if dom.is_num(o.im) and o.im == 0:
            return C(dom.div(self.re, o.re), dom.div(self.im, o.re))
        n = dom.add(dom.mul(o.re, o.re), dom.mul(o.im, o.im))
        r = self * o.conj()
        return C(dom.div(r.re, n), dom.div(r.im, n))

    def exp(self):
        e = dom.fn("exp", self.re)
        return C(dom.mul(e, dom.fn("cos", self.im)), dom.mul(e, dom.fn("sin", self.im)))

    def diff(self, n):
        return C(dom.diff(self.re, n), dom.diff(self.im, n))


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    s = 0.0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return dom.sqrt(dot(a, a))


class SP:
    """an unknown SurfacePoint: every one of the 12 entries is an unknown real"""

    def __init__(self, name):
        e = [var("%s[%d]" % (name, 8 * i)) for i in range(12)]
        self.e = e
        self.xi = e[0:2]
        self.w = e[2]
        self.x = e[3:6]
        self.dx = e[6:9]
        self.dy = e[9:12]
        self.n = cross(self.dx, self.dy)
        self.kappa = norm(self.n)

    def pname(self, name, d):
        return "%s[%d]" % (name, 8 * (3 + d))


def bern(p, i, x):
    """Bernstein polynomial  C(p,i) x^i (1-x)^(p-i)"""
    if i < 0 or i > p:
        return 0.0
    return dom.mul(dom.mul(dom.powi(x, i), dom.powi(dom.sub(1.0, x), p - i)), float(math.comb(p, i)))


def dbern(p, i, x):
    """its derivative, written down directly from the definition"""
    a = dom.mul(dom.powi(x, i - 1), dom.powi(dom.sub(1.0, x), p - i)) if i > 0 else 0.0
    b = dom.mul(dom.powi(x, i), dom.powi(dom.sub(1.0, x), p - i - 1)) if p - i > 0 else 0.0
    return dom.mul(dom.sub(dom.mul(a, float(i)), dom.mul(b, float(p - i))), float(math.comb(p, i)))


def basis2(p, xi):
    """tensor product basis: entry j*(p+1)+i = B_i(x) B_j(y)"""
    bx = [bern(p, i, xi[0]) for i in range(p + 1)]
    by = [bern(p, i, xi[1]) for i in range(p + 1)]
    return [dom.mul(bx[i], by[j]) for j in range(p + 1) for i in range(p + 1)]


def basis2dx(p, xi):
    bx = [dbern(p, i, xi[0]) for i in range(p + 1)]
    by = [bern(p, i, xi[1]) for i in range(p + 1)]
    return [dom.mul(bx[i], by[j]) for j in range(p + 1) for i in range(p + 1)]


def basis2dy(p, xi):
    bx = [bern(p, i, xi[0]) for i in range(p + 1)]
    by = [dbern(p, i, xi[1]) for i in range(p + 1)]
    return [dom.mul(bx[i], by[j]) for j in range(p + 1) for i in range(p + 1)]


def G(k, x, y):
    """Helmholtz fundamental solution exp(-ik|x-y|)/(4 pi |x-y|); k None = Laplace"""
    r = norm(vsub(x, y))
    g = dom.div(1.0, dom.mul(r, 4.0 * PI))
    if k is None:
        return C(g)
    return (C(0.0, -1.0) * k * C(r)).exp() * C(g)


def unique(knots, tol=1e-9):
    u = [knots[0]]
    for k in knots[1:]:
        if k > u[-1] + tol:
            u.append(k)
    return u


def bspline(knots, order, x, span):
    """all B-splines of the given order (degree+1) by the Cox-de Boor definition, as polynomials in x valid on the
    non-empty knot span  [u[span], u[span+1]]"""
    u = unique(knots)
    a, b = u[span], u[span + 1]
    n = len(knots) - 1
    N = []
    for i in range(n):
        N.append(1.0 if knots[i] <= a + 1e-12 and knots[i + 1] >= b - 1e-12 and knots[i + 1] > knots[i] else 0.0)
    for k in range(2, order + 1):
        M = []
        for i in range(len(N) - 1):
            v = 0.0
            d1 = knots[i + k - 1] - knots[i]
            d2 = knots[i + k] - knots[i + 1]
            if d1 > 0:
                v = dom.add(v, dom.mul(dom.mul(dom.sub(x, knots[i]), 1.0 / d1), N[i]))
            if d2 > 0:
                v = dom.add(v, dom.mul(dom.mul(dom.sub(knots[i + k], x), 1.0 / d2), N[i + 1]))
            M.append(v)
        N = M
    return N


def in_span(x, knots, span, margin=1e-6):
    """standing assumptions: u[span]+margin < x < u[span+1] (open knot span)"""
    u = unique(knots)
    for j, k in enumerate(u):
        if j <= span:
            dom.assume_pos(dom.sub(x, k))
        else:
            dom.assume_pos(dom.sub(k, x))
    dom.assume_pos(dom.sub(x, margin))
