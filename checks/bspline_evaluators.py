"""B-spline evaluation, differentiation, knot vectors, Bezier extraction"""
from va import dom
from va.dom import var
from va.rig import D, I32, I64, P, Ptr
from va.spec import bern, bspline, in_span, unique

PID = "C06"
EXPLAIN = ("De Boor evaluators (matrix, vector-of-matrices, plain vector, tensor product, derivative, tensor derivative) are abstractly "
           "interpreted with unknown control points at unknown points of every knot span and at the knots themselves, over a table of knot "
           "vectors (Bezier, uniform, graded, repeated interior knots, unequal degrees); each output must equal the linear combination with "
           "Cox-de Boor basis functions, or its formal derivative.  Knot vector constructors, knot search and local interpolation are "
           "interpreted on tables / unknown values; Bezier extraction matrices are propagated as constants and every B-spline must equal "
           "the combination of element-wise Bernstein polynomials given by its column, as polynomials on every span.")
MIN_OBLIGATIONS = {"quick": 1500}
KN = {  # name: (order, knots)
    "o1": (1, [0, 1]), "o1i": (1, [0, .25, .5, 1]), "o2": (2, [0, 0, 1, 1]), "o3": (3, [0, 0, 0, 1, 1, 1]),
    "o2u": (2, [0, 0, .5, 1, 1]), "o2r": (2, [0, 0, .25, .25, 1, 1]), "o3u": (3, [0, 0, 0, .25, .75, 1, 1, 1]),
    "o3r": (3, [0, 0, 0, .5, .5, 1, 1, 1]), "o4": (4, [0, 0, 0, 0, .125, .5, .5, 1, 1, 1, 1]), "o5": (5, [0] * 5 + [.375] + [1] * 5),
}
PAIRS = [("o2", "o3"), ("o2u", "o3u"), ("o3r", "o2"), ("o4", "o2u"), ("o1i", "o2r"), ("o3u", "o1")]
SRC = """
#include <Eigen/Dense>
#include <Bembel/Spline>
#include "common.hpp"
using namespace Bembel; using namespace Bembel::Spl;
typedef std::vector<double> V; typedef Eigen::MatrixXd M;
static V vec(const double *p, int n) { return V(p, p + n); }
static M mat(const double *p, int r, int c) { M m(r, c); for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) m(i, j) = p[j * r + i]; return m; }
static void out(const M &m, double *&o) { *o++ = m.rows(); *o++ = m.cols(); for (long j = 0; j < m.cols(); ++j) for (long i = 0; i < m.rows(); ++i) *o++ = m(i, j); }
static std::vector<M> two(const double *p, int r, int c) { std::vector<M> v; v.push_back(mat(p, r, c)); v.push_back(mat(p + r * c, r, c)); return v; }
static void out(const std::vector<M> &m, double *&o) { *o++ = m.size(); for (size_t i = 0; i < m.size(); ++i) out(m[i], o); }
static void out(const V &v, double *&o) { *o++ = v.size(); for (size_t i = 0; i < v.size(); ++i) *o++ = v[i]; }
extern "C" void db(int what, const double *cp, int r, int c, const double *kn, int nk, const double *pt, int np, double *o) {
  V k = vec(kn, nk), x = vec(pt, np);
  if (what == 0) out(DeBoor<double>(mat(cp, r, c), k, x), o);
  if (what == 1) out(DeBoor<double>(two(cp, r, c), k, x), o);
  if (what == 2) out(DeBoor<double>(vec(cp, c), k, x), o);
  if (what == 3) out(DeBoorDer<double>(mat(cp, r, c), k, x), o);
  if (what == 4) out(DeBoorDer<double>(two(cp, r, c), k, x), o);
  if (what == 5) { std::vector<M> d = deBoorDerGiveData<double>(two(cp, r, c), k); V tk(k.begin() + 1, k.end() - 1); out(DeBoor<double>(d, tk, x), o); }
}
extern "C" void tp(int what, int dx, int dy, const double *cp, int r, int c, const double *kx, int nkx, const double *ky, int nky, const double *px, int npx, const double *py, int npy, double *o) {
  V kX = vec(kx, nkx), kY = vec(ky, nky), x = vec(px, npx), y = vec(py, npy);
  if (what == 0) out(DeBoorTP<double>(mat(cp, r, c), kX, kY, x, y), o);
  if (what == 1) out(DeBoorTP<double>(two(cp, r, c), kX, kY, x, y), o);
  if (what == 2) out(DeBoorTPDer<double>(mat(cp, r, c), kX, kY, x, y, dx, dy), o);
  if (what == 3) out(DeBoorTPDer<double>(two(cp, r, c), kX, kY, x, y, dx, dy), o);
}
extern "C" void kn(int what, int a, int b, int c, const double *in, int n, double *o) {
  if (what == 0) out(MakeBezierKnotVector(a), o);
  if (what == 1) out(MakeUniformKnotVector(a, b, c), o);
  if (what == 2) out(MakeUniformKnotVector(a, b), o);
  if (what == 3) out(ExtractUniqueKnotVector(vec(in, n)), o);
  if (what == 4) *o = GetPolynomialDegreeFromKnotVector(vec(in, n));
  if (what == 5) out(MakeInterpolationMask(a), o);
  if (what == 6) out(MakeInterpolationPoints(vec(in, n), vec(in + n, a)), o);
}
extern "C" int loc(const double *x, const double *in, int n) { return FindLocationInKnotVector(*x, vec(in, n)); }
extern "C" double resc(double x, double a, double b) { return Rescale(x, a, b); }
extern "C" void gc(int inc, int n, const double *mask, const double *v, double *o) { out(GetCoefficients<double>(inc, vec(mask, n), vec(v, inc * n)), o); }
extern "C" void proj(const double *kx, int nkx, const double *ky, int nky, int px, int py, double *o) {
  V x = vec(kx, nkx), y = vec(ky, nky);
  Eigen::SparseMatrix<double> s = MakeProjection<double>(x, y, ExtractUniqueKnotVector(x), ExtractUniqueKnotVector(y), px, py);
  out(M(s), o);
}
extern "C" void unr(const double *cp, int r, int c, double *o) { Eigen::VectorXd v = Unroll<double>(mat(cp, r, c)); *o++ = v.size(); for (long i = 0; i < v.size(); ++i) *o++ = v(i); }
"""
WH = "Bembel/src/Spline/"


def witnesses(tier):
    return {"s": SRC}


def jobs(tier):
    js = []
    for n in KN:
        js.append(("curves %s" % n, "s", "j_curve", dict(name=n)))
    for a, b in PAIRS:
        js.append(("surfaces %s x %s" % (a, b), "s", "j_tp", dict(a=a, b=b)))
    js.append(("knot vectors", "s", "j_knots", {}))
    js.append(("knot search", "s", "j_loc", {}))
    for n in range(1, 6 if tier == "quick" else 9):
        js.append(("local interpolation %d" % n, "s", "j_coef", dict(n=n)))
    ex = [("o2", "o2"), ("o1i", "o2"), ("o2u", "o2"), ("o2", "o3u"), ("o3r", "o2u"), ("o2r", "o1i"), ("o3", "o4" if tier != "quick" else "o2r")]
    for a, b in ex:
        js.append(("extraction %s x %s" % (a, b), "s", "j_proj", dict(a=a, b=b)))
    js.append(("unroll", "s", "j_unroll", {}))
    return js


def put(it, name, vals):
    o = it.new_obj(name, 8 * len(vals), "undef")
    for i, v in enumerate(vals):
        it.poke(Ptr(o, 0), 8 * i, D, v)
    return Ptr(o, 0)


def rd(it, o, n, at=0):
    return [it.load(Ptr(o, 8 * (at + i)), D) for i in range(n)]


def cpv(i, name="cp"):
    return var("%s[%d]" % (name, 8 * i))


def spans(k):
    return len(unique(k)) - 1


def j_curve(job, name):
    order, k = KN[name]
    n = len(k) - order
    R = 2
    for s in range(spans(k)):
        for mode in ("inside", "knot"):
            u = unique(k)
            it = job.interp()
            X = var("x")
            N = bspline(k, order, X, s)
            if mode == "inside":
                in_span(X, k, s)
                pts = [X, float(u[0]), X]
                at = None
            else:
                pts = [float(u[s]), float(u[s])]
                at = {"x": float(u[s])}
            N0 = [dom.subst(v, {"x": float(u[0])}) for v in bspline(k, order, X, 0)]
            dN = [dom.diff(v, "x") for v in N]
            d0 = [dom.subst(dom.diff(v, "x"), {"x": float(u[0])}) for v in bspline(k, order, X, 0)]
            if at:
                N, dN = [dom.subst(v, at) for v in N], [dom.subst(v, at) for v in dN]
            B = [N, N0, N] if mode == "inside" else [N, N]
            dB = [dN, d0, dN] if mode == "inside" else [dN, dN]
            smooth = order > 1 and all(k.count(t) < order for t in u[1:-1])
            for what in range(6):
                if what >= 3 and not smooth:
                    continue
                if what >= 3 and order == 1:
                    continue
                o = it.new_obj("o", None, "undef")
                job.call(it, "db", [what, it.sym("cp"), R, n, put(it, "kn", [float(t) for t in k]), len(k), put(it, "pt", pts), len(pts), Ptr(o, 0)])
                bb = B if what < 3 else dB
                fn = ["DeBoor(matrix)", "DeBoor(vector of matrices)", "DeBoor(vector)", "DeBoorDer(matrix)", "DeBoorDer(vector of matrices)",
                      "deBoorDerGiveData"][what]
                pos = 0
                if what == 2:
                    if not job.check(it.load(Ptr(o, 0), D) == len(pts), "%s/size" % fn, "%s returns %r values" % (fn, it.load(Ptr(o, 0), D)), WH):
                        continue
                    for q in range(len(pts)):
                        want = sum((cpv(i) * bb[q][i] for i in range(n)), 0.0)
                        job.eq("%s/%s" % (fn, name), it.load(Ptr(o, 8 + 8 * q), D), want, "%s knots %s span %d (%s) point %d" % (fn, name, s, mode, q), where=WH + "DeBoor.hpp")
                    continue
                if what in (1, 4, 5):
                    job.check(it.load(Ptr(o, 0), D) == 2.0, "%s/dim" % fn, "%s number of matrices" % fn, WH)
                    pos = 1
                for m in range(2 if what in (1, 4, 5) else 1):
                    r, c = rd(it, o, 2, pos)
                    pos += 2
                    if not job.check((r, c) == (float(R), float(len(pts))), "%s/shape" % fn, "%s returns a %rx%r matrix" % (fn, r, c), WH):
                        break
                    for q in range(len(pts)):
                        for i0 in range(R):
                            want = sum((cpv(m * R * n + i * R + i0) * bb[q][i] for i in range(n)), 0.0)
                            job.eq("%s/%s" % (fn, name), it.load(Ptr(o, 8 * pos), D), want, "%s knots %s span %d (%s) matrix %d row %d point %d"
                                   % (fn, name, s, mode, m, i0, q), where=WH + "DeBoor.hpp")
                            pos += 1


def j_tp(job, a, b):
    ox, kx = KN[a]
    oy, ky = KN[b]
    nx, ny = len(kx) - ox, len(ky) - oy
    for s in range(spans(kx)):
        for t in range(spans(ky)):
            it = job.interp()
            X, Y = var("x"), var("y")
            in_span(X, kx, s)
            in_span(Y, ky, t)
            x1 = float(unique(kx)[-1])
            NX = [bspline(kx, ox, X, s), [dom.subst(v, {"x": x1}) for v in bspline(kx, ox, X, spans(kx) - 1)]]
            DX = [[dom.diff(v, "x") for v in NX[0]], [dom.subst(dom.diff(v, "x"), {"x": x1}) for v in bspline(kx, ox, X, spans(kx) - 1)]]
            NY = [bspline(ky, oy, Y, t)]
            DY = [[dom.diff(v, "y") for v in NY[0]]]
            for what, dx, dy in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1), (3, 0, 0), (3, 1, 0), (3, 0, 1), (3, 1, 1)):
                okx = ox > 1 and all(kx.count(z) < ox for z in unique(kx)[1:-1])
                oky = oy > 1 and all(ky.count(z) < oy for z in unique(ky)[1:-1])
                if (dx and not okx) or (dy and not oky):
                    continue
                fn = ["DeBoorTP", "DeBoorTP(vector)", "DeBoorTPDer(%d,%d)" % (dx, dy), "DeBoorTPDer(vector,%d,%d)" % (dx, dy)][what]
                o = it.new_obj("o", None, "undef")
                job.call(it, "tp", [what, dx, dy, it.sym("cp"), ny, nx, put(it, "kx", [float(z) for z in kx]), len(kx), put(it, "ky", [float(z) for z in ky]),
                                    len(ky), put(it, "px", [X, x1]), 2, put(it, "py", [Y]), 1, Ptr(o, 0)])
                pos = 0
                if what in (1, 3):
                    job.check(it.load(Ptr(o, 0), D) == 2.0, "%s/dim" % fn, "%s number of matrices" % fn)
                    pos = 1
                for m in range(2 if what in (1, 3) else 1):
                    r, c = rd(it, o, 2, pos)
                    pos += 2
                    if not job.check((r, c) == (2.0, 1.0), "%s/shape" % fn, "%s returns a %rx%r matrix (rows follow x points, columns y points)" % (fn, r, c), WH):
                        break
                    for q in range(2):
                        want = 0.0
                        for i in range(nx):
                            for j in range(ny):
                                want = want + cpv(m * nx * ny + i * ny + j) * ((DX if dx else NX)[q][i]) * ((DY if dy else NY)[0][j])
                        job.eq("%s/%s,%s" % (fn, a, b), it.load(Ptr(o, 8 * pos), D), want, "%s knots %s x %s span (%d,%d) matrix %d point %d" % (fn, a, b, s, t, m, q),
                               where=WH + "DeBoorTP.hpp")
                        pos += 1


def j_knots(job):
    it = job.interp()

    def run(what, a=0, b=0, c=0, vin=()):
        o = it.new_obj("o", None, "undef")
        job.call(it, "kn", [what, a, b, c, put(it, "in", list(vin) or [0.0]), len(vin) if what != 6 else b, Ptr(o, 0)])
        if what == 4:
            return it.load(Ptr(o, 0), D)
        n = it.load(Ptr(o, 0), D)
        return [it.load(Ptr(o, 8 + 8 * i), D) for i in range(int(n))]

    def cmp_(key, got, want, what):
        ok = len(got) == len(want) and all(dom.equal(g, w) for g, w in zip(got, want))
        job.check(ok, key, "%s: code %s, required %s" % (what, got, want), WH + "Knots.hpp")
    for p in range(1, 7):
        cmp_("bezier", run(0, p), [0.0] * p + [1.0] * p, "MakeBezierKnotVector(%d)" % p)
        for inter in range(0, 5):
            for rep in range(1, 4):
                w = [0.0] * p + [i / (inter + 1.0) for i in range(1, inter + 1) for _ in range(rep)] + [1.0] * p
                cmp_("uniform", run(1, p, inter, rep), w, "MakeUniformKnotVector(%d,%d,%d)" % (p, inter, rep))
            cmp_("uniform2", run(2, p, inter), [0.0] * p + [i / (inter + 1.0) for i in range(1, inter + 1)] + [1.0] * p, "MakeUniformKnotVector(%d,%d)" % (p, inter))
        cmp_("mask", run(5, p), [(i + 1.0) / (p + 1) for i in range(p)], "MakeInterpolationMask(%d)" % p)
    for n, (o, k) in KN.items():
        kk = [float(t) for t in k]
        cmp_("unique/" + n, run(3, vin=kk), [float(t) for t in unique(k)], "ExtractUniqueKnotVector(%s)" % n)
        job.check(run(4, vin=kk) == float(o), "degree/" + n, "GetPolynomialDegreeFromKnotVector(%s) = %r, required %d" % (n, run(4, vin=kk), o), WH + "Knots.hpp")
    cmp_("unique/roundoff", run(3, vin=[0.0, 1e-9, .5, .5 + 5e-8, 1.0]), [0.0, .5, 1.0], "ExtractUniqueKnotVector with knots equal up to rounding")
    m = [var("m0"), var("m1"), var("m2")]
    u = [0.0, var("u1"), var("u2"), 1.0]
    g = run(6, 3, 4, vin=u + m)
    cmp_("points", g, [u[i] + m[j] * (u[i + 1] - u[i]) for i in range(3) for j in range(3)], "MakeInterpolationPoints")


def j_loc(job):
    for n, (o, k) in KN.items():
        u = [float(t) for t in unique(k)]
        for s in range(len(u) - 1):
            it = job.interp()
            x = var("x[0]")
            in_span(x, k, s)
            r = job.call(it, "loc", [it.sym("x"), put(it, "u", u), len(u)])
            job.check(r == s, "search/" + n, "FindLocationInKnotVector in open span %d of %s gives %r" % (s, n, r), WH + "Knots.hpp")
            it = job.interp()
            px = put(it, "x", [u[s]])
            r = job.call(it, "loc", [px, put(it, "u", u), len(u)])
            job.check(r == s, "search/" + n, "FindLocationInKnotVector at knot %d of %s gives %r" % (s, n, r), WH + "Knots.hpp")
        it = job.interp()
        r = job.call(it, "loc", [put(it, "x", [1.0]), put(it, "u", u), len(u)])
        job.check(r == len(u) - 2, "search/" + n, "FindLocationInKnotVector at the right end of %s gives %r" % (n, r), WH + "Knots.hpp")
        it = job.interp()
        r = job.call(it, "loc", [put(it, "x", [-1e-9]), put(it, "u", u), len(u)])
        job.check(r == 0, "search/" + n, "FindLocationInKnotVector just left of 0 gives %r" % (r,), WH + "Knots.hpp")
        r = job.call(it, "loc", [put(it, "x", [1 + 1e-9]), put(it, "u", u), len(u)])
        job.check(r == len(u) - 2, "search/" + n, "FindLocationInKnotVector just right of 1 gives %r" % (r,), WH + "Knots.hpp")
    it = job.interp()
    x, a, b = var("x"), var("a"), var("b")
    dom.assume_pos(b - a)
    dom.assume_pos(a)
    r = job.call(it, "resc", [x, a, b])
    job.eq("rescale", r * (b - a), x - a, "Rescale(x,a,b)", where=WH + "Localize.hpp")
    r = job.call(it, "resc", [x, 0.0, 1.0])
    job.eq("rescale01", r, x, "Rescale(x,0,1)", where=WH + "Localize.hpp")
    dom.assume_pos(1.0 - b)
    r = job.call(it, "resc", [x, 0.0, b])
    job.eq("rescale0", r * b, x, "Rescale(x,0,b)", where=WH + "Localize.hpp")
    r = job.call(it, "resc", [x, a, 1.0])
    job.eq("rescale1", r * (1.0 - a), x - a, "Rescale(x,a,1)", where=WH + "Localize.hpp")


def j_coef(job, n):
    it = job.interp()
    it.max_steps = 10 ** 9
    mask = [(i + 1.0) / (n + 1) for i in range(n)]
    if n == 3:
        mask = [.1, .45, .8]
    for inc in (1, 3):
        o = it.new_obj("o", None, "undef")
        job.call(it, "gc", [inc, n, put(it, "mask", mask), it.sym("v"), Ptr(o, 0)])
        job.check(it.load(Ptr(o, 0), D) == float(inc * n), "coef/size", "GetCoefficients size", WH)
        for i in range(inc):
            c = [it.load(Ptr(o, 8 + 8 * (i * n + j)), D) for j in range(n)]
            for j in range(n):
                s = sum((c[q] * bern(n - 1, q, mask[j]) for q in range(n)), 0.0)
                job.eq("coef", s, var("v[%d]" % (8 * (i * n + j))), "GetCoefficients(increments %d, %d points): interpolant at point %d of block %d" % (inc, n, j, i),
                       where=WH + "Localize.hpp", tol=1e-9)


def j_proj(job, a, b):
    ox, kx = KN[a]
    oy, ky = KN[b]
    it = job.interp()
    it.max_steps = 10 ** 9
    o = it.new_obj("o", None, "undef")
    job.call(it, "proj", [put(it, "kx", [float(z) for z in kx]), len(kx), put(it, "ky", [float(z) for z in ky]), len(ky), ox, oy, Ptr(o, 0)])
    ex, ey = spans(kx), spans(ky)
    nbx, nby = ex * ox, ey * oy
    nx, ny = len(kx) - ox, len(ky) - oy
    r, c = rd(it, o, 2)
    if not job.check((r, c) == (float(nbx * nby), float(nx * ny)), "extraction/shape", "MakeProjection is %rx%r, required %dx%d" % (r, c, nbx * nby, nx * ny), WH):
        return
    ux, uy = unique(kx), unique(ky)
    X, Y = var("X"), var("Y")
    for i in range(nx):
        for j in range(ny):
            for s in range(ex):
                for t in range(ey):
                    xx = (X - ux[s]) * (1.0 / (ux[s + 1] - ux[s]))
                    yy = (Y - uy[t]) * (1.0 / (uy[t + 1] - uy[t]))
                    got = 0.0
                    for p in range(ox):
                        for q in range(oy):
                            row = (s * ox + p) * nby + t * oy + q
                            e = it.load(Ptr(o, 16 + 8 * ((i * ny + j) * nbx * nby + row)), D)
                            got = dom.add(got, dom.mul(e, dom.mul(bern(ox - 1, p, xx), bern(oy - 1, q, yy))))
                    want = dom.mul(bspline(kx, ox, X, s)[i], bspline(ky, oy, Y, t)[j])
                    job.eq("extraction/%s,%s" % (a, b), got, want, "Bezier form of B-spline (%d,%d) on element (%d,%d), knots %s x %s" % (i, j, s, t, a, b),
                           where=WH + "Bezierextraction.hpp", tol=1e-8)


def j_unroll(job):
    it = job.interp()
    o = it.new_obj("o", None, "undef")
    job.call(it, "unr", [it.sym("cp"), 2, 3, Ptr(o, 0)])
    job.check(it.load(Ptr(o, 0), D) == 6.0, "unroll/size", "Unroll size", WH + "Unroll.hpp")
    for i in range(6):
        job.eq("unroll", it.load(Ptr(o, 8 + 8 * i), D), cpv(i), "Unroll entry %d" % i, where=WH + "Unroll.hpp")
