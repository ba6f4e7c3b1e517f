"""homogenised Laplace: solid harmonics, their gradients, the periodic kernel and its coefficients"""
import math

from va import dom
from va.contracts import gauss
from va.dom import var
from va.rig import Broken, D, Ptr
from va.spec import C, PI, SP, basis2, dot, norm, vsub

PID = "C17"
EXPLAIN = ("The series routines are interpreted at an unknown point with unknown coefficients and compared with the closed form of the real solid harmonics "
           "(and its formal gradient) for every degree of the table; the coefficient routine is propagated through to its result, which must satisfy the normal "
           "equations of the periodicity conditions and the zero mean condition written down independently; kernel, operator and potential are compared "
           "with the resulting series at unknown points.")
MIN_OBLIGATIONS = {"quick": 400}
W = "Bembel/src/util/Sphericals.hpp"
WC = "Bembel/src/HomogenisedLaplace/Coefficients.hpp"
SRC = """
#define POINT_DEGREE 3
#include <Bembel/Geometry>
#include "geo.hpp"
#include <Bembel/AnsatzSpace>
#include <Bembel/Potential>
#include <Bembel/HomogenisedLaplace>
using namespace Bembel;
static Eigen::Vector3d V(const double *x) { return Eigen::Vector3d(x[0], x[1], x[2]); }
static Eigen::VectorXd cf(const double *c, int n) { Eigen::VectorXd v((n + 1) * (n + 1)); for (int i = 0; i < v.size(); ++i) v(i) = c[i]; return v; }
extern "C" {
void series(int what, const double *x, const double *c, int n, double *o) {
  if (what == 0) o[0] = evaluate_sphericals(V(x), cf(c, n), n);
  if (what == 1) o[0] = evaluate_solid_sphericals(V(x), cf(c, n), n, false);
  if (what == 2) o[0] = evaluate_solid_sphericals(V(x), cf(c, n), n, true);
  if (what == 3) { Eigen::Vector3d d = evaluate_dsphericals(V(x), cf(c, n), n); for (int i = 0; i < 3; ++i) o[i] = d(i); }
  if (what == 4) { Eigen::Vector3d d = evaluate_dsolid_sphericals(V(x), cf(c, n), n); for (int i = 0; i < 3; ++i) o[i] = d(i); }
}
void full(const double *x, int n, double *y, double *dy) {
  Eigen::MatrixXd Y = spherical_harmonics_full(V(x), n);
  Eigen::MatrixXd G = Dsolid_harmonics_full(V(x), n, Y);
  for (int i = 0; i < (n + 1) * (n + 1); ++i) { y[2 * i] = Y(i, 0); y[2 * i + 1] = Y(i, 1); for (int d = 0; d < 3; ++d) dy[3 * i + d] = G(d, i); }
}
void legendre(double t, int n, double *o) { Eigen::VectorXd l = legendreFull(n, t); for (int i = 0; i < l.size(); ++i) o[i] = l(i); }
double power(double x, int n) { return pow_int(x, n); }
void funmat(const double *x, double *o) { W::put(functionalMatrix(V(x)), o); }
void kmod(const double *x, double *o) { o[0] = k_mod(V(x)); Eigen::Vector3d d = Dk_mod(V(x)); for (int i = 0; i < 3; ++i) o[1 + i] = d(i); }
int degree(double p) { return getDegree(p); }
void coeffs(double p, double *o) { Eigen::VectorXd c = getCoefficients(p); o[0] = c.size(); for (int i = 0; i < c.size(); ++i) o[1 + i] = c(i); }
typedef HomogenisedLaplaceSingleLayerOperator Op;
typedef HomogenisedLaplaceSingleLayerPotential<Op> Pot;
double precision(double p, double q) { Op::setPrecision(p); Op::setPrecision(q); return Op::getPrecision(); }
Op *mkop(double p, double *o) { Op::setPrecision(p); Op *r = new Op; *o = Op::getPrecision(); return r; }
double kernel(const Op *op, const double *x, const double *y) { return op->evaluateKernel(V(x), V(y)); }
Pot *mkpot(double p) { Op::setPrecision(p); return new Pot; }
double pkernel(const Pot *op, const double *x, const double *y) { return op->evaluateKernel(V(x), V(y)); }
void integrand(const Op *op, int P, const SurfacePoint *a, const SurfacePoint *b, const double *init, double *o) {
  Geometry g = W::unit_square();
  SuperSpace<Op> ss(g, 0, P);
  int n = (P + 1) * (P + 1);
  Eigen::MatrixXd m(n, n);
  for (int i = 0; i < n * n; ++i) m(i) = init[i];
  op->evaluateIntegrand(ss, *a, *b, &m);
  for (int i = 0; i < n * n; ++i) o[i] = m(i);
}
double farfield(const Op *op, const SurfacePoint *a, const SurfacePoint *b) { return op->evaluateFMMInterpolation(*a, *b)(0, 0); }
struct Den { AnsatzSpace<Op> a; FunctionEvaluator<Op> f; };
Den *mkden(const double *f, double *w) {
  Geometry g = W::unit_square();
  Den *d = new Den; d->a = AnsatzSpace<Op>(g, 0, 1);
  Eigen::VectorXd v(d->a.get_number_of_dofs()); for (int i = 0; i < v.size(); ++i) v(i) = f[i];
  d->f = FunctionEvaluator<Op>(d->a, v);
  return d;
}
double pval(const Pot *p, const Den *d, const double *x, const SurfacePoint *s, double *u) {
  auto it = d->a.get_superspace().get_mesh().get_element_tree().cpbegin();
  *u = d->f.evaluate(*it, *s)(0);
  return p->evaluateIntegrand_impl(d->f, *it, V(x), *s)(0);
}
}
"""


def witnesses(tier):
    return {"h": SRC}


def jobs(tier):
    top = 6 if tier == "quick" else 12
    js = []
    for n in range(0, top + 1):
        js.append(("series degree %d" % n, "h", "j_series", dict(n=n)))
    for n in (0, 1, 2, 3, 5) if tier == "quick" else range(0, 9):
        js.append(("harmonics up to degree %d" % n, "h", "j_full", dict(n=n)))
    js.append(("Legendre, powers, projection matrix", "h", "j_small", {}))
    js.append(("free kernel", "h", "j_kmod", {}))
    js.append(("degree table", "h", "j_degree", {}))
    for p in (1e-3,) if tier == "quick" else (1e-3, 1e-5):
        js.append(("coefficients precision %g" % p, "h", "j_coeffs", dict(prec=p)))
    js.append(("operator", "h", "j_op", {}))
    js.append(("potential", "h", "j_pot", {}))
    return js


def nrm(n, m):
    return math.sqrt((2 * n + 1) / (4 * PI) * math.factorial(n - m) / math.factorial(n + m))


def legend(n, m, t, q):
    """d^m/dt^m P_n(t), homogenised: t -> z, 1 -> q (= squared radius)"""
    s = 0.0
    for k in range(n // 2 + 1):
        e = n - 2 * k
        if e < m:
            continue
        c = (-1) ** k * math.comb(n, k) * math.comb(2 * n - 2 * k, n) / 2.0 ** n * math.factorial(e) / math.factorial(e - m)
        s = dom.add(s, dom.mul(dom.mul(dom.powi(t, e - m), dom.powi(q, k)), c))
    return s


def cpow(x, y, m):
    r = C(1.0)
    for _ in range(m):
        r = r * C(x, y)
    return r


def solid(n, m, x):
    """complex solid harmonic r^n Y_n^m(x/r), no Condon-Shortley sign"""
    q = dot(x, x)
    return cpow(x[0], x[1], m) * C(dom.mul(legend(n, m, x[2], q), nrm(n, m)))


def xs(name="x"):
    return [var("%s[%d]" % (name, 8 * d)) for d in range(3)]


def cidx(n, m):
    return n * (n + 1) + m


def put_coeffs(it, n, f=None):
    c = it.new_obj("c", 8 * (n + 1) ** 2, "undef")
    for a in range(n + 1):
        for m in range(-a, a + 1):
            it.store(Ptr(c, 8 * cidx(a, m)), f(a, abs(m)) if f else var("c%d,%d" % (a, abs(m))), D)
    return Ptr(c, 0)


def total(n, x, f):
    s = 0.0
    for a in range(n + 1):
        for m in range(a + 1):
            s = dom.add(s, dom.mul(dom.mul(f(a, m), solid(a, m, x).re), 1.0 if m == 0 else 2.0))
    return s


def j_series(job, n):
    cv = lambda a, m: var("c%d,%d" % (a, m))
    # solid harmonics: any point
    it = job.interp()
    x = xs()
    N = norm(x)
    dom.assume_pos(dot(x, x))
    c = put_coeffs(it, n)
    o = it.new_obj("o", 24, "undef")
    f = total(n, x, cv)
    # at the origin nothing is claimed: multiply by powers of the radius
    K = dom.powi(N, 2 * max(n, 4))

    def same(key, got, want, what):
        job.eq(key, dom.mul(got, K), dom.mul(want, K), what, where=W)
    job.call(it, "series", [1, it.sym("x"), c, n, Ptr(o, 0)])
    same("evaluate_solid_sphericals/value", it.load(Ptr(o, 0), D), f, "solid harmonics series of degree %d" % n)
    rad = 0.0
    for d in range(3):
        rad = dom.add(rad, dom.mul(dom.diff(f, "x[%d]" % (8 * d)), x[d]))
    job.call(it, "series", [2, it.sym("x"), c, n, Ptr(o, 0)])
    radial = it.load(Ptr(o, 0), D)
    same("evaluate_solid_sphericals/radial", dom.mul(radial, N), rad, "radial derivative of the series of degree %d" % n)
    job.call(it, "series", [4, it.sym("x"), c, n, Ptr(o, 0)])
    g = [it.load(Ptr(o, 8 * d), D) for d in range(3)]
    q = dot(x, x)
    gx = dot(g, x)
    for d in range(3):
        grad = dom.add(dom.mul(dom.div(x[d], N), radial), dom.sub(dom.mul(q, g[d]), dom.mul(x[d], gx)))
        same("evaluate_dsolid_sphericals/gradient%d" % d, dom.mul(grad, N), dom.mul(dom.diff(f, "x[%d]" % (8 * d)), N),
             "gradient of the series of degree %d assembled from radial and angular part, component %d" % (n, d))
    # spherical harmonics: points of the unit sphere, written as p/|p|
    it = job.interp()
    it.max_steps = 10 ** 8
    p = xs("p")
    N = norm(p)
    dom.assume_pos(dot(p, p))
    u = it.new_obj("u", 24, "undef")
    for d in range(3):
        it.store(Ptr(u, 8 * d), dom.div(p[d], N), D)
    y = [it.load(Ptr(u, 8 * d), D) for d in range(3)]
    c = put_coeffs(it, n)
    o = it.new_obj("o", 24, "undef")
    K = dom.powi(N, 2 * max(n, 1) + 2)
    want = 0.0
    for a in range(n + 1):
        for m in range(a + 1):
            # degree a polynomial in y on the sphere: multiply by N^a
            want = dom.add(want, dom.mul(dom.mul(dom.mul(cv(a, m), solid(a, m, p).re), 1.0 if m == 0 else 2.0), dom.powi(N, -a) if a else 1.0))
    job.call(it, "series", [0, Ptr(u, 0), c, n, Ptr(o, 0)])
    same("evaluate_sphericals", it.load(Ptr(o, 0), D), want, "spherical harmonics series of degree %d" % n)
    job.call(it, "series", [3, Ptr(u, 0), c, n, Ptr(o, 0)])
    g = [it.load(Ptr(o, 8 * d), D) for d in range(3)]
    gy = dot(g, y)
    for d in range(3):
        # tangential part; compare with |p| grad of f(p/|p|)
        tang = dom.sub(g[d], dom.mul(y[d], gy))
        w = 0.0
        for a in range(n + 1):
            for m in range(a + 1):
                h = solid(a, m, p).re
                t = dom.sub(dom.mul(dom.diff(h, "p[%d]" % (8 * d)), dot(p, p)), dom.mul(dom.mul(h, float(a)), p[d]))
                w = dom.add(w, dom.mul(dom.mul(dom.mul(cv(a, m), t), 1.0 if m == 0 else 2.0), dom.powi(N, -a - 1)))
        same("evaluate_dsphericals/%d" % d, tang, w, "surface gradient of the spherical harmonics series of degree %d, component %d" % (n, d))


def j_full(job, n):
    it = job.interp()
    it.max_steps = 10 ** 8
    x = xs()
    N = norm(x)
    dom.assume_pos(dot(x, x))
    k = (n + 1) ** 2
    y, dy = it.new_obj("y", 16 * k, "undef"), it.new_obj("dy", 24 * k, "undef")
    job.call(it, "full", [it.sym("x"), n, Ptr(y, 0), Ptr(dy, 0)])
    K = dom.powi(N, 2 * max(n, 4))

    def same(key, got, want, what):
        job.eq(key, dom.mul(got, K), dom.mul(want, K), what, where=W)
    for a in range(n + 1):
        for m in range(-a, a + 1):
            h = solid(a, abs(m), x)
            if m < 0:
                h = h.conj()
            i = cidx(a, m)
            s = dom.powi(N, a) if a else 1.0
            same("spherical_harmonics_full/re", dom.mul(it.load(Ptr(y, 16 * i), D), s), h.re, "Re Y_%d^%d of spherical_harmonics_full(.., %d)" % (a, m, n))
            same("spherical_harmonics_full/im", dom.mul(it.load(Ptr(y, 16 * i + 8), D), s), h.im, "Im Y_%d^%d of spherical_harmonics_full(.., %d)" % (a, m, n))
            for d in range(3):
                # Y holds r^-a times the solid harmonic: the routine returns the gradient of r^a Y
                same("Dsolid_harmonics_full/%d" % d, it.load(Ptr(dy, 24 * i + 8 * d), D), dom.diff(h.re, "x[%d]" % (8 * d)),
                     "component %d of the gradient of the solid harmonic (%d,%d)" % (d, a, m))


def j_small(job):
    for n in range(0, 7):
        it = job.interp()
        o = it.new_obj("o", None, "undef")
        job.call(it, "legendre", [var("t"), n, Ptr(o, 0)])
        for a in range(n + 1):
            for m in range(a + 1):
                job.eq("legendreFull", it.load(Ptr(o, 8 * (a * (a + 1) // 2 + m)), D), legend(a, m, var("t"), 1.0), "derivative %d of the Legendre polynomial %d" % (m, a), where=W)
    for n in range(-4, 6):
        it = job.interp()
        dom.assume_pos(var("b"))
        v = job.call(it, "power", [var("b"), n])
        job.eq("pow_int", v, dom.powi(var("b"), n), "pow_int(b, %d)" % n, where=W)
    it = job.interp()
    x = xs()
    dom.assume_pos(dot(x, x))
    o = it.new_obj("o", None, "undef")
    job.call(it, "funmat", [it.sym("x"), Ptr(o, 0)])
    for i in range(3):
        for j in range(3):
            w = dom.sub(dot(x, x) if i == j else 0.0, dom.mul(x[i], x[j]))
            job.eq("functionalMatrix", it.load(Ptr(o, 16 * (3 * j + i)), D), w, "entry (%d,%d) of |z|^3 times the Jacobian of z/|z|" % (i, j), where=W)


def kmod(x):
    s = dom.mul(dot(x, x), 1 / 6.0)
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            for k in (-1, 0, 1):
                s = dom.add(s, dom.div(1.0 / (4 * PI), norm(vsub(x, [float(i), float(j), float(k)]))))
    return s


def apart(x):
    """x is no point of the lattice"""
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            for k in (-1, 0, 1):
                d = vsub(x, [float(i), float(j), float(k)])
                dom.assume_pos(dot(d, d))


def j_kmod(job):
    it = job.interp()
    x = xs()
    apart(x)
    o = it.new_obj("o", 32, "undef")
    job.call(it, "kmod", [it.sym("x"), Ptr(o, 0)])
    w = kmod(x)
    job.eq("k_mod", it.load(Ptr(o, 0), D), w, "sum over the neighbouring cells plus |x|^2/6", where=WC)
    for d in range(3):
        job.eq("Dk_mod/%d" % d, it.load(Ptr(o, 8 + 8 * d), D), dom.diff(w, "x[%d]" % (8 * d)), "gradient of k_mod, component %d" % d, where=WC)


def j_degree(job):
    it = job.interp()
    last = 0
    for p in (1.0, 1e-2, 1.0001e-4, 1e-4, 1e-5, 1.0001e-6, 1e-6, 1e-8, 1e-12):
        d = job.call(it, "degree", [p])
        want = 4 if p > 1e-4 else 8 if p > 1e-6 else 12
        job.check(d == want, "getDegree", "degree %s for precision %g, expected %d" % (d, p, want), WC)
    for p, q in ((1e-3, 1e-5), (1e-8, 1e-2)):
        job.eq("precision", job.call(it, "precision", [p, q]), q, "the precision read back is the one set last", where="Bembel/src/HomogenisedLaplace/SingleLayerOperator.hpp")


def nsolid(n, m, x):
    q = sum(t * t for t in x)
    z = complex(x[0], x[1]) ** m
    s = 0.0
    for k in range(n // 2 + 1):
        e = n - 2 * k
        if e >= m:
            s += (-1) ** k * math.comb(n, k) * math.comb(2 * n - 2 * k, n) / 2.0 ** n * math.factorial(e) / math.factorial(e - m) * x[2] ** (e - m) * q ** k
    return (z * s * nrm(n, m)).real


def ngrad(n, m, x, d):
    it = [var("nx"), var("ny"), var("nz")]
    g = dom.diff(solid(n, m, it).re, ("nx", "ny", "nz")[d])
    return dom.subst(g, {"nx": x[0], "ny": x[1], "nz": x[2]})


def nkmod(x):
    s = sum(t * t for t in x) / 6
    g = [t / 3 for t in x]
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            for k in (-1, 0, 1):
                y = [x[0] - i, x[1] - j, x[2] - k]
                r = math.sqrt(sum(t * t for t in y))
                s += 1 / (4 * PI * r)
                for d in range(3):
                    g[d] -= y[d] / (4 * PI * r ** 3)
    return s, g


def get_coeffs(job, it, prec):
    o = it.new_obj("o", None, "undef")
    job.call(it, "coeffs", [prec, Ptr(o, 0)])
    n = int(it.load(Ptr(o, 0), D))
    c = [it.load(Ptr(o, 8 + 8 * i), D) for i in range(n)]
    if not all(isinstance(v, (float, int)) for v in c):
        raise Broken("coefficients are not constants")
    return c


def j_coeffs(job, prec):
    it = job.interp()
    it.max_steps = 10 ** 9
    it.loopmax = 10 ** 7
    c = get_coeffs(job, it, prec)
    deg = 4 if prec > 1e-4 else 8
    if not job.check(len(c) == (deg + 1) ** 2, "getCoefficients/size", "%d coefficients for degree %d" % (len(c), deg), WC):
        return
    job.check(all(isinstance(v, float) and math.isfinite(v) for v in c), "getCoefficients/finite", "coefficients are finite", WC)
    G1 = gauss(4)
    faces = []
    for d in range(3):
        for a in range(4):
            for b in range(4):
                pt = [G1[a][0] - .5, G1[b][0] - .5]
                pt.insert(d, -.5)
                faces.append((d, pt, G1[a][1] * G1[b][1]))
    idx = [(n, m) for n in range(1, deg + 1) for m in range(n + 1)]
    grads = {(n, m, d): dom.diff(solid(n, m, [var("nx"), var("ny"), var("nz")]).re, ("nx", "ny", "nz")[d]) for n, m in idx for d in range(3)}
    rows = []
    for d, a, w in faces:
        b = list(a)
        b[d] += 1
        ka, ga = nkmod(a)
        kb, gb = nkmod(b)
        f = lambda m: 1.0 if m == 0 else 2.0
        rows.append(([f(m) * (nsolid(n, m, a) - nsolid(n, m, b)) for n, m in idx], ka - kb))
        gv = []
        for n, m in idx:
            e = grads[n, m, d]
            va, vb = [dom.subst(e, dict(zip(("nx", "ny", "nz"), q))) for q in (a, b)]
            gv.append(f(m) * (float(va) - float(vb)))
        rows.append((gv, ga[d] - gb[d]))
    for n, m in idx:
        job.eq("getCoefficients/conjugate", c[cidx(n, -m)], c[cidx(n, m)], "coefficient (%d,%d) equals (%d,%d)" % (n, -m, n, m), where=WC)
    sol = [c[cidx(n, m)] for n, m in idx]
    res = [sum(a * s for a, s in zip(r, sol)) + v for r, v in rows]
    scale = sum(v * v for r, v in rows) ** .5
    for j, (n, m) in enumerate(idx):
        g = sum(r[j] * t for (r, v), t in zip(rows, res))
        cn = sum(r[j] ** 2 for r, v in rows) ** .5
        job.check(abs(g) <= 1e-9 * (1e-3 + cn) * scale, "getCoefficients/normal(%d,%d)" % (n, m),
                  "the coefficients minimise the jumps of value and normal derivative across the cell: normal equation (%d,%d) residual %.2e" % (n, m, g), WC)
    # columns that vanish (even harmonics): any coefficient is a minimiser, but the harmless one is zero or small
    mean = 0.0
    for d, a, w in faces:
        mean += w * (nkmod(a)[0] + sum((1.0 if m == 0 else 2.0) * s * nsolid(n, m, a) for (n, m), s in zip(idx, sol)))
    want = -(mean / 3 + 1 / 24.0) * 2 * math.sqrt(PI)
    job.eq("getCoefficients/mean", c[0], want, "the constant makes the mean of the kernel over the cell vanish", where=WC, tol=1e-9)


def kernel_spec(c, x):
    n = int(round(math.sqrt(len(c)))) - 1
    s = kmod(x)
    for a in range(n + 1):
        for m in range(a + 1):
            s = dom.add(s, dom.mul(solid(a, m, x).re, c[cidx(a, m)] * (1.0 if m == 0 else 2.0)))
    return s


def evenr(v, N):
    return dom.mul(v, dom.powi(N, 8))


def setup_kernel(job, maker, prec, extra):
    it = job.interp()
    it.max_steps = 10 ** 9
    it.loopmax = 10 ** 7
    c = get_coeffs(job, it, prec)
    op = job.call(it, maker, [prec] + extra(it))
    return it, c, op


def j_op(job):
    prec = 1e-3
    it, c, op = setup_kernel(job, "mkop", prec, lambda it: [Ptr(it.new_obj("pr", 8, "undef"), 0)])
    WO = "Bembel/src/HomogenisedLaplace/SingleLayerOperator.hpp"
    a, b = SP("a"), SP("b")
    dd = vsub(a.x, b.x)
    apart(dd)
    for s in (a, b):
        dom.assume_pos(dot(s.n, s.n))
    N = norm(dd)
    v = job.call(it, "kernel", [op, Ptr(it.sym("a").obj, 24), Ptr(it.sym("b").obj, 24)])
    k = kernel_spec(c, dd)
    job.eq("evaluateKernel", evenr(v, N), evenr(k, N), "kernel at two unknown points: free part of x-y plus the series with the coefficients of the set precision", where=WO, tol=1e-9)
    f = job.call(it, "farfield", [op, it.sym("a"), it.sym("b")])
    job.eq("evaluateFMMInterpolation", f, dom.mul(v, dom.mul(a.kappa, b.kappa)), "far-field entry is kernel times both measures", where=WO)
    P = 1
    n = 4
    o = it.new_obj("o", 8 * n * n, "undef")
    job.call(it, "integrand", [op, P, it.sym("a"), it.sym("b"), it.sym("i"), Ptr(o, 0)])
    ba, bb = basis2(P, a.xi), basis2(P, b.xi)
    g = dom.mul(v, dom.mul(dom.mul(a.kappa, b.kappa), dom.mul(a.w, b.w)))
    for j in range(n):
        for i in range(n):
            e = 8 * (j * n + i)
            job.eq("evaluateIntegrand/(%d,%d)" % (i, j), it.load(Ptr(o, e), D), dom.add(var("i[%d]" % e), dom.mul(g, dom.mul(ba[i], bb[j]))),
                   "integrand entry (%d,%d) is added: weights, measures, kernel, shape functions" % (i, j), where=WO)


def j_pot(job):
    prec = 1e-3
    it, c, pot = setup_kernel(job, "mkpot", prec, lambda it: [])
    WP = "Bembel/src/HomogenisedLaplace/SingleLayerPotential.hpp"
    s = SP("s")
    x = xs()
    dd = vsub(x, s.x)
    apart(dd)
    dom.assume_pos(dot(s.n, s.n))
    N = norm(dd)
    v = job.call(it, "pkernel", [pot, it.sym("x"), Ptr(it.sym("s").obj, 24)])
    job.eq("potential kernel", evenr(v, N), evenr(kernel_spec(c, dd), N), "kernel of the potential", where=WP, tol=1e-9)
    den = job.call(it, "mkden", [it.sym("f"), Ptr(it.new_obj("w", 8, "undef"), 0)])
    u = it.new_obj("u", 8, "undef")
    r = job.call(it, "pval", [pot, den, it.sym("x"), it.sym("s"), Ptr(u, 0)])
    job.eq("potential value", r, dom.mul(dom.mul(v, it.load(Ptr(u, 0), D)), dom.mul(s.kappa, s.w)), "value is kernel times density times measure times weight", where=WP)
