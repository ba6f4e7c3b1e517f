"""far field ingredients: kernel matrix, moments, transfer matrices, up/down sweeps"""
import math

from va import dom
from va.dom import var
from va.spec import bern, dbern
from va.contracts import gauss, use_gauss
from checks.ops import *

PID = "C05"
EXPLAIN = ("(1) evaluateFMMInterpolation of every operator, interpreted on two unknown surface points, must equal the formally derived kernel "
           "matrix whose components pair with the moment blocks; (2) the moment matrices are closed constants: constant propagation "
           "yields every entry, compared with the exact integral of Lagrange polynomial times shape function (or derivative) over the "
           "element at its hierarchical position; (3) Lagrange basis at an unknown point, transfer matrices against the re-expansion of "
           "parent Lagrange polynomials at the son's points; (4) forward/backward sweeps on unknown moments, transfers and vectors against "
           "the block formula and its transpose; (5) interpolateKernel entry layout for unknown patches.")
MIN_OBLIGATIONS = {"quick": 3000}
ALL = list(OPS)


def cls(n):
    return OPS[n][0]


def wsrc(n):
    return "#include <Eigen/Dense>\n#include <Bembel/H2Matrix>\n#include <Bembel/%s>\n" % OPS[n][1] + COMMON + """
typedef H2Multipole::ChebychevRoots CR;
typedef %s Op;
extern "C" long mom(int cl, int ref, int np, int P, double *out, long *dims) {
  Geometry g = W::unit_square();
  SuperSpace<Op> ss(g, 0, P);
  std::vector<Eigen::MatrixXd> v = H2Multipole::Moment2D<CR, Op>::compute2DMoment(ss, cl, ref, np);
  long k = 0;
  for (size_t q = 0; q < v.size(); ++q) {
    dims[2 * q] = v[q].rows(); dims[2 * q + 1] = v[q].cols();
    for (long j = 0; j < v[q].cols(); ++j) for (long i = 0; i < v[q].rows(); ++i) out[k++] = v[q](i, j);
  }
  return v.size();
}
extern "C" void fk(const double*k,const SurfacePoint*a,const SurfacePoint*b,double*o){fmm<Op>(k,a,b,o);}
extern "C" long dimf(long*d){ d[0]=getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>(); d[1]=LinearOperatorTraits<Op>::NumberOfFMMComponents; return 0; }
extern "C" void ik(const double *k, const double *va, const double *vb, const double *pts, int np, const double *el, double *lhs, double *rhs) {
  PatchVector pv; pv.push_back(W::bilinear(va)); pv.push_back(W::bilinear(vb));
  Geometry dummy = W::unit_square();
  SuperSpace<Op> ss(dummy, 0, 0);
  const_cast<PatchVector&>(ss.get_geometry()) = pv;
  Op op; setk(op, k, Cplx<Op>());
  ElementTreeNode c1, c2;
  c1.patch_ = 0; c1.level_ = 1; c1.llc_ = Eigen::Vector2d(el[0], el[1]);
  c2.patch_ = 1; c2.level_ = 2; c2.llc_ = Eigen::Vector2d(el[2], el[3]);
  Eigen::MatrixXd x(np, 2);
  for (int i = 0; i < np; ++i) { x(i, 0) = pts[2 * i]; x(i, 1) = pts[2 * i + 1]; }
  W::put(H2Multipole::interpolateKernel<Op>(op, ss, x, c1, c2), lhs);
  const int d = getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>() * LinearOperatorTraits<Op>::NumberOfFMMComponents;
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  Eigen::Matrix<S, -1, -1> F(d * np, d * np);
  for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) {
    SurfacePoint p, q;
    ss.map2surface(c1, Eigen::Vector2d(pts[2 * i], pts[2 * i + 1]), 1., &p);
    ss.map2surface(c2, Eigen::Vector2d(pts[2 * j], pts[2 * j + 1]), 1., &q);
    auto m = op.evaluateFMMInterpolation(p, q);
    for (int r = 0; r < d; ++r) for (int s = 0; s < d; ++s) F(r * np + i, s * np + j) = m(r, s);
  }
  W::put(F, rhs);
}
""" % cls(n)


def wplain():
    return """#include <Eigen/Dense>
#include <Bembel/H2Matrix>
#include <Bembel/Laplace>
#include "geo.hpp"
using namespace Bembel;
typedef H2Multipole::ChebychevRoots CR;
extern "C" void cheb(int n, double *o) { Eigen::VectorXd x = CR(n).points_; for (int i = 0; i < n; ++i) o[i] = x(i); o[n] = x.size(); }
extern "C" void lag(int n, const double *xi, double *o) {
  Eigen::MatrixXd L = H2Multipole::computeLagrangePolynomials<CR>(n);
  for (int i = 0; i < n; ++i) o[i] = H2Multipole::evaluatePolynomial<CR>(L.col(i), *xi);
}
extern "C" void tra(int n, double *o) { Eigen::MatrixXd T = H2Multipole::computeTransferMatrices<CR>(n);
  for (long j = 0; j < T.cols(); ++j) for (long i = 0; i < T.rows(); ++i) *o++ = T(i, j); }
extern "C" void ip2(int n, const double *x, double *o) { Eigen::VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = x[i];
  Eigen::MatrixXd m = H2Multipole::interpolationPoints2D(v); for (long i = 0; i < m.rows(); ++i) { *o++ = m(i, 0); *o++ = m(i, 1); } }
template <class S> static void fwd(int np2, int nc, int pd, int ne, int steps, const double *M, const double *T, const double *x, double *o) {
  Eigen::MatrixXd mm(nc * np2, pd), tt(np2, 4 * np2); Eigen::Matrix<S, -1, -1> r(pd, ne);
  for (long k = 0; k < mm.size(); ++k) mm.data()[k] = M[k];
  for (long k = 0; k < tt.size(); ++k) tt.data()[k] = T[k];
  for (long k = 0; k < r.size(); ++k) W::get(r.data()[k], x + 2 * k);
  auto v = H2Multipole::forwardTransformation<S>(mm, tt, steps, r);
  for (auto &m : v) { W::put(m, o); o += 2 * m.size(); }
  *o = v.size();
}
template <class S> static void bwd(int np2, int nc, int pd, int ne, int steps, const double *M, const double *T, const double *x, double *o) {
  Eigen::MatrixXd mm(nc * np2, pd), tt(np2, 4 * np2);
  for (long k = 0; k < mm.size(); ++k) mm.data()[k] = M[k];
  for (long k = 0; k < tt.size(); ++k) tt.data()[k] = T[k];
  std::vector<Eigen::Matrix<S, -1, -1>> b;
  for (int s = 0; s <= steps; ++s) { Eigen::Matrix<S, -1, -1> m(nc * np2, ne >> (2 * s));
    for (long k = 0; k < m.size(); ++k, x += 2) W::get(m.data()[k], x); b.push_back(m); }
  W::put(H2Multipole::backwardTransformation<S>(mm, tt, steps, b), o);
}
#define A int np2, int nc, int pd, int ne, int steps, const double *M, const double *T, const double *x, double *o
extern "C" void fwd_r(A) { fwd<double>(np2, nc, pd, ne, steps, M, T, x, o); }
extern "C" void fwd_c(A) { fwd<std::complex<double>>(np2, nc, pd, ne, steps, M, T, x, o); }
extern "C" void bwd_r(A) { bwd<double>(np2, nc, pd, ne, steps, M, T, x, o); }
extern "C" void bwd_c(A) { bwd<std::complex<double>>(np2, nc, pd, ne, steps, M, T, x, o); }
"""


def witnesses(tier):
    w = {"op_" + n: wsrc(n) for n in ALL}
    w["plain"] = wplain()
    return w


def jobs(tier):
    js = []
    th = tier != "quick"
    for n in ALL:
        js.append(("kernel " + n, "op_" + n, "j_kernel", dict(name=n)))
        js.append(("layout " + n, "op_" + n, "j_layout", dict(name=n, np=2 if n not in ("HHS", "MSL") else 1)))
        for P in range(0 if OPS[n][4] == 1 else 1, 5 if th else 3):
            for cl, ref, np in ([(0, 0, 1), (0, 1, 3), (1, 1, 2), (2, 0, 4)] if not th else
                                [(0, 0, 1), (0, 1, 3), (1, 1, 2), (2, 0, 4), (1, 2, 3), (3, 1, 5), (0, 1, 9)]):
                js.append(("moments %s P=%d cluster %d refine %d points %d" % (n, P, cl, ref, np), "op_" + n, "j_mom",
                           dict(name=n, P=P, cl=cl, ref=ref, np=np)))
    for n in range(1, 10 if not th else 17):
        js.append(("lagrange %d" % n, "plain", "j_lag", dict(n=n)))
    for n in range(1, 6 if not th else 8):
        js.append(("transfer %d" % n, "plain", "j_tra", dict(n=n)))
    js.append(("points2D", "plain", "j_ip2", dict(n=3)))
    for sc in "rc":
        for np2, nc, pd, steps in ((1, 1, 2, 0), (1, 2, 1, 1), (4, 1, 2, 1), (4, 2, 1, 1), (1, 3, 1, 2), (4, 1, 1, 2)):
            ne = 4 ** steps * (2 if steps < 2 else 1)
            for fn in ("fwd", "bwd"):
                js.append(("%s %s points^2=%d components=%d steps=%d" % (fn, sc, np2, nc, steps), "plain", "j_sweep",
                           dict(fn=fn, sc=sc, np2=np2, nc=nc, pd=pd, ne=ne, steps=steps)))
    return js


# ---------------------------------------------------------------- reference numbers
def cheb(n):
    return [0.5 * math.cos(math.pi * (2 * (n - i) - 1) / (2 * n)) + 0.5 for i in range(n)]


def lagr(x, i, t):
    r = 1.0
    for j in range(len(x)):
        if j != i:
            r *= (t - x[j]) / (x[i] - x[j])
    return r


def gl(n):
    return gauss(n)


def morton(ref):
    """position (s,t) of element k of the hierarchical order: sons counter-clockwise from the lower left corner"""
    l = [(0, 0)]
    for _ in range(ref):
        l = [(2 * s + ds, 2 * t + dt) for s, t in l for ds, dt in ((0, 0), (1, 0), (1, 1), (0, 1))]
    return l


def mom1(cl, ref, np, P, der):
    n = 2 ** ref
    h, H = 1.0 / n, 1.0 / 2 ** cl
    x = cheb(np)
    f = dbern if der else bern
    out = {}
    for i in range(np):
        for j in range(n):
            for b in range(P + 1):
                v = sum(w * lagr(x, i, h * (j + t)) * float(f(P, b, t)) for t, w in gl(np + P + 2))
                out[i, j, b] = v * (math.sqrt(h * H) if not der else 1 / math.sqrt(h * H))
    return out


def mom2(cl, ref, np, P, kind):
    a = mom1(cl, ref, np, P, kind == "dx")
    b = mom1(cl, ref, np, P, kind == "dy")
    pos = morton(ref)
    p1 = P + 1
    cols = len(pos) * p1 * p1
    m = [[0.0] * cols for _ in range(np * np)]
    for i in range(np):
        for j in range(np):
            for k, (s, t) in enumerate(pos):
                for m1 in range(p1):
                    for m2 in range(p1):
                        m[i * np + j][p1 * p1 * k + m1 * p1 + m2] = a[i, s, m2] * b[j, t, m1]
    return m


WANT = {"SL": [["v"]], "DL": [["v"]], "ADL": [["v"]], "LHS": [["dx", "dy"]], "HHS": [["v", "dx", "dy"]],
        "MSL": [["v", "dx"], ["v", "dy"]]}


def want(n):
    return WANT.get(n) or WANT[n[1:]]


def get_moments(job, it, n, cl, ref, np, P):
    dims = it.new_obj("dims", 8 * 16, "undef")
    tot = np * np * 4 ** ref * (P + 1) ** 2 * sum(len(x) for x in want(n))
    o = it.new_obj("mom", None, "undef")
    use_gauss(it)
    q = job.call(it, "mom", [cl, ref, np, P, Ptr(o, 0), Ptr(dims, 0)])
    out = []
    k = 0
    for i in range(q):
        r, c = it.load(Ptr(dims, 16 * i), I64), it.load(Ptr(dims, 16 * i + 8), I64)
        m = [[it.load(Ptr(o, 8 * (k + c_ * r + r_)), D) for c_ in range(c)] for r_ in range(r)]
        k += r * c
        out.append(m)
    return out


def close(a, b):
    return isinstance(a, float) and abs(a - b) <= 1e-11 * max(1.0, abs(b))


def tags(job, it, n, cl=0, ref=0, np=2, P=2):
    """which of {v, dx, dy} every moment block integrates"""
    ms = get_moments(job, it, n, cl, ref, np, P)
    refm = {k: mom2(cl, ref, np, P, k) for k in ("v", "dx", "dy")}
    out = []
    for m in ms:
        row = []
        for b in range(len(m) // (np * np)):
            t = None
            for k, r in refm.items():
                if all(close(m[b * np * np + i][j], r[i][j]) for i in range(np * np) for j in range(len(r[0]))):
                    t = k
            row.append(t)
        out.append(row)
    return out


def j_mom(job, name, P, cl, ref, np):
    it = job.interp()
    it.max_steps = 10 ** 9
    ms = get_moments(job, it, name, cl, ref, np, P)
    tg = tags(job, job.interp(), name)
    w = want(name)
    if not job.check(len(ms) == len(w), "moments/count", "%s provides %d moment matrices, required %d" % (cls(name), len(ms), len(w)),
                     "Bembel/src/%s" % OPS[name][1]):
        return
    for c in range(len(w)):
        if not job.check(len(tg[c]) == len(w[c]) and sorted(map(str, tg[c])) == sorted(w[c]), "moments/components",
                         "%s, vector component %d: moment blocks integrate %s, required %s" % (cls(name), c, tg[c], w[c]),
                         "Bembel/src/%s (Moment2D<.., %s>)" % (OPS[name][1], cls(name))):
            continue
        cols = 4 ** ref * (P + 1) ** 2
        if not job.check(len(ms[c]) == np * np * len(w[c]) and len(ms[c][0]) == cols, "moments/shape", "%s moment matrix is %dx%d, required %dx%d"
                         % (cls(name), len(ms[c]), len(ms[c][0]), np * np * len(w[c]), cols), "Bembel/src/H2Matrix/H2Multipole.hpp"):
            continue
        for b, t in enumerate(tg[c]):
            r = mom2(cl, ref, np, P, t)
            for i in range(np * np):
                for j in range(cols):
                    g = ms[c][b * np * np + i][j]
                    if not isinstance(g, float):
                        job.fail("moments/undef", "moment entry %r" % (g,))
                        continue
                    job.check(close(g, r[i][j]), "moments/%s/P%d" % (name, P),
                              "%s moment (vector comp %d, block %s) entry (%d,%d), degree %d, cluster level %d, refinement %d, %d points: code %r, required %r"
                              % (cls(name), c, t, i, j, P, cl, ref, np, g, r[i][j]), "Bembel/src/H2Matrix/H2Multipole.hpp (moment2DComputer)")


def j_kernel(job, name):
    it = job.interp()
    tg = tags(job, it, name)
    it = job.interp()
    regular()
    a, b = SP("a"), SP("b")
    K = fmm_spec(name, a, b)
    w = want(name)
    std = [(c, t) for c in range(len(w)) for t in w[c]]
    d = it.new_obj("d", 16, "undef")
    job.call(it, "dimf", [Ptr(d, 0)])
    vd, nc = it.load(Ptr(d, 0), I64), it.load(Ptr(d, 8), I64)
    if not job.check(vd == len(w) and nc == len(w[0]), "kernel/dims", "%s: %d vector components x %d FMM components, required %dx%d"
                     % (cls(name), vd, nc, len(w), len(w[0])), "LinearOperatorTraits<%s>" % cls(name)):
        return
    code = [(c, t) for c in range(vd) for t in tg[c]]
    if not job.check(sorted(map(str, code)) == sorted(map(str, std)), "kernel/components", "%s moment blocks are %s, required %s" % (cls(name), code, std)):
        return
    n = vd * nc
    o = it.new_obj("o", 16 * n * n, "undef")
    job.call(it, "fk", [it.sym("k"), it.sym("a"), it.sym("b"), Ptr(o, 0)])
    for i in range(n):
        for j in range(n):
            v = K.get((std.index(code[i]), std.index(code[j])))
            v = v if v is not None else C(0.0)
            for part, off in ((v.re, 0), (v.im, 8)):
                job.eq("kernel/%s(%d,%d)%s" % (cls(name), i, j, ".im" if off else ""), it.load(Ptr(o, 16 * (j * n + i) + off), D), part,
                       "%s::evaluateFMMInterpolation entry (%d,%d) pairing %s with %s" % (cls(name), i, j, code[i], code[j]),
                       where="Bembel/src/%s (%s::evaluateFMMInterpolation_impl)" % (OPS[name][1], cls(name)))


def j_layout(job, name, np):
    vd, nc = len(want(name)), len(want(name)[0])
    n = vd * nc * np
    it = job.interp()
    it.max_steps = 10 ** 9
    l = it.new_obj("lhs", 16 * n * n, "undef")
    r = it.new_obj("rhs", 16 * n * n, "undef")
    job.call(it, "ik", [it.sym("k"), it.sym("va"), it.sym("vb"), it.sym("pts"), np, it.sym("el"), Ptr(l, 0), Ptr(r, 0)])
    for i in range(n):
        for j in range(n):
            for off in (0, 8):
                e = 16 * (j * n + i) + off
                job.eq("layout/%s" % name, it.load(Ptr(l, e), D), it.load(Ptr(r, e), D), "interpolateKernel<%s> entry (%d,%d)" % (cls(name), i, j),
                       where="Bembel/src/H2Matrix/H2Multipole.hpp (interpolateKernel)")


def j_lag(job, n):
    it = job.interp()
    x = it.new_obj("x", 8 * (n + 1), "undef")
    job.call(it, "cheb", [n, Ptr(x, 0)])
    xs = [it.load(Ptr(x, 8 * i), D) for i in range(n)]
    ref = cheb(n)
    for i in range(n):
        job.check(close(xs[i], ref[i]), "cheb", "Chebyshev root %d of %d: code %r, required %r" % (i, n, xs[i], ref[i]), "ChebychevRoots")
    o = it.new_obj("o", 8 * n, "undef")
    job.call(it, "lag", [n, it.sym("xi"), Ptr(o, 0)])
    t = var("xi[0]")
    for i in range(n):
        r = 1.0
        for j in range(n):
            if j != i:
                r = dom.mul(r, dom.mul(dom.sub(t, ref[j]), 1.0 / (ref[i] - ref[j])))
        # compare by values at n+2 points: identity of polynomials of degree <= n-1 (numerically robust form)
        g = it.load(Ptr(o, 8 * i), D)
        job.check(dom.is_num(g) or set(dom.var_names(g)) <= {"xi[0]"}, "lagrange/vars", "Lagrange polynomial %d depends on foreign values" % i)
        for q in range(n + 2):
            p = (q + 0.37) / (n + 2)
            job.eq("lagrange/%d" % i, dom.subst(g, {"xi[0]": p}), dom.subst(r, {"xi[0]": p}), "Lagrange polynomial %d of %d as polynomial in the point" % (i, n),
                   where="Bembel/src/H2Matrix/H2Multipole.hpp (computeLagrangePolynomials, evaluatePolynomial)", tol=1e-8)


def j_tra(job, n):
    it = job.interp()
    it.max_steps = 10 ** 9
    np2 = n * n
    o = it.new_obj("o", 8 * 4 * np2 * np2, "undef")
    job.call(it, "tra", [n, Ptr(o, 0)])
    x = cheb(n)
    for c, (s, t) in enumerate(((0, 0), (.5, 0), (.5, .5), (0, .5))):
        for a in range(np2):
            for b in range(np2):
                want_ = lagr(x, a // n, s + .5 * x[b // n]) * lagr(x, a % n, t + .5 * x[b % n])
                g = it.load(Ptr(o, 8 * ((c * np2 + b) * np2 + a)), D)
                job.check(close(g, want_), "transfer/son%d" % c, "transfer matrix of son %d, entry (%d,%d), %d points: code %r, required %r"
                          % (c, a, b, n, g, want_), "Bembel/src/H2Matrix/H2Multipole.hpp (computeTransferMatrices)")


def j_ip2(job, n):
    it = job.interp()
    o = it.new_obj("o", 16 * n * n, "undef")
    job.call(it, "ip2", [n, it.sym("x"), Ptr(o, 0)])
    for i in range(n):
        for j in range(n):
            job.eq("points2D", it.load(Ptr(o, 16 * (i * n + j)), D), var("x[%d]" % (8 * i)), "interpolation point (%d,%d) first coordinate" % (i, j))
            job.eq("points2D", it.load(Ptr(o, 16 * (i * n + j) + 8), D), var("x[%d]" % (8 * j)), "interpolation point (%d,%d) second coordinate" % (i, j))


def j_sweep(job, fn, sc, np2, nc, pd, ne, steps):
    it = job.interp()
    o = it.new_obj("o", None, "undef")
    job.call(it, "%s_%s" % (fn, sc), [np2, nc, pd, ne, steps, it.sym("M"), it.sym("T"), it.sym("x"), Ptr(o, 0)])
    R = nc * np2

    def M(i, j):
        return var("M[%d]" % (8 * (j * R + i)) if (j * R + i) else "M[0]")

    def T(i, j):
        return var("T[%d]" % (8 * (j * np2 + i)))

    def X(k):
        return C(var("x[%d]" % (16 * k)), var("x[%d]" % (16 * k + 8)) if sc == "c" else 0.0)

    def cmp_(k, v, what):
        for part, off in ((v.re, 0), (v.im, 8)):
            job.eq("%s/%s" % (fn, what), it.load(Ptr(o, 16 * k + off), D), part, "%s %s" % ({"fwd": "forwardTransformation", "bwd": "backwardTransformation"}[fn], what),
                   where="Bembel/src/H2Matrix/H2Multipole.hpp")
    if fn == "fwd":
        cur = [[sum((C(M(r, q)) * X(e * pd + q) for q in range(pd)), C(0.0)) for e in range(ne)] for r in range(R)]
        k = 0
        for s in range(steps + 1):
            if s:
                n2 = len(cur[0]) // 4
                cur = [[sum((C(T(a, c * np2 + b)) * cur[j * np2 + b][4 * e + c] for c in range(4) for b in range(np2)), C(0.0)) for e in range(n2)]
                       for j in range(nc) for a in range(np2)]
            for e in range(len(cur[0])):
                for r in range(R):
                    cmp_(k, cur[r][e], "level %d component row %d cluster %d" % (s, r, e))
                    k += 1
        job.eq("fwd/levels", it.load(Ptr(o, 16 * k), D), float(steps + 1), "number of levels returned")
        return
    lev = []
    k = 0
    for s in range(steps + 1):
        n2 = ne >> (2 * s)
        lev.append([[X(k + e * R + r) for e in range(n2)] for r in range(R)])
        k += R * n2
    for s in range(steps, 0, -1):
        for e in range(ne >> (2 * s)):
            for j in range(nc):
                for c in range(4):
                    for b in range(np2):
                        lev[s - 1][j * np2 + b][4 * e + c] = lev[s - 1][j * np2 + b][4 * e + c] + sum(
                            (C(T(a, c * np2 + b)) * lev[s][j * np2 + a][e] for a in range(np2)), C(0.0))
    for e in range(ne):
        for q in range(pd):
            v = sum((C(M(r, q)) * lev[0][r][e] for r in range(R)), C(0.0))
            cmp_(e * pd + q, v, "entry %d of element %d" % (q, e))
