"""linear forms (traces) and local operators: the integrand is the trace of the data times the test functions"""
from va import dom
from va.dom import var
from va.rig import D, Ptr
from va.spec import C, SP, basis2, basis2dx, basis2dy, cross, dot

PID = "C16"
EXPLAIN = ("evaluateIntegrand of every trace and every local operator is interpreted at an unknown surface point with an unknown user function: the function "
           "is an uninterpreted symbol whose argument must be exactly the surface point, and the entries added to the unknown previous content must equal "
           "the traced value times weight, measure and shape functions, for real and complex functions.")
MIN_OBLIGATIONS = {"quick": 500}
TR = {"DirichletTrace": 1, "NeumannTrace": 3, "TangentialTrace": 3, "RotatedTangentialTrace": 3}
LOC = {"MassMatrixScalarDisc": 0, "MassMatrixScalarCont": 0, "LaplaceBeltramiOperator": 1}
SRC = """
#include <Bembel/Geometry>
#include "geo.hpp"
#include <Bembel/AnsatzSpace>
#include <Bembel/LinearForm>
#include <Bembel/Identity>
#include <Bembel/LaplaceBeltrami>
using namespace Bembel;
class TrR; class TrZ;
namespace Bembel {
template <> struct LinearOperatorTraits<TrR> { typedef Eigen::VectorXd EigenType; typedef double Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 1 }; };
template <> struct LinearOperatorTraits<TrZ> { typedef Eigen::VectorXcd EigenType; typedef std::complex<double> Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 1 }; };
}
extern "C" double userfun(double x, double y, double z, int which, int comp);
static void val(double &v, const Eigen::Vector3d &x, int w, int c) { v = userfun(x(0), x(1), x(2), w, 2 * c); }
static void val(std::complex<double> &v, const Eigen::Vector3d &x, int w, int c) { v = std::complex<double>(userfun(x(0), x(1), x(2), w, 2 * c), userfun(x(0), x(1), x(2), w, 2 * c + 1)); }
template <class S, int N> struct Fun;
template <class S> struct Fun<S, 1> { typedef std::function<S(Eigen::Vector3d)> F; static F get(int w) { return [w](Eigen::Vector3d x) { S v; val(v, x, w, 0); return v; }; } };
template <class S> struct Fun<S, 3> { typedef std::function<Eigen::Matrix<S, 3, 1>(Eigen::Vector3d)> F;
  static F get(int w) { return [w](Eigen::Vector3d x) { Eigen::Matrix<S, 3, 1> v; for (int c = 0; c < 3; ++c) val(v(c), x, w, c); return v; }; } };
template <class S, int C, class L, template <class> class T, int N> static void tr(int P, const SurfacePoint *p, const double *i, double *o, int how) {
  Geometry g = W::unit_square();
  SuperSpace<L> ss(g, 0, P);
  T<S> t;
  if (how) t.set_function(Fun<S, N>::get(1));      // an earlier function must not linger
  t.set_function(Fun<S, N>::get(0));
  T<S> u(t);
  Eigen::Matrix<S, Eigen::Dynamic, C> m((P + 1) * (P + 1), C);
  for (int k = 0; k < m.size(); ++k) W::get(m(k), i + 2 * k);
  (how ? u : t).evaluateIntegrand_impl(ss, *p, &m);
  W::put(m, o);
}
template <class Op> static void loc(int M, int P, const SurfacePoint *p, const double *i, double *o) {
  Geometry g = W::unit_square();
  SuperSpace<Op> ss(g, M, P);
  Op op; const LocalOperatorBase<Op> &b = op;
  const int n = (P + 1) * (P + 1);
  Eigen::MatrixXd m(n, n);
  for (int k = 0; k < m.size(); ++k) m(k) = i[2 * k];
  b.evaluateIntegrand(ss, *p, *p, &m);
  W::put(m, o);
}
#define TRC(N, D, C) extern "C" void N##R(int P, const SurfacePoint *p, const double *i, double *o, int how) { tr<double, C, TrR, N, D>(P, p, i, o, how); } \\
  extern "C" void N##Z(int P, const SurfacePoint *p, const double *i, double *o, int how) { tr<std::complex<double>, C, TrZ, N, D>(P, p, i, o, how); }
TRC(DirichletTrace, 1, 1) TRC(NeumannTrace, 3, 1) TRC(TangentialTrace, 3, 2) TRC(RotatedTangentialTrace, 3, 2)
""" + "".join('extern "C" void %s_(int M, int P, const SurfacePoint *p, const double *i, double *o) { loc<%s>(M, P, p, i, o); }\n' % (n, n) for n in LOC)


def witnesses(tier):
    return {"t": SRC}


def jobs(tier):
    top = 4 if tier == "quick" else 7
    js = []
    for n in TR:
        for z in "RZ":
            for P in range(top):
                for how in (0, 1):
                    js.append(("%s %s degree %d %s" % (n, "complex" if z == "Z" else "real", P, "copied" if how else "direct"), "t", "j_tr", dict(n=n, z=z, P=P, how=how)))
    for n in LOC:
        for P in range(LOC[n], top):
            for M in (0, 1, 3):
                js.append(("%s degree %d level %d" % (n, P, M), "t", "j_loc", dict(n=n, P=P, M=M)))
    return js


def point():
    p = SP("p")
    dom.assume_pos(dot(p.n, p.n))
    return p


def j_tr(job, n, z, P, how):
    W = "Bembel/src/LinearForm/%s.hpp (%s::evaluateIntegrand_impl)" % (n, n)
    it = job.interp()
    p = point()
    cx = z == "Z"
    calls = []

    def user(it, args, info):
        calls.append(args)
        return var("F[%d,%d]" % (args[3], args[4]))
    it.hooks["userfun"] = user
    Q = (P + 1) ** 2
    nc = 1 if n in ("DirichletTrace", "NeumannTrace") else 2
    o = it.new_obj("o", 16 * Q * nc, "undef")
    job.call(it, n + z, [P, it.sym("p"), it.sym("i"), Ptr(o, 0), how])
    what = "%s<%s>, degree %d%s" % (n, "complex" if cx else "double", P, ", copied after setting the function twice" if how else "")
    job.check(len(calls) > 0, n + "/call", "%s calls the user function" % what, W)
    for a in calls:
        job.check(a[3] == 0, n + "/function", "%s uses the function set last" % what, W)
        for d in range(3):
            job.eq(n + "/argument%d" % d, a[d], p.x[d], "%s: argument of the user function" % what, where=W)
    f = [C(var("F[0,%d]" % (2 * c)), var("F[0,%d]" % (2 * c + 1)) if cx else 0.0) for c in range(TR[n])]
    B = basis2(P, p.xi)

    def cdot(a, b):
        s = C(0.0)
        for x, y in zip(a, b):
            s = s + C(x) * y
        return s
    if n == "DirichletTrace":
        t = [f[0] * C(p.kappa)]
    elif n == "NeumannTrace":
        t = [cdot(p.n, f)]
    elif n == "RotatedTangentialTrace":
        t = [cdot(p.dx, f), cdot(p.dy, f)]
    else:       # (f x n) . tangent, n the unit normal
        inv = dom.div(1.0, p.kappa)
        fr, fi = cross([c.re for c in f], p.n), cross([c.im for c in f], p.n)
        t = [C(dot(tau, fr) * inv, dot(tau, fi) * inv) for tau in (p.dx, p.dy)]
    for c in range(nc):
        for i in range(Q):
            w = t[c] * C(p.w * B[i])
            for q, part in enumerate((w.re, w.im)):
                if q and not cx:
                    continue
                e = 16 * (c * Q + i) + 8 * q
                job.eq("%s/%s/%d.%d" % (n, z, c, q), it.load(Ptr(o, e), D), var("i[%d]" % e) + part,
                       "%s, block %d, shape function %d, %s part" % (what, c, i, "imaginary" if q else "real"), where=W)


def j_loc(job, n, P, M):
    W = "Bembel/src/%s" % ("LaplaceBeltrami/LaplaceBeltramiOperatorBase.hpp" if n[0] == "L" else "Identity/IdentityOperatorBase.hpp")
    it = job.interp()
    p = point()
    Q = (P + 1) ** 2
    o = it.new_obj("o", 16 * Q * Q, "undef")
    job.call(it, n + "_", [M, P, it.sym("p"), it.sym("i"), Ptr(o, 0)])
    B, bx, by = basis2(P, p.xi), basis2dx(P, p.xi), basis2dy(P, p.xi)
    inv = dom.div(1.0, p.kappa)
    gg = [[dot(p.dy, p.dy), dot(p.dx, p.dy)], [dot(p.dx, p.dy), dot(p.dx, p.dx)]]
    for j in range(Q):
        for i in range(Q):
            if n[0] == "L":
                # det(g) * grad^T g^-1 grad / kappa, derivatives with respect to the patch coordinates
                v = (gg[0][0] * bx[i] * bx[j] - gg[0][1] * (bx[i] * by[j] + by[i] * bx[j]) + gg[1][1] * by[i] * by[j]) * inv * float(4 ** M)
            else:
                v = B[i] * B[j] * p.kappa
            e = 16 * (j * Q + i)
            job.eq("%s/P%d/M%d" % (n, P, M), it.load(Ptr(o, e), D), var("i[%d]" % e) + v * p.w, "%s, degree %d, level %d, entry (%d,%d)" % (n, P, M, i, j), where=W)
