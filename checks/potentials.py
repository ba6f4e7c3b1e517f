"""potentials: the value added for a point off the surface is kernel * density * surface measure"""
from va import dom
from va.dom import var
from va.rig import D, Ptr
from va.spec import C, G, SP, basis2, basis2dx, basis2dy, dot, vsub
from checks.ops import kernel_dn

PID = "C15"
EXPLAIN = ("Every potential's evaluateIntegrand is interpreted for an unknown evaluation point, an unknown surface point, unknown coefficients of the "
           "density and an unknown wavenumber.  The result must equal the normal form of  weight * measure * kernel * density  in which the kernel (or its "
           "gradient, its normal derivative) is obtained by formal differentiation of the fundamental solution on the specification side.")
MIN_OBLIGATIONS = {"quick": 60}
POT = {  # name: (class, module, densities)
    "LSLP": ("LaplaceSingleLayerPotential", "Laplace", "RC"),
    "LDLP": ("LaplaceDoubleLayerPotential", "Laplace", "RC"),
    "LSLPG": ("LaplaceSingleLayerPotentialGradient", "Laplace", "R"),
    "HSLP": ("HelmholtzSingleLayerPotential", "Helmholtz", "RC"),
    "HDLP": ("HelmholtzDoubleLayerPotential", "Helmholtz", "RC"),
    "MSLP": ("MaxwellSingleLayerPotential", "Maxwell", "V"),
}
SRC = """
#include <Bembel/Geometry>
#include "geo.hpp"
#include <Bembel/AnsatzSpace>
#include <Bembel/LinearForm>
#include <Bembel/Potential>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
using namespace Bembel;
class DenR; class DenC; class DenV;
namespace Bembel {
template <> struct LinearOperatorTraits<DenR> { typedef Eigen::VectorXd EigenType; typedef double Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 }; };
template <> struct LinearOperatorTraits<DenC> { typedef Eigen::VectorXcd EigenType; typedef std::complex<double> Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 }; };
template <> struct LinearOperatorTraits<DenV> { typedef Eigen::VectorXcd EigenType; typedef std::complex<double> Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 1 }; };
}
template <class T> static auto setk(T &p, const double *k, int) -> decltype(p.set_wavenumber(std::complex<double>())) {
  p.set_wavenumber(std::complex<double>(k[2], k[3]));   // an earlier value must not linger
  p.set_wavenumber(std::complex<double>(k[0], k[1]));
}
template <class T> static void setk(T &, const double *, long) {}
template <class T> static auto getk(T &p, double *o, int) -> decltype(p.get_wavenumber(), void()) { o[0] = p.get_wavenumber().real(); o[1] = p.get_wavenumber().imag(); }
template <class T> static void getk(T &, double *, long) {}
template <class L> struct Den { AnsatzSpace<L> a; FunctionEvaluator<L> f; };
template <class L> static Den<L> *mk(int M, int P, double *t, const double *c) {
  typedef typename LinearOperatorTraits<L>::Scalar K;
  Geometry g = W::unit_square();
  Den<L> *d = new Den<L>; d->a = AnsatzSpace<L>(g, M, P);
  const auto &m = d->a.get_transformation_matrix();
  Eigen::Matrix<K, -1, 1> v(m.cols());
  for (int i = 0; i < v.size(); ++i) W::get(v(i), c + 2 * i);
  *t++ = m.rows(); *t++ = m.cols(); double *n = t++; *n = 0;
  for (int k = 0; k < m.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) { *t++ = it.row(); *t++ = it.col(); *t++ = it.value(); *n += 1; }
  d->f = FunctionEvaluator<L>(d->a, v);
  return d;
}
template <class Pt, class L> static void ev(const Den<L> *d, int e, const double *k, const double *x, const SurfacePoint *p, double *o, double *ko) {
  auto it = d->a.get_superspace().get_mesh().get_element_tree().cpbegin();
  for (int i = 0; i < e; ++i) ++it;
  Pt pot; setk(pot, k, 0); getk(pot, ko, 0);
  Eigen::Vector3d pt(x[0], x[1], x[2]);
  const PotentialBase<Pt, L> &base = pot; (void)base;
  W::put(pot.evaluateIntegrand_impl(d->f, *it, pt, *p), o);
}
#define DEN(X) extern "C" Den<Den##X> *mk##X(int M, int P, double *t, const double *c) { return mk<Den##X>(M, P, t, c); }
#define POT(N, C, X) extern "C" void N##_##X(const Den<Den##X> *d, int e, const double *k, const double *x, const SurfacePoint *p, double *o, double *ko) { ev<C<Den##X>, Den##X>(d, e, k, x, p, o, ko); }
DEN(R) DEN(C) DEN(V)
""" + "".join("POT(%s, %s, %s)\n" % (n, c, x) for n, (c, m, d) in POT.items() for x in d)


def witnesses(tier):
    return {"p": SRC}


def jobs(tier):
    js = []
    for n, (c, m, ds) in POT.items():
        for x in ds:
            for M, P in ((0, 1), (1, 1), (0, 2)) + (() if tier == "quick" else ((2, 1), (1, 2), (0, 3))):
                js.append(("%s density %s level %d degree %d" % (c, x, M, P), "p", "j_pot", dict(n=n, x=x, M=M, P=P)))
    return js


def j_pot(job, n, x, M, P):
    cls, mod, _ = POT[n]
    W = "Bembel/src/%s (%s::evaluateIntegrand_impl)" % (mod, cls)
    it = job.interp()
    it.max_steps = 10 ** 9
    t = it.new_obj("t", None, "undef")
    den = job.call(it, "mk" + x, [M, P, Ptr(t, 0), it.sym("c")])
    rd = lambda k: it.load(Ptr(t, 8 * k), D)
    rows, cols, nnz = int(rd(0)), int(rd(1)), int(rd(2))
    cx = x != "R"
    z = [C(0.0)] * rows
    for q in range(nnz):
        i, j, v = int(rd(3 + 3 * q)), int(rd(4 + 3 * q)), rd(5 + 3 * q)
        z[i] = z[i] + C(var("c[%d]" % (16 * j)), var("c[%d]" % (16 * j + 8)) if cx else 0.0) * C(v)
    ne, Q = 4 ** M, (P + 1) ** 2
    for e in sorted({0, ne - 1}):
        p = SP("p")
        pt = [var("x[%d]" % (8 * d)) for d in range(3)]
        dom.assume_pos(dot(p.n, p.n))
        dd = vsub(pt, p.x)
        dom.assume_pos(dot(dd, dd))
        dim = 3 if n in ("LSLPG", "MSLP") else 1
        o = it.new_obj("o", 16 * dim, "undef")
        ko = it.new_obj("ko", 16, "undef")
        job.call(it, "%s_%s" % (n, x), [den, e, it.sym("k"), it.sym("x"), it.sym("p"), Ptr(o, 0), Ptr(ko, 0)])
        k = None if n[0] == "L" else C(var("k[0]"), var("k[8]"))
        g = G(k, pt, p.x)
        B = basis2(P, p.xi)
        hinv = C(float(2 ** M))
        u = C(0.0)
        if x != "V":
            for i in range(Q):
                u = u + z[e * Q + i] * C(B[i])
            u = u * hinv
        if n in ("LSLP", "HSLP"):
            want = [g * u * C(p.kappa)]
        elif n in ("LDLP", "HDLP"):
            want = [kernel_dn(k, pt, p.x, [p.pname("p", d) for d in range(3)], p.n) * u]
        elif n == "LSLPG":
            want = [g.diff("x[%d]" % (8 * d)) * u * C(p.kappa) for d in range(3)]
        else:
            a = [C(0.0), C(0.0)]
            dv = C(0.0)
            bx, by = basis2dx(P, p.xi), basis2dy(P, p.xi)
            for i in range(Q):
                a[0] = a[0] + z[e * Q + i] * C(B[i])
                a[1] = a[1] + z[(ne + e) * Q + i] * C(B[i])
                dv = dv + z[e * Q + i] * C(bx[i]) + z[(ne + e) * Q + i] * C(by[i])
            # the density and its divergence relative to the surface measure
            want = [g * (a[0] * C(p.dx[d]) + a[1] * C(p.dy[d])) * hinv + g.diff("x[%d]" % (8 * d)) * dv * hinv * hinv / (k * k) for d in range(3)]
        out_cx = cx or n[0] != "L"
        for d, w in enumerate(want):
            w = w * C(p.w)
            for q, part in enumerate(("re", "im")):
                if q and not out_cx:
                    continue
                job.eq("%s/%s/%d.%s" % (cls, "vector" if x == "V" else "complex" if cx else "real", d, part), it.load(Ptr(o, 16 * d + 8 * q), D), getattr(w, part),
                       "%s, %s density, degree %d, level %d, element %d, component %d %s" % (cls, x, P, M, e, d, part), where=W)
        if k is not None:
            job.eq(cls + "/get_wavenumber", it.load(Ptr(ko, 0), D), k.re, "wavenumber read back", where=W)
            job.eq(cls + "/get_wavenumber", it.load(Ptr(ko, 8), D), k.im, "wavenumber read back", where=W)
