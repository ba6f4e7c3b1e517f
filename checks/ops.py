"""shared witness + formulas for the boundary integral operators"""
from va import dom
from va.dom import var
from va.rig import D, I64, P, Ptr
from va.spec import C, G, SP, basis2, basis2dx, basis2dy, dot, norm, vsub

INC = """
#include <Eigen/Dense>
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/Identity>
#include <Bembel/LinearOperator>
"""
OPS = {
    # name: (class, module header, complex, blocks of the integrand, fmm size)
    "LSL": ("LaplaceSingleLayerOperator", "Laplace", False, 1, 1),
    "LDL": ("LaplaceDoubleLayerOperator", "Laplace", False, 1, 1),
    "LADL": ("LaplaceAdjointDoubleLayerOperator", "Laplace", False, 1, 1),
    "LHS": ("LaplaceHypersingularOperator", "Laplace", False, 1, 2),
    "HSL": ("HelmholtzSingleLayerOperator", "Helmholtz", True, 1, 1),
    "HDL": ("HelmholtzDoubleLayerOperator", "Helmholtz", True, 1, 1),
    "HADL": ("HelmholtzAdjointDoubleLayerOperator", "Helmholtz", True, 1, 1),
    "HHS": ("HelmholtzHypersingularOperator", "Helmholtz", True, 1, 3),
    "MSL": ("MaxwellSingleLayerOperator", "Maxwell", True, 2, 4),
}

COMMON = """
#include "geo.hpp"
using namespace Bembel;
static double sink;
template <class Op> static void setk(Op &op, const double *k, std::true_type) {
  op.set_wavenumber(std::complex<double>(k[2], k[3]));   // earlier value must not linger
  op.set_wavenumber(std::complex<double>(k[0], k[1]));
}
template <class Op> static void setk(Op &, const double *, std::false_type) {}
template <class Op> struct Cplx : std::integral_constant<bool, !std::is_same<typename LinearOperatorTraits<Op>::Scalar, double>::value> {};
template <class Op> static void integrand(int M, int P, int f, const double *k, const SurfacePoint *p1, const SurfacePoint *p2,
                                          const double *init, double *out) {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  Geometry g = W::unit_square();
  SuperSpace<Op> ss(g, M, P);
  Op op; setk(op, k, Cplx<Op>());
  const long n = f * (P + 1) * (P + 1);
  Eigen::Matrix<S, -1, -1> m(n, n);
  for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) W::get(m(i, j), init + 2 * (j * n + i));
  op.evaluateIntegrand(ss, *p1, *p2, &m);
  W::put(m, out);
}
template <class Op> static void fmm(const double *k, const SurfacePoint *p1, const SurfacePoint *p2, double *out) {
  Op op; setk(op, k, Cplx<Op>());
  W::put(op.evaluateFMMInterpolation(*p1, *p2), out);
}
"""


def witness(names, degs, levels):
    mods = sorted({OPS[n][1] for n in names})
    s = "#include <Eigen/Dense>\n" + "".join("#include <Bembel/%s>\n" % m for m in mods) + COMMON
    for n in names:
        cls, _, cx, f, _ = OPS[n]
        for p in degs:
            for lv in levels:
                s += ('extern "C" void i_%s_%d_%d(const double*k,const SurfacePoint*a,const SurfacePoint*b,'
                      'const double*c,double*o){integrand<%s>(%d,%d,%d,k,a,b,c,o);}\n' % (n, p, lv, cls, lv, p, f))
        s += ('extern "C" void f_%s(const double*k,const SurfacePoint*a,const SurfacePoint*b,double*o)'
              '{fmm<%s>(k,a,b,o);}\n' % (n, cls))
    return s


def wavenumber(cx):
    return C(var("k[0]"), var("k[8]")) if cx else None


def kernel_dn(k, x, y, names, n):
    """ sum_d n_d dG/d(names_d) : derivative of the fundamental solution, taken formally"""
    g = G(k, x, y)
    s = C(0.0)
    for d in range(3):
        s = s + g.diff(names[d]) * C(n[d])
    return s


def fmm_spec(name, a, b):
    """required far field kernel matrix (dict (i,j)->C) for unknown surface points a,b"""
    k = wavenumber(OPS[name][2])
    kind = name[1:]
    if kind == "SL" and name[0] != "M":
        return {(0, 0): G(k, a.x, b.x) * C(a.kappa) * C(b.kappa)}
    if kind == "DL":
        return {(0, 0): kernel_dn(k, a.x, b.x, [b.pname("b", d) for d in range(3)], b.n) * C(a.kappa)}
    if kind == "ADL":
        return {(0, 0): kernel_dn(k, a.x, b.x, [a.pname("a", d) for d in range(3)], a.n) * C(b.kappa)}
    g = G(k, a.x, b.x)
    if kind == "HS":
        ca, cb = [a.dy, [dom.neg(t) for t in a.dx]], [b.dy, [dom.neg(t) for t in b.dx]]
        curl = {(i, j): g * C(dot(ca[i], cb[j])) for i in range(2) for j in range(2)}
        if k is None:
            return curl
        m = {(i + 1, j + 1): v for (i, j), v in curl.items()}
        m[(0, 0)] = -(g * k * k * C(dot(a.n, b.n)))
        return m
    if name == "MSL":
        m = {}
        for i in range(2):
            for j in range(2):
                m[(2 * i, 2 * j)] = g * C(dot([a.dx, a.dy][i], [b.dx, b.dy][j]))
                m[(2 * i + 1, 2 * j + 1)] = -(g / (k * k))
        return m
    raise KeyError(name)


def integrand_spec(name, p, level, a, b):
    """required (unweighted initial value 0) Galerkin integrand: dict (i,j)->C"""
    cls, _, cx, f, _ = OPS[name]
    k = wavenumber(cx)
    ww = C(a.w * b.w)
    n = (p + 1) ** 2
    K = fmm_spec(name, a, b)
    phi_a, phi_b = basis2(p, a.xi), basis2(p, b.xi)
    out = {}
    hh = float(4 ** level)
    if name[1:] in ("SL", "DL", "ADL") and name != "MSL":
        for i in range(n):
            for j in range(n):
                out[(i, j)] = K[(0, 0)] * ww * C(phi_a[i] * phi_b[j])
        return out
    da = [basis2dx(p, a.xi), basis2dy(p, a.xi)]
    db = [basis2dx(p, b.xi), basis2dy(p, b.xi)]
    if name[1:] == "HS":
        o = 0 if k is None else 1
        for i in range(n):
            for j in range(n):
                s = C(0.0)
                for c in range(2):
                    for d in range(2):
                        s = s + K[(c + o, d + o)] * C(da[c][i] * db[d][j] * hh)
                if o:
                    s = s + K[(0, 0)] * C(phi_a[i] * phi_b[j])
                out[(i, j)] = s * ww
        return out
    for c in range(2):
        for d in range(2):
            for i in range(n):
                for j in range(n):
                    out[(c * n + i, d * n + j)] = (K[(2 * c, 2 * d)] * C(phi_a[i] * phi_b[j]) +
                                                   K[(2 * c + 1, 2 * d + 1)] * C(da[c][i] * db[d][j] * hh)) * ww
    return out


def regular():
    """the parametrisation is regular at both points, and the points are distinct"""
    a, b = SP("a"), SP("b")
    for x in (a, b):
        dom.assume_pos(dot(x.n, x.n))
    d = vsub(a.x, b.x)
    dom.assume_pos(dot(d, d))


def run_integrand(job, name, p, level):
    cls, _, cx, f, _ = OPS[name]
    it = job.interp()
    n = f * (p + 1) ** 2
    o = it.new_obj("out", 16 * n * n, "undef")
    regular()
    job.call(it, "i_%s_%d_%d" % (name, p, level), [it.sym("k"), it.sym("a"), it.sym("b"), it.sym("c"), Ptr(o, 0)])
    return it, o, n
