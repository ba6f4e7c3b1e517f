"""SuperSpace: reference-to-surface map and the products of local shape functions; copies behave like the original"""
from checks.ansatz_space import morton
from checks.element_tree import TOPO, bump, flat, put
from va import dom
from va.dom import var
from va.rig import D, P, Ptr
from va.spec import C, SP, basis2, basis2dx, basis2dy, bern, dbern, cross, dot

PID = "C07"
EXPLAIN = ("SuperSpace is instantiated for real and complex scalars, for every degree of the table, on curved patches; map2surface is interpreted for "
           "every element with unknown local point and weight and compared with the patch parametrisation at llc + h*xi; every interaction and "
           "basis routine is interpreted with unknown points, tangents, weight and previous matrix content and compared with the products of "
           "Bernstein polynomials; the same obligations are discharged on copy-constructed, moved, assigned and re-initialised objects.")
MIN_OBLIGATIONS = {"quick": 3000}
W = "Bembel/src/AnsatzSpace/SuperSpace.hpp"
ROUTINES = ["addScaledBasisInteraction", "basisInteraction", "addScaledSurfaceCurlInteraction", "addScaledSurfaceGradientInteraction",
            "addScaledVectorBasisInteraction", "vectorBasisInteraction", "addScaledVectorBasisDivergenceInteraction",
            "vectorBasisDivergenceInteraction", "addScaledBasis", "basis", "addScaledBasisDx", "basisDx", "addScaledBasisDy", "basisDy",
            "addScaledBasis1D", "basis1D", "addScaledBasis1DDx", "basis1DDx"]
SRC = """
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/LinearOperator>
#include <Bembel/src/util/Macros.hpp>
#include "geo.hpp"
namespace Bembel {
class OpR; class OpZ;
template <> struct LinearOperatorTraits<OpR> { typedef Eigen::VectorXd EigenType; typedef Eigen::VectorXd::Scalar Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 }; };
template <> struct LinearOperatorTraits<OpZ> { typedef Eigen::VectorXcd EigenType; typedef Eigen::VectorXcd::Scalar Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 1 }; };
}
using namespace Bembel;
static Patch bumpy(const double *c) {
  std::vector<Eigen::MatrixXd> m(4, Eigen::MatrixXd::Ones(3, 3));
  for (int d = 0; d < 3; ++d) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double x = .5 * j, y = .5 * i;
    m[d](i, j) = (1 - x) * (1 - y) * c[d] + x * (1 - y) * c[3 + d] + (1 - x) * y * c[6 + d] + x * y * c[9 + d] + (i == 1 && j == 1 ? c[12 + d] : 0.);
  }
  std::vector<double> k = {0, 0, 0, 1, 1, 1};
  return Patch(m, k, k);
}
static Geometry geo(const double *c, int n) { PatchVector v; for (int i = 0; i < n; ++i) v.push_back(bumpy(c + 15 * i)); return Geometry(v); }
template <class Op> static SuperSpace<Op> *mk(const double *c, int n, int M, int P, int how) {
  typedef SuperSpace<Op> S;
  Geometry g = geo(c, n);
  S *a = new S(g, M, P);
  if (how == 0) return a;
  S *b = 0;
  if (how == 1) b = new S(*a);
  if (how == 2) b = new S(std::move(*a));
  if (how == 3) { b = new S(); *b = *a; }
  if (how == 4) { b = new S(g, 0, P ? 0 : 1); *b = std::move(*a); }
  if (how == 5) { b = new S(g, 0, P ? 0 : 1); b->init_SuperSpace(g, M, P); }
  if (how == 6) { S *t = new S(*a); b = new S(*t); delete t; }
  delete a;
  return b;
}
template <class Op> static void m2s(const SuperSpace<Op> *s, int e, const double *xi, double *o) {
  auto it = s->get_mesh().get_element_tree().cpbegin();
  for (int i = 0; i < e; ++i) ++it;
  Eigen::Vector2d x(xi[0], xi[1]); SurfacePoint p; p.setZero();
  s->map2surface(*it, x, xi[2], &p);
  for (int i = 0; i < 12; ++i) o[i] = p(i);
}
template <class Op> static void inf(const SuperSpace<Op> *s, double *o) {
  *o++ = s->get_polynomial_degree(); *o++ = s->get_polynomial_degree_plus_one_squared(); *o++ = s->get_refinement_level();
  *o++ = s->get_number_of_elements(); *o++ = s->get_number_of_patches(); *o++ = s->get_geometry().size(); *o++ = s->get_mesh().get_number_of_elements();
}
template <class Op> static void act(const SuperSpace<Op> *s, int f, const double *wp, const SurfacePoint *p1, const SurfacePoint *p2, const double *init, int n, int m, double *o) {
  typedef typename LinearOperatorTraits<Op>::Scalar K;
  K w; W::get(w, wp);
  Eigen::Matrix<K, -1, -1> M(n, m); Eigen::Matrix<K, -1, 1> V(n);
  for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) W::get(M(i, j), init + 2 * (j * n + i));
  for (int i = 0; i < n; ++i) W::get(V(i), init + 2 * i);
  Eigen::Vector2d a = p1->template segment<2>(0), b = p2->template segment<2>(0);
  Eigen::Vector3d ax = p1->template segment<3>(6), ay = p1->template segment<3>(9), bx = p2->template segment<3>(6), by = p2->template segment<3>(9);
  switch (f) {
    case 0: s->addScaledBasisInteraction(&M, w, a, b); W::put(M, o); break;
    case 1: W::put(s->basisInteraction(a, b), o); break;
    case 2: s->addScaledSurfaceCurlInteraction(&M, w, *p1, *p2); W::put(M, o); break;
    case 3: s->addScaledSurfaceGradientInteraction(&M, w, *p1, *p1); W::put(M, o); break;
    case 4: s->addScaledVectorBasisInteraction(&M, w, a, b, ax, ay, bx, by); W::put(M, o); break;
    case 5: W::put(s->vectorBasisInteraction(a, b, ax, ay, bx, by), o); break;
    case 6: s->addScaledVectorBasisDivergenceInteraction(&M, w, a, b); W::put(M, o); break;
    case 7: W::put(s->vectorBasisDivergenceInteraction(a, b), o); break;
    case 8: s->addScaledBasis(&V, w, a); W::put(V, o); break;
    case 9: W::put(s->basis(a), o); break;
    case 10: s->addScaledBasisDx(&V, w, a); W::put(V, o); break;
    case 11: W::put(s->basisDx(a), o); break;
    case 12: s->addScaledBasisDy(&V, w, a); W::put(V, o); break;
    case 13: W::put(s->basisDy(a), o); break;
    case 14: s->addScaledBasis1D(&V, w, a(0)); W::put(V, o); break;
    case 15: W::put(s->basis1D(a(0)), o); break;
    case 16: s->addScaledBasis1DDx(&V, w, a(0)); W::put(V, o); break;
    case 17: W::put(s->basis1DDx(a(0)), o); break;
  }
}
#define DEF(X, Op) \\
extern "C" SuperSpace<Op> *mk##X(const double *c, int n, int M, int P, int how) { return mk<Op>(c, n, M, P, how); } \\
extern "C" void m2s##X(const SuperSpace<Op> *s, int e, const double *xi, double *o) { m2s<Op>(s, e, xi, o); } \\
extern "C" void inf##X(const SuperSpace<Op> *s, double *o) { inf<Op>(s, o); } \\
extern "C" void act##X(const SuperSpace<Op> *s, int f, const double *w, const SurfacePoint *a, const SurfacePoint *b, const double *c, int n, int m, double *o) { act<Op>(s, f, w, a, b, c, n, m, o); } \\
extern "C" void del##X(SuperSpace<Op> *s) { delete s; }
DEF(R, OpR)
DEF(Z, OpZ)
"""
HOW = ["constructed", "copied", "moved", "assigned", "move-assigned", "re-initialised", "copy of a copy, originals destroyed"]


def witnesses(tier):
    return {"s": SRC}


def jobs(tier):
    js = []
    for P_ in range(0, 4 if tier == "quick" else 7):
        for z in "RZ":
            for h in range(len(HOW)):
                if h and P_ != 1:
                    continue
                js.append(("%s degree %d %s" % (z, P_, HOW[h]), "s", "j_act", dict(z=z, p=P_, how=h)))
    for z in "RZ":
        for name, M in (("single", 0), ("single", 1), ("single", 2), ("L", 1), ("pair 12", 1)) + ((("single", 3), ("box rotated", 1)) if tier != "quick" else ()):
            for h in range(len(HOW)):
                if h and (M != 1 or name != "L"):
                    continue
                js.append(("%s map %s level %d %s" % (z, name, M, HOW[h]), "s", "j_map", dict(z=z, name=name, M=M, how=h)))
    return js


def j_map(job, z, name, M, how):
    T = TOPO[name]
    it = job.interp()
    s = job.call(it, "mk" + z, [put(it, "c", flat(T)), len(T), M, 2, how])
    o = it.new_obj("i", 56, "undef")
    job.call(it, "inf" + z, [s, Ptr(o, 0)])
    n = 2 ** M
    job.check([it.load(Ptr(o, 8 * i), D) for i in range(7)] == [2, 9, M, len(T) * n * n, len(T), len(T), len(T) * n * n], "getters/" + HOW[how], "getters of the %s space" % HOW[how], W)
    x, y, w = var("xi[0]"), var("xi[8]"), var("xi[16]")
    for e in range(len(T) * n * n):
        p, k = divmod(e, n * n)
        ix, iy = morton(M)[k]
        o = it.new_obj("o", 96, "undef")
        job.call(it, "m2s" + z, [s, e, it.sym("xi"), Ptr(o, 0)])
        v = [it.load(Ptr(o, 8 * i), D) for i in range(12)]
        S, U = var("S"), var("U")
        c = flat([T[p]])
        b = bump(p)
        pt = []
        for d in range(3):
            t = 0.0
            for q, (i, j) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
                t = t + (S if i else 1.0 - S) * (U if j else 1.0 - U) * c[3 * q + d]
            t = t + bern(2, 1, S) * bern(2, 1, U) * b[d]
            pt.append(t)
        at = {"S": (x + float(ix)) * (1.0 / n), "U": (y + float(iy)) * (1.0 / n)}
        want = [x, y, w] + [dom.subst(t, at) for t in pt] + [dom.subst(dom.diff(t, "S"), at) for t in pt] + [dom.subst(dom.diff(t, "U"), at) for t in pt]
        for i in range(12):
            job.eq("map2surface/%s/%d" % (HOW[how], i), v[i], want[i], "map2surface on element %d of %s, level %d, %s space: entry %d" % (e, name, M, HOW[how], i),
                   where=W + " (map2surface)")
    job.call(it, "del" + z, [s])


def want(f, p, a, b, w):
    """(matrix entries added {(i,j): C}, rows, cols, accumulates)"""
    n = (p + 1) ** 2
    B, Bx, By = basis2(p, a.xi), basis2dx(p, a.xi), basis2dy(p, a.xi)
    T, Tx, Ty = basis2(p, b.xi), basis2dx(p, b.xi), basis2dy(p, b.xi)
    acc = f in (0, 2, 3, 4, 6, 8, 10, 12, 14, 16)
    s = w if acc else C(1.0)
    if f in (0, 1):
        return {(i, j): s * C(B[i] * T[j]) for i in range(n) for j in range(n)}, n, n, acc
    if f in (2, 3):
        def curl(pt, dx, dy, i):
            return [dom.div(pt.dy[d] * dx[i] - pt.dx[d] * dy[i], pt.kappa) for d in range(3)]
        A = [curl(a, Bx, By, i) for i in range(n)]
        if f == 2:
            Z = [curl(b, Tx, Ty, i) for i in range(n)]
            return {(i, j): s * C(dot(A[i], Z[j])) for i in range(n) for j in range(n)}, n, n, acc
        # surface gradient: inverse first fundamental form applied to the parameter gradient
        E, F, G = dot(a.dx, a.dx), dot(a.dx, a.dy), dot(a.dy, a.dy)
        den = a.kappa * a.kappa
        return {(i, j): s * C(dom.div(G * Bx[i] * Bx[j] - F * (Bx[i] * By[j] + By[i] * Bx[j]) + E * By[i] * By[j], den))
                for i in range(n) for j in range(n)}, n, n, acc
    if f in (4, 5):
        return {(c * n + i, d * n + j): s * C(dot([a.dx, a.dy][c], [b.dx, b.dy][d]) * B[i] * T[j])
                for c in range(2) for d in range(2) for i in range(n) for j in range(n)}, 2 * n, 2 * n, acc
    if f in (6, 7):
        return {(c * n + i, d * n + j): s * C([Bx, By][c][i] * [Tx, Ty][d][j])
                for c in range(2) for d in range(2) for i in range(n) for j in range(n)}, 2 * n, 2 * n, acc
    if f < 14:
        v = {8: B, 9: B, 10: Bx, 11: Bx, 12: By, 13: By}[f]
        return {(i, 0): s * C(v[i]) for i in range(n)}, n, 1, acc
    v = [(bern if f < 16 else dbern)(p, i, a.xi[0]) for i in range(p + 1)]
    return {(i, 0): s * C(v[i]) for i in range(p + 1)}, p + 1, 1, acc


def j_act(job, z, p, how):
    T = TOPO["single"]
    for f in range(18):
        it = job.interp()
        s = job.call(it, "mk" + z, [put(it, "c", flat(T)), 1, 0, p, how])
        a, b = SP("a"), SP("b")
        for q in (a, b):
            dom.assume_pos(dot(q.n, q.n))
        w = C(var("w[0]"), var("w[8]") if z == "Z" else 0.0)
        ref, n, m, acc = want(f, p, a, b, w)
        o = it.new_obj("o", 16 * n * m, "undef")
        job.call(it, "act" + z, [s, f, it.sym("w"), it.sym("a"), it.sym("b"), it.sym("c0"), n, m, Ptr(o, 0)])
        for (i, j), v in ref.items():
            k = 2 * (j * n + i)
            for part, off in (("re", 0), ("im", 8)):
                if off and z == "R":
                    continue
                want_ = getattr(v, part)
                if acc:
                    want_ = var("c0[%d]" % (8 * k + off)) + want_
                job.eq("%s/%s/%s" % (ROUTINES[f], HOW[how], part), it.load(Ptr(o, 8 * k + off), D), want_,
                       "SuperSpace::%s (%s scalar, degree %d, %s) entry (%d,%d) %s" % (ROUTINES[f], "complex" if z == "Z" else "real", p, HOW[how], i, j, part),
                       where=W + " (%s)" % ROUTINES[f])
