"""H2-matrix: partition into admissible and dense blocks, and matrix-vector products of the compressed operator"""
import re

from checks.assembly import moment, square
from checks.element_tree import put
from va.contracts import use_gauss, use_trisolve
from va.dom import var
from va.rig import D, Ptr
from va.spec import C

PID = "C13"
EXPLAIN = ("BlockClusterTree and H2Matrix are interpreted for user-defined operators on flat multi-patch geometries.  The leaves of every block cluster "
           "tree must partition the pairs of elements, be admissible exactly when compressed, and dense only on the finest cluster level.  With near-field "
           "values unknown per pair of cells and a far-field kernel that is a polynomial with unknown coefficients (hence interpolated exactly), every "
           "product with the compressed matrix - single and several vectors, accumulated, scaled, sums with compressed, dense and sparse matrices, "
           "get_dense - must equal transformation^T * block matrix * transformation applied to the unknown vector.  The near-field integrator is "
           "replaced by its contract (C12) where it exists under its name.")
MIN_OBLIGATIONS = {"quick": 500}
W = "Bembel/src/H2Matrix/"
SRC = """
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/LinearOperator>
#include <Bembel/src/util/Macros.hpp>
#include "geo.hpp"
static const double *KC, *KU, *KF, *KG, *BAD; static const int *MON; static long NN, NX, NM; static double SC;
namespace Bembel {
static long cell(double x, double y) { return (long)(x * SC) + NX * (long)(y * SC); }
static double pw(double x, int k) { double r = 1; for (int i = 0; i < k; ++i) r *= x; return r; }
template <int F, int NC, class S> class Ker;
template <int F, int NC, class S> struct LinearOperatorTraits<Ker<F, NC, S>> { typedef Eigen::Matrix<S, -1, 1> EigenType; typedef S Scalar; enum { OperatorOrder = -1, Form = F, NumberOfFMMComponents = NC }; };
template <int F, int NC, class S> class Ker : public LinearOperatorBase<Ker<F, NC, S>> {
 public:
  double fac = 1.;
  template <class T> void evaluateIntegrand_impl(const T &, const SurfacePoint &p1, const SurfacePoint &p2, Eigen::Matrix<S, -1, -1> *v) const {
    S k; W::get(k, KC + 2 * (NN * cell(p1(3), p1(4)) + cell(p2(3), p2(4))));
    k *= p1(2) * p2(2) * fac;
    for (long i = 0; i < v->rows(); ++i) for (long j = 0; j < v->cols(); ++j) (*v)(i, j) += k * KU[i * v->cols() + j];
  }
  enum { N = NC * getFunctionSpaceVectorDimension<F>() };
  Eigen::Matrix<S, N, N> evaluateFMMInterpolation_impl(const SurfacePoint &p1, const SurfacePoint &p2) const {
    S k(0.);
    for (int m = 0; m < NM; ++m) { S g; W::get(g, KG + 2 * m); k += g * (pw(p1(3), MON[4 * m]) * pw(p1(4), MON[4 * m + 1]) * pw(p2(3), MON[4 * m + 2]) * pw(p2(4), MON[4 * m + 3]) * p1(2) * p2(2)); }
    Eigen::Matrix<S, N, N> r;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) r(i, j) = k * fac * KF[i * N + j];
    return r;
  }
};
typedef Ker<DifferentialForm::DivConforming, 2, std::complex<double>> Op3;
template <typename InterpolationPoints>
struct H2Multipole::Moment2D<InterpolationPoints, Op3> {
  static std::vector<Eigen::MatrixXd> compute2DMoment(const SuperSpace<Op3> &s, const int cl, const int cr, const int np) {
    typedef Moment1D<InterpolationPoints, Op3> V; typedef Moment1DDerivative<InterpolationPoints, Op3> G;
    Eigen::MatrixXd m = moment2DComputer<V, V>(s, cl, cr, np), x = moment2DComputer<G, V>(s, cl, cr, np), y = moment2DComputer<V, G>(s, cl, cr, np);
    std::vector<Eigen::MatrixXd> r(2, Eigen::MatrixXd(2 * m.rows(), m.cols()));
    r[0] << m, x; r[1] << m, y;
    return r;
  }
};
}
using namespace Bembel;
typedef Ker<DifferentialForm::Continuous, 1, double> Op0;
typedef Ker<DifferentialForm::DivConforming, 1, std::complex<double>> Op1;
typedef Ker<DifferentialForm::Discontinuous, 1, double> Op2;
template <class L> static void ctr(const L *op, const SuperSpace<L> *s, const ElementTreeNode *e1, const ElementTreeNode *e2, const ElementSurfacePoints *f1, const ElementSurfacePoints *f2,
                                   Eigen::Matrix<typename LinearOperatorTraits<L>::Scalar, -1, -1> *v) {
  SurfacePoint p1, p2; Eigen::Vector2d m(.5, .5);
  s->map2surface(*e1, m, 1., &p1); s->map2surface(*e2, m, 1., &p2);
  long a = cell(p1(3), p1(4)), b = cell(p2(3), p2(4));
  typename LinearOperatorTraits<L>::Scalar k; W::get(k, KC + 2 * (NN * a + b));
  k *= e1->get_h() * e2->get_h() * op->fac;
  if (f1->empty() || f2->empty() || cell((*f1)[0](3), (*f1)[0](4)) != a || cell((*f2)[0](3), (*f2)[0](4)) != b) k = *BAD;
  for (long i = 0; i < v->rows(); ++i) for (long j = 0; j < v->cols(); ++j) (*v)(i, j) = k * KU[i * v->cols() + j];
}
extern "C" void set(const double *kc, const double *ku, const double *kf, const double *kg, const double *bad, const int *mon, long nm, double *o) {
  KC = kc; KU = ku; KF = kf; KG = kg; MON = mon; NM = nm; BAD = bad; SC = o[0]; NX = (long)o[1]; NN = (long)o[2]; }
static Geometry geo(const double *c, int n) { PatchVector v; for (int i = 0; i < n; ++i) v.push_back(W::bilinear(c + 12 * i)); return Geometry(v); }
template <class L> struct St { AnsatzSpace<L> *a; Eigen::H2Matrix<typename LinearOperatorTraits<L>::Scalar> *h; DiscreteOperator<Eigen::H2Matrix<typename LinearOperatorTraits<L>::Scalar>, L> *d; };
template <class L> static void info(const AnsatzSpace<L> &a, double *o) {
  const Eigen::SparseMatrix<double> &m = a.get_transformation_matrix();
  const ElementTree &t = a.get_superspace().get_mesh().get_element_tree();
  *o++ = t.get_number_of_elements();
  for (auto e = t.cpbegin(); e != t.cpend(); ++e) {
    SurfacePoint p; a.get_superspace().map2surface(*e, Eigen::Vector2d(.5, .5), 1., &p); *o++ = e->id_; *o++ = cell(p(3), p(4));
    a.get_superspace().map2surface(*e, Eigen::Vector2d(0, 0), 1., &p); for (int i = 3; i < 12; ++i) *o++ = p(i); }
  *o++ = m.rows(); *o++ = m.cols(); double *n = o++; *n = 0;
  for (int k = 0; k < m.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) { *o++ = it.row(); *o++ = it.col(); *o++ = it.value(); *n += 1; }
}
template <class L> static void *mk(const double *c, int n, int M, int P, int np, double fac, int how, double *t) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  St<L> *s = new St<L>;
  s->a = new AnsatzSpace<L>(geo(c, n), M, P); info(*s->a, t);
  if (np) {
    L op; op.fac = fac;
    s->h = new Eigen::H2Matrix<S>();
    if (how == 1) { AnsatzSpace<L> *b = new AnsatzSpace<L>(geo(c, n), 0, P); s->h->init_H2Matrix(op, *b, 1); }
    s->h->init_H2Matrix(op, *s->a, np);
  } else {
    s->d = new DiscreteOperator<Eigen::H2Matrix<S>, L>(*s->a); delete s->a; s->d->get_linear_operator().fac = fac; s->d->compute();
    s->h = const_cast<Eigen::H2Matrix<S> *>(&s->d->get_discrete_operator());
  }
  return s;
}
template <class L> static void mul(const void *v, const double *x, const double *al, int how, double *o) {
  typedef typename LinearOperatorTraits<L>::Scalar S; typedef Eigen::Matrix<S, -1, 1> V; typedef Eigen::Matrix<S, -1, -1> Mt;
  const Eigen::H2Matrix<S> &H = *((const St<L> *)v)->h;
  const int n = H.cols();
  V X(n), Y(H.rows()), Z(n); S a; W::get(a, al);
  for (int i = 0; i < n; ++i) { W::get(X(i), x + 2 * i); W::get(Z(i), x + 2 * (n + i)); }
  *o++ = H.rows(); *o++ = H.cols();
  if (how == 0) Y = H * X;
  if (how == 1) { Y = Z; Y += a * (H * X); }
  if (how == 2) { Mt B(n, 2); B.col(0) = X; B.col(1) = Z; Mt R = H * B; *o++ = R.rows(); *o++ = R.cols(); W::put(R, o); return; }
  if (how == 3) Y = (a * H) * X;
  if (how == 4) Y = (H + H) * X;
  if (how == 5) Y = (a * H - H) * X;
  if (how == 6) { Mt R = H.get_dense(); *o++ = R.rows(); *o++ = R.cols(); W::put(R, o); return; }
  if (how == 7) { Mt Dn = Mt::Zero(n, n); for (int i = 0; i < n; ++i) Dn(i, (i + 1) % n) = a; Y = (Dn - H) * X; }
  if (how == 8) { Mt Dn = Mt::Zero(n, n); for (int i = 0; i < n; ++i) Dn(i, (i + 1) % n) = a; Y = (H + Dn) * X; }
  if (how == 9) { Eigen::SparseMatrix<S> Sp(n, n); for (int i = 0; i < n; ++i) Sp.insert(i, (i + 1) % n) = a; Y = (Sp + H - H) * X; }
  if (how == 10) { Eigen::SparseMatrix<S> Sp(n, n); for (int i = 0; i < n; ++i) Sp.insert(i, (i + 1) % n) = a; Y = (H - Sp) * X; }
  if (how == 11) { Y = Z; Y -= H * X; }
  if (how == 12) { Y = Z; Y.noalias() += H * X; }
  if (how == 13) Y = Z - H * X;
  if (how == 14) Y = H * X.head(n);
  *o++ = Y.size(); *o++ = 1; W::put(Y, o);
}
template <class L> static void tree(const void *v, int i, int j, int cpy, double *o) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  BlockClusterTree<S> b(((const St<L> *)v)->h->get_block_cluster_tree()(i, j));
  if (cpy == 1) { BlockClusterTree<S> c; c.set_parameters(); L op; c.init_BlockClusterTree(op, *((const St<L> *)v)->a); b = c; }
  BlockClusterTree<S> &t = cpy == 2 ? b : cpy ? b : const_cast<BlockClusterTree<S> &>(((const St<L> *)v)->h->get_block_cluster_tree()(i, j));
  *o++ = t.rows(); *o++ = t.cols(); *o++ = t.get_parameters().max_level_; *o++ = t.get_parameters().min_cluster_level_; *o++ = t.get_parameters().eta_;
  double *n = o++; *n = 0;
  for (auto l = t.lbegin(); l != t.lend(); ++l) {
    *n += 1;
    *o++ = (*l)->get_cc(); *o++ = (*l)->rows(); *o++ = (*l)->cols(); *o++ = (*l)->get_row_start_index(); *o++ = (*l)->get_row_end_index(); *o++ = (*l)->get_col_start_index(); *o++ = (*l)->get_col_end_index();
    *o++ = (*l)->get_leaf().is_low_rank();
    const ElementTreeNode *e[2] = {(*l)->get_cluster1(), (*l)->get_cluster2()};
    for (int k = 0; k < 2; ++k) { *o++ = e[k]->get_level(); *o++ = e[k]->id_; for (int d = 0; d < 3; ++d) *o++ = e[k]->midpoint_(d); *o++ = e[k]->radius_; }
  }
}
#define DEF(X) \\
extern "C" void ctr##X(const Op##X *op, const SuperSpace<Op##X> *s, const ElementTreeNode *e1, const ElementTreeNode *e2, const void *gs, const ElementSurfacePoints *f1, const ElementSurfacePoints *f2, \\
  Eigen::Matrix<LinearOperatorTraits<Op##X>::Scalar, -1, -1> *v) { ctr<Op##X>(op, s, e1, e2, f1, f2, v); } \\
extern "C" void *mk##X(const double *c, int n, int M, int P, int np, double fac, int how, double *t) { return mk<Op##X>(c, n, M, P, np, fac, how, t); } \\
extern "C" void mul##X(const void *v, const double *x, const double *al, int how, double *o) { mul<Op##X>(v, x, al, how, o); } \\
extern "C" void tree##X(const void *v, int i, int j, int cpy, double *o) { tree<Op##X>(v, i, j, cpy, o); }
DEF(0)
DEF(1)
DEF(2)
DEF(3)
"""
NAMES = ["continuous", "div-conforming", "discontinuous", "div-conforming two-component"]
MUL = ["H*x", "y += a*(H*x)", "H*X (two columns)", "(a*H)*x", "(H+H)*x", "(a*H-H)*x", "get_dense", "(D-H)*x", "(H+D)*x", "(S+H-H)*x", "(H-S)*x", "y -= H*x", "noalias y += H*x", "y - H*x", "H*x.head(n)"]
GEO = {"gap": [square(0, 0, 1), square(2, 0, 2)], "row": [square(3, 0, 3), square(0, 0, 0), square(1, 0, 2)], "pair": [square(0, 0, 1), square(1, 0, 2)],
       "far": [square(0, 1, 1), square(5, 0, 3)], "one": [square(0, 0, 2)],
       "sizes": [square(0, 0, 0), [(1.75, .25, 0.), (2.25, .25, 0.), (2.25, .75, 0.), (1.75, .75, 0.)]]}
MON = {1: [(0, 0, 0, 0)], 2: [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 1, 0), (0, 0, 0, 1)], 3: [(0, 0, 0, 0), (2, 0, 1, 0), (0, 1, 0, 2), (1, 2, 2, 0)],
       9: [(0, 0, 0, 0), (1, 0, 0, 2), (0, 1, 1, 0)]}


def witnesses(tier):
    return {"h": SRC}


def jobs(tier):
    js = []

    def add(op, geo, M, P, np, muls=(0,), how=0):
        js.append(("%s %s M%d P%d q%d %s%s" % (NAMES[op], geo, M, P, np, ",".join(map(str, muls)), " again" if how else ""), "h", "j_h2",
                   dict(op=op, geo=geo, M=M, P=P, np=np, muls=muls, how=how)))
    full = tier != "quick"
    every = tuple(range(len(MUL)))
    add(2, "row", 2, 0, 3)
    add(2, "gap", 1, 0, 2, every)
    add(1, "gap", 1, 1, 2, every if full else (0, 1, 3, 6, 8, 9))
    add(0, "gap", 1, 1, 2)
    add(0, "row", 1, 2 if full else 1, 2)
    add(3, "gap", 1, 1, 2, (0, 2))
    add(2, "far", 2, 0, 2, (0, 12))
    add(2, "pair", 0, 1, 2)
    add(2, "far", 0, 0, 2)
    add(1, "far", 0, 1, 2)
    add(2, "one", 1, 1, 2)
    add(2, "gap", 1, 1, 0)
    add(2, "gap", 1, 0, 2, (0,), 1)
    add(3, "far", 2, 1, 2)
    add(2, "one", 3, 0, 1)
    add(2, "sizes", 1, 0, 2)
    add(2, "sizes", 2, 0, 1)
    if full:
        add(3, "row", 2, 1, 2)
        add(1, "far", 2, 2, 3)
        add(0, "row", 2, 2, 3)
        add(2, "row", 3, 0, 2)
        add(1, "gap", 1, 1, 0)
    return js


def bmom(P, k, e, der):
    if not der:
        return moment(P, k, e)
    s = (1.0 if k == P else 0.0) - (1.0 if k == 0 and e == 0 else 0.0)
    return s - (e * moment(P, k, e - 1) if e else 0.0)


def pmul(a, b):
    r = {}
    for (i, j), x in a.items():
        for (k, l), y in b.items():
            r[i + k, j + l] = r.get((i + k, j + l), 0.0) + x * y
    return r


def j_h2(job, op, geo, M, P, np, muls, how):
    it = job.interp()
    it.max_steps = 3 * 10 ** 9
    use_gauss(it, empty=True)
    use_trisolve(it)
    hooked = 0
    for name in it.mod.functions:
        if "evaluateBilinearForm" in name and name.startswith("_ZN6Bembel10DuffyTrick20evaluateBilinearForm"):
            m = re.search(r"KerILi(\d)ELi(\d)E", name)
            if m:
                k = {("0", "1"): 0, ("1", "1"): 1, ("2", "1"): 2, ("1", "2"): 3}.get((m.group(1), m.group(2)))
                if k is not None:
                    it.hooks[name] = lambda it, a, info, k=k: it.call("ctr%d" % k, list(a))
                    hooked += 1
    if not hooked and M > 1:
        job.ok("skipped", "near-field contract not applicable: level %d left to the thorough tier" % M)
        if job.tier == "quick":
            return
    G = GEO[geo]
    cx = op in (1, 3)
    vd = 2 if cx else 1
    nc = 2 if op == 3 else 1
    sc = 2. ** M
    nx, ny = 7 * int(sc), 3 * int(sc)
    NN = nx * ny
    q = np or 9
    mon = MON[q]
    st = put(it, "st", [sc, float(nx), float(NN)])
    mo = it.new_obj("mon", 16 * len(mon), "undef")
    for i, t in enumerate(mon):
        for d in range(4):
            it.store(Ptr(mo, 16 * i + 4 * d), t[d], ("i", 32))
    geom = put(it, "geo", [x for p in G for k in (0, 1, 3, 2) for x in p[k]])
    job.call(it, "set", [it.sym("k"), it.sym("u"), it.sym("f"), it.sym("g"), it.sym("bad"), Ptr(mo, 0), len(mon), Ptr(st.obj, 0)])
    t = it.new_obj("t", None, "undef")
    fac = var("fac")
    h = job.call(it, "mk%d" % op, [geom, len(G), M, P, np, fac, how, Ptr(t, 0)])
    rd = lambda k: it.load(Ptr(t, 8 * k), D)
    ne = int(rd(0))
    el = {}
    for i in range(ne):
        v = [rd(1 + 11 * i + k) for k in range(11)]
        el[int(v[0])] = (int(v[1]), v[2:5], v[5:8], v[8:11])
    job.check(sorted(el) == list(range(ne)), "ids", "element ids", W)
    b = 1 + 11 * ne
    rows, cols, nz = int(rd(b)), int(rd(b + 1)), int(rd(b + 2))
    L = (P + 1) ** 2
    T = {}
    for k in range(nz):
        T.setdefault(int(rd(b + 4 + 3 * k)), []).append((int(rd(b + 3 + 3 * k)), rd(b + 5 + 3 * k)))
    what = "%s operator on %s, level %d, degree %d, %s interpolation points" % (NAMES[op], geo, M, P, np or "default")
    # block cluster tree
    kindmap = {}
    wh = W + "BlockClusterTree.hpp"
    for i in range(vd):
        for j in range(vd):
            for cpy in (0, 1) if (i, j) == (0, 0) and np else (0,):
                o = it.new_obj("o", None, "undef")
                job.call(it, "tree%d" % op, [h, i, j, cpy, Ptr(o, 0)])
                r = lambda k: it.load(Ptr(o, 8 * k), D)
                job.check((r(0), r(1)) == (ne, ne), "tree", "%s: block cluster tree (%d,%d) has %s x %s elements, not %d x %d" % (what, i, j, r(0), r(1), ne, ne), wh)
                ml, mc, eta = r(2), r(3), r(4)
                job.check(ml == M and mc == 1 and eta == 1.6, "tree", "%s: parameters max_level %s, min_cluster_level %s, eta %s" % (what, ml, mc, eta), wh)
                seen = {}
                for k in range(int(r(5))):
                    v = [r(6 + 20 * k + d) for d in range(20)]
                    cc, rr, rc, r0, r1, c0, c1, lr = v[:8]
                    (l1, i1, m1, d1), (l2, i2, m2, d2) = (v[8], v[9], v[10:13], v[13]), (v[14], v[15], v[16:19], v[19])
                    n1, n2 = (ne, ne) if l1 < 0 else (4 ** int(M - l1), 4 ** int(M - l2))
                    s1, s2 = (0, 0) if l1 < 0 else (i1 * n1, i2 * n2)
                    tag = "%s: block cluster tree (%d,%d)%s leaf %d" % (what, i, j, " rebuilt and copied" if cpy else "", k)
                    job.check([rr, rc, r0, r1, c0, c1] == [n1, n2, s1 * L, (s1 + n1) * L, s2 * L, (s2 + n2) * L] and l1 == l2, "leaf",
                              "%s (level %d, clusters %d, %d): size %s x %s, rows %s..%s, columns %s..%s" % (tag, l1, i1, i2, rr, rc, r0, r1, c0, c1), wh)
                    dist = sum((x - y) ** 2 for x, y in zip(m1, m2)) ** .5 - d1 - d2
                    adm = dist > 0 and max(d1, d2) < 1.6 * dist
                    job.check(cc in (1, 2) and (cc == 1) == adm, "admissible", "%s: format %s, distance %g, radii %g, %g" % (tag, cc, dist, d1, d2), wh)
                    job.check(cc == 1 or l1 == max(M - 1, -1) or (M == 0 and l1 == -1), "finest", "%s: dense block on cluster level %s of %d" % (tag, l1, M), wh)
                    if not cpy:
                        job.check(bool(lr) == (cc == 1), "flag", "%s: format %s but low-rank flag %s" % (tag, cc, lr), W + "H2Matrix.hpp")
                    for a in range(int(s1), int(s1 + n1)):
                        for c in range(int(s2), int(s2 + n2)):
                            seen[a, c] = seen.get((a, c), 0) + (1 if (a, c) not in seen else 99)
                    if i == j == 0 and not cpy:
                        for a in range(int(s1), int(s1 + n1)):
                            for c in range(int(s2), int(s2 + n2)):
                                kindmap[a, c] = int(cc)
                job.check(len(seen) == ne * ne and all(x == 1 for x in seen.values()), "partition", "%s: block cluster tree (%d,%d): leaves cover %d of %d element pairs" % (
                    what, i, j, sum(x == 1 for x in seen.values()), ne * ne), wh)
    he = .5 ** M
    KF = lambda a, c: var("f[%d]" % (8 * (a * vd * nc + c)))
    g = [C(var("g[%d]" % (16 * m)), var("g[%d]" % (16 * m + 8)) if cx else 0.0) for m in range(len(mon))]
    lin = {}
    for e, (c_, p, dx, dy) in el.items():
        lin[e] = [{(0, 0): p[d], (1, 0): he * dx[d], (0, 1): he * dy[d]} for d in (0, 1)]
    mono = {}

    ent = {}
    momc = {}

    def mom(e, pq, la, comp, ii):
        """integral over element e of x^p y^q times (derivative of) local function la"""
        k = (e, pq, la, comp, ii if comp else 0)
        if k not in momc:
            if (e, pq) not in mono:
                z = {(0, 0): 1.0}
                for d in (0, 1):
                    for _ in range(pq[d]):
                        z = pmul(z, lin[e][d])
                mono[e, pq] = z
            momc[k] = sum(x * bmom(P, la % (P + 1), i_, comp and ii == 0) * bmom(P, la // (P + 1), j_, comp and ii == 1) for (i_, j_), x in mono[e, pq].items())
        return momc[k]

    def entry(a, c):
        if (a, c) in ent:
            return ent[a, c]
        (ca, ea, la), (cb, eb, lb) = [(r // (ne * L), r // L % ne, r % L) for r in (a, c)]
        if kindmap.get((ea, eb)) == 2:
            i = NN * el[ea][0] + el[eb][0]
            s = C(var("k[%d]" % (16 * i)), var("k[%d]" % (16 * i + 8)) if cx else 0.0) * C(var("u[%d]" % (8 * ((ca * L + la) * vd * L + cb * L + lb))) * (he * he))
        else:
            s = C(0.0)
            for m, (p, q_, r, u) in enumerate(mon):
                z = 0.0
                for i in range(nc):
                    for j in range(nc):
                        w = mom(ea, (p, q_), la, i, ca) * mom(eb, (r, u), lb, j, cb) * (he if i == 0 else 1.0) * (he if j == 0 else 1.0)
                        if w:
                            z = z + KF(ca * nc + i, cb * nc + j) * w
                s = s + g[m] * C(z)
        ent[a, c] = s
        return s
    Acache = {}

    def A(i, j):
        if (i, j) not in Acache:
            s = C(0.0)
            for a, x in T.get(i, ()):
                for c, y in T.get(j, ()):
                    s = s + entry(a, c) * C(x * y)
            Acache[i, j] = s * C(fac)
        return Acache[i, j]
    few = cols > 40
    step = max(1, cols // 6)
    xs = it.new_obj("x", 32 * cols, "undef")
    X, Z = [], []
    for i in range(2 * cols):
        for d in range(2):
            v = var("x[%d]" % (16 * i + 8 * d)) if not few or (i % step) == 3 % step else 0.0
            it.store(Ptr(xs, 16 * i + 8 * d), v, D)
            if d == 0:
                re_ = v
        (X if i < cols else Z).append(C(re_, v if cx else 0.0))
    al = it.sym("a")
    a = C(var("a[0]"), var("a[8]") if cx else 0.0)

    def HX(X, i):
        s = C(0.0)
        for j in range(cols):
            if not (isinstance(X[j].re, float) and X[j].re == 0.0 and isinstance(X[j].im, float)):
                s = s + A(i, j) * X[j]
        return s
    one = C(1.0)
    for mu in muls:
        o = it.new_obj("o", None, "undef")
        job.call(it, "mul%d" % op, [h, Ptr(xs, 0), al, mu, Ptr(o, 0)])
        r = lambda k: it.load(Ptr(o, 8 * k), D)
        job.check((r(0), r(1)) == (cols, cols), "shape", "%s: H2 matrix is %s x %s, not %d x %d" % (what, r(0), r(1), cols, cols), W + "H2Matrix.hpp")
        nr, ncol = int(r(2)), int(r(3))
        want = {0: lambda i, j: HX(X, i), 1: lambda i, j: Z[i] + a * HX(X, i), 2: lambda i, j: HX((X, Z)[j], i), 3: lambda i, j: a * HX(X, i), 4: lambda i, j: C(2.0) * HX(X, i),
                5: lambda i, j: (a - one) * HX(X, i), 6: lambda i, j: A(i, j), 7: lambda i, j: a * X[(i + 1) % cols] - HX(X, i), 8: lambda i, j: a * X[(i + 1) % cols] + HX(X, i),
                9: lambda i, j: a * X[(i + 1) % cols], 10: lambda i, j: HX(X, i) - a * X[(i + 1) % cols], 11: lambda i, j: Z[i] - HX(X, i), 12: lambda i, j: Z[i] + HX(X, i),
                13: lambda i, j: Z[i] - HX(X, i), 14: lambda i, j: HX(X, i)}[mu]
        wc = {2: 2, 6: cols}.get(mu, 1)
        if not job.check((nr, ncol) == (cols, wc), "result shape", "%s, %s: result is %d x %d" % (what, MUL[mu], nr, ncol), W):
            continue
        rows_ = range(cols) if not few else [i for i in range(cols) if i % max(1, cols // 48) == 0]
        for j in range(wc):
            for i in rows_:
                w = want(i, j)
                for d, z in enumerate((w.re, w.im)):
                    if d == 0 or cx:
                        job.eq(MUL[mu], r(4 + 2 * (j * nr + i) + d), z, "%s, %s, entry (%d,%d) %s" % (what, MUL[mu], i, j, "re im".split()[d]),
                               where=W + "EigenHelper/H2DenseProduct.hpp", tol=1e-8)
