"""special members: copies, moves, assignments and container growth carry the complete state of an object"""
from checks.element_tree import put
from va.dom import var
from va.rig import D, Ptr

PID = "C21"
EXPLAIN = ("Every copy, move and assignment route of geometries, patches, element tree nodes, block cluster trees and their leaves and matrices is interpreted "
           "on objects with unknown contents (and on default-constructed ones): everything the target shows afterwards must equal what the source showed "
           "before, the targets must not refer to memory of destroyed sources, and changing one of the two objects must not change the other.")
MIN_OBLIGATIONS = {"quick": 1000}
SRC = """
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/LinearOperator>
#include <Bembel/Laplace>
#include <Bembel/Maxwell>
#include <Bembel/src/util/Macros.hpp>
#include "geo.hpp"
using namespace Bembel;
// route r from *a to a new object; a is destroyed if del
template <class T> static T *route(T *a, int r, bool del) {
  T *b = 0;
  if (r == 0) b = new T(*a);
  if (r == 1) b = new T(std::move(*a));
  if (r == 2) { b = new T(); *b = *a; }
  if (r == 3) { b = new T(); *b = std::move(*a); }
  if (r == 4) { *a = *static_cast<const T *>(a); return a; }
  if (r == 5) { std::vector<T> v; v.push_back(*a); for (int i = 0; i < 4; ++i) v.push_back(T()); b = new T(v[0]); }
  if (r == 6) { std::vector<T> v(3); v[1] = *a; v.erase(v.begin()); std::swap(v[0], v[1]); b = new T(std::move(v[1])); }
  if (r == 7) { T t(*a); T u; u = t; std::swap(t, u); b = new T(t); }
  if (del) delete a;
  return b;
}
typedef GenericMatrix<double> GM;
typedef GenericMatrix<GM> GG;
template <class M> static double *obs(const M &m, double *o) { *o++ = m.rows(); *o++ = m.cols(); for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) *o++ = m(i, j); return o; }
extern "C" void gm(int r, int n, int m, const double *x, double *o1, double *o2, double *o3) {
  GM *a; if (r % 2) { a = new GM(n, m); } else { a = new GM(); a->resize(n + 2, m + 1); a->resize(n, m); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) (*a)(i, j) = x[i * m + j];
  obs(*a, o1);
  GM *b = route(a, r, false); obs(*b, o2);
  if (r == 0 || r == 2 || r == 5 || r == 6 || r == 7) { for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) (*b)(i, j) += 1; obs(*a, o3); } else obs(*b, o3);
}
extern "C" void gg(int r, int n, int m, const double *x, double *o1, double *o2) {
  GG *a = new GG(n, m);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { (*a)(i, j).resize(i + 1, j + 1); for (int k = 0; k <= i; ++k) for (int l = 0; l <= j; ++l) (*a)(i, j)(k, l) = x[(i * m + j) * 64 + k * 8 + l]; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) o1 = obs((*a)(i, j), o1);
  GG *b = route(a, r, r != 4);
  *o2++ = b->rows(); *o2++ = b->cols();
  for (int i = 0; i < b->rows(); ++i) for (int j = 0; j < b->cols(); ++j) o2 = obs((*b)(i, j), o2);
}
template <class S> static double *ob(const TreeLeaf<Eigen::Matrix<S, -1, -1>> &l, double *o) {
  *o++ = const_cast<TreeLeaf<Eigen::Matrix<S, -1, -1>> &>(l).is_low_rank();
  const Eigen::Matrix<S, -1, -1> *m[3] = {&l.get_F(), &l.get_L(), &l.get_R()};
  for (int k = 0; k < 3; ++k) { *o++ = m[k]->rows(); *o++ = m[k]->cols(); W::put(*m[k], o); o += 2 * m[k]->size(); }
  return o;
}
template <class S> static void leaf(int r, int how, int n, int m, int k, const double *x, double *o1, double *o2, double *o3) {
  typedef Eigen::Matrix<S, -1, -1> M; typedef TreeLeaf<M> T;
  M F(n, m), L(n, k), R(k, m);
  const double *p = x;
  for (int i = 0; i < F.size(); ++i, p += 2) W::get(F.data()[i], p);
  for (int i = 0; i < L.size(); ++i, p += 2) W::get(L.data()[i], p);
  for (int i = 0; i < R.size(); ++i, p += 2) W::get(R.data()[i], p);
  T *a = 0;
  if (how == 0) a = new T();
  if (how == 1) a = new T(F);
  if (how == 2) a = new T(L, R);
  if (how == 3) { a = new T(); a->set_F(F); a->set_L(L); a->set_R(R); a->set_low_rank_flag(true); }
  if (how == 4) { M f = F; a = new T(std::move(f)); }
  if (how == 5) { M l = L, q = R; a = new T(std::move(l), std::move(q)); }
  if (how == 6) a = new T(L * S(1), R + R - R);
  if (how == 7) a = new T(F + F - F);
  ob<S>(*a, o1);
  if (r < 0) return;
  T *b = route(a, r, false); ob<S>(*b, o2);
  if (r == 0 || r == 2 || r == 5 || r == 6 || r == 7) { b->get_F().setZero(); b->get_L().setZero(); b->get_R().setZero(); b->set_low_rank_flag(!b->is_low_rank()); ob<S>(*a, o3); } else ob<S>(*b, o3);
}
extern "C" void leafr(int r, int how, int n, int m, int k, const double *x, double *o1, double *o2, double *o3) { leaf<double>(r, how, n, m, k, x, o1, o2, o3); }
extern "C" void leafz(int r, int how, int n, int m, int k, const double *x, double *o1, double *o2, double *o3) { leaf<std::complex<double>>(r, how, n, m, k, x, o1, o2, o3); }
static double *on(const ElementTreeNode &e, const ElementTreeNode *base, double *o) {
  for (int d = 0; d < 3; ++d) *o++ = e.midpoint_(d);
  for (int d = 0; d < 2; ++d) *o++ = e.llc_(d);
  *o++ = e.radius_; *o++ = e.id_; *o++ = e.level_; *o++ = e.get_level(); *o++ = e.patch_; *o++ = e.get_h();
  *o++ = e.prev_ ? e.prev_ - base : -1; *o++ = e.next_ ? e.next_ - base : -1;
  *o++ = e.vertices_.size(); for (auto v : e.vertices_) *o++ = v;
  *o++ = e.adjcents_.size(); for (auto v : e.adjcents_) *o++ = v ? v - base : -1;
  *o++ = e.sons_.size(); for (auto &v : e.sons_) { *o++ = v.id_; *o++ = v.level_; *o++ = v.radius_; }
  Eigen::Vector2d m = e.referenceMidpoint(); *o++ = m(0); *o++ = m(1);
  return o;
}
extern "C" void node(int r, const double *x, const int *k, double *o1, double *o2) {
  ElementTreeNode *base = new ElementTreeNode[4];
  ElementTreeNode *a = new ElementTreeNode();
  for (int d = 0; d < 3; ++d) a->midpoint_(d) = x[d];
  for (int d = 0; d < 2; ++d) a->llc_(d) = x[3 + d];
  a->radius_ = x[5]; a->id_ = k[0]; a->level_ = 3; a->patch_ = k[2]; a->prev_ = base + 1; a->next_ = base + 2;
  for (int i = 0; i < 4; ++i) a->vertices_.push_back(k[3 + i]);
  a->adjcents_.resize(4); for (int i = 0; i < 4; ++i) a->adjcents_[i] = i == 2 ? nullptr : base + 3 - i;
  a->sons_.resize(2); for (int i = 0; i < 2; ++i) { a->sons_[i].id_ = k[7 + i]; a->sons_[i].level_ = k[9 + i]; a->sons_[i].radius_ = x[6 + i]; }
  if (r == 2) { delete a; a = new ElementTreeNode(); a->level_ = 0; }
  on(*a, base, o1);
  if (r == 1) { std::vector<ElementTreeNode> v; v.emplace_back(std::move(*a)); delete a; for (int i = 0; i < 5; ++i) v.emplace_back(); on(v[0], base, o2); }
  else { ElementTreeNode b(std::move(*a)); delete a; on(b, base, o2); }
}
static double *op(const Patch &p, double *o) {
  *o++ = p.polynomial_degree_x_; *o++ = p.polynomial_degree_y_;
  *o++ = p.unique_knots_x_.size(); for (auto v : p.unique_knots_x_) *o++ = v;
  *o++ = p.unique_knots_y_.size(); for (auto v : p.unique_knots_y_) *o++ = v;
  *o++ = p.data_.size(); for (auto v : p.data_) *o++ = v;
  return o;
}
static double *og(const Geometry &g, double *o) { *o++ = g.get_number_of_patches(); for (auto &p : g.get_geometry()) o = op(p, o); return o; }
extern "C" void patch(int r, const double *c, double *o1, double *o2, double *o3) {
  std::vector<Eigen::MatrixXd> m(4, Eigen::MatrixXd::Ones(2, 4));
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) for (int d = 0; d < 3; ++d) m[d](i, j) = c[(i * 4 + j) * 3 + d];
  Patch *a = new Patch(m, {0, 0, 0, .5, 1, 1, 1}, {0, 0, 1, 1});
  op(*a, o1);
  Patch *b = route(a, r, false); op(*b, o2);
  if (r == 0 || r == 2 || r == 5 || r == 6 || r == 7) { for (auto &v : b->data_) v += 1; b->unique_knots_x_[1] = .25; op(*a, o3); } else op(*b, o3);
}
extern "C" void geom(int r, const double *c, double *o1, double *o2, double *o3, double *o4) {
  PatchVector v; for (int i = 0; i < 2; ++i) v.push_back(W::bilinear(c + 12 * i));
  Geometry *a = new Geometry(v); og(*a, o1);
  Geometry *b;
  if (r < 8) b = route(a, r, false);
  if (r == 8) { b = new Geometry(); for (auto &p : v) for (auto &w : p.data_) w *= 1.; *b = Geometry(v); }
  og(*b, o2);
  if (r == 0 || r == 2 || r == 5 || r == 6 || r == 7 || r == 8) { for (auto &p : b->get_geometry()) for (auto &w : p.data_) w += 1; b->get_geometry().pop_back(); og(*a, o3); } else og(*b, o3);
  PatchVector w = v; Geometry g(w); for (auto &p : w) for (auto &z : p.data_) z += 1; og(g, o4);
}
template <class T> static bool empty(int r) { T *b = route(new T(), r, true); delete b; return true; }
extern "C" double none(int t, int r) {
  if (t == 0) return empty<Geometry>(r);
  if (t == 1) return empty<SuperSpace<LaplaceSingleLayerOperator>>(r);
  if (t == 2) return empty<AnsatzSpace<MaxwellSingleLayerOperator>>(r);
  if (t == 3) return empty<FunctionEvaluator<LaplaceSingleLayerOperator>>(r);
  if (t == 4) return empty<BlockClusterTree<double>>(r);
  if (t == 5) return empty<TreeLeaf<Eigen::MatrixXcd>>(r);
  if (t == 6) return empty<GM>(r);
  if (t == 7) return empty<Patch>(r);
  if (t == 8) return empty<GenericMatrix<BlockClusterTree<std::complex<double>>>>(r);
  return 0;
}
// after an empty geometry took over another one it behaves like it, and vice versa
extern "C" void refill(const double *c, double *o1, double *o2) {
  PatchVector v; for (int i = 0; i < 2; ++i) v.push_back(W::bilinear(c + 12 * i));
  Geometry a(v), e, f(e), g(v); og(a, o1); f = a; g = e; g = f; og(g, o2);
}
typedef BlockClusterTree<double> T;
static double *ot(T &t, const ElementTreeNode *root, double *o) {
  *o++ = t.rows(); *o++ = t.cols(); *o++ = t.get_cc();
  *o++ = t.get_cluster1() == root; *o++ = t.get_cluster2() == root;
  auto &p = t.get_parameters(); *o++ = p.eta_; *o++ = p.max_level_; *o++ = p.min_cluster_level_; *o++ = p.ffield_deg_; *o++ = p.polynomial_degree_; *o++ = p.polynomial_degree_plus_one_squared_; *o++ = p.et_root_ == root;
  double *n = o++; *n = 0;
  for (auto l = t.lbegin(); l != t.lend(); ++l) {
    *n += 1; *o++ = (*l)->get_cc(); *o++ = (*l)->rows(); *o++ = (*l)->cols(); *o++ = (*l)->get_level();
    *o++ = (*l)->get_row_start_index(); *o++ = (*l)->get_row_end_index(); *o++ = (*l)->get_col_start_index(); *o++ = (*l)->get_col_end_index();
    o = ob<double>((*l)->get_leaf(), o);
  }
  double *q = o++; *q = 0; for (auto l = static_cast<const T &>(t).clbegin(); l != static_cast<const T &>(t).clend(); ++l) *q += (*l)->rows() * (*l)->cols();
  return o;
}
extern "C" void tree(int r, const double *c, int n, int M, int P, double eta, int lvl, const double *x, double *o1, double *o2, double *o3) {
  typedef LaplaceSingleLayerOperator L;
  PatchVector v; for (int i = 0; i < n; ++i) v.push_back(W::bilinear(c + 12 * i));
  AnsatzSpace<L> s(Geometry(v), M, P); L op;
  const ElementTreeNode *root = &s.get_superspace().get_mesh().get_element_tree().root();
  T *a; if (r == 0) a = new T(op, s); else { a = new T(); a->set_parameters(eta, lvl); a->init_BlockClusterTree(op, s); }
  int k = 0;
  for (auto l = a->lbegin(); l != a->lend(); ++l, ++k) { Eigen::MatrixXd F(1, 1); F(0, 0) = x[k % 4]; (*l)->get_leaf().set_F(F); (*l)->get_leaf().set_low_rank_flag((*l)->get_cc() == 1); }
  ot(*a, root, o1);
  T *b = route(a, r, r == 3 || r == 6);
  ot(*b, root, o2);
  if (r == 0 || r == 2 || r == 5 || r == 7) {  // changing the copy, or setting it up for another space, must not change the source
    for (auto l = b->lbegin(); l != b->lend(); ++l) (*l)->get_leaf().get_F().setZero();
    ot(*a, root, o3); o3 += 4096;
    AnsatzSpace<L> q(Geometry(PatchVector(1, v[0])), M + 1, P + 1); b->init_BlockClusterTree(op, q);
    ot(*a, root, o3);
  } else { ot(*b, root, o3); o3 += 4096; ot(*b, root, o3); }
}
template <class L> static double *os(const AnsatzSpace<L> &s, double *o) {
  typedef typename LinearOperatorTraits<L>::Scalar K;
  *o++ = s.get_polynomial_degree(); *o++ = s.get_refinement_level(); *o++ = s.get_knot_repetition(); *o++ = s.get_number_of_elements(); *o++ = s.get_number_of_patches(); *o++ = s.get_number_of_dofs();
  for (auto &p : s.get_geometry()) o = op(p, o);
  auto &t = s.get_transformation_matrix();
  *o++ = t.rows(); *o++ = t.cols(); *o++ = t.nonZeros();
  for (int k = 0; k < t.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(t, k); it; ++it) { *o++ = it.row(); *o++ = it.col(); *o++ = it.value(); }
  auto &u = s.get_superspace();
  *o++ = u.get_polynomial_degree(); *o++ = u.get_polynomial_degree_plus_one_squared(); *o++ = u.get_refinement_level(); *o++ = u.get_number_of_elements();
  auto &e = u.get_mesh();
  for (int i = 0; i < e.get_points().cols(); ++i) for (int d = 0; d < 3; ++d) *o++ = e.get_points()(d, i);
  *o++ = e.get_element_tree().get_max_level();
  for (auto i = e.get_element_tree().cpbegin(); i != e.get_element_tree().cpend(); ++i) {
    *o++ = i->id_; *o++ = i->patch_; *o++ = i->llc_(0); *o++ = i->llc_(1); *o++ = i->level_; *o++ = i->radius_;
    SurfacePoint q; u.map2surface(*i, Eigen::Vector2d(.25, .5), 2., &q); for (int d = 0; d < 12; ++d) *o++ = q(d);
  }
  Eigen::Vector2d a(.25, .5), b(.75, .125);
  for (auto &v : {u.basis(a), u.basisDx(a), u.basisDy(a)}) for (int i = 0; i < v.size(); ++i) { *o++ = W::re(v(i)); *o++ = W::im(v(i)); }
  Eigen::Matrix<K, -1, -1> m = u.basisInteraction(a, b); for (int i = 0; i < m.size(); ++i) *o++ = W::re(m.data()[i]);
  return o;
}
template <class L> static void spc(int r, int how, const double *c, int M, int P, double *o1, double *o2, double *o3) {
  PatchVector v; for (int i = 0; i < 2; ++i) v.push_back(W::bilinear(c + 12 * i));
  Geometry g(v);
  AnsatzSpace<L> *a = how ? new AnsatzSpace<L>() : new AnsatzSpace<L>(g, M, P, 2);
  if (how == 2) a->init_AnsatzSpace(Geometry(PatchVector(1, v[1])), M - 1, P + 1, 1);
  if (how) a->init_AnsatzSpace(g, M, P, 2);
  os(*a, o1);
  AnsatzSpace<L> *b = route(a, r, r == 3 || r == 6);
  os(*b, o2);
  if (r == 0 || r == 2 || r == 5 || r == 7) { b->init_AnsatzSpace(Geometry(PatchVector(1, v[0])), M - 1, P - 1, 1); os(*a, o3); } else os(*b, o3);
}
extern "C" void space(int form, int r, int how, const double *c, int M, int P, double *o1, double *o2, double *o3) {
  if (form == 0) spc<LaplaceHypersingularOperator>(r, how, c, M, P, o1, o2, o3);
  if (form == 1) spc<MaxwellSingleLayerOperator>(r, how, c, M, P, o1, o2, o3);
  if (form == 2) spc<LaplaceSingleLayerOperator>(r, how, c, M, P, o1, o2, o3);
}
"""
ROUTES = ["copy", "move", "assignment to a default object", "move assignment", "self assignment", "growing container", "container with erase and swap", "swap"]
KINDS = ["default", "full", "low rank", "setters", "full moved", "low rank moved", "low rank expressions", "full expression"]
EMPTY = ["Geometry", "SuperSpace", "AnsatzSpace", "FunctionEvaluator", "BlockClusterTree", "TreeLeaf", "GenericMatrix", "Patch", "GenericMatrix<BlockClusterTree>"]


def witnesses(tier):
    return {"c": SRC}


def jobs(tier):
    js = []
    for r, n in enumerate(ROUTES):
        js.append(("small objects: " + n, "c", "j_small", dict(r=r)))
        for geo, M, P, eta, lvl in ((2, 1, 1, 1.2, 0), (3, 1, 0, 0.5, 1)) if tier == "quick" else ((2, 1, 1, 1.2, 0), (3, 2, 0, 0.5, 1), (3, 2, 1, 1.9, 0)):
            js.append(("tree %d patches M%d P%d: %s" % (geo, M, P, n), "c", "j_tree", dict(r=r, n=geo, M=M, P=P, eta=eta, lvl=lvl)))
        for form, name in enumerate(("continuous", "div-conforming", "discontinuous")):
            js.append(("%s space: %s" % (name, n), "c", "j_space", dict(r=r, form=form, name=name, thorough=tier != "quick")))
    js.append(("element tree nodes", "c", "j_node", {}))
    return js


def same(job, it, key, what, a, b, where, limit=4096):
    """the records a and b agree in every cell that a has"""
    n = 0
    while n < limit:
        if 8 * n not in a.cells:
            break
        x = it.load(Ptr(a, 8 * n), D)
        y = it.load(Ptr(b, 8 * n), D)
        if not job.eq("%s" % key, y, x, "%s, entry %d of its state" % (what, n), where=where):
            return False
        n += 1
    job.check(n > 0, key + "/records", what + " shows its state", where)
    return True


B = "Bembel/src/"


def j_small(job, r):
    it = job.interp()
    it.max_steps = 10 ** 9
    x = it.sym("x")
    rec = lambda n: it.new_obj(n, None, "undef")
    for n, m in ((0, 0), (1, 1), (2, 3), (3, 2)):
        o = [rec("gm%d%d%d" % (n, m, i)) for i in range(3)]
        job.call(it, "gm", [r, n, m, x] + [Ptr(q, 0) for q in o])
        want = [float(n), float(m)] + [var("x[%d]" % (8 * (i * m + j))) for j in range(m) for i in range(n)]
        for k, w in enumerate(want):
            for q, t in zip(o, ("matrix", "target", "source after a change of the copy")):
                job.eq("GenericMatrix/%s" % t, it.load(Ptr(q, 8 * k), D), w, "%dx%d GenericMatrix, %s: entry %d of its state in the %s" % (n, m, ROUTES[r], k, t), where=B + "util/GenericMatrix.hpp")
    o = [rec("gg%d" % i) for i in range(2)]
    job.call(it, "gg", [r, 2, 3, x] + [Ptr(q, 0) for q in o])
    want = [2.0, 3.0]
    for i in range(2):
        for j in range(3):
            want += [i + 1.0, j + 1.0] + [var("x[%d]" % (8 * ((i * 3 + j) * 64 + k * 8 + l))) for l in range(j + 1) for k in range(i + 1)]
    for k, w in enumerate(want):
        job.eq("GenericMatrix/nested", it.load(Ptr(o[1], 8 * k), D), w, "GenericMatrix of GenericMatrix, %s: entry %d" % (ROUTES[r], k), where=B + "util/GenericMatrix.hpp")
    for z in (0, 1):
        for how in range(8):
            n, m, k = 2, 3, 1
            o = [rec("lf%d%d%d" % (z, how, i)) for i in range(3)]
            job.call(it, "leafz" if z else "leafr", [r, how, n, m, k, x] + [Ptr(q, 0) for q in o])
            cell = lambda i: [var("x[%d]" % (16 * i)), var("x[%d]" % (16 * i + 8)) if z else 0.0]
            F = [float(n), float(m)] + [v for i in range(n * m) for v in cell(i)]
            L = [float(n), float(k)] + [v for i in range(n * k) for v in cell(n * m + i)]
            R = [float(k), float(m)] + [v for i in range(k * m) for v in cell(n * m + n * k + i)]
            E = [0.0, 0.0]
            want = {0: [0.0] + E + E + E, 1: [0.0] + F + E + E, 2: [1.0] + E + L + R, 3: [1.0] + F + L + R, 4: [0.0] + F + E + E, 5: [1.0] + E + L + R,
                    6: [1.0] + E + L + R, 7: [0.0] + F + E + E}[how]
            for i, w in enumerate(want):
                for q, t in zip(o, ("leaf", "target", "source after a change of the copy")):
                    job.eq("TreeLeaf/%s" % t, it.load(Ptr(q, 8 * i), D), w, "%s tree leaf, %s: entry %d of its state (flag, F, L, R) in the %s" % (KINDS[how], ROUTES[r], i, t), where=B + "H2Matrix/TreeLeaf.hpp")
    o = [rec("pa%d" % i) for i in range(3)]
    c = it.sym("c")
    job.call(it, "patch", [r, c] + [Ptr(q, 0) for q in o])
    same(job, it, "Patch/copy", "Patch, target of " + ROUTES[r], o[0], o[1], B + "Geometry/Patch.hpp")
    same(job, it, "Patch/source", "Patch, source after a change of the copy (%s)" % ROUTES[r], o[0], o[2], B + "Geometry/Patch.hpp")
    for r2 in ([r, 8] if r == 0 else [r]):
        o = [rec("ge%d%d" % (r2, i)) for i in range(4)]
        n = (ROUTES + ["construction"])[r2]
        job.call(it, "geom", [r2, c] + [Ptr(q, 0) for q in o])
        same(job, it, "Geometry/copy", "Geometry, target of " + n, o[0], o[1], B + "Geometry/Geometry.hpp")
        same(job, it, "Geometry/source", "Geometry, source after a change of the copy (%s)" % n, o[0], o[2], B + "Geometry/Geometry.hpp")
        same(job, it, "Geometry/patches", "Geometry built from patches which are changed later", o[0], o[3], B + "Geometry/Geometry.hpp")
    if r == 0:
        o = [rec("re%d" % i) for i in range(2)]
        job.call(it, "refill", [c] + [Ptr(q, 0) for q in o])
        same(job, it, "Geometry/refill", "Geometry assigned to a copy of an empty one", o[0], o[1], B + "Geometry/Geometry.hpp")
    if r != 4:
        for t, n in enumerate(EMPTY):
            v = job.call(it, "none", [t, r])
            job.check(v == 1.0, "empty/" + n, "a default-constructed %s can be copied, moved, assigned and stored (%s)" % (n, ROUTES[r]), B)


def j_node(job):
    for r, n in enumerate(("move constructor", "growing vector", "default node")):
        it = job.interp()
        x, k = it.sym("x"), it.new_obj("k", 44, "undef")
        for i in range(11):
            it.store(Ptr(k, 4 * i), 5 + 3 * i, ("i", 32))
        o = [it.new_obj("o%d" % i, None, "undef") for i in range(2)]
        job.call(it, "node", [r, x, Ptr(k, 0)] + [Ptr(q, 0) for q in o])
        same(job, it, "ElementTreeNode/move", "ElementTreeNode, target of the %s" % n, o[0], o[1], B + "ClusterTree/ElementTreeNode.hpp")


def square(x, y, s):
    return [x, y, 0., x + s, y, 0., x, y + s, 0., x + s, y + s, 0.]


def j_tree(job, r, n, M, P, eta, lvl):
    it = job.interp()
    it.max_steps = 10 ** 9
    c = square(0., 0., 1.) + square(4., 0., 1.) + square(1., 0., 1.)
    x = it.sym("x")
    o = [it.new_obj("o%d" % i, None, "undef") for i in range(3)]
    from va.contracts import use_gauss, use_trisolve
    use_gauss(it)
    use_trisolve(it)
    job.call(it, "tree", [r, put(it, "geo", c[:12 * n]), n, M, P, eta, lvl, x] + [Ptr(q, 0) for q in o])
    w = B + "H2Matrix/BlockClusterTree.hpp"
    same(job, it, "BlockClusterTree/copy", "block cluster tree, target of " + ROUTES[r], o[0], o[1], w)
    same(job, it, "BlockClusterTree/leaves", "block cluster tree, source after a change of the leaves of the copy (%s)" % ROUTES[r], o[0], o[2], w)
    i = 0
    while i < 4096 and 8 * i in o[0].cells:
        i += 1
    for k in range(i):
        job.eq("BlockClusterTree/parameters", it.load(Ptr(o[2], 8 * (4096 + k)), D), it.load(Ptr(o[0], 8 * k), D),
               "block cluster tree, source after the copy was set up for another space (%s), entry %d" % (ROUTES[r], k), where=w)


def j_space(job, r, form, name, thorough):
    from va.contracts import use_gauss, use_trisolve
    w = B + "AnsatzSpace/AnsatzSpace.hpp"
    for how in (0, 1, 2) if thorough else (0, 2):
        it = job.interp()
        it.max_steps = 10 ** 9
        use_gauss(it)
        use_trisolve(it)
        o = [it.new_obj("o%d" % i, None, "undef") for i in range(3)]
        job.call(it, "space", [form, r, how, put(it, "geo", square(0., 0., 1.) + square(1., 0., 1.)), 1, 2] + [Ptr(q, 0) for q in o])
        h = ("", " (initialised later)", " (re-initialised)")[how]
        same(job, it, "AnsatzSpace/copy", "%s ansatz space%s, target of %s" % (name, h, ROUTES[r]), o[0], o[1], w)
        same(job, it, "AnsatzSpace/source", "%s ansatz space%s, source after the copy was set up for another geometry (%s)" % (name, h, ROUTES[r]), o[0], o[2], w)
