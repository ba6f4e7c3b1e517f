"""ownership: whatever a history of construction, use, copy, re-initialisation and destruction allocates is released exactly once"""
import re
from checks.element_tree import put
from checks.exports import FLAGS as TEXT
from va import text
from va.contracts import use_gauss, use_trisolve
from va.rig import D, Ptr

PID = "C23"
EXPLAIN = ("Histories of every public class (construct, initialise twice, use, copy, move, assign, store in containers, destroy in different orders) are interpreted with every "
           "allocation as an abstract object with its allocating function: a block that is still allocated and unreachable from static storage at the end, a second or mismatched "
           "release, a read of released or uninitialised memory and any access outside a block is a violation at its source line.")
MIN_OBLIGATIONS = {"quick": 60}
ASSUMPTIONS = ["loops over quadrature points are covered by the checks of the integrals (the rules are empty here)", "no allocation fails"]
PRE = """
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/LinearForm>
#include <Bembel/LinearOperator>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/HomogenisedLaplace>
#include <Bembel/LaplaceBeltrami>
#include <Bembel/Identity>
#include <Bembel/Maxwell>
#include <Bembel/Potential>
#include <Bembel/src/util/Macros.hpp>
#include "geo.hpp"
using namespace Bembel;
typedef std::complex<double> Z;
static Geometry geo(const double *c, int n) { PatchVector v; for (int i = 0; i < n; ++i) v.push_back(W::bilinear(c + 12 * i)); return Geometry(v); }
template <class T> static auto wave(T &t, int) -> decltype(t.set_wavenumber(Z(2, 1)), void()) { t.set_wavenumber(Z(2, 1)); }
template <class T> static void wave(T &, long) {}
template <class K> static K sum(const Eigen::Matrix<K, -1, 1> &v) { K s = 0; for (int i = 0; i < v.size(); ++i) s += v(i); return s; }
"""
SRC = PRE + """
extern "C" double geometry(const double *c, int n, int how) {
  double r = 0;
  Geometry g = geo(c, n), h(g), e; e = g; g = h; g = g;
  Geometry k(std::move(h)), l; l = std::move(k); std::vector<Geometry> v(2, l); v.push_back(e); v.erase(v.begin());
  { std::shared_ptr<PatchVector> p = v[0].get_geometry_ptr(); v.clear(); r += (*p)[0].data_[0]; }
  PatchVector w = l.get_geometry(); w.resize(n + 3); std::swap(w[0], w[n]); Patch q = w[n]; Patch t; t = q; t = Patch(); t = std::move(q); w.push_back(t);
  std::vector<Eigen::MatrixXd> m(4, Eigen::MatrixXd::Ones(2, 4));
  Patch s(m, {0, 0, 0, .5, 1, 1, 1}, {0, 0, 1, 1}); s.init_Patch(std::vector<Eigen::MatrixXd>(4, Eigen::MatrixXd::Ones(3, 2)), {0, 0, 1, 1}, {0, 0, 0, 1, 1, 1});
  PatchVector sh = PatchShredder(s), sv = PatchShredder(PatchVector(2, Patch(m, {0, 0, 0, .5, 1, 1, 1}, {0, 0, 1, 1})));
  SurfacePoint sp; if (how) { t.updateSurfacePoint(&sp, Eigen::Vector2d(.5, .25), 1., Eigen::Vector2d(.5, .25)); r += sp(3); }
  return r + sh.size() + sv.size() + t.eval(Eigen::Vector2d(.5, .5))(0) + t.evalJacobian(.5, .25)(0, 1) + t.evalNormal(.5, .25)(2);
}
extern "C" double mesh(const double *c, int n, int M, int how) {
  double r = 0;
  ClusterTree t(geo(c, n), M), u; u.init_ClusterTree(geo(c, n), 1); if (how & 1) u.init_ClusterTree(geo(c, n), M);
  for (auto e = u.get_element_tree().cpbegin(); e != u.get_element_tree().cpend(); ++e) r += e->get_h();
  r += t.get_element_tree().generateElementList().size(); r += u.get_element_tree().generatePointList().cols();
  u.checkOrientation(); r += u.get_element_tree().computeReorderingVector().size();
  ElementTree *a = new ElementTree(geo(c, n), M); r += a->get_number_of_elements(); if (how & 2) a->init_ElementTree(geo(c, n), M + 1); r += a->get_max_level(); delete a;
  std::vector<ElementTreeNode> v; { ElementTreeNode x; x.sons_.resize(4); x.vertices_.push_back(1); v.push_back(std::move(x)); v.emplace_back(); v.emplace_back(); } v.clear();
  return r;
}
template <class L> static double space(const double *c, int n, int M, int P, int K, int how) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  double r = 0;
  Geometry g0 = geo(c, n); SuperSpace<L> s(g0, M, P), t, u(s); t = s; u = t; u = u; { SuperSpace<L> w(std::move(t)); t = std::move(w); } if (how & 1) s.init_SuperSpace(geo(c, n), 0, P + 1); r += s.get_number_of_elements() + u.get_polynomial_degree() + t.get_refinement_level();
  AnsatzSpace<L> *a = new AnsatzSpace<L>(geo(c, n), M, P, K), b, d(*a); b = d; b = b; if (how & 2) { d.init_AnsatzSpace(geo(c, n), M, P, 1); d.init_AnsatzSpace(geo(c, n), 0, P, 1); }
  std::vector<AnsatzSpace<L>> v(2, b); v.push_back(d); v.erase(v.begin());
  FunctionEvaluator<L> f(*a), g; g = f; g.init_FunctionEvaluator(v[0]); delete a; v.clear();
  Eigen::Matrix<S, -1, 1> x(b.get_number_of_dofs()); for (int i = 0; i < x.size(); ++i) x(i) = S(1. + i);
  g.set_function(x); g.set_function(x); f = g; FunctionEvaluator<L> h(std::move(g)), k(h); k = std::move(f);
  r += std::abs(h.evaluateOnPatch(0, Eigen::Vector2d(.3, .4))(0)) + std::abs(k.evaluateOnPatch(n - 1, Eigen::Vector2d(1, 0))(0));
  SurfacePoint p; const ElementTreeNode &e = *b.get_superspace().get_mesh().get_element_tree().cpbegin(); b.get_superspace().map2surface(e, Eigen::Vector2d(.5, .5), 1., &p);
  r += std::abs(h.evaluate(e, p)(0));
  Eigen::Matrix<S, -1, -1> q((P + 1) * (P + 1), (P + 1) * (P + 1)); q.setZero(); b.get_superspace().addScaledBasisInteraction(&q, S(2), Eigen::Vector2d(.5, .5), Eigen::Vector2d(.5, .25));
  return r + b.get_number_of_dofs() + std::abs(q(0, 0));
}
extern "C" double spaces(const double *c, int n, int M, int P, int K, int how, int kind) {
  if (kind == 0) return space<LaplaceHypersingularOperator>(c, n, M, P, K, how);
  if (kind == 1) return space<MaxwellSingleLayerOperator>(c, n, M, P, K, how);
  return space<HelmholtzSingleLayerOperator>(c, n, M, P, K, how);
}
template <class L, class T, class Q> static double parts(const double *c, int n, int M, int P, int how, std::function<void(T &)> set) {
  typedef typename LinearOperatorTraits<L>::Scalar S; double r = 0;
  AnsatzSpace<L> *a = new AnsatzSpace<L>(geo(c, n), M, P), b(geo(c, n), 0, P);
  { DiscreteLinearForm<T, L> f(*a), g; g.init_DiscreteLinearForm(b); set(f.get_linear_form()); set(g.get_linear_form()); f.compute(); g.compute();
    if (how & 1) { g.init_DiscreteLinearForm(*a); f.set_degree(2); f.compute(); g.compute(); } r += std::abs(sum(f.get_discrete_linear_form())) + g.get_discrete_linear_form().size(); }
  { DiscretePotential<Q, L> f(*a), g; g.init_DiscretePotential(b); Eigen::Matrix<S, -1, 1> x(a->get_number_of_dofs()), y(b.get_number_of_dofs()); x.setOnes(); y.setOnes(); f.set_cauchy_data(x); g.set_cauchy_data(y); wave(f.get_potential(), 0); wave(g.get_potential(), 0);
    Eigen::Matrix<double, -1, 3> X(2, 3); X.setConstant(7); r += std::abs(f.evaluate(X)(0, 0)) + std::abs(g.evaluate(X)(1, 0));
    if (how & 1) { g.init_DiscretePotential(*a); g.set_cauchy_data(x); f.set_degree(3); r += std::abs(f.evaluate(X)(0, 0)) + std::abs(g.evaluate(X)(1, 0)); } if (how & 2) { delete a; a = 0; r += std::abs(f.evaluate(X)(0, 0)); } }
  delete a;
  return r;
}
template <class L> static double local(const double *c, int n, int M, int P, int how) {
  AnsatzSpace<L> *a = new AnsatzSpace<L>(geo(c, n), M, P), b(geo(c, n), 0, P); DiscreteLocalOperator<L> f(*a), g; g.init_DiscreteOperator(b);
  f.compute(); g.compute(); if (how & 1) { g.init_DiscreteOperator(*a); f.compute(); g.compute(); } delete a; return f.get_discrete_operator().rows() + g.get_discrete_operator().cols();
}
extern "C" double forms(const double *c, int n, int M, int P, int how, int kind) {
  if (kind == 0) return parts<LaplaceSingleLayerOperator, DirichletTrace<double>, LaplaceSingleLayerPotential<LaplaceSingleLayerOperator>>(c, n, M, P, how, [](DirichletTrace<double> &t) { t.set_function([](const Eigen::Vector3d &x) { return x(0); }); });
  if (kind == 1) return parts<MaxwellSingleLayerOperator, RotatedTangentialTrace<Z>, MaxwellSingleLayerPotential<MaxwellSingleLayerOperator>>(c, n, M, P, how, [](RotatedTangentialTrace<Z> &t) { t.set_function([](const Eigen::Vector3d &x) { return Eigen::Vector3cd(x.cast<Z>()); }); });
  if (kind == 2) return parts<HelmholtzHypersingularOperator, NeumannTrace<Z>, HelmholtzDoubleLayerPotential<HelmholtzHypersingularOperator>>(c, n, M, P, how, [](NeumannTrace<Z> &t) { t.set_function([](const Eigen::Vector3d &x) { return Eigen::Vector3cd(x.cast<Z>()); }); });
  if (kind == 3) return local<MassMatrixScalarDisc>(c, n, M, P, how) + local<MassMatrixScalarCont>(c, n, M, P, how) + local<LaplaceBeltramiOperator>(c, n, M, P, how);
  return 0;
}
template <class L, class Mt> static double op(const double *c, int n, int M, int P, int how) {
  typedef typename LinearOperatorTraits<L>::Scalar S; double r = 0;
  AnsatzSpace<L> *a = new AnsatzSpace<L>(geo(c, n), M, P), b(geo(c, n), 0, P);
  DiscreteOperator<Mt, L> *f = new DiscreteOperator<Mt, L>(*a), g; g.init_DiscreteOperator(b); wave(f->get_linear_operator(), 0); wave(g.get_linear_operator(), 0); f->compute(); g.compute(); if (how & 1) f->compute(); if (how & 2) { g.init_DiscreteOperator(*a); g.compute(); }
  delete a; Eigen::Matrix<S, -1, 1> x(f->get_discrete_operator().cols()); x.setOnes();
  Eigen::Matrix<S, -1, 1> y = f->get_discrete_operator() * x; delete f; x.resize(g.get_discrete_operator().cols()); x.setOnes(); Eigen::Matrix<S, -1, 1> z = g.get_discrete_operator() * x;
  return r + std::abs(sum(y)) + std::abs(sum(z));
}
extern "C" double ops(const double *c, int n, int M, int P, int how, int kind) {
  if (kind == 0) return op<LaplaceSingleLayerOperator, Eigen::MatrixXd>(c, n, M, P, how);
  if (kind == 1) return op<MaxwellSingleLayerOperator, Eigen::MatrixXcd>(c, n, M, P, how);
  if (kind == 2) return op<LaplaceSingleLayerOperator, Eigen::H2Matrix<double>>(c, n, M, P, how);
  if (kind == 3) return op<MaxwellSingleLayerOperator, Eigen::H2Matrix<Z>>(c, n, M, P, how);
  return 0;
}
extern "C" double h2(const double *c, int n, int M, int P, int how) {
  typedef LaplaceSingleLayerOperator L; AnsatzSpace<L> a(geo(c, n), M, P), b(geo(c, n), 1, P); L o; double r = 0;
  Eigen::H2Matrix<double> *h = new Eigen::H2Matrix<double>(), k, unused; h->init_H2Matrix(o, a, 3); k.init_H2Matrix(o, b, 2); if (how & 1) { h->init_H2Matrix(o, b, 2); h->init_H2Matrix(o, a, 2); }
  Eigen::VectorXd x(h->cols()); x.setOnes(); Eigen::VectorXd y = *h * x; y += 2. * (*h * x) - y; if (how & 2) { y += (*h + *h) * x; Eigen::MatrixXd d = k.get_dense(); r += d(0, 0); }
  { BlockClusterTree<double> t(o, a), u, v(t); u = t; u.init_BlockClusterTree(o, b); t = u; v = BlockClusterTree<double>(); BlockClusterTree<double> w(std::move(t)); u = std::move(w); std::vector<BlockClusterTree<double>> q(2, u); q.push_back(u); q.erase(q.begin()); r += u.rows();
    GenericMatrix<BlockClusterTree<double>> g(2, 1), e; g(0, 0) = u; g(1, 0) = v; e = g; g.resize(1, 3); g(0, 2) = e(0, 0); e = std::move(g); r += e(0, 2).cols(); }
  delete h;
  return r + y.sum();
}
extern "C" double small(int n, int how) {
  double r = 0;
  { typedef TreeLeaf<Eigen::MatrixXd> T; Eigen::MatrixXd m = Eigen::MatrixXd::Ones(n, n); T a(m), b, d(m, m), e(a), f(std::move(d)); b = a; b.set_F(m * m); b.set_L(m); b.set_R(m + m); a = std::move(b); e = f; e = e; std::vector<T> v(3, e); v[0] = std::move(v[1]); v.resize(7); v.erase(v.begin() + 1); r += a.get_F()(0, 0) + v[0].get_L()(0, 0); }
  { GenericMatrix<double> a(n, 2), b, d(a); b.resize(3, n); b = a; b = b; d = std::move(a); b.resize(1, 1); GenericMatrix<double> e(std::move(b)); e.resize(0, 0); std::swap(d, e); r += d.rows() + e.cols(); }
  { GaussLegendre<5> v, w(v); w = v; GaussSquare<5> y, x(y); x = y; GaussSquare<3> z; Quadrature<1> q = w[3], p; p = q; Quadrature<2> s = x[2], t(s); t = s; Cubature u = s; std::swap(t, u); r += p.w_.size() + t.xi_.cols() + w[2].w_.size() + x[1].w_.size() + z[0].w_.size(); }
  return r;
}
"""
FILES = PRE.replace("#include \"geo.hpp\"", "#include <Bembel/IO>\n#include \"geo.hpp\"") + """
extern "C" double files(const double *c, int n, int how) {
  double r = 0;
  Geometry g = geo(c, n);
  WriteDATFile(g.get_geometry(), "a.dat"); writeIGSFile(g.get_geometry(), "a.igs"); { PatchVector p = LoadGeometryFileDAT("a.dat"), q = LoadGeometryFileIGS("a.igs"); r += p.size() + q.size(); }
  { Geometry h(std::string("a.dat")), k; k.init_Geometry("a.igs"); k.init_Geometry("a.dat"); h = k; r += h.get_number_of_patches(); }
  return r;
}
extern "C" double exports(const double *c, int n, int how) {
  double r = 0;
  Geometry g = geo(c, n);
  { VTKSurfaceExport w(g, 1); w.addDataSet("a", std::function<double(int, const Eigen::Vector2d &)>([](int p, const Eigen::Vector2d &x) { return x(0); })); w.addDataSet("b", std::function<Eigen::Vector3d(const Eigen::Vector3d &)>([](const Eigen::Vector3d &x) { return x; }));
    w.writeToFile("s.vtp"); w.clearData(); w.init_VTKSurfaceExport(g, 0); w.addDataSet("c", std::function<double(const Eigen::Vector3d &)>([](const Eigen::Vector3d &x) { return x(2); })); w.writeToFile("s.vtp"); }
  { Eigen::VectorXd x = Eigen::VectorXd::LinSpaced(2, 0, 1); VTKDomainExport w(x, x, x); w.addDataSet("a", std::function<double(const Eigen::Vector3d &)>([](const Eigen::Vector3d &x) { return x(0); })); w.writeToFile("d.vts"); w.clearData(); w.writeToFile("d.vts"); }
  { Eigen::Matrix<double, -1, 3> x(2, 3); x.setOnes(); VTKPointExport w(x); w.addDataSet("a", x); w.addComplexDataSet("z", Eigen::MatrixXcd::Ones(2, 1)); w.writeToFile("p.vtp"); w.clearData(); }
  return r;
}
extern "C" double tools(int n, int how) {
  double r = 0;
  Eigen::MatrixXd m = Eigen::MatrixXd::Ones(n, n), q; IO::print2ascii("m.txt", m); IO::print2m("m.m", "A", m, "w"); IO::print2bin("m.bin", m); r += IO::bin2Mat("m.bin", &q); r += IO::bin2Mat("m.bin", &q); Eigen::MatrixXcd z; r += IO::bin2Mat("m.bin", &z);
  Eigen::SparseMatrix<double> s(n, n); s.insert(0, 0) = 1; IO::print2m("m.m", "S", s, "a");
  { IO::Logger<10> l("log.txt"), k("log.txt", "|", std::fstream::app); l.file("a", 1); k.both("b", 2.5); k.term("c"); }
  return r;
}
"""


def witnesses(tier):
    return {"l": SRC, "t": (FILES, TEXT)}


def square(x, y, s):
    return [x, y, 0., x + s, y, 0., x, y + s, 0., x + s, y + s, 0.]


GEO = square(0., 0., 1.) + square(1., 0., 1.) + square(4., 0., 1.)
A, H, O = "Bembel/src/AnsatzSpace/", "Bembel/src/H2Matrix/", "Bembel/src/LinearOperator/"


def histories(tier):
    """(title, witness, function, arguments without the geometry, where)"""
    r = []
    for how in (0, 1):
        r.append(("geometries, patches and surface points", "l", "geometry", [2, how], "Bembel/src/Geometry/"))
        r.append(("leaves, matrices and quadratures", "l", "small", [3 - how, how], "Bembel/src/"))
    for n, M, how in ((1, 0, 0), (2, 1, 3), (3, 2, 1)):
        r.append(("meshes", "l", "mesh", [n, M, how], "Bembel/src/ClusterTree/"))
    for kind in range(3):
        for n, M, P, K, how in ((2, 1, 1, 1, 0), (3, 0, 2, 1, 3)) + (((2, 2, 2, 2, 1),) if tier != "quick" else ()):
            r.append(("spaces and evaluators", "l", "spaces", [n, M, P, K, how, kind], A))
    for kind in range(4):
        for how in (0, 3):
            r.append(("linear forms, potentials and local operators", "l", "forms", [2, 1, 1, how, kind], "Bembel/src/"))
    for kind in range(4):
        for how in (0, 3):
            r.append(("discrete operators", "l", "ops", [2, 1, 0 if kind == 2 else 1, how, kind], O))
    for how in (0, 3):
        r.append(("compressed matrices and block cluster trees", "l", "h2", [2, 2, 1 - how // 3, how], H))
    r.append(("geometry files", "t", "files", [2, 0], "Bembel/src/Geometry/"))
    r.append(("exports", "t", "exports", [2, 0], "Bembel/src/IO/"))
    r.append(("matrix files and logs", "t", "tools", [2, 0], "Bembel/src/IO/"))
    return r


def jobs(tier):
    return [("%s: %s(%s)" % (t, f, ", ".join(map(str, a))), w, "history", dict(fn=f, args=a, where=p)) for t, w, f, a, p in histories(tier)]


def prepare(job, w_text, **kw):
    it = job.interp(**(dict(cls=text.TextInterp, lengths=lambda i: 17) if w_text else {}))
    it.max_steps = 10 ** 9
    use_gauss(it, above=0 if not kw.get("rules") else 20, empty=True)
    use_trisolve(it)
    for f in it.mod.functions:
        if "DuffyTrick" in f and re.match(r"void Bembel::DuffyTrick::(integrate[0-4]|evaluateBilinearForm)<", it.mod.dem(f)):
            it.hooks[f] = zero(16 if re.search("Maxwell|Helmholtz", it.mod.dem(f)) else 8)
    return it


def zero(size):
    """the singular quadratures (decided by C12) set the local matrix, their last argument"""
    def h(it, a, info):
        m = a[-1]
        d, r, c = it.load(m, ("ptr",)), it.load(it.padd(m, 8), ("i", 64)), it.load(it.padd(m, 16), ("i", 64))
        for i in range(r * c * size // 8):
            it.store(it.padd(d, 8 * i), 0.0, D)
        return None
    return h


def run(job, it, fn, args):
    a = list(args) if fn in ("small", "tools") else [put(it, "geo", GEO)] + list(args)
    n = len(it.objs)
    v = job.call(it, fn, a)
    return v, n


def reachable(it):
    seen, work = set(), [o for o in it.gobj.values() if o is not None and hasattr(o, "cells")]
    while work:
        o = work.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        for s, v in o.cells.values():
            if isinstance(v, Ptr):
                work.append(v.obj)
    return seen


def history(job, fn, args, where):
    it = prepare(job, fn in ("files", "exports", "tools"))
    v, n = run(job, it, fn, args)
    keep = reachable(it)
    blocks = [o for o in it.objs[n:] if o.heap]
    left = {}
    for o in blocks:
        if o.alive and id(o) not in keep and not getattr(o, "mayfree", False):
            left.setdefault(o.name, []).append(o)
    for k, os_ in sorted(left.items()):
        job.fail("leak/%s" % k.split("@")[-1], "%s: %d block(s) allocated by %s are never released" % (fn, len(os_), k.split("@")[0]), k.split("@")[-1])
    if not left:
        job.ok("released/" + fn, "%s%s: all %d allocated blocks are released exactly once" % (fn, tuple(args), len(blocks)), where)
    job.check(len(blocks) > 3, "blocks/" + fn, "%d blocks were allocated" % len(blocks), where)
    job.ok("memory/" + fn, "%s%s: every access lies in a live, initialised block (%d steps)" % (fn, tuple(args), it.steps), where)
