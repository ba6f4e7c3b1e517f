"""parallel regions: no data race, and the result does not depend on the distribution of the work"""
import re

from checks import assembly, h2matrix
from va.conc import ConcInterp
from va import dom, ir
from va.rig import D, Ptr, REPO

PID = "C18"
EXPLAIN = ("The code is compiled with OpenMP and every parallel region is interpreted once per abstract thread with a footprint (bytes read, bytes written, "
           "locks held, barrier phase) for each unit of execution: replicated code, single construct, task.  Units that may run at the same time must not "
           "conflict.  Which thread takes a `single nowait` is an unknown selector, so equality of the result with the sequential formula holds for "
           "every distribution of the work.  Evaluation routines used inside regions are interpreted in two concurrent threads to show that they write only to their "
           "own arguments.")
MIN_OBLIGATIONS = {"quick": 500}
ASSUMPTIONS = ["real arithmetic (summation order changes rounding only)", "the OpenMP runtime implements barriers, locks and tasks", "two and three threads stand for any number"]
FLAGS = ["-fopenmp", "-DEIGEN_DONT_PARALLELIZE"]


def conc(job, nt, owner, order):
    """let the job interpret parallel regions with nt threads"""
    made = []

    def interp(**kw):
        if job.mod is None:
            job.mod = ir.Module(job.path)
        job.flush()
        dom.reset()
        it = ConcInterp(job.mod, root=REPO + "/", nthreads=nt, owner=owner, order=order, **kw)
        it.storelog = {}
        job.it = it
        made.append(it)
        return it
    job.interp = interp
    return made


def verdict(job, made, what, regions):
    for it in made:
        seen = set()
        for region, obj, a, b, sa, sb in it.races:
            la, lb = loc(it, sa), loc(it, sb)
            k = "%s/%s" % (la.rsplit(":", 1)[0], lb.rsplit(":", 1)[0])
            if k in seen:
                continue
            seen.add(k)
            job.fail("race:%s" % short(region), "%s: %s (thread %d) writes %s at %s while %s (thread %d) accesses it at %s" % (
                what, a.name(), a.thread, re.sub(r"@.*", "", obj), la, b.name(), b.thread, lb), la)
        job.check(not it.races, "race-free", "%s: %d regions, %d accesses, %d shared written objects, %d single constructs, %d tasks, %d critical sections checked" % (
            what, it.regions, it.counts["accesses"], it.counts["objects"], it.counts["singles"], it.counts["tasks"], it.counts["criticals"]))
        job.check(it.regions >= regions, "regions", "%s: %d parallel regions were analysed" % (what, it.regions))
        job.notes.append(dict(it.counts, regions=it.regions))


def short(r):
    m = re.search(r"(\w+::)?\w+(?=\()", r)
    return m.group(0) if m else r[:60]


def loc(it, s):
    if not s:
        return "?"
    keep = it.stack
    it.stack = [s]
    try:
        return it.where()
    except Exception:
        return "?"
    finally:
        it.stack = keep


def j_seq(job, base, fn, kw, nt, owner, order, regions):
    made = conc(job, nt, owner, order)
    m = {"assembly": assembly, "h2matrix": h2matrix}[base]
    getattr(m, fn)(job, **kw)
    verdict(job, made, job.name, regions)


PURE = """
#include <Bembel/Geometry>
#include "geo.hpp"
#include <Bembel/AnsatzSpace>
#include <Bembel/LinearForm>
#include <Bembel/Potential>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
#include <Bembel/Identity>
#include <Bembel/LaplaceBeltrami>
using namespace Bembel;
extern "C" int omp_get_thread_num();
template <class T> static auto setk(T &p, const double *k, int) -> decltype(p.set_wavenumber(std::complex<double>())) { p.set_wavenumber(std::complex<double>(k[0], k[1])); }
template <class T> static void setk(T &, const double *, ...) {}
template <class L> static void op(const double *k, const SurfacePoint *p) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  Geometry g = W::unit_square(); SuperSpace<L> ss(g, 0, 1); L o; setk(o, k, 0);
#pragma omp parallel
  {
    const int t = omp_get_thread_num();
    const int n = 4 * getFunctionSpaceVectorDimension<LinearOperatorTraits<L>::Form>();
    Eigen::Matrix<S, -1, -1> v(n, n); v.setZero();
    o.evaluateIntegrand(ss, p[2 * t], p[2 * t + 1], &v);
    auto f = o.evaluateFMMInterpolation(p[2 * t], p[2 * t + 1]); (void)f;
  }
}
template <class L> static void loc(const SurfacePoint *p) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  Geometry g = W::unit_square(); SuperSpace<L> ss(g, 0, 1); L o;
#pragma omp parallel
  { const int t = omp_get_thread_num(); Eigen::Matrix<S, -1, -1> v(4, 4); v.setZero(); o.evaluateIntegrand(ss, p[t], p[t], &v); }
}
template <template <class> class T, int N> static void form(const SurfacePoint *p) {
  typedef HelmholtzSingleLayerOperator L; typedef std::complex<double> S;
  Geometry g = W::unit_square(); SuperSpace<MaxwellSingleLayerOperator> ss(g, 0, 1); T<S> o;
  typedef Eigen::Matrix<S, 3, 1> V;
  o.set_function([](Eigen::Vector3d x) { return V(V::Constant(S(x(0), x(1)))); });
#pragma omp parallel
  { const int t = omp_get_thread_num(); Eigen::Matrix<S, -1, N> v(4, N); v.setZero(); o.evaluateIntegrand_impl(ss, p[t], &v); }
}
template <class P, class L> static void pot(const double *k, const double *c, const double *x, const SurfacePoint *p) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  Geometry g = W::unit_square(); AnsatzSpace<L> a(g, 0, 1); FunctionEvaluator<L> f(a);
  Eigen::Matrix<S, -1, 1> v(a.get_number_of_dofs()); for (long i = 0; i < v.size(); ++i) W::get(v(i), c + 2 * i); f.set_function(v);
  const ElementTreeNode &e = *a.get_superspace().get_mesh().get_element_tree().cpbegin();
  P o; setk(o, k, 0);
#pragma omp parallel
  { const int t = omp_get_thread_num(); auto r = o.evaluateIntegrand_impl(f, e, Eigen::Vector3d(x[3 * t], x[3 * t + 1], x[3 * t + 2]), p[t]); (void)r; }
}
template <class L> static void div(const AnsatzSpace<L> &, const FunctionEvaluator<L> &, const ElementTreeNode &, const SurfacePoint &, ...) {}
template <class L> static void fe(const double *c, const SurfacePoint *p) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  Geometry g = W::unit_square(); AnsatzSpace<L> a(g, 1, 1); FunctionEvaluator<L> f(a);
  Eigen::Matrix<S, -1, 1> v(a.get_number_of_dofs()); for (long i = 0; i < v.size(); ++i) W::get(v(i), c + 2 * i); f.set_function(v);
  const ElementTree &et = a.get_superspace().get_mesh().get_element_tree();
#pragma omp parallel
  {
    const int t = omp_get_thread_num(); auto e = et.cpbegin(); if (t) ++e;
    auto r = f.evaluate(*e, p[t]); (void)r;
    auto q = f.evaluateOnPatch(0, Eigen::Vector2d(.125 + .5 * t, .25)); (void)q;
    Eigen::Vector2d x(.25, .5 + .25 * t); SurfacePoint s;
    a.get_superspace().map2surface(*e, x, 1., &s);
    const Patch &pa = g.get_geometry()[0]; auto y = pa.eval(x); auto n = pa.evalNormal(x); auto j = pa.evalJacobian(x); pa.updateSurfacePoint(&s, x, 1., x);
    const SuperSpace<L> &ss = a.get_superspace();
    auto b1 = ss.basis(x); auto b2 = ss.basisDx(x); auto b3 = ss.basisDy(x); (void)b1; (void)b2; (void)b3;
    auto nb = et.computeReorderingVector(); (void)nb;
    auto m = e->mapToReferenceElement(Eigen::Vector2d(.25 + .5 * t, .25)); (void)m;
    double h = e->get_h() + et.get_number_of_elements() + e->get_level() + ss.get_number_of_elements(); (void)h;
  }
}
extern "C" void pure(int w, const double *k, const double *c, const double *x, const SurfacePoint *p) {
  switch (w) {
    case 0: op<LaplaceSingleLayerOperator>(k, p); break; case 1: op<LaplaceDoubleLayerOperator>(k, p); break;
    case 2: op<LaplaceAdjointDoubleLayerOperator>(k, p); break; case 3: op<LaplaceHypersingularOperator>(k, p); break;
    case 4: op<HelmholtzSingleLayerOperator>(k, p); break; case 5: op<HelmholtzDoubleLayerOperator>(k, p); break;
    case 6: op<HelmholtzAdjointDoubleLayerOperator>(k, p); break; case 7: op<HelmholtzHypersingularOperator>(k, p); break;
    case 8: op<MaxwellSingleLayerOperator>(k, p); break;
    case 9: loc<MassMatrixScalarDisc>(p); break; case 10: loc<MassMatrixScalarCont>(p); break; case 11: loc<LaplaceBeltramiOperator>(p); break;
    case 12: form<NeumannTrace, 1>(p); break; case 13: form<TangentialTrace, 2>(p); break; case 14: form<RotatedTangentialTrace, 2>(p); break;
    case 15: pot<LaplaceSingleLayerPotential<LaplaceSingleLayerOperator>, LaplaceSingleLayerOperator>(k, c, x, p); break;
    case 16: pot<LaplaceDoubleLayerPotential<LaplaceDoubleLayerOperator>, LaplaceDoubleLayerOperator>(k, c, x, p); break;
    case 17: pot<LaplaceSingleLayerPotentialGradient<LaplaceSingleLayerOperator>, LaplaceSingleLayerOperator>(k, c, x, p); break;
    case 18: pot<HelmholtzSingleLayerPotential<HelmholtzSingleLayerOperator>, HelmholtzSingleLayerOperator>(k, c, x, p); break;
    case 19: pot<HelmholtzDoubleLayerPotential<HelmholtzDoubleLayerOperator>, HelmholtzDoubleLayerOperator>(k, c, x, p); break;
    case 20: pot<MaxwellSingleLayerPotential<MaxwellSingleLayerOperator>, MaxwellSingleLayerOperator>(k, c, x, p); break;
    case 21: fe<LaplaceHypersingularOperator>(c, p); break; case 22: fe<MaxwellSingleLayerOperator>(c, p); break; case 23: fe<HelmholtzSingleLayerOperator>(c, p); break;
  }
}
"""
WHAT = ["Laplace single layer", "Laplace double layer", "Laplace adjoint double layer", "Laplace hypersingular", "Helmholtz single layer", "Helmholtz double layer",
        "Helmholtz adjoint double layer", "Helmholtz hypersingular", "Maxwell single layer", "mass matrix (disc)", "mass matrix (cont)", "Laplace-Beltrami",
        "Neumann trace", "tangential trace", "rotated tangential trace", "Laplace single layer potential", "Laplace double layer potential",
        "Laplace single layer potential gradient", "Helmholtz single layer potential", "Helmholtz double layer potential", "Maxwell single layer potential",
        "continuous function evaluation", "div-conforming function evaluation", "discontinuous function evaluation"]


def j_pure(job, w):
    from va.contracts import use_gauss, use_trisolve
    made = conc(job, 2, 0, [0, 1])
    it = job.interp()
    use_gauss(it, empty=True)
    use_trisolve(it)
    job.call(it, "pure", [w, it.sym("k"), it.sym("c"), it.sym("x"), it.sym("p")])
    verdict(job, made, "%s evaluated by two threads at once" % WHAT[w], 1)


def witnesses(tier):
    return {"a": (assembly.SRC, FLAGS), "h": (h2matrix.SRC, FLAGS), "p": (PURE, FLAGS)}


def jobs(tier):
    js = []
    full = tier != "quick"

    def par(wit, base, fn, name, kw, regions=1, scheds=((2, 0, [0, 1]), (2, 1, [1, 0]))):
        for nt, owner, order in scheds:
            js.append(("%s, %d threads, order %s, single by %d" % (name, nt, order, owner), wit, "j_seq",
                       dict(base=base, fn=fn, kw=kw, nt=nt, owner=owner, order=order, regions=regions)))
    one = ((2, 1, [1, 0]),)
    three = ((3, 2, [1, 2, 0]),)
    A = lambda form, geo, M, P, how=0: dict(form=form, geo=geo, M=M, P=P, how=how)
    par("a", "assembly", "j_operator", "dense discontinuous operator", A(2, "pair", 1, 0))
    par("a", "assembly", "j_operator", "dense discontinuous operator of degree 1", A(2, "pair", 0, 1), scheds=three)
    par("a", "assembly", "j_operator", "dense continuous operator", A(0, "pair", 0, 1), scheds=one)
    par("a", "assembly", "j_operator", "dense div-conforming operator", A(1, "one", 0, 1), scheds=one)
    for form in (0, 1, 2):
        par("a", "assembly", "j_potential", "%s potential" % assembly.NAMES[form], A(form, "pair", 1, 1), scheds=one if form else ((2, 0, [0, 1]), (3, 0, [2, 0, 1])))
    H = lambda op, geo, M, P, np, muls=(0,), how=0: dict(op=op, geo=geo, M=M, P=P, np=np, muls=muls, how=how)
    par("h", "h2matrix", "j_h2", "H2 discontinuous operator", H(2, "gap", 1, 0, 2, (0, 1, 2)), 4)
    par("h", "h2matrix", "j_h2", "H2 operator on two levels", H(2, "far", 2, 0, 2), 2, one)
    par("h", "h2matrix", "j_h2", "H2 div-conforming operator", H(1, "gap", 1, 1, 2), 2, one)
    par("h", "h2matrix", "j_h2", "H2 continuous operator", H(0, "gap", 1, 1, 2), 2, three)
    if full:
        par("a", "assembly", "j_operator", "dense div-conforming operator", A(1, "pair", 0, 1))
        par("a", "assembly", "j_operator", "dense continuous operator", A(0, "one", 1, 1), scheds=three)
        par("a", "assembly", "j_operator", "dense discontinuous operator on three patches", A(2, "strip", 1, 1))
        par("h", "h2matrix", "j_h2", "H2 two-component operator", H(3, "gap", 1, 1, 2, (0, 2)), 2)
        par("h", "h2matrix", "j_h2", "H2 operator on three patches", H(2, "row", 2, 0, 3), 2)
    for w in range(len(WHAT)):
        js.append(("pure %s" % WHAT[w], "p", "j_pure", dict(w=w)))
    return js
