"""global assembly: every element (pair) contribution enters the discrete operator, form or potential exactly once and in its place"""
from checks.element_tree import put
from va.contracts import use_gauss, use_trisolve
from va import dom
from va.dom import var
from va.rig import D, Ptr
from va.spec import C

PID = "C14"
EXPLAIN = ("DiscreteOperator (dense and sparse/local), DiscreteLinearForm and DiscretePotential are interpreted for user-defined operators, forms and "
           "potentials whose integrand is an unknown coefficient selected by the physical cell(s) of the quadrature point(s), times an unknown coefficient per "
           "entry of the local matrix.  The assembled object must equal transformation^T * (block matrix of element contributions) * transformation, as "
           "a polynomial in all those unknowns: a missing, doubled, transposed, misplaced or mis-scaled contribution changes it.")
MIN_OBLIGATIONS = {"quick": 1000}
W = "Bembel/src/"
SRC = """
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/LinearForm>
#include <Bembel/LinearOperator>
#include <Bembel/Potential>
#include <Bembel/src/util/Macros.hpp>
#include "geo.hpp"
static const double *KC, *KU; static long NN, NX; static double SC;
namespace Bembel {
template <int F, int O, class S> class Ker;
template <int F, int O, class S> struct LinearOperatorTraits<Ker<F, O, S>> { typedef Eigen::Matrix<S, -1, 1> EigenType; typedef S Scalar; enum { OperatorOrder = O, Form = F, NumberOfFMMComponents = 1 }; };
static long cell(double x, double y) { return (long)(x * SC) + NX * (long)(y * SC); }
template <int F, int O, class S> class Ker : public LinearOperatorBase<Ker<F, O, S>> {
 public:
  double fac = 1.;
  template <class T> void evaluateIntegrand_impl(const T &, const SurfacePoint &p1, const SurfacePoint &p2, Eigen::Matrix<S, -1, -1> *v) const {
    S k; W::get(k, KC + 2 * (NN * cell(p1(3), p1(4)) + cell(p2(3), p2(4))));
    k *= p1(2) * p2(2) * fac;
    for (long i = 0; i < v->rows(); ++i) for (long j = 0; j < v->cols(); ++j) (*v)(i, j) += k * KU[i * v->cols() + j];
  }
};
template <int F, class S> class Loc;
template <int F, class S> struct LinearOperatorTraits<Loc<F, S>> { typedef Eigen::Matrix<S, -1, 1> EigenType; typedef S Scalar; enum { OperatorOrder = 0, Form = F, NumberOfFMMComponents = 0 }; };
template <int F, class S> class Loc : public LocalOperatorBase<Loc<F, S>> {
 public:
  double fac = 1.;
  template <class T> void evaluateIntegrand_impl(const T &, const SurfacePoint &p1, const SurfacePoint &p2, Eigen::Matrix<S, -1, -1> *v) const {
    S k; W::get(k, KC + 2 * (NN * cell(p1(3), p1(4)) + cell(p2(3), p2(4))));
    k *= p1(2) * fac * (1. + p1(0) - p2(0)) * (1. + p1(1) - p2(1));
    for (long i = 0; i < v->rows(); ++i) for (long j = 0; j < v->cols(); ++j) (*v)(i, j) += k * KU[i * v->cols() + j];
  }
};
template <class S, int DIM> class Form;
template <class S, int DIM> struct LinearFormTraits<Form<S, DIM>> { typedef S Scalar; };
template <class S, int DIM> class Form : public LinearFormBase<Form<S, DIM>, S> {
 public:
  double fac = 1.; int e0 = 0, e1 = 0;
  template <class T> void evaluateIntegrand_impl(const T &, const SurfacePoint &p, Eigen::Matrix<S, -1, DIM> *v) const {
    S k; W::get(k, KC + 2 * cell(p(3), p(4)));
    k *= p(2) * fac;
    for (int i = 0; i < e0; ++i) k *= p(0);
    for (int i = 0; i < e1; ++i) k *= p(1);
    for (long i = 0; i < v->rows(); ++i) for (long j = 0; j < DIM; ++j) (*v)(i, j) += k * KU[i * DIM + j];
  }
};
template <class L> class Pot;
template <class L> struct PotentialTraits<Pot<L>> { typedef double Scalar; static constexpr int OutputSpaceDimension = 2; };
template <class L> class Pot : public PotentialBase<Pot<L>, L> {
 public:
  double fac = 1.; int e0 = 0, e1 = 0;
  typedef typename LinearOperatorTraits<L>::Scalar S;
  Eigen::Matrix<S, 1, 2> evaluateIntegrand_impl(const FunctionEvaluator<L> &f, const ElementTreeNode &e, const Eigen::Vector3d &x, const SurfacePoint &p) const {
    double k = KC[2 * cell(p(3), p(4))] * p(2) * fac;
    for (int i = 0; i < e0; ++i) k *= p(0);
    for (int i = 0; i < e1; ++i) k *= p(1);
    auto v = f.evaluate(e, p);
    Eigen::Matrix<S, 1, 2> r; r.setZero();
    for (long i = 0; i < v.size(); ++i) { r(0) += k * v(i) * x(i); r(1) += k * v(i) * (x(1) * KU[i]) * x(2); }
    return r;
  }
};
}
using namespace Bembel;
static Geometry geo(const double *c, int n) { PatchVector v; for (int i = 0; i < n; ++i) v.push_back(W::bilinear(c + 12 * i)); return Geometry(v); }
static void set(const double *kc, const double *ku, double *o) { KC = kc; KU = ku; SC = o[0]; NX = (long)o[1]; NN = (long)o[2]; }
template <class L> static void info(const AnsatzSpace<L> &a, double *o) {
  const Eigen::SparseMatrix<double> &m = a.get_transformation_matrix();
  const ElementTree &t = a.get_superspace().get_mesh().get_element_tree();
  *o++ = t.get_number_of_elements();
  for (auto e = t.cpbegin(); e != t.cpend(); ++e) { SurfacePoint p; a.get_superspace().map2surface(*e, Eigen::Vector2d(.5, .5), 1., &p); *o++ = e->id_; *o++ = cell(p(3), p(4)); }
  *o++ = m.rows(); *o++ = m.cols(); double *n = o++; *n = 0;
  for (int k = 0; k < m.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) { *o++ = it.row(); *o++ = it.col(); *o++ = it.value(); *n += 1; }
}
template <class M, class L> static M *mk(const Geometry &g, int Mv, int P, int how, double fac, double *t) {
  AnsatzSpace<L> *a = new AnsatzSpace<L>(g, Mv, P); info(*a, t);
  typedef DiscreteOperator<M, L> O;
  if (how == 0) { O *o = new O(*a); o->get_linear_operator().fac = fac; delete a; o->compute(); return const_cast<M *>(&o->get_discrete_operator()); }
  if (how == 1) { O *o = new O(); o->init_DiscreteOperator(*a); o->get_linear_operator().fac = fac; o->compute(); return const_cast<M *>(&o->get_discrete_operator()); }
  if (how == 2) { O *o = new O(*a); o->get_linear_operator().fac = 3; o->compute(); o->get_linear_operator().fac = fac; o->compute(); return const_cast<M *>(&o->get_discrete_operator()); }
  AnsatzSpace<L> b(g, 0, P); O *o = new O(b); o->get_linear_operator().fac = fac; o->compute(); o->init_DiscreteOperator(*a); o->compute(); return const_cast<M *>(&o->get_discrete_operator());
}
template <int F, int O, class S> static void dense(const double *c, int n, int M, int P, int how, double fac, double *t, double *o) {
  Eigen::Matrix<S, -1, -1> &m = *mk<Eigen::Matrix<S, -1, -1>, Ker<F, O, S>>(geo(c, n), M, P, how, fac, t);
  *o++ = m.rows(); *o++ = m.cols(); W::put(m, o);
}
template <int F, class S> static void local(const double *c, int n, int M, int P, int how, double fac, double *t, double *o) {
  Eigen::Matrix<S, -1, -1> m(*mk<Eigen::SparseMatrix<S>, Loc<F, S>>(geo(c, n), M, P, how, fac, t));
  *o++ = m.rows(); *o++ = m.cols(); W::put(m, o);
}
extern "C" void opd(int form, const double *kc, const double *ku, double *st, const double *c, int n, int M, int P, int how, double fac, double *t, double *o) {
  set(kc, ku, st);
  if (form == 0) dense<DifferentialForm::Continuous, 0, double>(c, n, M, P, how, fac, t, o);
  if (form == 1) dense<DifferentialForm::DivConforming, -1, std::complex<double>>(c, n, M, P, how, fac, t, o);
  if (form == 2) dense<DifferentialForm::Discontinuous, -1, double>(c, n, M, P, how, fac, t, o);
}
extern "C" void opl(int form, const double *kc, const double *ku, double *st, const double *c, int n, int M, int P, int how, double fac, double *t, double *o) {
  set(kc, ku, st);
  if (form == 0) local<DifferentialForm::Continuous, double>(c, n, M, P, how, fac, t, o);
  if (form == 1) local<DifferentialForm::DivConforming, std::complex<double>>(c, n, M, P, how, fac, t, o);
  if (form == 2) local<DifferentialForm::Discontinuous, double>(c, n, M, P, how, fac, t, o);
}
template <int F, class S, int DIM> static void form(const double *c, int n, int M, int P, int how, double fac, int deg, int e0, int e1, double *t, double *o) {
  typedef Loc<F, S> L; typedef DiscreteLinearForm<Form<S, DIM>, L> Q;
  AnsatzSpace<L> *a = new AnsatzSpace<L>(geo(c, n), M, P); info(*a, t);
  Q *q;
  if (how == 0) { q = new Q(*a); delete a; }
  if (how == 1) { q = new Q(); q->init_DiscreteLinearForm(*a); }
  if (how == 2) { q = new Q(*a); q->get_linear_form().fac = 5; q->compute(); }
  if (how == 3) { AnsatzSpace<L> b(geo(c, n), 0, P + 1); q = new Q(b); q->compute(); q->init_DiscreteLinearForm(*a); }
  q->get_linear_form().fac = fac; q->get_linear_form().e0 = e0; q->get_linear_form().e1 = e1;
  if (deg >= 0) q->set_degree(deg);
  q->compute();
  auto &m = q->get_discrete_linear_form();
  *o++ = m.rows(); *o++ = m.cols(); W::put(m, o);
}
extern "C" void lf(int f, const double *kc, const double *ku, double *st, const double *c, int n, int M, int P, int how, double fac, int deg, int e0, int e1, double *t, double *o) {
  set(kc, ku, st);
  if (f == 0) form<DifferentialForm::Continuous, double, 1>(c, n, M, P, how, fac, deg, e0, e1, t, o);
  if (f == 1) form<DifferentialForm::DivConforming, std::complex<double>, 2>(c, n, M, P, how, fac, deg, e0, e1, t, o);
  if (f == 2) form<DifferentialForm::Discontinuous, double, 1>(c, n, M, P, how, fac, deg, e0, e1, t, o);
}
template <int F, class S> static void pot(const double *c, int n, int M, int P, int how, double fac, int deg, int e0, int e1, const double *f, const double *x, int nx, double *t, double *o) {
  typedef Loc<F, S> L; typedef DiscretePotential<Pot<L>, L> Q;
  AnsatzSpace<L> *a = new AnsatzSpace<L>(geo(c, n), M, P); info(*a, t);
  Eigen::Matrix<S, -1, 1> v(a->get_number_of_dofs());
  for (int i = 0; i < v.size(); ++i) W::get(v(i), f + 2 * i);
  Eigen::Matrix<double, -1, 3> X(nx, 3);
  for (int i = 0; i < nx; ++i) for (int j = 0; j < 3; ++j) X(i, j) = x[3 * i + j];
  Q *q;
  if (how == 0) { q = new Q(*a); delete a; q->set_cauchy_data(v); }
  if (how == 1) { q = new Q(); q->init_DiscretePotential(*a); q->set_cauchy_data(v); }
  if (how == 2) { q = new Q(*a); q->get_potential().fac = 5; Eigen::Matrix<S, -1, 1> z = v; for (int i = 0; i < v.size(); ++i) z(i) = S(1. + i); q->set_cauchy_data(z); q->evaluate(X); q->set_cauchy_data(v); }
  if (how == 3) { AnsatzSpace<L> b(geo(c, n), 0, P + 1); q = new Q(b); q->set_cauchy_data(Eigen::Matrix<S, -1, 1>::Ones(b.get_number_of_dofs())); q->evaluate(X); q->init_DiscretePotential(*a); q->set_cauchy_data(v); }
  q->get_potential().fac = fac; q->get_potential().e0 = e0; q->get_potential().e1 = e1;
  if (deg >= 0) q->set_degree(deg);
  auto m = q->evaluate(X);
  *o++ = m.rows(); *o++ = m.cols(); W::put(m, o);
}
extern "C" void pt(int g, const double *kc, const double *ku, double *st, const double *c, int n, int M, int P, int how, double fac, int deg, int e0, int e1, const double *f, const double *x, int nx, double *t, double *o) {
  set(kc, ku, st);
  if (g == 0) pot<DifferentialForm::Continuous, double>(c, n, M, P, how, fac, deg, e0, e1, f, x, nx, t, o);
  if (g == 1) pot<DifferentialForm::DivConforming, std::complex<double>>(c, n, M, P, how, fac, deg, e0, e1, f, x, nx, t, o);
  if (g == 2) pot<DifferentialForm::Discontinuous, double>(c, n, M, P, how, fac, deg, e0, e1, f, x, nx, t, o);
}
"""
NAMES = ["continuous", "div-conforming", "discontinuous"]
HOW = ["constructed from a space destroyed afterwards", "default constructed and initialised", "computed twice", "re-initialised with another space"]


def square(ox, oy, rot):
    q = [(float(ox + a), float(oy + b), 0.) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
    return q[rot:] + q[:rot]


GEO = {"one": [square(0, 0, 1)], "pair": [square(0, 0, 1), square(1, 0, 2)], "strip": [square(2, 0, 3), square(0, 0, 0), square(1, 0, 2)],
       "apart": [square(3, 0, 1), square(0, 1, 2)]}


def witnesses(tier):
    return {"a": SRC}


def jobs(tier):
    js = []

    def add(kind, form, geo, M, P, how=0, **k):
        js.append(("%s %s %s M%d P%d %s %s" % (kind, NAMES[form], geo, M, P, HOW[how], " ".join("%s=%s" % x for x in sorted(k.items()))), "a", "j_" + kind,
                   dict(form=form, geo=geo, M=M, P=P, how=how, **k)))
    full = tier != "quick"
    for form in (0, 1, 2):
        p = 1 if form < 2 else 0
        add("operator", form, "pair", 1 if full else 0, p)
        if form != 1 or full:
            add("operator", form, "one", 1, p)
        for how in (1, 2, 3):
            add("operator", form, "one" if form == 1 else "pair", 0, p, how)
            add("local", form, "pair", 1, 1, how)
            add("form", form, "pair", 1, 1, how)
            add("potential", form, "pair", 1, 1, how)
        add("local", form, "strip", 1, 2)
        add("local", form, "pair", 0, p)
        add("local", form, "one", 2, 1)
        for e in ((0, 0), (1, 2)):
            add("form", form, "strip", 1, p, e=e)
            add("potential", form, "strip", 1, p, e=e)
        for deg in (0, 1, 3):
            add("form", form, "one", 1, 1, deg=deg, e=(2 * deg + 1, 2 * deg))
            add("potential", form, "one", 1, 1, deg=deg + 1, e=(2 * deg, 2 * deg + 1))
        add("form", form, "one", 2, 2)
        add("potential", form, "one", 2, 2)
        if full:
            add("operator", form, "strip", 1, 1)
            add("operator", form, "pair", 1, 2)
            add("operator", form, "one", 2, p)
            add("local", form, "strip", 2, 2)
            add("form", form, "strip", 2, 3)
            add("potential", form, "strip", 2, 3)
    add("operator", 2, "strip", 0, 1)
    add("operator", 2, "apart", 1, 0)
    return js


class Run:
    def __init__(self, job, kind, form, geo, M, P):
        self.job, self.form, self.M, self.P = job, form, M, P
        it = self.it = job.interp()
        it.max_steps = 2 * 10 ** 9
        use_gauss(it, empty=True)
        use_trisolve(it)
        G = GEO[geo]
        self.cx = form == 1
        self.vd = 2 if form == 1 else 1
        sc = 2. ** M
        nx = 4 * int(sc)
        self.st = put(it, "st", [sc, float(nx), float(nx * 2 * int(sc))])
        self.NN = nx * 2 * int(sc)
        self.c = put(it, "geo", [x for q in G for k in (0, 1, 3, 2) for x in q[k]])
        self.n = len(G)
        self.t = it.new_obj("t", None, "undef")
        self.o = it.new_obj("o", None, "undef")
        self.kc, self.ku = it.sym("k"), it.sym("u")
        self.fac = var("fac")

    def finish(self):
        it, job = self.it, self.job
        rd = lambda k: it.load(Ptr(self.t, 8 * k), D)
        self.ne = int(rd(0))
        self.cell = {int(rd(1 + 2 * i)): int(rd(2 + 2 * i)) for i in range(self.ne)}
        job.check(sorted(self.cell) == list(range(self.ne)), "ids", "element ids are 0..number of elements-1 (%s)" % sorted(self.cell), W)
        b = 1 + 2 * self.ne
        self.rows, self.cols, nz = int(rd(b)), int(rd(b + 1)), int(rd(b + 2))
        self.L = (self.P + 1) ** 2
        job.check(self.rows == self.vd * self.ne * self.L, "rows", "transformation matrix has %d rows" % self.rows, W)
        self.T = {}
        for k in range(nz):
            self.T.setdefault(int(rd(b + 4 + 3 * k)), []).append((int(rd(b + 3 + 3 * k)), rd(b + 5 + 3 * k)))
        self.r, self.q = int(it.load(Ptr(self.o, 0), D)), int(it.load(Ptr(self.o, 8), D))

    def K(self, i):
        return C(var("k[%d]" % (16 * i)), var("k[%d]" % (16 * i + 8)) if self.cx else 0.0)

    def U(self, i):
        return var("u[%d]" % (8 * i))

    def row(self, r):
        """row of the super space: (component, element, local function)"""
        return r // (self.ne * self.L), r // self.L % self.ne, r % self.L

    def cmp(self, i, j, want, key, what, where):
        k = 16 + 16 * (j * self.r + i)
        for d, w in enumerate((want.re, want.im)):
            if d == 0 or self.cx:
                self.job.eq(key, self.it.load(Ptr(self.o, k + 8 * d), D), w, what + ", entry (%d,%d) %s" % (i, j, "re im".split()[d]), where=W + where, tol=1e-9)


def j_operator(job, form, geo, M, P, how):
    r = Run(job, "operator", form, geo, M, P)
    job.call(r.it, "opd", [form, r.kc, r.ku, Ptr(r.st.obj, 0), r.c, r.n, M, P, how, r.fac, Ptr(r.t, 0), Ptr(r.o, 0)])
    r.finish()
    what = "dense %s operator on %s, level %d, degree %d, %s" % (NAMES[form], geo, M, P, HOW[how])
    wh = "LinearOperator/DiscreteOperator.hpp"
    if not job.check((r.r, r.q) == (r.cols, r.cols), "shape", "%s: discrete operator is %d x %d, not %d x %d" % (what, r.r, r.q, r.cols, r.cols), W + wh):
        return
    h2 = .25 ** M
    for j in range(r.cols):
        for i in range(r.cols):
            s = C(0.0)
            for a, x in r.T.get(i, ()):
                for b, y in r.T.get(j, ()):
                    (ca, ea, la), (cb, eb, lb) = r.row(a), r.row(b)
                    s = s + r.K(r.NN * r.cell[ea] + r.cell[eb]) * C(x * y * h2 * (r.U((ca * r.L + la) * r.vd * r.L + cb * r.L + lb) * r.fac))
            r.cmp(i, j, s, "operator/%s" % HOW[how], what, wh)


def j_local(job, form, geo, M, P, how):
    r = Run(job, "local", form, geo, M, P)
    job.call(r.it, "opl", [form, r.kc, r.ku, Ptr(r.st.obj, 0), r.c, r.n, M, P, how, r.fac, Ptr(r.t, 0), Ptr(r.o, 0)])
    r.finish()
    what = "local %s operator on %s, level %d, degree %d, %s" % (NAMES[form], geo, M, P, HOW[how])
    wh = "LinearOperator/DiscreteLocalOperator.hpp"
    if not job.check((r.r, r.q) == (r.cols, r.cols), "shape", "%s: discrete operator is %d x %d, not %d x %d" % (what, r.r, r.q, r.cols, r.cols), W + wh):
        return
    for j in range(r.cols):
        for i in range(r.cols):
            s = C(0.0)
            for a, x in r.T.get(i, ()):
                for b, y in r.T.get(j, ()):
                    (ca, ea, la), (cb, eb, lb) = r.row(a), r.row(b)
                    if ea == eb:
                        s = s + r.K(r.NN * r.cell[ea] + r.cell[eb]) * C(x * y * (r.U((ca * r.L + la) * r.vd * r.L + cb * r.L + lb) * r.fac))
            r.cmp(i, j, s, "local/%s" % HOW[how], what, wh)


def j_form(job, form, geo, M, P, how, deg=-1, e=(0, 0)):
    r = Run(job, "form", form, geo, M, P)
    job.call(r.it, "lf", [form, r.kc, r.ku, Ptr(r.st.obj, 0), r.c, r.n, M, P, how, r.fac, deg, e[0], e[1], Ptr(r.t, 0), Ptr(r.o, 0)])
    r.finish()
    what = "%s linear form on %s, level %d, degree %d, %s, quadrature degree %s, integrand x^%d y^%d" % (NAMES[form], geo, M, P, HOW[how], deg if deg >= 0 else "default", e[0], e[1])
    wh = "LinearForm/DiscreteLinearForm.hpp"
    if not job.check((r.r, r.q) == (r.cols, 1), "shape", "%s: discrete form is %d x %d, not %d x 1" % (what, r.r, r.q, r.cols), W + wh):
        return
    h = .5 ** M / (1 + e[0]) / (1 + e[1])
    for i in range(r.cols):
        s = C(0.0)
        for a, x in r.T.get(i, ()):
            ca, ea, la = r.row(a)
            s = s + r.K(r.cell[ea]) * C(x * h * (r.U(la * r.vd + ca) * r.fac))
        r.cmp(i, 0, s, "form/%s%s" % (HOW[how], "/degree" if deg >= 0 else ""), what, wh)


def moment(P, k, e):
    """integral of the Bernstein polynomial (P,k) times x^e"""
    from math import comb, factorial as f
    return comb(P, k) * f(k + e) * f(P - k) / f(P + e + 1)


def j_potential(job, form, geo, M, P, how, deg=-1, e=(0, 0)):
    r = Run(job, "potential", form, geo, M, P)
    it = r.it
    f, x = it.sym("f"), it.sym("x")
    job.call(it, "pt", [form, r.kc, r.ku, Ptr(r.st.obj, 0), r.c, r.n, M, P, how, r.fac, deg, e[0], e[1], f, x, 2, Ptr(r.t, 0), Ptr(r.o, 0)])
    r.finish()
    what = "%s potential on %s, level %d, degree %d, %s, quadrature degree %s, integrand x^%d y^%d" % (NAMES[form], geo, M, P, HOW[how], deg if deg >= 0 else "default", e[0], e[1])
    wh = "Potential/DiscretePotential.hpp"
    if not job.check((r.r, r.q) == (2, 2), "shape", "%s: potential is %d x %d, not 2 x 2" % (what, r.r, r.q), W + wh):
        return
    cfs = {}
    for j, col in r.T.items():
        for i, v in col:
            cfs[i] = cfs.get(i, C(0.0)) + C(var("f[%d]" % (16 * j)), var("f[%d]" % (16 * j + 8)) if r.cx else 0.0) * C(v)
    h = .5 ** M
    n = 2 ** M
    for i in range(2):
        X = [var("x[%d]" % (24 * i + 8 * d)) for d in range(3)]
        w = [C(0.0), C(0.0)]
        for a in cfs:
            ca, ea, la = r.row(a)
            m = moment(P, la % (P + 1), e[0]) * moment(P, la // (P + 1), e[1]) * h
            if r.vd == 1:
                vec = {0: 1.0}
            else:
                q = GEO[geo][ea // (n * n)]
                vec = {d: q[1 if ca == 0 else 3][d] - q[0][d] for d in range(3)}
            for d, y in vec.items():
                if y:
                    k = cfs[a] * C(var("k[%d]" % (16 * r.cell[ea])) * (m * y) * r.fac)
                    w[0] = w[0] + k * C(X[d])
                    w[1] = w[1] + k * C(X[1] * r.U(d) * X[2])
        for j in range(2):
            r.cmp(i, j, w[j], "potential/%s%s" % (HOW[how], "/degree" if deg >= 0 else ""), what, wh)
