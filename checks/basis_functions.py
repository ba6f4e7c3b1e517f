from va import dom
from va.dom import var
from va.rig import D, Fn, Ptr
from va.spec import basis2, basis2dx, basis2dy, bern, dbern

PID = "C01"
EXPLAIN = ("Every degree 0..MaxP of the run-time dispatched shape functions (ShapeFunctionHandler) and of the BasisHandler "
           "functions and function-pointer getters is abstractly interpreted with unknown evaluation point, weight, coefficients and "
           "previous output content; the polynomial normal forms must equal the Bernstein definition, its exact derivative and the "
           "tensor products in the documented order, and outputs must be accumulated, not overwritten.")
MIN_OBLIGATIONS = {"quick": 10000}
SRC = """
#include <Eigen/Dense>
#include <vector>
#include <cassert>
#include <cmath>
#include <complex>
#include <Bembel/src/util/Constants.hpp>
#include <Bembel/Spline>
#include "common.hpp"
using namespace Bembel;
typedef Basis::ShapeFunctionHandler SH;
extern "C" {
int w_maxp() { return Constants::MaxP; }
void s_coef(int p, int viaptr, double *c, double x, double *o) { *o = SH::evalCoef(p, c, x); }
void s_dcoef(int p, int viaptr, double *c, double x, double *o) { *o = SH::evalDerCoef(p, c, x); }
void s_basis(int p, int viaptr, double *o, double x) { if (viaptr) SH::ptrEvalBasis(p)(o, x); else SH::evalBasis(p, o, x); }
void s_dbasis(int p, int viaptr, double *o, double x) { if (viaptr) SH::ptrEvalDerBasis(p)(o, x); else SH::evalDerBasis(p, o, x); }
}
template <class S> struct B {
  typedef Basis::BasisHandler<S> H;
  typedef Eigen::Matrix<S, -1, 1> V;
  typedef Eigen::Matrix<S, -1, -1> M;
  static void run1(int kind, int p, int viaptr, const double *in, const double *init, double *o) {
    // in: w(2) x y x2 y2
    const int n1 = p + 1, n2 = n1 * n1;
    S w; W::get(w, in);
    const int n = kind < 2 ? n1 : n2;
    V v(n);
    for (int i = 0; i < n; ++i) { if (init) W::get(v(i), init + 2 * i); else v(i) = S(0); }
    Eigen::Vector2d a(in[2], in[3]);
    switch (kind) {
      case 0: if (viaptr) H::funPtrPhi(p)(&v, w, in[2]); else H::phi(p, &v, w, in[2]); break;
      case 1: if (viaptr) H::funPtrPhiDx(p)(&v, w, in[2]); else H::phiDx(p, &v, w, in[2]); break;
      case 2: if (viaptr) H::funPtrPhiPhi(p)(&v, w, a); else H::phiPhi(p, &v, w, a); break;
      case 3: if (viaptr) H::funPtrPhiPhiDx(p)(&v, w, a); else H::phiPhiDx(p, &v, w, a); break;
      case 4: if (viaptr) H::funPtrPhiPhiDy(p)(&v, w, a); else H::phiPhiDy(p, &v, w, a); break;
    }
    for (int i = 0; i < n; ++i) { o[2 * i] = W::re(v(i)); o[2 * i + 1] = W::im(v(i)); }
  }
  static void run2(int kind, int p, int viaptr, const double *in, const double *init, double *o) {
    const int n = (kind + 1) * (p + 1) * (p + 1);
    S w; W::get(w, in);
    M m(n, n);
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { if (init) W::get(m(i, j), init + 2 * (j * n + i)); else m(i, j) = S(0); }
    Eigen::Vector2d a(in[2], in[3]), b(in[4], in[5]);
    if (kind == 0) { if (viaptr) H::funPtrPhiTimesPhi(p)(&m, w, a, b); else H::phiTimesPhi(p, &m, w, a, b); }
    else { if (viaptr) H::funPtrDivPhiTimesDivPhi(p)(&m, w, a, b); else H::divPhiTimesDivPhi(p, &m, w, a, b); }
    W::put(m, o);
  }
  static S *run2z(int kind, int p, int viaptr, const double *in) {
    const int n = (kind + 1) * (p + 1) * (p + 1);
    S w; W::get(w, in);
    M *m = new M(n, n);
    m->setZero();
    Eigen::Vector2d a(in[2], in[3]), b(in[4], in[5]);
    if (kind == 0) { if (viaptr) H::funPtrPhiTimesPhi(p)(m, w, a, b); else H::phiTimesPhi(p, m, w, a, b); }
    else { if (viaptr) H::funPtrDivPhiTimesDivPhi(p)(m, w, a, b); else H::divPhiTimesDivPhi(p, m, w, a, b); }
    return m->data();
  }
};
extern "C" {
void r1(int kind, int p, int v, const double *in, const double *init, double *o) { B<double>::run1(kind, p, v, in, init, o); }
void r2(int kind, int p, int v, const double *in, const double *init, double *o) { B<double>::run2(kind, p, v, in, init, o); }
double *r2z(int kind, int p, int v, const double *in) { return B<double>::run2z(kind, p, v, in); }
std::complex<double> *c2z(int kind, int p, int v, const double *in) { return B<std::complex<double>>::run2z(kind, p, v, in); }
void c1(int kind, int p, int v, const double *in, const double *init, double *o) { B<std::complex<double>>::run1(kind, p, v, in, init, o); }
void c2(int kind, int p, int v, const double *in, const double *init, double *o) { B<std::complex<double>>::run2(kind, p, v, in, init, o); }
}
"""
MAXP = 20


def witnesses(tier):
    return {"basis": SRC}


def jobs(tier):
    js = [("maxp", "basis", "j_maxp", {})]
    for p in range(MAXP + 1):
        js.append(("shape p=%d" % p, "basis", "j_shape", dict(p=p)))
        js.append(("handler p=%d" % p, "basis", "j_vec", dict(p=p)))
    full = 2 if tier == "quick" else 3
    for p in range(MAXP, -1, -1):
        for kind in (0, 1):
            for cx in (0, 1):
                js.insert(0, ("product kind=%d cx=%d p=%d" % (kind, cx, p), "basis", "j_mat",
                              dict(p=p, kind=kind, cx=cx, full=p <= full)))
    js.sort(key=lambda j: -(j[3].get("p", 0) if "kind" in j[3] else 0))
    return js


def j_maxp(job):
    it = job.interp()
    m = job.call(it, "w_maxp", [])
    job.check(m >= MAXP, "maxp", "Constants::MaxP=%s, all degrees up to it are covered" % m)
    if m != MAXP:
        from va.rig import Broken
        raise Broken("MaxP changed to %s; adapt MAXP in the check" % m)


def j_shape(job, p):
    for viaptr in (0, 1):
        t = "p=%d%s" % (p, " via pointer" if viaptr else "")
        it = job.interp()
        x = var("x")
        c = it.sym("c")
        cs = [var("c[%d]" % (8 * i)) for i in range(p + 1)]
        o = it.new_obj("o", 8, "undef")
        job.call(it, "s_coef", [p, viaptr, c, x, Ptr(o, 0)])
        want = 0.0
        for i in range(p + 1):
            want = want + cs[i] * bern(p, i, x)
        job.eq("evalCoef/" + t, it.load(Ptr(o, 0), D), want, "ShapeFunctionHandler::evalCoef " + t, obj=o, off=0)
        job.call(it, "s_dcoef", [p, viaptr, c, x, Ptr(o, 0)])
        want = 0.0
        for i in range(p + 1):
            want = want + cs[i] * dbern(p, i, x)
        job.eq("evalDerCoef/" + t, it.load(Ptr(o, 0), D), want, "ShapeFunctionHandler::evalDerCoef " + t, obj=o, off=0)
        for fn, f, nm in (("s_basis", bern, "evalBasis"), ("s_dbasis", dbern, "evalDerBasis")):
            # exactly p+1 entries may be written
            o2 = it.new_obj("o2", 8 * (p + 1), "undef")
            job.call(it, fn, [p, viaptr, Ptr(o2, 0), x])
            for i in range(p + 1):
                job.eq("%s/%s/%d" % (nm, t, i), it.load(Ptr(o2, 8 * i), D), f(p, i, x),
                       "ShapeFunctionHandler::%s %s entry %d" % (nm, t, i), obj=o2, off=8 * i)


NAMES = ["phi", "phiDx", "phiPhi", "phiPhiDx", "phiPhiDy"]


def j_vec(job, p):
    for cx in (0, 1):
        for viaptr in (0, 1):
            for kind in range(5):
                it = job.interp()
                n = p + 1 if kind < 2 else (p + 1) ** 2
                o = it.new_obj("o", 16 * n, "undef")
                inp, init = it.sym("in"), it.sym("c")
                big = p > 8 and kind >= 2
                if big:     # large degrees: second coordinate fixed (the template body is the same for every degree)
                    it.poke(inp, 24, D, 0.25)
                job.call(it, ("c" if cx else "r") + "1", [kind, p, viaptr, inp, init, Ptr(o, 0)])
                xi = [var("in[16]"), 0.25 if big else var("in[24]")]
                f = [None, None, basis2, basis2dx, basis2dy][kind]
                if kind == 0:
                    want = [bern(p, i, xi[0]) for i in range(n)]
                elif kind == 1:
                    want = [dbern(p, i, xi[0]) for i in range(n)]
                else:
                    want = f(p, xi)
                for i in range(n):
                    for c in range(1 + cx):
                        job.eq("%s/p%d/%d" % (NAMES[kind], p, i), it.load(Ptr(o, 16 * i + 8 * c), D),
                               var("c[%d]" % (16 * i + 8 * c)) + var("in[%d]" % (8 * c)) * want[i],
                               "%s degree %d %s entry %d (%s%s)" % (NAMES[kind], p, "complex" if cx else "real", i,
                                                                   "function pointer" if viaptr else "direct", " imag" if c else ""),
                               where="Bembel/src/Spline/Basis.hpp")


def j_mat(job, p, kind, cx, full):
    for viaptr in ((0, 1) if p <= 8 or job.tier == "thorough" else (1,)):
        it = job.interp()
        it.loopmax = 10 ** 7
        m = (p + 1) ** 2
        n = (kind + 1) * m
        inp = it.sym("in")
        nm = ["phiTimesPhi", "divPhiTimesDivPhi"][kind]
        size = 16 if full or cx else 8
        if full:
            a, b = [var("in[16]"), var("in[24]")], [var("in[32]"), var("in[40]")]
            o = Ptr(it.new_obj("o", 16 * n * n, "undef"), 0)
            job.call(it, ("c" if cx else "r") + "2", [kind, p, viaptr, inp, it.sym("c"), o])
        else:
            # only the weight and (p<=8) the first coordinate unknown; the others sit at corners so that few entries are
            # non-zero; every entry is still required to have exactly its prescribed value
            a, b = [var("in[16]"), 1.0], [1.0, 0.0]
            for off, v in ((24, 1.0), (32, 1.0), (40, 0.0)):
                it.poke(inp, off, D, v)
            if p > 8:
                a[0] = 1.0
                it.poke(inp, 16, D, 1.0)
            o = job.call(it, ("c" if cx else "r") + "2z", [kind, p, viaptr, inp])
        if kind == 0:
            A, Bv = [basis2(p, a)], [basis2(p, b)]
        else:
            A, Bv = [basis2dx(p, a), basis2dy(p, a)], [basis2dx(p, b), basis2dy(p, b)]
        w = [var("in[0]"), var("in[8]")]
        bad = 0
        for j in range(n):
            for i in range(n):
                pr = dom.mul(A[i // m][i % m], Bv[j // m][j % m])
                for c in range(1 + cx):
                    off = size * (j * n + i) + 8 * c
                    if not full and pr == 0:
                        cell = o.obj.cells.get(o.off + off)
                        if cell is None or cell[1] == 0:
                            continue
                    got = it.load(Ptr(o.obj, o.off + off), D)
                    want = dom.add(dom.mul(w[c], pr), var("c[%d]" % off) if full else 0.0)
                    if not job.eq("%s/p%d/(%d,%d)" % (nm, p, i, j), got, want,
                                  "%s degree %d %s entry (%d,%d) (%s)" % (nm, p, "complex" if cx else "real", i, j,
                                                                         "function pointer" if viaptr else "direct"),
                                  where="Bembel/src/Spline/Basis.hpp"):
                        bad += 1
                        if bad > 20:
                            return
        job.ok("%s/p%d" % (nm, p), "all %d entries of %s, degree %d" % (n * n, nm, p))
