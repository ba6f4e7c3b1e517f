from decimal import Decimal, getcontext
from fractions import Fraction

from va import dom
from va.rig import D, I64, P, Broken, Finding, Ptr

PID = "C02"
EXPLAIN = ("The quadrature tables are closed constants: constant propagation through the constructors of the Gauss-Legendre rules and of "
           "the indexed containers QuadratureVector / TensorProductQuadratureVector yields every node and weight; each is compared with "
           "an independently computed (60-digit Newton iteration) Gauss-Legendre rule on [0,1], the moments up to degree 2n-1 are "
           "checked in exact rational arithmetic, and entry i of a container must be the (i+1)-point rule.")
MIN_OBLIGATIONS = {"quick": 500}
SRC = """
#include <Eigen/Dense>
#include <vector>
#include <cassert>
#include <cmath>
#include <Bembel/src/util/Constants.hpp>
#include <Bembel/Quadrature>
using namespace Bembel;
template <class Q> static void put(const Q &q, double *o, long *n, const double **x, const double **w) {
  n[0] = q.xi_.rows(); n[1] = q.xi_.cols(); n[2] = q.w_.size();
  *x = q.xi_.data(); *w = q.w_.data();
}
typedef GaussLegendre<%(N)d> GL;
typedef GaussSquare<%(N)d> GS;
extern "C" {
void *mk_gl() { return new GL(); }
void *mk_gs() { return new GS(); }
void get_gl(GL *g, unsigned i, long *n, const double **x, const double **w) { const Quadrature<1> &q = (*g)[i]; put(q, 0, n, x, w); }
void get_gs(GS *g, unsigned i, long *n, const double **x, const double **w) { const Cubature &q = (*g)[i]; put(q, 0, n, x, w); }
unsigned maxdeg() { return Constants::maximum_quadrature_degree; }
}
"""


def witnesses(tier):
    return {"gl": SRC % {"N": 24 if tier == "quick" else 50}}


def jobs(tier):
    n = 24 if tier == "quick" else 50
    return [("interval rules", "gl", "j_gl", dict(n=n)), ("square rules", "gl", "j_gs", dict(n=n))]


def reference(n):
    """n-point Gauss-Legendre rule on [0,1] as sorted [(node, weight)] of Fractions, Newton on P_n"""
    getcontext().prec = 60
    import math
    out = []
    for k in range(1, n + 1):
        x = Decimal(math.cos(math.pi * (k - 0.25) / (n + 0.5)))
        for _ in range(60):
            p0, p1 = Decimal(1), x
            for j in range(2, n + 1):
                p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
            if n == 1:
                p0, p1 = Decimal(1), x
            dp = n * (x * p1 - p0) / (x * x - 1) if x * x != 1 else Decimal(1)
            d = p1 / dp
            x -= d
            if abs(d) < Decimal(10) ** -50:
                break
        p0, p1 = Decimal(1), x
        for j in range(2, n + 1):
            p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
        dp = n * (x * p1 - p0) / (x * x - 1)
        w = 2 / ((1 - x * x) * dp * dp)
        out.append((Fraction((1 + x) / 2), Fraction(w / 2)))
    return sorted(out)


def fetch(job, it, fn, g, i):
    n = it.new_obj("n", 24, "undef")
    x = it.new_obj("x", 8, "undef")
    w = it.new_obj("w", 8, "undef")
    job.call(it, fn, [g, i, Ptr(n, 0), Ptr(x, 0), Ptr(w, 0)])
    r, c, m = [it.load(Ptr(n, 8 * k), I64) for k in range(3)]
    xp, wp = it.load(Ptr(x, 0), P), it.load(Ptr(w, 0), P)
    xs = [[it.load(Ptr(xp.obj, xp.off + 8 * (k * r + d)), D) for d in range(r)] for k in range(c)]
    ws = [it.load(Ptr(wp.obj, wp.off + 8 * k), D) for k in range(m)]
    return xs, ws


def compare(job, key, what, pts, ref, tol):
    got = sorted(pts)
    if not job.check(len(got) == len(ref), key + "/size", "%s has %d nodes, required %d" % (what, len(got), len(ref)),
                     "Bembel/src/Quadrature"):
        return
    for (gx, gw), (rx, rw) in zip(got, ref):
        e = max(abs(Fraction(gx) - rx), abs(Fraction(gw) - rw))
        job.check(e <= Fraction(tol), key, "%s: node %.17g weight %.17g differs from Gauss-Legendre node %.17g weight %.17g"
                  % (what, gx, gw, float(rx), float(rw)), "Bembel/src/Quadrature/GaussLegendreRule.hpp")


def j_gl(job, n):
    it = job.interp(max_steps=10 ** 9)
    it.loopmax = 10 ** 8
    g = job.call(it, "mk_gl", [])
    md = job.call(it, "maxdeg", [])
    job.check(md <= 50, "maxdeg", "maximum_quadrature_degree %s within the analysed range" % md)
    for i in range(n + 1):
        xs, ws = fetch(job, it, "get_gl", g, i)
        k = i + 1
        tol = 4e-15 if k <= 20 else 1e-11
        if not job.check(all(len(x) == 1 for x in xs) and len(xs) == len(ws), "GL%d/shape" % k, "shape of the %d point rule" % k):
            continue
        pts = list(zip([x[0] for x in xs], ws))
        compare(job, "GaussLegendre[%d]" % i, "GaussLegendre[%d]" % i, pts, reference(k), tol)
        for d in range(2 * k):
            m = sum(Fraction(w) * Fraction(x) ** d for x, w in pts) - Fraction(1, d + 1)
            job.check(abs(m) < Fraction(10 * tol), "GaussLegendre[%d]/moment%d" % (i, d),
                      "GaussLegendre[%d] integrates x^%d with error %.3g" % (i, d, float(m)),
                      "Bembel/src/Quadrature/GaussLegendreRule.hpp")


def j_gs(job, n):
    it = job.interp(max_steps=10 ** 9)
    it.loopmax = 10 ** 8
    g = job.call(it, "mk_gs", [])
    for i in range(n + 1):
        xs, ws = fetch(job, it, "get_gs", g, i)
        k = i + 1
        tol = 4e-15 if k <= 20 else 1e-11
        r = reference(k)
        key = "GaussSquare[%d]" % i
        if not job.check(len(xs) == len(ws) == k * k and all(len(x) == 2 for x in xs), key + "/shape",
                         "%s must have %d two-dimensional nodes" % (key, k * k), "Bembel/src/Quadrature/TensorProductQuadratureVector.hpp"):
            continue
        # as a set: the node pairs are the full tensor grid with product weights
        nx = [float(a) for a, _ in r]
        seen = set()
        ok = True
        for x, w in zip(xs, ws):
            a = min(range(k), key=lambda q: abs(nx[q] - x[0]))
            b = min(range(k), key=lambda q: abs(nx[q] - x[1]))
            seen.add((a, b))
            if abs(nx[a] - x[0]) > tol or abs(nx[b] - x[1]) > tol or abs(float(r[a][1] * r[b][1]) - w) > tol:
                ok = False
                job.fail(key, "%s: node (%.17g,%.17g) weight %.17g is not a tensor product Gauss node" % (key, x[0], x[1], w),
                         "Bembel/src/Quadrature/TensorProductQuadratureVector.hpp")
        job.check(len(seen) == k * k, key + "/complete", "%s covers %d of %d grid points" % (key, len(seen), k * k),
                  "Bembel/src/Quadrature/TensorProductQuadratureVector.hpp")
        if ok:
            job.ok(key, "%s is the tensor product rule" % key)
