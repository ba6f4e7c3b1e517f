"""singular quadrature: the Duffy rules are exact, regularising changes of variables for every pair of elements"""
import itertools
import math

from va import dom
from va.dom import Poly, var
from va.rig import D, Ptr

PID = "C12"
EXPLAIN = ("evaluateBilinearForm is interpreted for every ordered pair of elements of two unit-square patches glued along every pair of edges, touching "
           "in a corner (every pair of corners), apart, and for refinements of them, with an operator that records the surface points it is given and a "
           "quadrature rule whose nodes and weights are unknown.  The recorded points and weights, as polynomials in the node coordinates, must "
           "integrate every monomial in the four local coordinates exactly over the pair, lie on the right elements, vanish to the order of the kernel "
           "singularity where the two points meet, and use the prescribed quadrature degree.")
MIN_OBLIGATIONS = {"quick": 5000}
W = "Bembel/src/DuffyTrick/"
SRC = """
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/LinearOperator>
#include <Bembel/DuffyTrick>
#include <Bembel/src/util/Macros.hpp>
#include "geo.hpp"
namespace Bembel {
template <int O> class Rec;
template <int O> struct LinearOperatorTraits<Rec<O>> { typedef Eigen::VectorXd EigenType; typedef Eigen::VectorXd::Scalar Scalar; enum { OperatorOrder = O, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 }; };
static double *REC; static long NREC;
template <int O> class Rec : public LinearOperatorBase<Rec<O>> {
 public:
  template <class T> void evaluateIntegrand_impl(const T &, const SurfacePoint &p1, const SurfacePoint &p2, Eigen::MatrixXd *v) const {
    double *r = REC + 24 * NREC++;
    for (int i = 0; i < 12; ++i) { r[i] = p1(i); r[12 + i] = p2(i); }
    for (int i = 0; i < v->size(); ++i) (*v)(i) += 1;
  }
};
}
using namespace Bembel;
struct QV {
  double *deg; const double *x;
  Cubature operator[](int d) const {
    *deg = d;
    Cubature q; q.xi_.resize(2, 2); q.w_.resize(2);
    q.xi_ << x[0], x[2], x[1], x[3]; q.w_ << x[4], x[5];
    return q;
  }
};
template <int O> static void *mk(const double *c, int n, int M, int P) {
  PatchVector v; for (int i = 0; i < n; ++i) v.push_back(W::bilinear(c + 12 * i));
  Geometry g(v);
  return new SuperSpace<Rec<O>>(g, M, P);
}
extern "C" void *mks(int ord, const double *c, int n, int M, int P) { return ord == -1 ? mk<-1>(c, n, M, P) : ord == 0 ? mk<0>(c, n, M, P) : mk<1>(c, n, M, P); }
template <int O> static void go(const void *vs, int i1, int i2, const double *q, const SurfacePoint *f1, const SurfacePoint *f2, double *o, double *rec) {
  const SuperSpace<Rec<O>> &s = *(const SuperSpace<Rec<O>> *)vs;
  auto a = s.get_mesh().get_element_tree().cpbegin(), b = a;
  for (int i = 0; i < i1; ++i) ++a;
  for (int i = 0; i < i2; ++i) ++b;
  REC = rec; NREC = 0;
  Eigen::MatrixXd iv(2, 2); iv << 7, 8, 9, 10;
  QV qv; qv.deg = o; qv.x = q;
  ElementSurfacePoints e1, e2;
  for (int i = 0; i < 2; ++i) { e1.push_back(f1[i]); e2.push_back(f2[i]); }
  Rec<O> op;
  DuffyTrick::evaluateBilinearForm(op, s, *a, *b, qv, e1, e2, &iv);
  o[1] = NREC; for (int i = 0; i < 4; ++i) o[2 + i] = iv(i);
}
extern "C" void run(int ord, const void *s, int i1, int i2, const double *q, const SurfacePoint *f1, const SurfacePoint *f2, double *o, double *rec) {
  if (ord == -1) go<-1>(s, i1, i2, q, f1, f2, o, rec);
  if (ord == 0) go<0>(s, i1, i2, q, f1, f2, o, rec);
  if (ord == 1) go<1>(s, i1, i2, q, f1, f2, o, rec);
}
template <int O> static void dg(int P, double d, int l, double *o) { Rec<O> op; o[0] = op.getNearfieldQuadratureDegree(P, d, l); o[1] = op.get_FarfieldQuadratureDegree(P); }
extern "C" void degs(int ord, int P, double d, int l, double *o) { if (ord == -1) dg<-1>(P, d, l, o); if (ord == 0) dg<0>(P, d, l, o); if (ord == 1) dg<1>(P, d, l, o); }
extern "C" void ffn(const double *c, int n, int M, int P, const double *q, double *o) {
  PatchVector v; for (int i = 0; i < n; ++i) v.push_back(W::bilinear(c + 12 * i));
  Geometry g(v);
  SuperSpace<Rec<0>> s(g, M, P);
  double d; QV qv; qv.deg = &d; qv.x = q;
  std::vector<ElementSurfacePoints> f = DuffyTrick::computeFfieldQnodes(s, qv[0]);
  *o++ = f.size();
  for (std::size_t e = 0; e < f.size(); ++e) { *o++ = f[e].size(); for (std::size_t k = 0; k < f[e].size(); ++k) for (int i = 0; i < 12; ++i) *o++ = f[e][k](i); }
}
"""


def square(ox, oy, rot, fold=0.):
    """unit square with lower left corner (ox,oy); the part x > 1 is folded upwards; parametrisation rotated by rot quarter turns"""
    q = []
    for a, b in ((0, 0), (1, 0), (1, 1), (0, 1)):
        x, y = ox + a, oy + b
        q.append((min(x, 1.) if fold else x, y, max(x - 1., 0.) * fold))
    return q[rot:] + q[:rot]


def shapes():
    s = {}
    for a in range(4):
        for b in range(4):
            s["edge %d%d" % (a, b)] = [square(0., 0., a), square(1., 0., b, 1.)]
            s["corner %d%d" % (a, b)] = [square(0., 0., a), square(1., 1., b)]
    s["apart"] = [square(0., 0., 1), square(1.5, 0., 2)]
    s["far"] = [square(0., 0., 1), square(6., 0., 2)]
    s["block"] = [square(0., 0., 1), square(1., 0., 2), square(0., 1., 3), square(1., 1., 0)]
    return s


SH = shapes()


def witnesses(tier):
    return {"d": SRC}


def jobs(tier):
    js = [("degrees", "d", "j_degree", dict(tier=tier))]
    for n in sorted(SH):
        for M in (0, 1):
            if M and n[:4] in ("edge", "corn") and n[-2:] not in ("00", "12", "31", "23") and tier == "quick":
                continue
            js.append(("%s level %d" % (n, M), "d", "j_pairs", dict(name=n, M=M)))
    js.append(("far field nodes", "d", "j_ff", {}))
    return js


def corners(q):
    return [x for k in (0, 1, 3, 2) for x in q[k]]


def geom(it, T):
    o = it.new_obj("geo", 96 * len(T), "undef")
    for i, v in enumerate(v for q in T for v in corners(q)):
        it.poke(Ptr(o, 0), 8 * i, D, float(v))
    return Ptr(o, 0)


def elements(T, M):
    """(patch, llc, h) in tree order"""
    out = []
    for p in range(len(T)):
        l = [(0., 0., 1.)]
        for _ in range(M):
            l = [(x + a * h / 2, y + b * h / 2, h / 2) for x, y, h in l for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
        out += [(p, x, y, h) for x, y, h in l]
    return out


def chi(q, s, t):
    """point and tangents of the (affine or bilinear) patch at (s,t)"""
    e = [[q[0][d], q[1][d] - q[0][d], q[3][d] - q[0][d], q[0][d] - q[1][d] + q[2][d] - q[3][d]] for d in range(3)]
    p = [dom.add(dom.add(dom.mul(a[1] * 1.0, s), dom.mul(a[2] * 1.0, t)), dom.add(dom.mul(dom.mul(s, t), a[3] * 1.0), a[0] * 1.0)) for a in e]
    dx = [dom.add(dom.mul(t, a[3]), a[1]) for a in e]
    dy = [dom.add(dom.mul(s, a[3]), a[2]) for a in e]
    return p, dx, dy


def degree(order, P, level, dist):
    ff = P - order + 1
    lg = -(level * math.log(2.)) if dist * 2 ** level < 1 else math.log(dist)
    alpha = 2 - order + 2 * P
    num = (alpha + P) * level * math.log(2.) - (2 - P + order) * lg
    den = (level + 2) * math.log(2.) + lg
    return ff, max(ff, int(0.5 * num / den)), 0.5 * num / den


def ball(q, e):
    """enclosing ball of a leaf element of a planar unit square"""
    h = e[3]
    m = chi(q, e[1] + h / 2, e[2] + h / 2)[0]
    return m, h * math.sqrt(2.) / 2


def eid(x):
    return tuple(round(v * 64) for v in x)


def idx(v):
    """set of quadrature weight variables in a monomial set -> {(i,j): poly without the weights}"""
    t = {}
    ids = {}
    for k in (0, 1):
        ids[next(iter(var("q[%d]" % (32 + 8 * k)).t))[0][0]] = k
    for m, c in (v.t if isinstance(v, Poly) else {(): v}).items():
        w, r = [], []
        for a, e in m:
            if a in ids:
                w += [ids[a]] * e
            else:
                r.append((a, e))
        t.setdefault(tuple(sorted(w)), {})[tuple(r)] = c
    return {k: dom.norm(x) for k, x in t.items()}


def integral(v):
    """integral over the unit cube in all variables of a polynomial"""
    if dom.is_num(v):
        return v
    s = 0.0
    for m, c in v.t.items():
        for a, e in m:
            c /= e + 1
        s += c
    return s


MONO = [m for m in itertools.product(range(4), repeat=4) if sum(m) <= 4]


def record(job, it, order, s, i1, i2):
    rec, o = it.new_obj("rec", None, "undef"), it.new_obj("o", 48, "undef")
    job.call(it, "run", [order, s, i1, i2, it.sym("q"), it.sym("f1"), it.sym("f2"), Ptr(o, 0), Ptr(rec, 0)])
    n = int(it.load(Ptr(o, 8), D))
    iv = [it.load(Ptr(o, 16 + 8 * i), D) for i in range(4)]
    R = [[it.load(Ptr(rec, 8 * (24 * k + i)), D) for i in range(24)] for k in range(n)]
    return it.load(Ptr(o, 0), D), R, iv


def j_pairs(job, name, M):
    T = SH[name]
    el = elements(T, M)
    it = job.interp()
    order, P = ((-1, 0), (0, 1), (1, 1), (-1, 2))[(sum(map(ord, name)) + M) % 4]
    s = job.call(it, "mks", [order, geom(it, T), len(T), M, P])
    for i1, e1 in enumerate(el):
        for i2, e2 in enumerate(el):
            deg, R, iv = record(job, it, order, s, i1, i2)
            tag = "%s, level %d, elements (%d,%d)" % (name, M, i1, i2)
            q1, q2 = T[e1[0]], T[e2[0]]
            c1 = [eid(chi(q1, e1[1] + a * e1[3], e1[2] + b * e1[3])[0]) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
            c2 = [eid(chi(q2, e2[1] + a * e2[3], e2[2] + b * e2[3])[0]) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
            common = len(set(c1) & set(c2))
            m1, r1 = ball(q1, e1)
            m2, r2 = ball(q2, e2)
            dist = 0. if i1 == i2 else max(0., math.sqrt(sum((a - b) ** 2 for a, b in zip(m1, m2))) - r1 - r2)
            ff, nf, raw = degree(order, P, M, dist)
            sure = abs(raw - round(raw)) > 1e-6 and abs(dist * 2 ** M - 1) > 1e-6
            if sure:
                job.check(deg == nf, "degree", "%s: quadrature degree %s, required %d (order %d, degree %d, distance %g)" % (tag, deg, nf, order, P, dist), W + "evaluateBilinearForm.hpp")
            job.check(all(v == float(len(R)) for v in iv), "accumulate", "%s: the integral matrix is %s after %d evaluations (must be reset first and then accumulated)" % (tag, iv, len(R)), W)
            kind = {0: "separated", 1: "common vertex", 2: "common edge", 4: "identical"}.get(common)
            if kind == "separated" and deg == ff:
                got = {}
                for r in R:
                    got[(dom.show(r[0]), dom.show(r[12]))] = r
                for i in range(2):
                    for j in range(2):
                        r = got.get(("f1[%d]" % (96 * i), "f2[%d]" % (96 * j)))
                        job.check(r is not None and len(R) == 4 and all(dom.equal(r[k], var("f1[%d]" % (96 * i + 8 * k))) and dom.equal(r[12 + k], var("f2[%d]" % (96 * j + 8 * k))) for k in range(12)),
                                  "far field", "%s: node pair (%d,%d) of the given far-field nodes is evaluated exactly once" % (tag, i, j), W + "integrate0.hpp")
                continue
            rule(job, tag, kind, R, q1, e1, q2, e2)


GRID = (0., .15, .5, .8, 1.)


def rule(job, tag, kind, R, q1, e1, q2, e2):
    h = e1[3]
    x0 = [var("q[%d]" % (8 * i)) for i in range(4)]  # node0 (x,y), node1 (x,y)
    terms = {}
    for k, r in enumerate(R):
        same = all(isinstance(v, (Poly, float)) for v in r)
        if not job.check(same, "recorded", "%s: recorded points are determined" % tag, W):
            return
        sides = [(r[:12], q1, e1), (r[12:], q2, e2)]
        for s, (p, q, e) in enumerate(sides):
            pt, dx, dy = chi(q, dom.add(dom.mul(p[0], e[3]), e[1]), dom.add(dom.mul(p[1], e[3]), e[2]))
            ok = all(dom.equal(a, b) for a, b in zip(p[3:], pt + dx + dy))
            job.check(ok, "point/%s" % kind, "%s (%s): argument %d of evaluation %d is a point of the %s element" % (tag, kind, s + 1, k, "trial" if s else "test"), W)
        for ij, w in idx(dom.mul(r[2], r[14])).items():
            terms.setdefault(ij, []).append((w, r))
    job.check(set(terms) == {(0, 0), (0, 1), (1, 1)}, "weights/%s" % kind, "%s (%s): every term carries exactly one weight of each of the two nodes (found %s)" % (tag, kind, sorted(terms)), W)
    if (0, 1) not in terms:
        return
    # exactness
    for m in MONO:
        s = 0.0
        for w, r in terms[0, 1]:
            v = w
            for c, e in zip((r[0], r[1], r[12], r[13]), m):
                v = dom.mul(v, dom.powi(c, e))
            s += integral(v)
        want = 2 * h * h / math.prod(e + 1 for e in m)
        job.check(abs(s - want) < 1e-9 * h * h, "exact/%s" % kind, "%s (%s): the change of variables integrates x^%d y^%d u^%d v^%d over the pair to %.9g, required %.9g" % ((tag, kind) + m + (s / 2, want / 2)), W)
    # consistency of coinciding node indices
    for k in (0, 1):
        sub = {"q[%d]" % (8 * i): x0[2 * k + i % 2] for i in range(4)}
        for m in ((0, 0, 0, 0), (1, 0, 0, 0), (0, 0, 0, 1), (2, 1, 0, 0), (1, 0, 1, 0), (0, 1, 2, 1)):
            a = b = 0.0
            for ij in ((0, 1), (k, k)):
                s = 0.0
                for w, r in terms.get(ij, []):
                    v = w
                    for c, e in zip((r[0], r[1], r[12], r[13]), m):
                        v = dom.mul(v, dom.powi(c, e))
                    s = dom.add(s, v)
                if ij == (0, 1):
                    a = dom.mul(dom.subst(s, sub), 0.5)
                else:
                    b = s
            job.check(dom.equal(a, b), "diagonal/%s" % kind, "%s (%s): the node pair (%d,%d) is treated as any other pair" % (tag, kind, k, k), W)
    # regularity: the kernel 1/|x-y| times the weight stays bounded
    for w, r in terms[0, 1]:
        d2 = 0.0
        for a, b in zip(r[3:6], r[15:18]):
            d = dom.sub(a, b)
            d2 = dom.add(d2, dom.mul(d, d))
        ok = not dom.is_num(d2) or d2 > 0
        why = ""
        if not dom.is_num(d2):
            vs = [next(iter(v.t))[0][0] for v in x0]
            for a in vs:
                al = min(dict(m).get(a, 0) for m in d2.t)
                be = min(dict(m).get(a, 0) for m in w.t) if isinstance(w, Poly) else 0
                if 2 * be < al:
                    ok, why = False, "the weight does not cancel the singularity"
            rest = Poly({tuple((a, e - min(dict(x).get(a, 0) for x in d2.t)) for a, e in m if e - min(dict(x).get(a, 0) for x in d2.t) > 0): c for m, c in d2.t.items()})
            mn = min_on_cube(rest, vs)
            if mn < 1e-9:
                ok, why = False, why or "the two points meet inside the integration cube or on a face without a cancelling weight"
        job.check(ok, "regular/%s" % kind, "%s (%s): %s" % (tag, kind, why or "weight cancels the singularity"), W)


def min_on_cube(p, vs):
    best = 1e9
    terms = [([dict(m).get(a, 0) for a in vs], c) for m, c in p.t.items()]
    for g in itertools.product(GRID, repeat=4):
        s = 0.0
        for e, c in terms:
            for b, k in zip(g, e):
                if k:
                    c *= b ** k
            s += c
        best = min(best, s)
    return best


def j_degree(job, tier):
    """quadrature degree of every order, degree, level and distance"""
    it = job.interp()
    o = it.new_obj("o", 16, "undef")
    for M in range(0, 7 if tier == "quick" else 10):
        for order, P in itertools.product((-1, 0, 1), range(0, 6)):
            for dist in (0., 1e-3, .03, .11, .27, .4, .6, .77, 1.3, 2.9, 7., 40.):
                job.call(it, "degs", [order, P, dist, M, Ptr(o, 0)])
                nf, ff = it.load(Ptr(o, 0), D), it.load(Ptr(o, 8), D)
                fd, best, raw = degree(order, P, M, dist)
                if abs(raw - round(raw)) > 1e-6:
                    job.check(nf == int(raw) and ff == fd, "degree/formula", "order %d, degree %d, level %d, distance %g: near-field degree %s, far-field degree %s, required %d, %d" % (order, P, M, dist, nf, ff, int(raw), fd),
                              "Bembel/src/LinearOperator/LinearOperatorBase.hpp")
    for M, gaps in ((0, (1.1, 1.7, 2.3, 3., 4.9, 9.)), (1, (1.1, 3.))):
        for order, P in ((-1, 0), (0, 1), (1, 2)):
            for gap in gaps:
                T = [square(0., 0., 0), square(gap, 0., 0)]
                it = job.interp()
                el = elements(T, M)
                s = job.call(it, "mks", [order, geom(it, T), 2, M, P])
                for i2 in {0, len(el) // 2, len(el) - 1}:
                    deg, R, iv = record(job, it, order, s, 0, i2)
                    m1, r1 = ball(T[0], el[0])
                    m2, r2 = ball(T[el[i2][0]], el[i2])
                    dist = 0. if i2 == 0 else max(0., math.sqrt(sum((a - b) ** 2 for a, b in zip(m1, m2))) - r1 - r2)
                    ff, nf, raw = degree(order, P, M, dist)
                    if abs(raw - round(raw)) > 1e-6 and abs(dist * 2 ** M - 1) > 1e-6:
                        job.check(deg == nf, "degree", "order %d, degree %d, level %d, distance %g: quadrature degree %s, required %d" % (order, P, M, dist, deg, nf), W + "evaluateBilinearForm.hpp")


def j_ff(job):
    """far-field nodes of every element"""
    for name, M in (("edge 12", 0), ("edge 12", 1), ("block", 1), ("corner 23", 2)):
        T = SH[name]
        it = job.interp()
        o = it.new_obj("o", None, "undef")
        job.call(it, "ffn", [geom(it, T), len(T), M, 1, it.sym("q"), Ptr(o, 0)])
        el = elements(T, M)
        job.check(it.load(Ptr(o, 0), D) == len(el), "far field nodes/count", "%s level %d: one node list per element" % (name, M), W + "farFieldQuadratureNodes.hpp")
        k = 1
        for n, e in enumerate(el):
            job.check(it.load(Ptr(o, 8 * k), D) == 2.0, "far field nodes/size", "%s level %d element %d: one surface point per node" % (name, M, n), W + "farFieldQuadratureNodes.hpp")
            k += 1
            for j in range(2):
                x, y, w = var("q[%d]" % (16 * j)), var("q[%d]" % (16 * j + 8)), var("q[%d]" % (32 + 8 * j))
                pt, dx, dy = chi(T[e[0]], x * e[3] + e[1], y * e[3] + e[2])
                for i, v in enumerate([x, y, w * e[3]] + pt + dx + dy):
                    job.eq("far field nodes/%d" % i, it.load(Ptr(o, 8 * k), D), v, "%s level %d, far-field node %d of element %d, entry %d" % (name, M, j, n, i), where=W + "farFieldQuadratureNodes.hpp")
                    k += 1
