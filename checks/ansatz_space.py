"""discrete spaces: projector (B-splines in the element basis) and glue (interface conditions)"""
from fractions import Fraction as F

from checks.element_tree import TOPO, flat, key, put
from va.contracts import use_trisolve
from va.rig import D, Ptr

PID = "C10"
EXPLAIN = ("Projector, Glue and AnsatzSpace are propagated through the IR for every consistently oriented topology of the table and a range of degrees, "
           "levels and knot repetitions.  Each projector column must be the Bernstein-coefficient vector of one tensor B-spline of the patch (exact "
           "rational reference), each exactly once; the glue groups must be exactly the transitive closure of the interface conditions derived from the "
           "physical position and direction of the shared edges, with the sign that makes traces equal or normal fluxes cancel; the transformation "
           "matrix must be their product.")
MIN_OBLIGATIONS = {"quick": 2000}
WH = "Bembel/src/AnsatzSpace/"
SRC = """
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/LinearOperator>
#include <Bembel/src/util/Macros.hpp>
#include "geo.hpp"
namespace Bembel {
class OpC; class OpD; class OpV;
template <> struct LinearOperatorTraits<OpC> { typedef Eigen::VectorXd EigenType; typedef Eigen::VectorXd::Scalar Scalar; enum { OperatorOrder = 1, Form = DifferentialForm::Continuous, NumberOfFMMComponents = 1 }; };
template <> struct LinearOperatorTraits<OpD> { typedef Eigen::VectorXd EigenType; typedef Eigen::VectorXd::Scalar Scalar; enum { OperatorOrder = -1, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 }; };
template <> struct LinearOperatorTraits<OpV> { typedef Eigen::VectorXcd EigenType; typedef Eigen::VectorXcd::Scalar Scalar; enum { OperatorOrder = -1, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 2 }; };
}
using namespace Bembel;
static Patch bumpy(const double *c) {
  std::vector<Eigen::MatrixXd> m(4, Eigen::MatrixXd::Ones(3, 3));
  for (int d = 0; d < 3; ++d) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double x = .5 * j, y = .5 * i;
    m[d](i, j) = (1 - x) * (1 - y) * c[d] + x * (1 - y) * c[3 + d] + (1 - x) * y * c[6 + d] + x * y * c[9 + d] + (i == 1 && j == 1 ? c[12 + d] : 0.);
  }
  std::vector<double> k = {0, 0, 0, 1, 1, 1};
  return Patch(m, k, k);
}
static Geometry geo(const double *c, int n) { PatchVector v; for (int i = 0; i < n; ++i) v.push_back(bumpy(c + 15 * i)); return Geometry(v); }
static void out(const Eigen::SparseMatrix<double> &m, double *&o) {
  *o++ = m.rows(); *o++ = m.cols(); double *n = o++; *n = 0;
  for (int k = 0; k < m.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) { *o++ = it.row(); *o++ = it.col(); *o++ = it.value(); *n += 1; }
}
template <class Op> static void go(const double *c, int n, int M, int P, int rep, double *o) {
  Geometry g = geo(c, n);
  SuperSpace<Op> s(g, M, P); Projector<Op> pr(s, rep); Glue<Op> gl(s, pr); AnsatzSpace<Op> a(g, M, P, rep);
  *o++ = a.get_number_of_dofs(); *o++ = a.get_number_of_elements(); *o++ = a.get_number_of_patches(); *o++ = a.get_polynomial_degree(); *o++ = a.get_refinement_level();
  *o++ = a.get_knot_repetition(); *o++ = pr.get_dofs_after_projector(); *o++ = pr.get_knot_repetition(); *o++ = s.get_polynomial_degree_plus_one_squared();
  out(pr.get_projection_matrix(), o); out(gl.get_glue_matrix(), o); out(a.get_transformation_matrix(), o);
}
extern "C" void space(int form, const double *c, int n, int M, int P, int rep, double *o) {
  if (form == 0) go<OpC>(c, n, M, P, rep, o);
  if (form == 1) go<OpV>(c, n, M, P, rep, o);
  if (form == 2) go<OpD>(c, n, M, P, rep, o);
}
"""
CONT, DIV, DISC = 0, 1, 2
NAMES = {CONT: "continuous", DIV: "div-conforming", DISC: "discontinuous"}


def oriented(T):
    s = set()
    for q in T:
        for j in range(4):
            e = (key(q[j]), key(q[(j + 1) % 4]))
            if e in s:
                return False
            s.add(e)
    return True


ORI = [n for n in TOPO if oriented(TOPO[n])]
# patch numberings of a 3x3 block and boxes that make corner groups meet late
def block(m, n, perm, rots):
    cells = [(i, j) for j in range(n) for i in range(m)]
    out = []
    for k, p in enumerate(perm):
        x, y = cells[p]
        q = [(float(x + a), float(y + b), .1 * (x + a) * (y + b)) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
        r = rots[k % len(rots)]
        out.append(q[r:] + q[:r])
    return out


def ring(n, perm, rots, kind, of):
    """n patches in a row around one vertex (fan) or around two poles with two shared edges each (ball); of = sectors of the full turn"""
    from math import cos, pi, sin
    out = []

    def pt(k, r=1.):
        return (round(r * cos(2 * pi * k / of), 3), round(r * sin(2 * pi * k / of), 3), 0.)
    for k, p in enumerate(perm):
        q = [(0., 0., 1.), pt(p), (0., 0., -1.), pt((p + 1) % of)] if kind == "ball" else [(0., 0., 0.), pt(p), pt(p + .5, 1.4), pt((p + 1) % of)]
        r = rots[k % len(rots)]
        out.append(q[r:] + q[:r])
    return out


EXTRA = {
    "fan 4": ring(4, [3, 0, 1, 2], [0], "fan", 8),
    "fan 6": ring(6, [0, 5, 3, 2, 1, 4], [0, 1], "fan", 12),
    "fan 6 closed": ring(6, [0, 4, 2, 5, 1, 3], [1, 0, 2], "fan", 6),
    "ball 4": ring(4, [3, 1, 0, 2], [0, 3], "ball", 8),
    "ball 7 closed": ring(7, [5, 0, 3, 1, 4, 2, 6], [2, 1, 0], "ball", 7),
    "block 2x2 diagonal": block(2, 2, [0, 3, 1, 2], [0, 1, 2, 3]),
    "block 2x2 cross": block(2, 2, [0, 2, 1, 3], [2, 1]),
    "block 3x2": block(3, 2, [0, 4, 2, 3, 1, 5], [1, 3, 0]),
    "block 3x3 a": block(3, 3, [0, 2, 4, 6, 8, 1, 3, 5, 7], [0]),
    "block 3x3 b": block(3, 3, [8, 0, 7, 1, 6, 2, 5, 3, 4], [0, 1, 2]),
    "block 3x3 c": block(3, 3, [0, 1, 3, 4, 8, 7, 2, 5, 6], [3, 1]),
    "block 4x2 pairs": block(4, 2, [0, 1, 2, 3, 4, 5, 6, 7], [0, 2]),
    "block 4x2 far": block(4, 2, [0, 4, 1, 5, 2, 6, 3, 7], [0, 2]),
    "block 4x3 rows": block(4, 3, [0, 2, 4, 6, 8, 10, 1, 3, 5, 7, 9, 11], [0, 3, 1]),
}
ALL = dict(TOPO)
ALL.update(EXTRA)


def witnesses(tier):
    return {"a": SRC}


def jobs(tier):
    js = []

    def add(form, name, M, P, rep):
        js.append(("%s %s M%d P%d rep%d" % (NAMES[form], name, M, P, rep), "a", "j_space", dict(form=form, name=name, M=M, P=P, rep=rep)))
    add(DISC, "single", 2, 6, 1)  # smallest coefficients: 1/162^2
    for P in range(0, 4 if tier == "quick" else 6):
        for M in (0, 1, 2):
            if P * M > (4 if tier == "quick" else 6):
                continue
            for rep in {1, P, P + 1}:
                if rep >= 1:
                    add(DISC, "single", M, P, rep)
                if 1 <= rep <= P:
                    add(CONT, "single", M, P, rep)
                    add(DIV, "single", M, P, rep)
    add(DISC, "L", 1, 1, 2)
    add(DISC, "box rotated", 1, 0, 1)
    for n in ORI + list(EXTRA):
        if n == "single":
            continue
        add(CONT, n, 0 if n in EXTRA and len(EXTRA[n]) > 6 else 1, 1, 1)
        if n.startswith(("fan", "ball")) and len(ALL[n]) < 7:
            add(CONT, n, 0, 1, 1)
        add(DIV, n, 0 if n in EXTRA and len(EXTRA[n]) > 6 else 1, 1, 1)
        if len(ALL[n]) <= 3 or tier != "quick":
            add(CONT, n, 0, 2, 1)
            add(DIV, n, 0, 2, 2)
    for n in ("pair 12", "lens 1", "L", "pair 33"):
        add(CONT, n, 1, 2, 2)
        add(DIV, n, 1, 2, 1)
        add(CONT, n, 0, 3, 1)
        add(DIV, n, 0, 3, 2)
    if tier != "quick":
        add(DISC, "single", 2, 5, 1)
    return js


def cox(k, o, i, s, t):
    """B-spline i of order o at t, taken on the knot span number s (polynomial piece)"""
    if o == 1:
        return F(1) if i == s else F(0)
    r = F(0)
    if k[i + o - 1] > k[i]:
        r += (t - k[i]) / (k[i + o - 1] - k[i]) * cox(k, o - 1, i, s, t)
    if k[i + o] > k[i + 1]:
        r += (k[i + o] - t) / (k[i + o] - k[i + 1]) * cox(k, o - 1, i + 1, s, t)
    return r


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def solve(A, b):
    n = len(A)
    M = [list(r) + [x] for r, x in zip(A, b)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n] for r in M]


def oned(o, n, rep, P):
    """for each B-spline of the uniform knot vector: for each element the degree-P Bernstein coefficients (None if zero)"""
    k = [F(0)] * o + [F(i, n) for i in range(1, n) for _ in range(rep)] + [F(1)] * o
    dim = len(k) - o
    ts = [F(j, P) if P else F(1, 2) for j in range(P + 1)]
    A = [[binom(P, q) * t ** q * (1 - t) ** (P - q) for q in range(P + 1)] for t in ts]
    out = []
    for i in range(dim):
        el = []
        for e in range(n):
            s = max(j for j in range(len(k) - 1) if k[j] <= F(e, n) and k[j] < k[j + 1])
            if i > s or i < s - o + 1:
                el.append(None)
                continue
            el.append([float(x) for x in solve(A, [cox(k, o, i, s, F(e, n) + t / n) for t in ts])])
        out.append(el)
    return out


def rdm(it, o, k):
    L = lambda i: it.load(Ptr(o, 8 * i), D)
    r, c, n = int(L(k)), int(L(k + 1)), int(L(k + 2))
    k += 3
    d = {}
    for q in range(n):
        i, j = int(L(k)), int(L(k + 1))
        d[i, j] = d.get((i, j), 0.0) + L(k + 2)
        k += 3
    return r, c, d, k


def morton(M):
    """(x,y) integer positions of the elements of a patch in tree order"""
    l = [(0, 0)]
    for _ in range(M):
        l = [(2 * x + a, 2 * y + b) for x, y in l for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
    return l


def j_space(job, form, name, M, P, rep):
    T = ALL[name]
    it = job.interp()
    use_trisolve(it)
    it.max_steps = 10 ** 10
    o = it.new_obj("o", None, "undef")
    job.call(it, "space", [form, put(it, "c", flat(T)), len(T), M, P, rep, Ptr(o, 0)])
    hd = [it.load(Ptr(o, 8 * i), D) for i in range(9)]
    k = 9
    pr, pc, pm, k = rdm(it, o, k)
    gr, gc, gm, k = rdm(it, o, k)
    tr, tc, tm, k = rdm(it, o, k)
    n, np_, Q = 2 ** M, len(T), P + 1
    tag = "%s space, %s, level %d, degree %d, repetition %d" % (NAMES[form], name, M, P, rep)
    C = job.check
    comps = [(Q, Q)] if form != DIV else [(Q, P), (P, Q)]
    r1 = rep if Q > rep else (P if form == DIV else Q)
    dofs, vec = {}, {}
    el = morton(M)
    cache = {}
    off = 0
    ndc = np_ * n * n * Q * Q
    for c, (ox, oy) in enumerate(comps):
        for d in (ox, oy):
            if d not in cache:
                cache[d] = oned(d, n, r1, P)
        for p in range(np_):
            for ix, bx in enumerate(cache[ox]):
                for iy, by in enumerate(cache[oy]):
                    v = {}
                    for e, (x, y) in enumerate(el):
                        if bx[x] is None or by[y] is None:
                            continue
                        for jy in range(Q):
                            for jx in range(Q):
                                t = bx[x][jx] * by[y][jy]
                                if t != 0.0:
                                    v[c * ndc + ((p * n * n + e) * Q + jy) * Q + jx] = t
                    vec[p, c, ix, iy] = v
    C(hd[1] == np_ * n * n and hd[2] == np_ and hd[3] == P and hd[4] == M and hd[5] == rep and hd[7] == rep and hd[8] == Q * Q, "getters",
      "%s: getters return %s" % (tag, hd), WH + "AnsatzSpace.hpp")
    if not C((pr, pc) == (len(comps) * ndc, len(vec)) and hd[6] == len(vec), "projector/shape", "%s: projector is %dx%d, required %dx%d" % (tag, pr, pc, len(comps) * ndc, len(vec)),
             WH + "Projector.hpp"):
        return
    cols = {}
    for (i, j), v in pm.items():
        cols.setdefault(j, {})[i] = v
    idx = {}
    for kk, v in vec.items():
        for i, x in v.items():
            idx.setdefault(i, []).append(kk)
    name_of = {}
    for j in range(pc):
        v = cols.get(j, {})
        big = max(v, key=lambda i: abs(v[i]), default=None)
        hit = None
        for kk in idx.get(big, []):
            w = vec[kk]
            if all(abs(v.get(i, 0.0) - w.get(i, 0.0)) < 1e-8 for i in set(v) | set(w)):
                hit = kk
                break
        C(hit is not None, "projector/column", "%s: column %d of the projector is not a tensor B-spline of the patch: %s" % (tag, j, sorted(v.items())[:12]), WH + "Projector.hpp")
        if hit is not None:
            name_of[j] = hit
    C(len(set(name_of.values())) == len(vec), "projector/complete", "%s: %d of %d B-splines are represented" % (tag, len(set(name_of.values())), len(vec)), WH + "Projector.hpp")
    if len(set(name_of.values())) != pc:
        return
    # ---- interface conditions
    col_of = {v: k2 for k2, v in name_of.items()}
    rel = []          # (a, b, sign): coef(b) = sign*coef(a)
    if form != DISC:
        edges = {}
        for p, q in enumerate(T):
            for j in range(4):
                edges.setdefault(frozenset((key(q[j]), key(q[(j + 1) % 4]))), []).append((p, j))
        for _, l in edges.items():
            if len(l) < 2:
                continue
            (p1, e1), (p2, e2) = l

            def trace(p, e):
                c = 0 if form == CONT else (1 if e in (0, 2) else 0)
                dx, dy = len(cache[comps[c][0]]), len(cache[comps[c][1]])
                s = {0: [(i, 0) for i in range(dx)], 1: [(dx - 1, i) for i in range(dy)], 2: [(i, dy - 1) for i in reversed(range(dx))], 3: [(0, i) for i in reversed(range(dy))]}[e]
                return [(p, c) + t for t in s]
            a, b = trace(p1, e1), trace(p2, e2)
            if key(T[p1][e1]) != key(T[p2][e2]):
                b = b[::-1]
            out_ = {0: -1, 1: 1, 2: 1, 3: -1}
            s = 1 if form == CONT else -out_[e1] * out_[e2]
            rel += [(col_of[x], col_of[y], s) for x, y in zip(a, b)]
    parent = {j: (j, 1) for j in range(pc)}

    def find(j):
        s = 1
        while parent[j][0] != j:
            j, t = parent[j]
            s *= t
        return j, s
    for a, b, s in rel:
        (ra, sa), (rb, sb) = find(a), find(b)
        if ra != rb:
            parent[rb] = (ra, sa * s * sb)
    groups = {}
    for j in range(pc):
        r, s = find(j)
        groups.setdefault(r, {})[j] = s
    W = WH + "Glue.hpp"
    if not C((gr, gc) == (pc, len(groups)), "glue/shape", "%s: glue matrix is %dx%d, required %dx%d" % (tag, gr, gc, pc, len(groups)), W):
        return
    C(hd[0] == len(groups), "dofs", "%s: %r degrees of freedom, required %d" % (tag, hd[0], len(groups)), WH + "AnsatzSpace.hpp")
    got = {}
    for (i, j), v in gm.items():
        if v != 0.0:
            got.setdefault(j, {})[i] = v
    want = {frozenset(g): g for g in groups.values()}
    for j in range(gc):
        g = got.get(j, {})
        w = want.get(frozenset(g))
        show = [(name_of[i], v) for i, v in sorted(g.items())]
        if C(w is not None, "glue/group", "%s: column %d of the glue matrix joins %s (patch, component, ix, iy), which are not one interface group" % (tag, j, show), W):
            i0 = min(g)
            C(abs(abs(g[i0]) - 1) < 1e-12 and all(abs(g[i] - g[i0] * w[i] * w[i0]) < 1e-12 for i in g), "glue/sign", "%s: column %d of the glue matrix has coefficients %s" % (tag, j, show), W)
    C(len({frozenset(g) for g in got.values()}) == len(groups), "glue/complete", "%s: not every group has its own degree of freedom" % tag, W)
    prod = {}
    bycol = {}
    for (i, j), v in pm.items():
        bycol.setdefault(j, []).append((i, v))
    for (i, j), v in gm.items():
        for r, x in bycol.get(i, []):
            prod[r, j] = prod.get((r, j), 0.0) + x * v
    bad = [e for e in set(prod) | set(tm) if abs(prod.get(e, 0.0) - tm.get(e, 0.0)) > 1e-10]
    C((tr, tc) == (pr, gc) and not bad, "transformation", "%s: the transformation matrix is not projector times glue, e.g. at %s" % (tag, bad[:1]), WH + "AnsatzSpace.hpp")
