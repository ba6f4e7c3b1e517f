"""element tree: uniform refinement, topology, numbering, enclosing balls, orderings"""
import math

from va import dom
from va.dom import var
from va.rig import D, Ptr

PID = "C08"
EXPLAIN = ("The tree construction is propagated through the IR for a table of patch topologies (all 32 ways of gluing two squares, closed boxes with "
           "rotated patches, patches sharing two edges, isolated patches, corner-only contact) and refinement levels; every node, link, vertex number, "
           "neighbour, ball and index list it leaves behind must equal the independently constructed reference refinement.  The enclosing-ball "
           "combination and the reference-element maps are interpreted with unknown balls / points and decided algebraically.")
MIN_OBLIGATIONS = {"quick": 5000}
WH = "Bembel/src/ClusterTree/ElementTree.hpp"
SRC = """
#include <Bembel/Geometry>
#include <Bembel/ClusterTree>
#include "geo.hpp"
using namespace Bembel;
// bilinear corners plus an interior bump c[12..14]: biquadratic, edges stay straight
static Patch bumpy(const double *c) {
  std::vector<Eigen::MatrixXd> m(4, Eigen::MatrixXd::Ones(3, 3));
  for (int d = 0; d < 3; ++d) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double x = .5 * j, y = .5 * i;
    m[d](i, j) = (1 - x) * (1 - y) * c[d] + x * (1 - y) * c[3 + d] + (1 - x) * y * c[6 + d] + x * y * c[9 + d] + (i == 1 && j == 1 ? c[12 + d] : 0.);
  }
  std::vector<double> k = {0, 0, 0, 1, 1, 1};
  return Patch(m, k, k);
}
static PatchVector pv(const double *c, int n) { PatchVector v; for (int i = 0; i < n; ++i) v.push_back(bumpy(c + 15 * i)); return v; }
static double *node(const ElementTreeNode &e, double *o) {
  *o++ = e.id_; *o++ = e.level_; *o++ = e.patch_; *o++ = e.llc_(0); *o++ = e.llc_(1);
  *o++ = e.vertices_.size(); for (int i = 0; i < 4; ++i) *o++ = e.vertices_[i];
  *o++ = e.adjcents_.size(); for (int i = 0; i < 4; ++i) { if (e.adjcents_[i]) { *o++ = e.adjcents_[i]->id_; *o++ = e.adjcents_[i]->level_; } else { *o++ = -1; *o++ = -1; } }
  for (int i = 0; i < 3; ++i) *o++ = e.midpoint_(i);
  *o++ = e.radius_; *o++ = e.sons_.size(); *o++ = e.get_h(); *o++ = e.get_level();
  Eigen::Vector2d m = e.referenceMidpoint(); *o++ = m(0); *o++ = m(1);
  return o;   // 28 values
}
static double *rec(const ElementTree &t, const ElementTreeNode &e, double *o) {
  o = node(e, o);
  *o++ = t.compute_global_id(e);
  double *cnt = o++; *cnt = 0;
  for (auto it = t.cluster_begin(e); it != t.cluster_end(e); ++it) { *o++ = it->id_; *cnt += 1; }
  double *c2 = o++; *c2 = 0;
  for (auto it = e.begin(); it != e.end(); it++) { *o++ = (*it).id_; *c2 += 1; }
  *o++ = e.front().id_; *o++ = e.back().id_;
  for (size_t i = 0; i < e.sons_.size(); ++i) o = rec(t, e.sons_[i], o);
  return o;
}
static void dump(ElementTree &t, const Eigen::MatrixXd &P, double *o, double *L, double *X) {
  *o++ = t.get_number_of_points(); *o++ = t.get_number_of_elements(); *o++ = t.get_max_level();
  *o++ = P.rows(); *o++ = P.cols(); for (long j = 0; j < P.cols(); ++j) for (int i = 0; i < 3; ++i) *o++ = P(i, j);
  *o++ = t.root().sons_.size();
  for (size_t i = 0; i < t.root().sons_.size(); ++i) o = rec(t, t.root().sons_[i], o);
  double *c = L++; *c = 0;
  for (auto it = t.pbegin(); it != t.pend(); ++it) { L = node(*it, L); *c += 1; }
  double *c2 = L++; *c2 = 0;
  for (auto it = t.cpbegin(); it != t.cpend(); ++it) { *L++ = it->id_; *c2 += 1; }
}
static double *ivec(const Eigen::VectorXi &v, double *o) { *o++ = v.size(); for (long i = 0; i < v.size(); ++i) *o++ = v(i); return o; }
static void lists(const ElementTree &t, double *X, int uniform) {
  Eigen::VectorXi idct; Eigen::MatrixXd P = t.generatePointList(&idct);
  *X++ = P.cols(); for (long j = 0; j < P.cols(); ++j) for (int i = 0; i < 3; ++i) *X++ = P(i, j);
  X = ivec(idct, X);
  Eigen::MatrixXi E = t.generateElementList();
  *X++ = E.rows(); *X++ = E.cols(); for (long j = 0; j < E.cols(); ++j) for (int i = 0; i < 4; ++i) *X++ = E(i, j);
  Eigen::MatrixXd Mp = t.generateMidpointList(); *X++ = Mp.cols(); for (long j = 0; j < Mp.cols(); ++j) for (int i = 0; i < 3; ++i) *X++ = Mp(i, j);
  Eigen::MatrixXd R = t.generateRadiusList(); *X++ = R.size(); for (long j = 0; j < R.size(); ++j) *X++ = R(j, 0);
  X = ivec(t.generateElementLabels(), X);
  X = ivec(t.generatePatchBoundaryLabels(), X);
  for (size_t p = 0; p < t.root().sons_.size(); ++p) X = ivec(t.identifyPatch(p), X);
  std::vector<std::array<int, 4>> T = t.patchTopologyInfo();
  *X++ = T.size(); for (size_t i = 0; i < T.size(); ++i) for (int k = 0; k < 4; ++k) *X++ = T[i][k];
  if (uniform) { std::vector<int> r = t.computeReorderingVector(); *X++ = r.size(); for (size_t i = 0; i < r.size(); ++i) *X++ = r[i]; }
}
extern "C" void tree(const double *c, int n, int M, double *o, double *L, double *X) {
  Geometry g(pv(c, n)); ClusterTree t; t.init_ClusterTree(g, M);
  dump(t.get_element_tree(), t.get_points(), o, L, X); lists(t.get_element_tree(), X, 1);
}
extern "C" void etree(const double *c, int n, int M, double *o, double *L, double *X) {
  Geometry g(pv(c, n)); ElementTree t(g, M); Eigen::MatrixXd P = t.computeElementEnclosings();
  dump(t, P, o, L, X); lists(t, X, 1);
}
extern "C" void later(const double *c, int n, int M, double *o, double *L, double *X) {
  Geometry g(pv(c, n)); ElementTree t(g); for (int i = 0; i < M; ++i) t.refineUniformly();
  Eigen::MatrixXd P = t.computeElementEnclosings(); dump(t, P, o, L, X); lists(t, X, 1);
}
extern "C" void bypatch(const double *c, int n, int M, int rev, double *o, double *L, double *X) {
  Geometry g(pv(c, n)); ElementTree t(g); for (int i = 0; i < M; ++i) for (int p = 0; p < n; ++p) t.refinePatch(rev ? n - 1 - p : p);
  Eigen::MatrixXd P = t.computeElementEnclosings(); dump(t, P, o, L, X); lists(t, X, 1);
}
extern "C" void again(const double *c0, int n0, int M0, const double *c, int n, int M, double *o, double *L, double *X) {
  Geometry g0(pv(c0, n0)), g(pv(c, n)); ElementTree t(g0, M0); t.init_ElementTree(g, M);
  Eigen::MatrixXd P = t.computeElementEnclosings(); dump(t, P, o, L, X); lists(t, X, 1);
}
extern "C" void part(const double *c, int n, int p, int times, double *o, double *L, double *X) {
  Geometry g(pv(c, n)); ElementTree t(g); for (int i = 0; i < times; ++i) t.refinePatch(p);
  Eigen::MatrixXd P = t.computeElementEnclosings(); dump(t, P, o, L, X); lists(t, X, 0);
}
extern "C" void kept(const double *c, int n, double *o) {
  ElementTree t; { Geometry g(pv(c, n)); t.init_ElementTree(g, 1); }
  Eigen::MatrixXd P = t.generatePointList(); *o++ = P.cols(); *o++ = t.get_geometry().size();
  for (long j = 0; j < P.cols(); ++j) for (int i = 0; i < 3; ++i) *o++ = P(i, j);
}
extern "C" int orient(const double *c, int n) { Geometry g(pv(c, n)); ClusterTree t(g, 0); t.checkOrientation(); return 1; }
extern "C" void ball(const double *m1, double r1, const double *m2, double r2, double *o) {
  Eigen::Vector3d a(m1[0], m1[1], m1[2]), b(m2[0], m2[1], m2[2]), m; double r;
  util::computeEnclosingBall(&m, &r, a, r1, b, r2);
  o[0] = m(0); o[1] = m(1); o[2] = m(2); o[3] = r;
}
extern "C" void ref(int level, const double *llc, const double *in, double *o) {
  ElementTreeNode e; e.level_ = level; e.llc_ << llc[0], llc[1];
  Eigen::Vector2d r = e.mapToReferenceElement(Eigen::Vector2d(in[0], in[1])); o[0] = r(0); o[1] = r(1);
  Eigen::Vector2d m = e.referenceMidpoint(); o[2] = m(0); o[3] = m(1); o[4] = e.get_h();
}
"""
UNIT = [(0., 0.), (1., 0.), (1., 1.), (0., 1.)]   # corner order used by the library (counter-clockwise)


def lift(f, quad):
    return [f(p) for p in quad]


def rot(q, r, flip=False):
    q = q[r:] + q[:r]
    return [q[0], q[3], q[2], q[1]] if flip else q


def bumpy(p):
    """generic embedding so that no two distances coincide by accident"""
    x, y = p
    return (x + .05 * y, 1.1 * y - .03 * x * x, .2 * x * y - .07 * x + .02 * y * y)


def box(sx=1., sy=.8, sz=1.3, rots=(0,) * 6):
    v = {(i, j, k): (i * sx + .1 * k, j * sy + .05 * i * k, k * sz - .03 * j) for i in (0, 1) for j in (0, 1) for k in (0, 1)}
    f = [[(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)], [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)], [(0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)],
         [(1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)], [(1, 1, 0), (0, 1, 0), (0, 1, 1), (1, 1, 1)], [(0, 1, 0), (0, 0, 0), (0, 0, 1), (0, 1, 1)]]
    return [[v[p] for p in rot(q, r)] for q, r in zip(f, rots)]


def sq(x, y):
    return [(x, y), (x + 1., y), (x + 1., y + 1.), (x, y + 1.)]


def topologies():
    T = {}
    T["single"] = [lift(bumpy, sq(0, 0))]
    for a in range(4):
        for b in range(4):
            for fl in (False, True):
                T["pair %d%d%s" % (a, b, "f" if fl else "")] = [lift(bumpy, rot(sq(0, 0), a)), lift(bumpy, rot(sq(1, 0), b, fl))]
    T["box"] = box()
    T["box rotated"] = box(rots=(1, 2, 3, 0, 2, 1))
    T["box rotated 2"] = box(rots=(3, 3, 1, 2, 0, 2))
    # two patches glued along their whole boundary, and three patches around two poles (neighbours share two edges)
    A = [(0., 0., 0.), (2., 0., 0.), (2., 1., .1), (0., 1.2, 0.)]
    for r in range(4):
        T["pillow %d" % r] = [A, rot(A, r, True)]
    N, S, a, b, c = (0., 0., 1.), (.1, 0., -1.), (1., 0., 0.), (-.5, .9, 0.), (-.4, -.8, .1)
    for k in range(4):
        T["lens %d" % k] = [[N, a, S, b], rot([N, b, S, c], k), rot([N, c, S, a], 3 - k)]
    T["strip 3"] = [lift(bumpy, rot(sq(i, 0), i)) for i in range(3)]
    T["L"] = [lift(bumpy, sq(0, 0)), lift(bumpy, rot(sq(1, 0), 2)), lift(bumpy, rot(sq(0, 1), 3))]
    T["block 2x2"] = [lift(bumpy, rot(sq(i, j), 2 * i + j)) for i in (0, 1) for j in (0, 1)]
    T["corner contact"] = [lift(bumpy, sq(0, 0)), lift(bumpy, rot(sq(1, 1), 1))]
    T["apart"] = [lift(bumpy, sq(0, 0)), lift(bumpy, sq(3, 1)), lift(bumpy, sq(4, 1))]
    return T


TOPO = topologies()


def witnesses(tier):
    return {"t": SRC}


def jobs(tier):
    js = []
    deep = {"single", "pair 01", "pillow 1", "box"}
    for n in TOPO:
        ms = [0, 1, 2] if n in deep or not n.startswith("pair") else [1]
        if tier != "quick":
            ms = [0, 1, 2, 3] if len(TOPO[n]) < 4 else [0, 1, 2]
        for M in ms:
            if M == 2 and len(TOPO[n]) > 3 and tier == "quick" and n != "box rotated":
                continue
            js.append(("tree %s level %d" % (n, M), "t", "j_tree", dict(name=n, M=M, how="tree")))
    js.append(("element tree constructor", "t", "j_tree", dict(name="L", M=1, how="etree")))
    js.append(("refined after construction", "t", "j_tree", dict(name="strip 3", M=2, how="later")))
    for n in ("pair 13", "L", "pillow 1", "box rotated"):
        for rev in (0, 1):
            js.append(("patch-wise refinement %s %d" % (n, rev), "t", "j_tree", dict(name=n, M=1, how="bypatch", rev=rev)))
    for a, b, m, k in (("single", "L", 2, 1), ("L", "single", 1, 1), ("pair 00", "block 2x2", 1, 0), ("strip 3", "strip 3", 2, 2)):
        js.append(("built again %s %s" % (a, b), "t", "j_tree", dict(name=b, M=k, how="again", first=(a, m))))
    for p in (0, 1, 2):
        js.append(("partial refinement %d" % p, "t", "j_part", dict(name="strip 3", p=p, times=1)))
        js.append(("partial refinement %d twice" % p, "t", "j_part", dict(name="L", p=p, times=2)))
    js.append(("geometry kept alive", "t", "j_kept", {}))
    js.append(("orientation", "t", "j_orient", {}))
    js.append(("enclosing ball", "t", "j_ball", {}))
    js.append(("reference element", "t", "j_ref", {}))
    return js


def ev(q, x, y, p):
    """bilinear patch with corners q (counter-clockwise) and the bump of patch p"""
    t = 4 * x * (1 - x) * y * (1 - y)
    return tuple((1 - x) * (1 - y) * q[0][d] + x * (1 - y) * q[1][d] + x * y * q[2][d] + (1 - x) * y * q[3][d] + t * bump(p)[d] for d in range(3))


def bump(p):
    return (.1 + .03 * p, -.05 * p, .3 - .25 * p)


def put(it, name, vals):
    o = it.new_obj(name, 8 * len(vals), "undef")
    for i, v in enumerate(vals):
        it.poke(Ptr(o, 0), 8 * i, D, float(v))
    return Ptr(o, 0)


def flat(T):
    r = []
    for p, q in enumerate(T):
        for c in (q[0], q[1], q[3], q[2]):
            r += list(c)
        r += list(bump(p))
    return r


class Rd:
    def __init__(self, it, o):
        self.it, self.o, self.k = it, o, 0

    def __call__(self):
        v = self.it.load(Ptr(self.o, 8 * self.k), D)
        self.k += 1
        if type(v) is not float:
            v = float(v) if isinstance(v, int) else v
        return v

    def i(self):
        v = self()
        return int(v) if type(v) is float else v

    def n(self, c, integer=True):
        return [self.i() if integer else self() for _ in range(c)]


def rdnode(r):
    e = dict(id=r.i(), level=r.i(), patch=r.i(), llc=(r(), r()))
    e["nv"] = r.i()
    e["v"] = r.n(4)
    e["na"] = r.i()
    e["adj"] = [(r.i(), r.i()) for _ in range(4)]
    e["mid"] = (r(), r(), r())
    e["rad"], e["sons"], e["h"], e["lv"] = r(), r.i(), r(), r.i()
    e["rm"] = (r(), r())
    return e


OFF = [(0, 0), (1, 0), (1, 1), (0, 1)]


class Node:
    def __init__(self, T, id, level, patch, llc):
        self.id, self.level, self.patch, self.llc = id, level, patch, llc
        h = .5 ** level
        self.pts = [key(ev(T[patch], llc[0] + h * a, llc[1] + h * b, patch)) for a, b in OFF]
        self.phys = [ev(T[patch], llc[0] + h * a, llc[1] + h * b, patch) for a, b in OFF]
        self.sons = []

    def split(self, T):
        h = .5 ** (self.level + 1)
        self.sons = [Node(T, 4 * self.id + i, self.level + 1, self.patch, (self.llc[0] + h * a, self.llc[1] + h * b)) for i, (a, b) in enumerate(OFF)]

    def leaves(self):
        return [l for s in self.sons for l in s.leaves()] if self.sons else [self]

    def all(self):
        return [self] + [n for s in self.sons for n in s.all()]


def key(p):
    return tuple(round(c * 2 ** 20) for c in p)


def edge(n, j):
    return frozenset((n.pts[j], n.pts[(j + 1) % 4]))


def refmesh(T, levels):
    """levels: refinement depth per patch"""
    roots = [Node(T, i, 0, i, (0., 0.)) for i in range(len(T))]
    for r in roots:
        for _ in range(levels[r.patch]):
            for l in r.leaves():
                l.split(T)
    return roots


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def check_all(job, it, o, L, X, T, levels, name, adjacency=True, uniform=True):
    roots = refmesh(T, levels)
    leaves = [l for r in roots for l in r.leaves()]
    nodes = [n for r in roots for n in r.all()]
    C = job.check
    r = Rd(it, o)
    npt, nel, ml = r.i(), r.i(), r.i()
    pts = sorted({p for l in leaves for p in l.pts})
    C(npt == len(pts), "tree/points", "%s: %r points, required %d" % (name, npt, len(pts)), WH)
    C(nel == len(leaves), "tree/elements", "%s: %r elements, required %d" % (name, nel, len(leaves)), WH)
    C(ml == max(levels), "tree/maxlevel", "%s: maximum level %r, required %d" % (name, ml, max(levels)), WH)
    rows, cols = r.i(), r.i()
    C((rows, cols) == (3, npt), "tree/pointlist", "%s: point list is %rx%r" % (name, rows, cols), WH)
    P = [tuple(r.n(3, False)) for _ in range(cols)]
    C(sorted(key(p) for p in P) == pts, "tree/pointlist", "%s: the point list does not contain every vertex exactly once" % name, WH)
    C(r.i() == len(T), "tree/patches", "%s: number of patches in the tree" % name, WH)

    def vtx(e, n, where):
        ok = e["nv"] == 4 and all(0 <= v < cols for v in e["v"])
        return C(ok and [key(P[v]) for v in e["v"]] == n.pts, "tree/vertices",
                 "%s: %s of element %d level %d patch %d refer to %s, required %s" % (name, where, n.id, n.level, n.patch,
                                                                                     [P[v] if 0 <= v < cols else v for v in e["v"]], n.phys), WH)

    def same(e, n):
        C((e["id"], e["level"], e["patch"]) == (n.id, n.level, n.patch), "tree/ids", "%s: element (id,level,patch) %s, required %s"
          % (name, (e["id"], e["level"], e["patch"]), (n.id, n.level, n.patch)), WH)
        C(e["llc"] == n.llc and e["h"] == .5 ** n.level and e["lv"] == n.level, "tree/llc", "%s: element %d level %d has corner %s width %r, required %s %r"
          % (name, n.id, n.level, e["llc"], e["h"], n.llc, .5 ** n.level), WH)
        C(e["rm"] == (n.llc[0] + .5 * e["h"], n.llc[1] + .5 * e["h"]), "tree/refmid", "%s: reference midpoint of %d" % (name, n.id),
          "Bembel/src/ClusterTree/ElementTreeNode.hpp")
        vtx(e, n, "vertices")
        C(e["sons"] == len(n.sons), "tree/sons", "%s: element %d level %d has %r sons" % (name, n.id, n.level, e["sons"]), WH)
        # enclosing balls
        ln = n.leaves()
        far = max(dist(e["mid"], p) for l in ln for p in l.phys)
        C(far <= e["rad"] * (1 + 1e-12) + 1e-14, "ball/points", "%s: the ball of element %d level %d patch %d (radius %r) does not contain its vertices (distance %r)"
          % (name, n.id, n.level, n.patch, e["rad"], far), WH)
        C(e["rad"] <= 2.5 * far + 1e-12, "ball/size", "%s: the ball of element %d level %d has radius %r although its points are within %r" % (name, n.id, n.level, e["rad"], far), WH)

    def adj(e, n, level):
        own = {}
        for m in level:
            for j in range(4):
                own.setdefault(edge(m, j), []).append(m)
        for j in range(4):
            w = [m for m in own[edge(n, j)] if m is not n]
            want = (w[0].id, w[0].level) if w else (-1, -1)
            C(e["na"] == 4 and e["adj"][j] == want, "tree/neighbours", "%s: neighbour of element %d level %d across edge %d is %s, required %s"
              % (name, n.id, n.level, j, e["adj"][j], want), WH)
    gids = []

    def walk(n):
        e = rdnode(r)
        same(e, n)
        if adjacency:
            adj(e, n, [m for m in nodes if m.level == n.level])
        gids.append((r.i(), n))
        ids = [l.id for l in n.leaves()]
        c = r.i()
        C(r.n(c) == ids, "iter/cluster", "%s: iterating the cluster of element %d level %d" % (name, n.id, n.level), WH)
        c = r.i()
        C(r.n(c) == ids, "iter/node", "%s: iterating element %d level %d by begin()/end()" % (name, n.id, n.level), WH)
        C((r.i(), r.i()) == (ids[0], ids[-1]), "iter/frontback", "%s: front and back of element %d" % (name, n.id), WH)
        ball = e
        for s in n.sons:
            b = walk(s)
            d = dist(ball["mid"], b["mid"]) + b["rad"]
            C(d <= ball["rad"] * (1 + 1e-12) + 1e-14, "ball/sons", "%s: the ball of element %d level %d patch %d (radius %r) does not contain the ball of its son %d (reaches %r)"
              % (name, n.id, n.level, n.patch, ball["rad"], s.id, d), WH)
        return e
    for t in roots:
        walk(t)
    want = [len(T) * ((4 ** n.level - 1) // 3) + n.id for g, n in gids]
    C([g for g, n in gids] == want and len(set(want)) == len(want), "tree/globalid", "%s: global element numbers" % name, WH)
    r = Rd(it, L)
    c = r.i()
    if C(c == len(leaves), "iter/count", "%s: the leaf iterator visits %r elements, required %d" % (name, c, len(leaves)), WH):
        es = []
        for l in leaves:
            e = rdnode(r)
            same(e, l)
            es.append(e)
        c = r.i()
        C(r.n(c) == [l.id for l in leaves], "iter/order", "%s: order of the const iteration" % name, WH)
    else:
        return
    r = Rd(it, X)
    c = r.i()
    P2 = [tuple(r.n(3, False)) for _ in range(c)]
    C(P2 == P, "list/points", "%s: generatePointList after construction differs" % name, WH)
    c = r.i()
    idct = r.n(c)
    cnt = {}
    for l in leaves:
        for p in l.pts:
            cnt[p] = cnt.get(p, 0) + 1
    C(idct == [cnt.get(key(p), 0) for p in P], "list/counts", "%s: vertex incidence counts" % name, WH)
    a, b = r.i(), r.i()
    C((a, b) == (4, len(leaves)), "list/elements", "%s: element list is %rx%r" % (name, a, b), WH)
    el = [r.n(4) for _ in range(b)]
    C(el == [e["v"] for e in es], "list/elements", "%s: element list differs from the vertices of the elements in leaf order" % name, WH)
    c = r.i()
    mp = [tuple(r.n(3, False)) for _ in range(c)]
    C(mp == [e["mid"] for e in es], "list/midpoints", "%s: midpoint list" % name, WH)
    c = r.i()
    C(r.n(c, False) == [e["rad"] for e in es], "list/radii", "%s: radius list" % name, WH)
    c = r.i()
    C(r.n(c) == [len(T) * ((4 ** l.level - 1) // 3) + l.id for l in leaves], "list/labels", "%s: element labels" % name, WH)
    c = r.i()
    lab = r.n(c)
    if adjacency:
        own = {}
        for m in leaves:
            for j in range(4):
                own.setdefault(edge(m, j), []).append(m)
        for l, got in zip(leaves, lab):
            nb = [[m for m in own[edge(l, j)] if m is not l] for j in range(4)]
            if any(not x for x in nb):
                good = got == -1
            elif any(x[0].patch != l.patch for x in nb):
                good = got > 0
            else:
                good = got == 0
            C(good, "list/boundary", "%s: patch boundary label of element %d is %r" % (name, l.id, got), WH)
    for p in range(len(T)):
        c = r.i()
        C(r.n(c) == [1 if l.patch == p else 0 for l in leaves], "list/identify", "%s: identifyPatch(%d)" % (name, p), WH)
    c = r.i()
    got = sorted(tuple(r.n(4)) for _ in range(c))
    own = {}
    for m in roots:
        for j in range(4):
            own.setdefault(edge(m, j), []).append((m.id, j))
    want = []
    for k, v in own.items():
        if len(v) == 1:
            want.append((v[0][0], -1, v[0][1], -1))
        else:
            (p, j), (q, k2) = sorted(v)
            want.append((p, q, j, k2))
    C(got == sorted(want), "list/topology", "%s: patch topology %s, required %s" % (name, got, sorted(want)), WH)
    if uniform:
        n1 = 2 ** levels[0]
        c = r.i()
        got = r.n(c)
        want = [None] * (len(T) * n1 * n1)
        for l in leaves:
            want[l.patch * n1 * n1 + int(l.llc[1] * n1) * n1 + int(l.llc[0] * n1)] = l.id
        C(got == want, "list/reordering", "%s: reordering vector %s, required %s" % (name, got, want), WH)


def run(job, fn, T, args):
    it = job.interp()
    it.max_steps = 10 ** 9
    o, L, X = (it.new_obj(n, None, "undef") for n in ("o", "L", "X"))
    pre = [put(it, "c", flat(T)), len(T)]
    job.call(it, fn, pre + args + [Ptr(o, 0), Ptr(L, 0), Ptr(X, 0)])
    return it, o, L, X


def j_tree(job, name, M, how, rev=0, first=None):
    T = TOPO[name]
    if how == "again":
        it = job.interp()
        it.max_steps = 10 ** 9
        o, L, X = (it.new_obj(n, None, "undef") for n in ("o", "L", "X"))
        F = TOPO[first[0]]
        job.call(it, "again", [put(it, "c0", flat(F)), len(F), first[1], put(it, "c", flat(T)), len(T), M, Ptr(o, 0), Ptr(L, 0), Ptr(X, 0)])
    else:
        it, o, L, X = run(job, how, T, [M] + ([rev] if how == "bypatch" else []))
    check_all(job, it, o, L, X, T, [M] * len(T), "%s, level %d (%s)" % (name, M, how))


def j_part(job, name, p, times):
    T = TOPO[name]
    it, o, L, X = run(job, "part", T, [p, times])
    check_all(job, it, o, L, X, T, [times if i == p else 0 for i in range(len(T))], "%s, patch %d refined %d times" % (name, p, times), adjacency=False, uniform=False)


def j_kept(job):
    it = job.interp()
    T = TOPO["pair 01"]
    o = it.new_obj("o", None, "undef")
    job.call(it, "kept", [put(it, "c", flat(T)), len(T), Ptr(o, 0)])
    r = Rd(it, o)
    n, s = r.i(), r.i()
    P = sorted(key(tuple(r.n(3, False))) for _ in range(n))
    want = sorted({p for l in [l for t in refmesh(T, [1, 1]) for l in t.leaves()] for p in l.pts})
    job.check(s == 2 and P == want, "kept", "the tree no longer sees its geometry after the Geometry object is gone", WH)


def j_ball(job):
    """both balls inside the result, in each of the three regimes, for unknown centres and radii"""
    W = "Bembel/src/util/GeometryHelper.hpp"
    # direction along an axis is enough: the result only depends on the centre difference through its norm; keep it general
    for reg in ("union", "second inside first", "first inside second"):
        it = job.interp()
        a, b = it.sym("a"), it.sym("b")
        A = [var("a[%d]" % (8 * i)) for i in range(3)]
        B = [var("b[%d]" % (8 * i)) for i in range(3)]
        nn = dom.sqrt(sum(((x - y) * (x - y) for x, y in zip(A, B)), 0.0))
        r1, r2 = var("r1"), var("r2")
        if reg == "union":
            dom.assume_pos(nn + r2 - r1)
            dom.assume_pos(nn + r1 - r2)
            dom.assume_pos(nn)
        elif reg == "second inside first":
            dom.assume_pos(r1 - r2 - nn)
        else:
            dom.assume_pos(r2 - r1 - nn)
            dom.assume_pos(nn + r2 - r1)
        o = it.new_obj("o", 32, "undef")
        job.call(it, "ball", [a, r1, b, r2, Ptr(o, 0)])
        m = [it.load(Ptr(o, 8 * i), D) for i in range(3)]
        r = it.load(Ptr(o, 24), D)
        if reg == "union":
            # |m-a|^2 = (r-r1)^2 and r-r1 = (|a-b|+r2-r1)/2 > 0: the first ball touches from inside, likewise the second
            job.eq("ball/radius", r * 2.0, nn + r1 + r2, "radius of the union ball", where=W)
            da = sum(((x - y) * (x - y) for x, y in zip(m, A)), 0.0)
            db = sum(((x - y) * (x - y) for x, y in zip(m, B)), 0.0)
            job.eq("ball/first", da * 4.0, (nn + r2 - r1) * (nn + r2 - r1), "distance of the union ball's centre to the first centre", where=W)
            job.eq("ball/second", db * 4.0, (nn + r1 - r2) * (nn + r1 - r2), "distance of the union ball's centre to the second centre", where=W)
        else:
            C, R = (A, r1) if reg.startswith("second") else (B, r2)
            for i in range(3):
                job.eq("ball/inside", m[i], C[i], "centre when %s" % reg, where=W)
            job.eq("ball/inside", r, R, "radius when %s" % reg, where=W)


def j_ref(job):
    W = "Bembel/src/ClusterTree/ElementTreeNode.hpp"
    for level in (0, 1, 2, 5):
        for u in ((0, 0), (1, 0), (2 ** level - 1, 2 ** level - 1)):
            if max(u) >= 2 ** level:
                continue
            it = job.interp()
            h = .5 ** level
            l = [u[0] * h, u[1] * h]
            x, y = var("in[0]"), var("in[8]")
            for v, c in ((x, l[0]), (y, l[1])):
                dom.assume_pos(v - c)
                dom.assume_pos(c + h - v)
            o = it.new_obj("o", 40, "undef")
            job.call(it, "ref", [level, put(it, "llc", l), it.sym("in"), Ptr(o, 0)])
            for i, v in enumerate((x, y)):
                job.eq("ref/map", it.load(Ptr(o, 8 * i), D), (v - l[i]) * (1 / h), "mapToReferenceElement level %d corner %s component %d" % (level, l, i), where=W)
                job.eq("ref/mid", it.load(Ptr(o, 16 + 8 * i), D), l[i] + .5 * h, "referenceMidpoint level %d" % level, where=W)
            job.eq("ref/h", it.load(Ptr(o, 32), D), h, "get_h", where=W)


def j_orient(job):
    """with assertions on: consistently oriented geometries pass, others are rejected"""
    cases = {n: T for n, T in TOPO.items()}
    # the midpoint of the common edge is the origin
    for b in range(4):
        cases["pair through the origin %d" % b] = [[(-1., -.5, 0.), (0., -.5, 0.), (0., .5, 0.), (-1., .5, 0.)],
                                                  rot([(0., -.5, 0.), (1., -.5, 0.), (1., .5, 0.), (0., .5, 0.)], b)]
    for n, T in cases.items():
        fwd = {}
        for q in T:
            for j in range(4):
                e = (key(q[j]), key(q[(j + 1) % 4]))
                fwd[e] = fwd.get(e, 0) + 1
        good = all(v == 1 for v in fwd.values())
        it = job.interp()
        r = job.call(it, "orient", [put(it, "c", flat(T)), len(T)], live=False)
        job.check((r == 1) == good, "orientation/" + n.split(" ")[0], "checkOrientation %s the %s oriented geometry %s"
                  % ("accepts" if r == 1 else "rejects", "consistently" if good else "inconsistently", n), "Bembel/src/ClusterTree/ClusterTree.hpp")
