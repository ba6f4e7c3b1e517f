"""FunctionEvaluator: discrete functions are evaluated as the coefficient combination of the mapped shape functions"""
from checks.ansatz_space import CONT, DISC, DIV, NAMES, SRC as ANS, morton
from checks.element_tree import TOPO, bump, flat, put
from va import dom
from va.contracts import gauss, use_gauss
from va.dom import var
from va.rig import D, Ptr
from va.spec import C, SP, basis2, basis2dx, basis2dy, bern

PID = "C11"
EXPLAIN = ("AnsatzSpace and FunctionEvaluator are interpreted on curved multi-patch geometries with all coefficients of the function unknown.  For every "
           "element, evaluate and evaluateDiv are compared at an unknown surface point with (transformation matrix * coefficients) times the shape "
           "functions of that element; evaluateOnPatch is compared at a grid of reference points including all element corners and edges, where the "
           "element must be one containing the point.  Objects built, copied, moved, assigned and re-initialised are all examined.")
MIN_OBLIGATIONS = {"quick": 1000}
W = "Bembel/src/AnsatzSpace/FunctionEvaluator.hpp"
SRC = ANS.split("static void out(")[0].replace("using namespace Bembel;", "#include <Bembel/src/util/surfaceL2error.hpp>\nusing namespace Bembel;", 1) + """
static void mat(const Eigen::SparseMatrix<double> &m, double *o) {
  *o++ = m.rows(); *o++ = m.cols(); double *n = o++; *n = 0;
  for (int k = 0; k < m.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) { *o++ = it.row(); *o++ = it.col(); *o++ = it.value(); *n += 1; }
}
template <class Op> static FunctionEvaluator<Op> *mk(const double *c, int n, int M, int P, int rep, const double *f, int how, double *t, AnsatzSpace<Op> **pa) {
  typedef typename LinearOperatorTraits<Op>::Scalar K;
  typedef FunctionEvaluator<Op> E;
  Geometry g = geo(c, n);
  AnsatzSpace<Op> &a = *new AnsatzSpace<Op>(g, M, P, rep); *pa = &a;
  mat(a.get_transformation_matrix(), t);
  Eigen::Matrix<K, -1, 1> v(a.get_number_of_dofs());
  for (int i = 0; i < v.size(); ++i) W::get(v(i), f + 2 * i);
  Eigen::Matrix<K, -1, 1> z = v; for (int i = 0; i < v.size(); ++i) z(i) = K(1. + i);
  if (how == 0) return new E(a, v);
  if (how == 1) { E *e = new E(a); e->set_function(v); return e; }
  if (how == 2) { E *e = new E(); e->init_FunctionEvaluator(a, v); return e; }
  if (how == 3) { E *e = new E(a, z); E *r = new E(*e); r->set_function(v); delete e; return r; }
  if (how == 4) { E e(a, v); return new E(std::move(e)); }
  if (how == 5) { E e(a, v); E *r = new E(); *r = e; return r; }
  if (how == 6) { AnsatzSpace<Op> b(g, 0, P, rep); E e(a, v); E *r = new E(b); *r = std::move(e); return r; }
  if (how == 7) { AnsatzSpace<Op> b(g, 0, P, rep); E *r = new E(b); r->init_FunctionEvaluator(a, v); return r; }
  if (how == 8) { AnsatzSpace<Op> b(g, 0, P, rep); E *r = new E(b); r->init_FunctionEvaluator(a); r->set_function(v); return r; }
  AnsatzSpace<Op> b(a), d; d = b; AnsatzSpace<Op> e(std::move(d)); return new E(e, v);
}
template <class Op> static void ev(const FunctionEvaluator<Op> *f, const AnsatzSpace<Op> *a, int e, const SurfacePoint *p, double *o) {
  auto it = a->get_superspace().get_mesh().get_element_tree().cpbegin();
  for (int i = 0; i < e; ++i) ++it;
  W::put(f->evaluate(*it, *p), o);
}
template <class Op> static void dv(const FunctionEvaluator<Op> *f, const AnsatzSpace<Op> *a, int e, const SurfacePoint *p, double *o) {
  auto it = a->get_superspace().get_mesh().get_element_tree().cpbegin();
  for (int i = 0; i < e; ++i) ++it;
  auto d = f->evaluateDiv(*it, *p); o[0] = W::re(d); o[1] = W::im(d);
}
template <class Op> static void pt(const FunctionEvaluator<Op> *f, int patch, double x, double y, double *o) { W::put(f->evaluateOnPatch(patch, Eigen::Vector2d(x, y)), o); }
#define DEF(X, Op) \\
extern "C" FunctionEvaluator<Op> *mk##X(const double *c, int n, int M, int P, int rep, const double *f, int how, double *t, AnsatzSpace<Op> **a) { return mk<Op>(c, n, M, P, rep, f, how, t, a); } \\
extern "C" void ev##X(const FunctionEvaluator<Op> *s, const AnsatzSpace<Op> *a, int e, const SurfacePoint *p, double *o) { ev<Op>(s, a, e, p, o); } \\
extern "C" void pt##X(const FunctionEvaluator<Op> *s, int p, double x, double y, double *o) { pt<Op>(s, p, x, y, o); }
DEF(0, OpC)
DEF(1, OpV)
DEF(2, OpD)
extern "C" double l20(const AnsatzSpace<OpC> *a, const double *f, const double *k, int deg) {
  Eigen::VectorXd v(a->get_number_of_dofs()); for (int i = 0; i < v.size(); ++i) v(i) = f[2 * i];
  std::function<double(const Eigen::Vector3d &)> g = [=](const Eigen::Vector3d &x) { return k[0] + k[1] * x(0) + k[2] * x(1) + k[3] * x(2); };
  return deg < 0 ? surfaceL2error(*a, v, g) : surfaceL2error(*a, v, g, deg);
}
extern "C" double l22(const AnsatzSpace<OpD> *a, const double *f, const double *k, int deg) {
  Eigen::VectorXd v(a->get_number_of_dofs()); for (int i = 0; i < v.size(); ++i) v(i) = f[2 * i];
  std::function<double(const Eigen::Vector3d &)> g = [=](const Eigen::Vector3d &x) { return k[0] + k[1] * x(0) + k[2] * x(1) + k[3] * x(2); };
  return deg < 0 ? surfaceL2error(*a, v, g) : surfaceL2error(*a, v, g, deg);
}
extern "C" void dv1(const FunctionEvaluator<OpV> *s, const AnsatzSpace<OpV> *a, int e, const SurfacePoint *p, double *o) { dv<OpV>(s, a, e, p, o); }
"""
HOW = ["constructor", "constructor + set_function", "default + init", "copy + set_function", "move", "assignment to a default object", "move assignment over another",
       "re-initialised with function", "re-initialised + set_function", "copied ansatz space"]


def witnesses(tier):
    return {"f": SRC}


def jobs(tier):
    js = []

    def add(form, name, M, P, rep, how, grid):
        js.append(("%s %s M%d P%d rep%d %s" % (NAMES[form], name, M, P, rep, HOW[how]), "f", "j_fun",
                   dict(form=form, name=name, M=M, P=P, rep=rep, how=how, grid=grid)))
    for form in (CONT, DIV, DISC):
        p0 = 0 if form == DISC else 1
        for how in range(len(HOW)):
            add(form, "L", 1, 1, 1, how, how in (0, 3, 4, 5, 6, 7, 8))
        for P in range(p0, 3 if tier == "quick" else 5):
            add(form, "single", 1, P, 1, 0, True)
        add(form, "pair 12", 1, 1, 1, 0, True)
        add(form, "pair 30", 1, 2, 1, 0, True)
        add(form, "single", 2, 1, 1, 0, True)
        add(form, "single", 0, 2, 1, 1, True)
        add(form, "single", 1, 2, 2, 0, False)
        if tier != "quick":
            add(form, "single", 3, 1, 1, 0, True)
            add(form, "box rotated", 1, 1, 1, 0, True)
    for form, M, P, deg in ((DISC, 0, 0, -1), (DISC, 1, 1, 1), (DISC, 1, 0, 2), (CONT, 1, 1, 3), (CONT, 0, 2, -1)):
        js.append(("L2 error %s M%d P%d deg%d" % (NAMES[form], M, P, deg), "f", "j_l2", dict(form=form, M=M, P=P, deg=deg)))
    return js


WL = "Bembel/src/util/surfaceL2error.hpp"
FLAT = [[(0., 0., 0.), (1.2, .1, .3), (1.5, 1.1, .2), (.3, 1., -.1)], [(1.2, .1, .3), (2., .4, -.2), (2.3, 1.4, -.3), (1.5, 1.1, .2)]]


def j_l2(job, form, M, P, deg):
    """flat parallelograms, linear function: the quadrature is exact, so the square of the error is the exact integral"""
    it = job.interp()
    use_gauss(it)
    it.max_steps = 10 ** 9
    c = []
    for q in FLAT:
        for v in (q[0], q[1], q[3], q[2]):
            c += list(v)
        c += [0., 0., 0.]
    t, f, k = it.new_obj("t", None, "undef"), it.sym("f"), it.sym("k")
    pa = it.new_obj("pa", 8, "undef")
    job.call(it, "mk%d" % form, [put(it, "geo", c), len(FLAT), M, P, 1, f, 0, Ptr(t, 0), Ptr(pa, 0)])
    r = job.call(it, "l2%d" % form, [it.load(Ptr(pa, 0), ("ptr",)), f, k, deg & 0xffffffff])
    rd = lambda i: it.load(Ptr(t, 8 * i), D)
    z = [0.0] * int(rd(0))
    for i in range(int(rd(2))):
        a, b, v = int(rd(3 + 3 * i)), int(rd(4 + 3 * i)), rd(5 + 3 * i)
        z[a] = dom.add(z[a], dom.mul(var("f[%d]" % (16 * b)), v))
    n, Q = 2 ** M, (P + 1) ** 2
    xs, ws = zip(*gauss(P + 2))
    tot = 0.0
    for p, q in enumerate(FLAT):
        u, v = [b - a for a, b in zip(q[0], q[1])], [b - a for a, b in zip(q[0], q[3])]
        cr = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        area = sum(w * w for w in cr) ** .5
        for e, (ix, iy) in enumerate(morton(M)):
            for x, wx in zip(xs, ws):
                for y, wy in zip(xs, ws):
                    B = basis2(P, [x, y])
                    d = var("k[0]")
                    for j in range(3):
                        d = dom.add(d, dom.mul(var("k[%d]" % (8 + 8 * j)), q[0][j] + (ix + x) / n * u[j] + (iy + y) / n * v[j]))
                    for i in range(Q):
                        d = dom.sub(d, dom.mul(z[(p * n * n + e) * Q + i], B[i] * n))
                    tot = dom.add(tot, dom.mul(dom.mul(d, d), wx * wy * area / n / n))
    job.eq("L2 error", dom.mul(r, r), tot, "square of surfaceL2error (%s, level %d, degree %d, quadrature %d)" % (NAMES[form], M, P, deg), where=WL, tol=1e-8)


def patch_jac(c, x, y):
    """tangents of the bumpy patch"""
    S, U = var("S"), var("U")
    out = []
    for v in ("S", "U"):
        for d in range(3):
            t = 0.0
            for q, (i, j) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
                t = t + (S if i else 1.0 - S) * (U if j else 1.0 - U) * c[3 * q + d]
            t = t + bern(2, 1, S) * bern(2, 1, U) * c[12 + d]
            out.append(dom.subst(dom.diff(t, v), {"S": x, "U": y}))
    return out[:3], out[3:]


def j_fun(job, form, name, M, P, rep, how, grid):
    T = TOPO[name]
    it = job.interp()
    it.max_steps = 10 ** 9
    g = put(it, "geo", flat(T))
    t = it.new_obj("t", None, "undef")
    f = it.sym("f")
    pa = it.new_obj("pa", 8, "undef")
    h = job.call(it, "mk%d" % form, [g, len(T), M, P, rep, f, how, Ptr(t, 0), Ptr(pa, 0)])
    an = it.load(Ptr(pa, 0), ("ptr",))
    rd = lambda k: it.load(Ptr(t, 8 * k), D)
    rows, cols, nnz = int(rd(0)), int(rd(1)), int(rd(2))
    cx = form == DIV
    z = [C(0.0)] * rows
    for k in range(nnz):
        i, j, v = int(rd(3 + 3 * k)), int(rd(4 + 3 * k)), rd(5 + 3 * k)
        z[i] = z[i] + C(var("f[%d]" % (16 * j)), var("f[%d]" % (16 * j + 8)) if cx else 0.0) * C(v)
    n, Q = 2 ** M, (P + 1) ** 2
    nc = 2 if form == DIV else 1
    ne = len(T) * n * n
    if not job.check(rows == nc * ne * Q, "rows", "transformation matrix has %d rows" % rows, W):
        return
    co = lambda c, e, i: z[c * ne * Q + e * Q + i]
    hinv = float(n)

    def value(e, xi, dx, dy):
        B = basis2(P, xi)
        s = [C(0.0) for _ in range(nc)]
        for c in range(nc):
            for i in range(Q):
                s[c] = s[c] + co(c, e, i) * C(B[i])
        if nc == 1:
            return [s[0] * C(hinv)]
        return [(s[0] * C(dx[d]) + s[1] * C(dy[d])) * C(hinv) for d in range(3)]

    def cmp(v, want, key, what):
        for d, w in enumerate(want):
            for q, part in enumerate(("re", "im")):
                if q and not cx:
                    continue
                job.eq("%s/%s/%d.%s" % (key, HOW[how], d, part), v[2 * d + q], getattr(w, part), what + " component %d %s" % (d, part), where=W)
    tag = "%s function, %s, level %d, degree %d, rep %d, %s" % (NAMES[form], name, M, P, rep, HOW[how])
    dim = 3 if form == DIV else 1
    for e in range(ne) if how == 0 or not grid else (0, ne - 1):
        p = SP("p")
        o = it.new_obj("o", 16 * dim, "undef")
        job.call(it, "ev%d" % form, [h, an, e, it.sym("p"), Ptr(o, 0)])
        cmp([it.load(Ptr(o, 8 * i), D) for i in range(2 * dim)], value(e, p.xi, p.dx, p.dy), "evaluate", "evaluate, %s, element %d" % (tag, e))
        if form == DIV:
            o = it.new_obj("o", 16, "undef")
            job.call(it, "dv1", [h, an, e, it.sym("p"), Ptr(o, 0)])
            bx, by = basis2dx(P, p.xi), basis2dy(P, p.xi)
            s = C(0.0)
            for i in range(Q):
                s = s + co(0, e, i) * C(bx[i]) + co(1, e, i) * C(by[i])
            cmp([it.load(Ptr(o, 0), D), it.load(Ptr(o, 8), D)], [s * C(hinv * hinv)], "evaluateDiv", "evaluateDiv, %s, element %d" % (tag, e))
    if not grid:
        return
    m = morton(M)
    pos = {q: k for k, q in enumerate(m)}
    cs = sorted({k / n for k in range(n + 1)} | {(k + .3) / n for k in range(n)} | {(k + .8125) / n for k in range(n)})
    if n > 2:
        cs = sorted({k / n for k in range(n + 1)} | {(k + .3) / n for k in range(n)})
    for pp in range(len(T)):
        c = flat([T[pp]])[:12] + list(bump(pp))
        for x in cs:
            for y in cs:
                o = it.new_obj("o", 16 * dim, "undef")
                job.call(it, "pt%d" % form, [h, pp, x, y, Ptr(o, 0)])
                v = [it.load(Ptr(o, 8 * i), D) for i in range(2 * dim)]
                dx, dy = patch_jac(c, x, y)
                cand = []
                for ix in range(n):
                    for iy in range(n):
                        if ix / n <= x <= (ix + 1) / n and iy / n <= y <= (iy + 1) / n:
                            cand.append(value(pp * n * n + pos[ix, iy], [x * n - ix, y * n - iy], dx, dy))
                what = "evaluateOnPatch, %s, patch %d, point (%g,%g)" % (tag, pp, x, y)
                good = [w for w in cand if all(dom.equal(v[2 * d], w[d].re) and (not cx or dom.equal(v[2 * d + 1], w[d].im)) for d in range(dim))]
                if good:
                    job.ok("evaluateOnPatch/%s" % HOW[how], what)
                else:
                    cmp(v, cand[0], "evaluateOnPatch", what)
