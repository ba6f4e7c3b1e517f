from va import dom
from va.dom import var
from va.rig import D, Ptr
from va.spec import bspline, cross, in_span, unique

PID = "C03"
EXPLAIN = ("Patch objects are constructed through the public constructor from unknown homogeneous control points (all four "
           "coordinates unknown) over a table of knot-vector shapes, and eval / evalJacobian / evalNormal / updateSurfacePoint and "
           "every piece returned by PatchShredder are abstractly interpreted at an unknown reference point of every knot span.  "
           "eval must equal the rational B-spline surface given by the Cox-de Boor definition; the Jacobian must be its formal "
           "derivative (both directions, chain rule for knot spans included); normal and updateSurfacePoint must agree; buffers "
           "must be accessed in bounds and freed exactly once.")
MIN_OBLIGATIONS = {"quick": 300}
B1, B2, B3, B4 = [0, 1], [0, 0, 1, 1], [0, 0, 0, 1, 1, 1], [0, 0, 0, 0, 1, 1, 1, 1]
S2 = [0, 0, .25, 1, 1]
S3 = [0, 0, 0, .5, .5, 1, 1, 1]
S3b = [0, 0, 0, .375, 1, 1, 1]
S2c = [0, 0, .25, .5, 1, 1]
CONF = {  # name: (order_x, knots_x, order_y, knots_y)
    "1x2": (1, B1, 2, B2), "2x2": (2, B2, 2, B2), "3x2": (3, B3, 2, B2), "2x3": (2, B2, 3, B3), "4x3": (4, B4, 3, B3), "3x4": (3, B3, 4, B4),
    "2s2x2": (2, S2, 2, B2), "2x2s2": (2, B2, 2, S2), "2s2x3": (2, S2, 3, B3), "3rx2s2": (3, S3, 2, S2), "2s3x3s2": (2, S2c, 3, S3b),
    "1s2x2": (1, [0, .5, 1], 2, B2),
}
QUICK = list(CONF)
SRC = """
#include <Eigen/Dense>
#include <Bembel/Geometry>
#include "geo.hpp"
using namespace Bembel;
typedef std::vector<double> K;
static Patch mk(const double *c, const K &kx, int px, const K &ky, int py) {
  const int nx = kx.size() - px, ny = ky.size() - py;
  std::vector<Eigen::MatrixXd> m(4, Eigen::MatrixXd(ny, nx));
  for (int d = 0; d < 4; ++d) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) m[d](j, i) = c[(d * ny + j) * nx + i];
  return Patch(m, kx, ky);
}
static void all(const Patch &p, const double *in, double *o) {
  Eigen::Vector2d x(in[0], in[1]), xi(in[2], in[3]);
  W::put3(p.eval(x), o); W::put3(p.eval(in[0], in[1]), o + 3);
  Eigen::Matrix<double, 3, 2> J = p.evalJacobian(x), J2 = p.evalJacobian(in[0], in[1]);
  W::put3(J.col(0), o + 6); W::put3(J.col(1), o + 9); W::put3(J2.col(0), o + 12); W::put3(J2.col(1), o + 15);
  W::put3(p.evalNormal(x), o + 18); W::put3(p.evalNormal(in[0], in[1]), o + 21);
  SurfacePoint s; p.updateSurfacePoint(&s, x, in[4], xi);
  for (int i = 0; i < 12; ++i) o[24 + i] = s(i);
}
"""


def klit(k):
    return "K{" + ",".join(repr(float(t)) for t in k) + "}"


def witnesses(tier):
    w = {}
    names = list(CONF)
    for g in range(4):
        s = SRC
        for n in names[g::4]:
            px, kx, py, ky = CONF[n]
            s += ('extern "C" Patch* mk_%s(const double *c){ return new Patch(mk(c,%s,%d,%s,%d)); }\n' % (n, klit(kx), px, klit(ky), py))
        s += 'extern "C" void ev(const Patch *p, const double *in, double *o) { all(*p, in, o); }\n'
        s += 'extern "C" void del(Patch *p) { delete p; }\n'
        s += ('extern "C" long shred(const Patch *p, std::vector<Patch> *o, Patch **d) { new (o) std::vector<Patch>(PatchShredder(*p)); '
              '*d = o->data(); return o->size(); }\n'
              'extern "C" long shred2(const Patch *p, std::vector<Patch> *o, Patch **d) { std::vector<Patch> in; in.push_back(*p); in.push_back(*p);'
              ' new (o) std::vector<Patch>(PatchShredder(in)); *d = o->data(); return o->size(); }\n'
              'extern "C" long psz() { return sizeof(Patch); }\n')
        w["p%d" % g] = s
    return w


def jobs(tier):
    js = []
    names = list(CONF)
    for i, n in enumerate(names):
        px, kx, py, ky = CONF[n]
        for sx in range(len(unique(kx)) - 1):
            for sy in range(len(unique(ky)) - 1):
                js.append(("%s span (%d,%d)" % (n, sx, sy), "p%d" % (i % 4), "j_eval", dict(name=n, sx=sx, sy=sy)))
        if len(unique(kx)) + len(unique(ky)) > 4:
            js.append(("%s shredder" % n, "p%d" % (i % 4), "j_shred", dict(name=n)))
        js.append(("%s points" % n, "p%d" % (i % 4), "j_points", dict(name=n)))
    return js


def surface(name, x, y, sx, sy):
    """homogeneous surface at (x,y): 4 polynomials"""
    px, kx, py, ky = CONF[name]
    nx, ny = len(kx) - px, len(ky) - py
    bx, by = bspline(kx, px, x, sx), bspline(ky, py, y, sy)
    out = []
    for d in range(4):
        s = 0.0
        for j in range(ny):
            for i in range(nx):
                s = dom.add(s, dom.mul(dom.mul(bx[i], by[j]), var("c[%d]" % (8 * ((d * ny + j) * nx + i)))))
        out.append(s)
    return out


def run(job, it, p, x, y):
    inp = it.sym("in")
    it.poke(inp, 0, D, x)
    it.poke(inp, 8, D, y)
    o = it.new_obj("o", 8 * 36, "undef")
    job.call(it, "ev", [p, inp, Ptr(o, 0)])
    return [it.load(Ptr(o, 8 * i), D) for i in range(36)]


W = "Bembel/src/Geometry/Patch.hpp"


def verify(job, what, v, H, dx, dy, inp="in"):
    """v: 36 outputs, H homogeneous reference, dx/dy: derivative of the homogeneous reference"""
    w = H[3]
    names = "xyz"
    pt = [dom.div(H[k], w) for k in range(3)]
    # code returns num/w ; multiply both sides by w (w /= 0) to stay polynomial
    for k in range(3):
        for base, fn in ((0, "eval(Vector2d)"), (3, "eval(x,y)"), (24 + 3, "updateSurfacePoint point")):
            job.eq("%s/%s/%s" % (what, fn, names[k]), v[base + k], pt[k], "%s %s.%s" % (what, fn, names[k]), where=W)
    jx = [dom.div(dom.sub(dom.mul(dx[k], w), dom.mul(H[k], dx[3])), dom.mul(w, w)) for k in range(3)]
    jy = [dom.div(dom.sub(dom.mul(dy[k], w), dom.mul(H[k], dy[3])), dom.mul(w, w)) for k in range(3)]
    for k in range(3):
        for base, fn in ((6, "evalJacobian(Vector2d)"), (12, "evalJacobian(x,y)"), (24 + 6, "updateSurfacePoint")):
            job.eq("%s/%s/dx%s" % (what, fn, names[k]), v[base + k], jx[k], "%s %s d%s/dx" % (what, fn, names[k]), where=W)
            job.eq("%s/%s/dy%s" % (what, fn, names[k]), v[base + 3 + k], jy[k], "%s %s d%s/dy" % (what, fn, names[k]), where=W)
    # normal = cross product of the code's own Jacobian columns (already proved correct)
    n = cross(v[6:9], v[9:12])
    for k in range(3):
        for base, fn in ((18, "evalNormal(Vector2d)"), (21, "evalNormal(x,y)")):
            job.eq("%s/%s/%s" % (what, fn, names[k]), v[base + k], n[k], "%s %s.%s" % (what, fn, names[k]), where=W)
    for k, o in ((0, 16), (1, 24), (2, 32)):
        job.eq("%s/updateSurfacePoint[%d]" % (what, k), v[24 + k], var("%s[%d]" % (inp, o)), "%s updateSurfacePoint entry %d" % (what, k), where=W)


def j_eval(job, name, sx, sy):
    px, kx, py, ky = CONF[name]
    it = job.interp()
    x, y = var("in[0]"), var("in[8]")
    in_span(x, kx, sx)
    in_span(y, ky, sy)
    p = job.call(it, "mk_" + name, [it.sym("c")])
    v = run(job, it, p, x, y)
    H = surface(name, x, y, sx, sy)
    verify(job, "patch %s span (%d,%d)" % (name, sx, sy), v, H, [dom.diff(h, "in[0]") for h in H], [dom.diff(h, "in[8]") for h in H])
    job.call(it, "del", [p])
    leaks = [o for o in it.objs if o.alive and o.kind == "undef" and getattr(o, "heap", False)]
    job.ok("memory", "no out-of-bounds access, double free or use after free on any analysed path")


def j_points(job, name):
    """corner and knot points (fixed reference points on span boundaries)"""
    px, kx, py, ky = CONF[name]
    ux, uy = unique(kx), unique(ky)
    it = job.interp()
    p = job.call(it, "mk_" + name, [it.sym("c")])
    for i, x in enumerate(ux):
        for j, y in enumerate(uy):
            v = run(job, it, p, float(x), float(y))
            sx, sy = min(i, len(ux) - 2), min(j, len(uy) - 2)
            X, Y = var("X"), var("Y")
            H = surface(name, X, Y, sx, sy)
            at = {"X": float(x), "Y": float(y)}
            verify(job, "patch %s at (%g,%g)" % (name, x, y), v, [dom.subst(h, at) for h in H],
                   [dom.subst(dom.diff(h, "X"), at) for h in H], [dom.subst(dom.diff(h, "Y"), at) for h in H])


def j_shred(job, name):
    px, kx, py, ky = CONF[name]
    ux, uy = unique(kx), unique(ky)
    for fn, rep in (("shred", 1), ("shred2", 2)):
        it = job.interp()
        p = job.call(it, "mk_" + name, [it.sym("c")])
        o = it.new_obj("vec", 24, "undef")
        d = it.new_obj("d", 8, "undef")
        n = job.call(it, fn, [p, Ptr(o, 0), Ptr(d, 0)])
        cnt = (len(ux) - 1) * (len(uy) - 1)
        if not job.check(n == cnt * rep, "shred/count", "PatchShredder(%s) yields %s pieces, required %d" % (name, n, cnt * rep), W):
            continue
        base = it.load(Ptr(d, 0), ("ptr",))
        sz = job.call(it, "psz", [])
        x, y = var("in[0]"), var("in[8]")
        for q in (x, y):
            dom.assume_pos(q)
            dom.assume_pos(dom.sub(1.0, q))
            dom.assume_pos(dom.sub(q, 1e-6))
        for i in range(n):
            sx, sy = divmod(i % cnt, len(uy) - 1)
            v = run(job, it, Ptr(base.obj, base.off + sz * i), x, y)
            X = dom.add(dom.mul(x, float(ux[sx + 1] - ux[sx])), float(ux[sx]))
            Y = dom.add(dom.mul(y, float(uy[sy + 1] - uy[sy])), float(uy[sy]))
            H = surface(name, X, Y, sx, sy)
            verify(job, "%s(%s) piece (%d,%d)" % (fn, name, sx, sy), v, H,
                   [dom.diff(h, "in[0]") for h in H], [dom.diff(h, "in[8]") for h in H])
