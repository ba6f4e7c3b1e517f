"""exports: VTK files, matrix files, log files and the stopwatch carry exactly the data they were given"""
import re
import xml.etree.ElementTree as ET

from checks.element_tree import TOPO, ev, flat, refmesh
from va import dom
from va.dom import var
from va.rig import D, I32, P, Ptr, VERIF
from va.text import FIXED, SCI, Chr, TextInterp, Tok, lines, words

PID = "C20"
EXPLAIN = ("The exporters are interpreted together with a stand-in for the stream headers in which files are named texts and the text of an unknown number is a token.  "
           "The file left behind is parsed by the rules of its format (XML, MATLAB assignments, table rows, binary read-back by the library) and every value found is compared with the required one: "
           "points, cells and normals with an independently built refinement, data sets with the user's function at the required point (unknown coefficients), matrices entry by entry.  "
           "Clock readings are unknowns, so durations are decided as formulas.")
MIN_OBLIGATIONS = {"quick": 500}
ASSUMPTIONS = ["real arithmetic; text carries a number up to the requested digits", "semantics of the C++ stream classes as in witness/shim/vastream.hpp"]
FLAGS = ["-include", VERIF + "/witness/shim/pre.hpp", "-I" + VERIF + "/witness/shim"]
FILES = """
extern "C" void put(const char *name, const char *data, long n) { VA::File *f = VA::get(name); f->data.assign(data, n); }
extern "C" const std::string *content(const char *name) { VA::File *f = VA::find(name); return f ? &f->data : nullptr; }
"""
SRC = """
#include <Bembel/IO>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
#include "geo.hpp"
using namespace Bembel;
typedef std::complex<double> Z;
static Patch bumpy(const double *c) {
  std::vector<Eigen::MatrixXd> m(4, Eigen::MatrixXd::Ones(3, 3));
  for (int d = 0; d < 3; ++d) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double x = .5 * j, y = .5 * i;
    m[d](i, j) = (1 - x) * (1 - y) * c[d] + x * (1 - y) * c[3 + d] + (1 - x) * y * c[6 + d] + x * y * c[9 + d] + (i == 1 && j == 1 ? c[12 + d] : 0.);
  }
  std::vector<double> k = {0, 0, 0, 1, 1, 1};
  return Patch(m, k, k);
}
static void junk(const char *n) { VA::get(n)->data = "earlier contents "; }  // a file which is to be replaced
static Geometry geo(const double *c, int n) { PatchVector v; for (int i = 0; i < n; ++i) v.push_back(bumpy(c + 15 * i)); return Geometry(v); }
// user functions with unknown coefficients: c + 1, x, y(, z) on the right
static double lin(const double *k, int q, double a, double b, double c) { return k[4 * q] + k[4 * q + 1] * a + k[4 * q + 2] * b + k[4 * q + 3] * c; }
static Eigen::Vector3d lin3(const double *k, int q, double a, double b, double c) { return Eigen::Vector3d(lin(k, q, a, b, c), lin(k, q + 1, a, b, c), lin(k, q + 2, a, b, c)); }
template <class W> static void addsets(W &w, const double *k, int what) {
  if (what & 1) w.addDataSet("s", std::function<double(int, const Eigen::Vector2d &)>([=](int p, const Eigen::Vector2d &x) { return lin(k, 0, p, x(0), x(1)); }));
  if (what & 2) w.addDataSet("c", std::function<Z(int, const Eigen::Vector2d &)>([=](int p, const Eigen::Vector2d &x) { return Z(lin(k, 1, p, x(0), x(1)), lin(k, 2, p, x(0), x(1))); }));
  if (what & 4) w.addDataSet("v", std::function<Eigen::Vector3d(int, const Eigen::Vector2d &)>([=](int p, const Eigen::Vector2d &x) { return lin3(k, 3, p, x(0), x(1)); }));
  if (what & 8) w.addDataSet("w", std::function<Eigen::Vector3cd(int, const Eigen::Vector2d &)>([=](int p, const Eigen::Vector2d &x) {
    Eigen::Vector3cd r; r.real() = lin3(k, 6, p, x(0), x(1)); r.imag() = lin3(k, 9, p, x(0), x(1)); return r; }));
  if (what & 16) w.addDataSet("S", std::function<double(const Eigen::Vector3d &)>([=](const Eigen::Vector3d &x) { return lin(k, 0, x(0), x(1), x(2)); }));
  if (what & 32) w.addDataSet("C", std::function<Z(const Eigen::Vector3d &)>([=](const Eigen::Vector3d &x) { return Z(lin(k, 1, x(0), x(1), x(2)), lin(k, 2, x(0), x(1), x(2))); }));
  if (what & 64) w.addDataSet("V", std::function<Eigen::Vector3d(const Eigen::Vector3d &)>([=](const Eigen::Vector3d &x) { return lin3(k, 3, x(0), x(1), x(2)); }));
  if (what & 128) w.addDataSet("W", std::function<Eigen::Vector3cd(const Eigen::Vector3d &)>([=](const Eigen::Vector3d &x) {
    Eigen::Vector3cd r; r.real() = lin3(k, 6, x(0), x(1), x(2)); r.imag() = lin3(k, 9, x(0), x(1), x(2)); return r; }));
}
extern "C" void surface(const double *c, int n, int M, const double *k, int what, int clear, const char *name, const char *second) {
  VTKSurfaceExport w(geo(c, n), M);
  if (clear) { addsets(w, k, clear); w.clearData(); }
  addsets(w, k, what);
  junk(name); w.writeToFile(name);
  if (*second) w.writeToFile(second);
}
extern "C" void again(const double *c0, int n0, int M0, const double *c, int n, int M, const double *k, int what, const char *name) {
  VTKSurfaceExport w(geo(c0, n0), M0); w.init_VTKSurfaceExport(geo(c, n), M);
  addsets(w, k, what);
  junk(name); w.writeToFile(name);
}
template <class Op> static void space(const double *c, int n, int M, int m, int deg, const double *f, const char *name, double *o) {
  typedef typename LinearOperatorTraits<Op>::Scalar K;
  Geometry g = geo(c, n);
  AnsatzSpace<Op> a(g, m, deg);
  Eigen::Matrix<K, -1, -1> v(a.get_number_of_dofs(), 1);
  for (int i = 0; i < v.rows(); ++i) W::get(v(i, 0), f + 2 * i);
  VTKSurfaceExport w(g, M);
  { w.addDataSet("a", a, v); }
  junk(name); w.writeToFile(name);
  Eigen::Matrix<K, -1, 1> u = v;
  FunctionEvaluator<Op> e(a, u);
  int N = 1 << M;
  for (int p = 0; p < n; ++p) for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) {
    auto r = e.evaluateOnPatch(p, Eigen::Vector2d((i + .5) / N, (j + .5) / N));
    W::put(r, o); o += 2 * r.size();
  }
}
extern "C" void spaceL(const double *c, int n, int M, int m, int deg, const double *f, const char *name, double *o) { space<LaplaceSingleLayerOperator>(c, n, M, m, deg, f, name, o); }
extern "C" void spaceH(const double *c, int n, int M, int m, int deg, const double *f, const char *name, double *o) { space<HelmholtzHypersingularOperator>(c, n, M, m, deg, f, name, o); }
extern "C" void spaceM(const double *c, int n, int M, int m, int deg, const double *f, const char *name, double *o) { space<MaxwellSingleLayerOperator>(c, n, M, m, deg, f, name, o); }
static Eigen::VectorXd vec(const double *x, int n) { return Eigen::Map<const Eigen::VectorXd>(x, n); }
extern "C" void domain(const double *x, int nx, const double *y, int ny, const double *z, int nz, const double *k, int what, int clear, const char *name, const char *second) {
  VTKDomainExport w(vec(x, nx), vec(y, ny), vec(z, nz));
  auto add = [&](int t) {
    if (t & 16) w.addDataSet("S", std::function<double(const Eigen::Vector3d &)>([=](const Eigen::Vector3d &x) { return lin(k, 0, x(0), x(1), x(2)); }));
    if (t & 64) w.addDataSet("V", std::function<Eigen::Vector3d(const Eigen::Vector3d &)>([=](const Eigen::Vector3d &x) { return lin3(k, 3, x(0), x(1), x(2)); }));
  };
  if (clear) { add(clear); w.clearData(); }
  add(what);
  junk(name); w.writeToFile(name);
  if (*second) w.writeToFile(second);
}
extern "C" void cloud(const double *x, int n, const double *d, int what, int clear, const char *name, const char *second) {
  Eigen::Matrix<double, Eigen::Dynamic, 3> p(n, 3); for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) p(i, j) = x[3 * i + j];
  VTKPointExport w(p);
  auto add = [&](int t) {
    if (t & 1) w.addDataSet("s", Eigen::Map<const Eigen::MatrixXd>(d, n, 1));
    if (t & 2) { Eigen::MatrixXcd m(n, 1); for (int i = 0; i < n; ++i) m(i) = Z(d[i], d[n + i]); w.addComplexDataSet("c", m); }
    if (t & 4) w.addDataSet("v", Eigen::Map<const Eigen::MatrixXd>(d, n, 3));
    if (t & 8) { Eigen::MatrixXcd m(n, 3); for (int j = 0; j < 3; ++j) for (int i = 0; i < n; ++i) m(i, j) = Z(d[j * n + i], d[(3 + j) * n + i]); w.addComplexDataSet("w", m); }
  };
  if (clear) { add(clear); w.clearData(); }
  add(what);
  junk(name); w.writeToFile(name);
  if (*second) w.writeToFile(second);
}
""" + FILES
MAT = """
#include <Eigen/Sparse>
#include <Bembel/IO>
#include "common.hpp"
using namespace Bembel;
typedef std::complex<double> Z;
typedef Eigen::Matrix<double, -1, -1, Eigen::RowMajor> Row;
typedef Eigen::Matrix<Z, -1, -1> MZ;
typedef Eigen::Matrix<Z, -1, -1, Eigen::RowMajor> RowZ;
static void junk(const char *n) { VA::get(n)->data = "earlier contents "; }  // a file which is to be replaced
static Eigen::MatrixXd mat(const double *d, int m, int n) { return Eigen::Map<const Eigen::MatrixXd>(d, m, n); }
static MZ matz(const double *d, int m, int n) { MZ r(m, n); for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) r(i, j) = Z(d[2 * (j * m + i)], d[2 * (j * m + i) + 1]); return r; }
extern "C" int ascii(const char *f, const double *d, int m, int n, int how) {
  Eigen::MatrixXd a = mat(d, m, n);
  switch (how) {
    case 0: return IO::print2ascii(f, a);
    case 1: return IO::print2ascii(f, Row(a));
    case 2: return IO::print2ascii(f, a.transpose());
    case 3: return IO::print2ascii(f, 2. * a.col(0));
    case 4: { IO::print2ascii(f, Eigen::MatrixXd::Ones(7, 7)); return IO::print2ascii(f, a); }
  }
  return -1;
}
extern "C" int matlab(const char *f, const char *name, const double *d, int m, int n, int how) {
  Eigen::MatrixXd a = mat(d, m, n);
  switch (how) {
    case 0: return IO::print2m(f, name, a, "w");
    case 1: return IO::print2m(f, name, Row(a), "a");
    case 2: return IO::print2m(f, name, a.transpose(), "a");
    case 3: return IO::print2m(f, name, a.row(0), "w");
    case 4: return IO::print2m(f, name, a, "r");
  }
  return -1;
}
extern "C" int sparse(const char *f, const char *name, const double *d, const int *ij, int nnz, int m, int n, int how) {
  Eigen::SparseMatrix<double> s(m, n);
  std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < nnz; ++i) t.push_back(Eigen::Triplet<double>(ij[2 * i], ij[2 * i + 1], d[i]));
  s.setFromTriplets(t.begin(), t.end());
  if (how == 3) { Eigen::SparseMatrix<double> u(m, n); u.reserve(Eigen::VectorXi::Constant(n, m + 1)); for (int i = 0; i < nnz; ++i) u.insert(ij[2 * i], ij[2 * i + 1]) = d[i]; return IO::print2m(f, name, u, "w"); }
  return IO::print2m(f, name, s, how == 0 ? "w" : how == 1 ? "a" : "x");
}
template <class M> static void out(const M &m, double *o) { *o++ = m.rows(); *o++ = m.cols(); W::put(m, o); }
extern "C" int bin(const char *f, const double *d, int m, int n, int how, int to, double *o) {
  int r = -1; if (how != 7) junk(f);
  Eigen::MatrixXd a = mat(d, m, n); MZ b = matz(d, m, n);
  switch (how) {
    case 0: r = IO::print2bin(f, a); break;
    case 1: r = IO::print2bin(f, Row(a)); break;
    case 2: r = IO::print2bin(f, a.transpose()); break;
    case 3: r = IO::print2bin(f, (a + a).eval().topRows(1)); break;
    case 4: r = IO::print2bin(f, b); break;
    case 5: r = IO::print2bin(f, RowZ(b)); break;
    case 6: r = IO::print2bin(f, a.col(0)); break;
    case 7: r = 0; break;
  }
  if (r) return r;
  switch (to) {
    case 0: { Eigen::MatrixXd x; r = IO::bin2Mat(f, &x); out(x, o); break; }
    case 1: { Row x(3, 1); r = IO::bin2Mat(f, &x); out(x, o); break; }
    case 2: { MZ x; r = IO::bin2Mat(f, &x); out(x, o); break; }
    case 3: { Eigen::VectorXd x; r = IO::bin2Mat(f, &x); out(x, o); break; }
    case 4: { Eigen::MatrixXd x = a; r = IO::bin2Mat(f, &x); out(x, o); break; }
  }
  return r;
}
extern "C" void logger(const char *f, const double *d, int how) {
  using IO::Logger;
  switch (how) {
    case 0: { Logger<> l(f); l.file("h", "err", "n"); l.file(d[0], d[1], 17); l.file(d[2], std::string("str"), 1234567); break; }
    case 1: { Logger<12> l(f, std::string(";")); l.file("h", "err", "n"); l.file(d[0], d[1], -5); break; }
    case 2: { Logger<> l; l.file(d[0]); l.file(d[1]); break; }
    case 3: { Logger<> l(f, std::string(" "), std::fstream::app); l.file(d[0], d[1]); break; }
    case 4: { Logger<> l(f, std::fstream::app); l.file(d[0]); break; }
    case 5: { Logger<> l(f, std::fstream::trunc); l.file(d[0]); break; }
    case 6: { Logger<20> l(f); l.both(d[0], d[1], "x"); l.both(d[2], 3, "y"); break; }
    case 7: { Logger<> l(f); l.term("a", d[0], 3u); l.term(d[1], d[2], 'c'); break; }
    case 8: { { Logger<> l(f); l.file(d[0]); } { Logger<> l(f, std::fstream::app); l.file(d[1], 2); } break; }
    case 9: { Logger<> l{std::fstream::app}; l.file(d[0], d[1]); break; }
  }
}
extern "C" void va_mark(int);
extern "C" void watch(double *o, int how) {
  IO::Stopwatch s;
#define B(x) va_mark(0), x, va_mark(1)
#define DATA(k) { auto d = s.get_data(); o[k] = d.size(); for (size_t i = 0; i < d.size(); ++i) o[k + 1 + i] = d[i]; }
  switch (how) {
    case 0: B(s.tic()); B(o[1] = s.toc()); B(o[2] = s.toc()); B(s.tic()); B(o[4] = s.toc()); break;
    case 1: B(s.start()); B(o[1] = s.stop()); break;
    case 2: B(s.start()); B(o[1] = s.lap()); B(o[2] = s.lap()); B(o[3] = s.lap()); B(o[4] = s.stop()); DATA(8) break;
    case 3: B(s.start()); B(o[1] = s.stop()); B(s.start()); B(o[3] = s.stop()); break;
    case 4: B(s.start()); B(o[1] = s.lap()); B(o[2] = s.stop()); B(s.start()); B(o[4] = s.lap()); B(o[5] = s.lap()); B(o[6] = s.stop()); DATA(8) break;
  }
}
""" + FILES
LENS = {"even": lambda i: 9, "mix": lambda i: 1 + (i * i + 3 * i) % 12, "wide": lambda i: 12}


def cstr(it, s):
    o = it.new_obj("str", len(s) + 1, "undef")
    it.put(Ptr(o, 0), [ord(c) for c in s] + [0])
    return Ptr(o, 0)


def reals(it, vals):
    o = it.new_obj("reals", 8 * max(1, len(vals)), "undef")
    for i, v in enumerate(vals):
        it.store(Ptr(o, 8 * i), float(v) if isinstance(v, int) else v, D)
    return Ptr(o, 0)


def interp(job, length="even"):
    it = job.interp(cls=TextInterp, lengths=LENS[length])
    it.loopmax = 100000
    it.max_steps = 10 ** 9
    return it


def text(job, it, name, what, where):
    p = job.call(it, "content", [cstr(it, name)])
    if not job.check(isinstance(p, Ptr), "file", "%s: file '%s' is written" % (what, name), where):
        return None
    return it.string(p)


def flatten(job, it, chars, key, what, where):
    """the text with every complete number token replaced by @i@"""
    out, i = [], 0
    while i < len(chars):
        c = chars[i]
        if isinstance(c, Chr):
            t = c.tok
            whole = c.k == 0 and all(i + k < len(chars) and isinstance(chars[i + k], Chr) and chars[i + k].tok is t and chars[i + k].k == k for k in range(t.n))
            if not job.check(whole, key + "/whole", "%s: a number is written in full" % what, where):
                return None
            out.append("@%d@" % t.i)
            i += t.n
        else:
            out.append(chr(c))
            i += 1
    return "".join(out)


NUM = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")


def number(it, w):
    """value of a word, or None"""
    m = re.match(r"^@(\d+)@$", w)
    if m:
        return it.toks[int(m.group(1))]
    return float(w) if NUM.match(w) else None


def val(x):
    return x.v if isinstance(x, Tok) else x


def values(job, it, s, key, what, where, sep=None):
    ws = s.split(sep)
    v = [number(it, w) for w in ws]
    bad = [w for w, x in zip(ws, v) if x is None]
    job.check(not bad, key + "/numbers", "%s: %d entries, not a number: %s" % (what, len(ws), bad[:2]), where)
    return v if not bad else []


def sig(t):
    """significant digits of a token"""
    if t.flags & SCI:
        return t.prec + 1
    return 0 if t.flags & FIXED else max(1, t.prec)


def cmp(job, key, got, want, what, where, need=6):
    if isinstance(got, Tok):
        job.check(sig(got) >= need, key + "/digits", "%s: written with %s, required %d significant digits" % (what, got.style(), need), got.where)
        return job.eq(key, got.v, want, what, where=where)
    if not dom.is_num(want):
        return job.eq(key, got, want, what, where=where)
    return job.check(abs(got - want) <= 6e-6 * abs(want) + 1e-9, key, "%s is %.9g, required %.9g" % (what, got, want), where)


def block(job, it, a, n, comp, key, what, where):
    """rows of a DataArray"""
    if not job.check(a is not None, key + "/present", what + " is present", where):
        return []
    job.check(int(a.get("NumberOfComponents", "1")) == comp, key + "/components", "%s declares %s components, required %d" % (what, a.get("NumberOfComponents", "1"), comp), where)
    job.check(a.get("format") == "ascii", key + "/format", "%s has format %r" % (what, a.get("format")), where)
    v = values(job, it, a.text or "", key, what, where)
    if not job.check(len(v) == n * comp, key + "/size", "%s has %d entries, required %d" % (what, len(v), n * comp), where):
        return []
    return [v[comp * i:comp * i + comp] for i in range(n)]


def xml(job, it, name, kind, what, where):
    chars = text(job, it, name, what, where)
    if chars is None:
        return None
    s = flatten(job, it, chars, "vtk", what, where)
    if s is None:
        return None
    try:
        root = ET.fromstring(s)
    except ET.ParseError as e:
        job.check(False, "vtk/xml", "%s: not well-formed XML (%s)" % (what, e), where)
        return None
    job.check(root.tag == "VTKFile" and root.get("type") == kind and [c.tag for c in root] == [kind], "vtk/type", "%s: VTKFile of type %s" % (what, root.get("type")), where)
    piece = root.find(kind + "/Piece")
    return piece if job.check(piece is not None, "vtk/piece", what + ": has a piece", where) else None


def arrays(piece, tag):
    r = {}
    for e in piece.findall(tag):
        for a in e.findall("DataArray"):
            r.setdefault(a.get("Name"), []).append(a)
    return r


def lin(k, q, a):
    r = k[4 * q]
    for i in range(3):
        r = dom.add(r, dom.mul(k[4 * q + 1 + i], a[i]))
    return r


SETS = {  # name -> (bit, components, on patches, [first coefficient index per component])
    "s": (1, True, [0]), "c_real": (2, True, [1]), "c_imag": (2, True, [2]), "v": (4, True, [3, 4, 5]), "w_real": (8, True, [6, 7, 8]), "w_imag": (8, True, [9, 10, 11]),
    "S": (16, False, [0]), "C_real": (32, False, [1]), "C_imag": (32, False, [2]), "V": (64, False, [3, 4, 5]), "W_real": (128, False, [6, 7, 8]), "W_imag": (128, False, [9, 10, 11])}
WS = "Bembel/src/IO/VTKSurfaceExport.hpp"


def mesh(T, M):
    cells = [l for r in refmesh(T, [M] * len(T)) for l in r.leaves()]
    h = .5 ** M
    for i, c in enumerate(cells):
        c.i = c.id
        c.ref = (c.llc[0] + h / 2, c.llc[1] + h / 2)
        c.x = ev(T[c.patch], c.ref[0], c.ref[1], c.patch)
    return sorted(cells, key=lambda c: c.i)


def normal(T, c):
    q, p, e = T[c.patch], c.patch, 1e-5
    x, y = c.ref
    dx = [(a - b) / (2 * e) for a, b in zip(ev(q, x + e, y, p), ev(q, x - e, y, p))]   # exact up to rounding: quadratic
    dy = [(a - b) / (2 * e) for a, b in zip(ev(q, x, y + e, p), ev(q, x, y - e, p))]
    n = [dx[1] * dy[2] - dx[2] * dy[1], dx[2] * dy[0] - dx[0] * dy[2], dx[0] * dy[1] - dx[1] * dy[0]]
    l = sum(t * t for t in n) ** .5
    return [t / l for t in n]


def surface_file(job, it, name, T, M, what, sets):
    """sets: {array name: rows of required values}"""
    piece = xml(job, it, name, "PolyData", what, WS)
    if piece is None:
        return
    C = job.check
    cells = mesh(T, M)
    pts = sorted({p for c in cells for p in c.pts})
    np_, nc = int(piece.get("NumberOfPoints")), int(piece.get("NumberOfPolys"))
    C(np_ == len(pts), "surface/points", "%s: declares %d points, required %d" % (what, np_, len(pts)), WS)
    C(nc == len(cells), "surface/cells", "%s: declares %d cells, required %d" % (what, nc, len(cells)), WS)
    C(all(int(piece.get(n, "0")) == 0 for n in ("NumberOfVerts", "NumberOfLines", "NumberOfStrips")), "surface/others", what + ": no other cells", WS)
    a = piece.findall("Points/DataArray")
    X = block(job, it, a[0] if len(a) == 1 else None, np_, 3, "surface/points", what + ": points", WS)
    po = arrays(piece, "Polys")
    conn = block(job, it, (po.get("connectivity") or [None])[0], nc * 4, 1, "surface/connectivity", what + ": connectivity", WS)
    offs = block(job, it, (po.get("offsets") or [None])[0], nc, 1, "surface/offsets", what + ": offsets", WS)
    if not (X and conn and offs):
        return
    C([o[0] for o in offs] == [4. * (i + 1) for i in range(nc)], "surface/offsets", what + ": offsets are multiples of four", WS)
    for i, c in enumerate(cells):
        idx = [conn[4 * i + k][0] for k in range(4)]
        if not C(all(isinstance(j, float) and 0 <= j < np_ and j == int(j) for j in idx), "surface/connectivity", "%s: cell %d refers to points %s of %d" % (what, i, idx, np_), WS):
            continue
        for k in range(4):
            for d in range(3):
                cmp(job, "surface/cell corner", X[int(idx[k])][d], c.phys[k][d], "%s: cell %d corner %d component %d" % (what, i, k, d), WS)
    ca = arrays(piece, "CellData")
    have = {k: len(v) for k, v in ca.items()}
    need = {k: 1 for k in list(sets) + ["patch_number", "cell_normals"]}
    C(have == need, "surface/data sets", "%s: data sets %s, required %s" % (what, sorted(have.items()), sorted(need)), WS)
    pn = block(job, it, (ca.get("patch_number") or [None])[0], nc, 1, "surface/patch number", what + ": patch numbers", WS)
    nm = block(job, it, (ca.get("cell_normals") or [None])[0], nc, 3, "surface/normals", what + ": normals", WS)
    for i, c in enumerate(cells):
        if pn:
            C(pn[i][0] == c.patch, "surface/patch number", "%s: cell %d has patch number %s, required %d" % (what, i, pn[i][0], c.patch), WS)
        if nm:
            n = normal(T, c)
            for d in range(3):
                C(isinstance(nm[i][d], float) and abs(nm[i][d] - n[d]) < 1e-5, "surface/normals", "%s: cell %d normal component %d is %s, required %.7g" % (what, i, d, nm[i][d], n[d]), WS)
    for s, rows in sets.items():
        got = block(job, it, (ca.get(s) or [None])[0], nc, len(rows[0]), "surface/data", "%s: data set %s" % (what, s), WS)
        for i, (g, w) in enumerate(zip(got, rows)):
            for d in range(len(w)):
                cmp(job, "surface/data", g[d], w[d], "%s: data set %s of cell %d component %d" % (what, s, i, d), WS)


def required(k, mask, items):
    """items: list of (patch argument triple, space point)"""
    return {n: [[lin(k, q, pa if onp else sp) for q in qs] for pa, sp in items] for n, (bit, onp, qs) in SETS.items() if bit & mask}


def j_surface(job, topo, M, mask, clear=0, length="even", first=None):
    it = interp(job, length)
    T = TOPO[topo]
    k = [var("k%d" % i) for i in range(48)]
    what = "surface '%s' level %d" % (topo, M)
    if first is None:
        job.call(it, "surface", [reals(it, flat(T)), len(T), M, reals(it, k), mask, clear, cstr(it, "a.vtp"), cstr(it, "b.vtp")], live=True)
        names = ["a.vtp", "b.vtp"]
    else:
        T0 = TOPO[first]
        job.call(it, "again", [reals(it, flat(T0)), len(T0), 1, reals(it, flat(T)), len(T), M, reals(it, k), mask, cstr(it, "a.vtp")], live=True)
        names = ["a.vtp"]
    sets = required(k, mask, [((float(c.patch),) + c.ref, c.x) for c in mesh(T, M)])
    for n in names:
        surface_file(job, it, n, T, M, what + (" written twice" if n == "b.vtp" else "") + (" after clearing" if clear else ""), sets)


def j_space(job, op, topo, M, m, deg):
    it = interp(job)
    T = TOPO[topo]
    o = it.new_obj("o", None, "undef")
    job.call(it, "space" + op, [reals(it, flat(T)), len(T), M, m, deg, it.sym("f"), cstr(it, "a.vtp"), Ptr(o, 0)], live=True)
    dim = 3 if op == "M" else 1
    N = 2 ** M
    rows = {"re": [], "im": []}
    for c in mesh(T, M):
        i, j = int(c.llc[0] * N), int(c.llc[1] * N)
        at = ((c.patch * N + j) * N + i) * dim
        for q, n in enumerate(("re", "im")):
            rows[n].append([it.load(Ptr(o, 16 * (at + d) + 8 * q), D) for d in range(dim)])
    sets = {"a": rows["re"]} if op == "L" else {"a_real": rows["re"], "a_imag": rows["im"]}
    surface_file(job, it, "a.vtp", T, M, "coefficients (%s, degree %d, level %d) on surface '%s' level %d" % (op, deg, m, topo, M), sets)


def j_domain(job, dims, mask, clear=0, length="even"):
    it = interp(job, length)
    W = "Bembel/src/IO/VTKDomainExport.hpp"
    k = [var("k%d" % i) for i in range(48)]
    ax = [[var("%s%d" % (c, i)) for i in range(n)] for c, n in zip("xyz", dims)]
    args = []
    for a in ax:
        args += [reals(it, a), len(a)]
    job.call(it, "domain", args + [reals(it, k), mask, clear, cstr(it, "g.vts"), cstr(it, "h.vts")], live=True)
    pts = [(x, y, z) for z in ax[2] for y in ax[1] for x in ax[0]]
    for name in ("g.vts", "h.vts"):
        what = "grid %dx%dx%d%s" % (dims + (" written twice" if name[0] == "h" else "",))
        piece = xml(job, it, name, "StructuredGrid", what, W)
        if piece is None:
            continue
        ext = " ".join("0 %d" % (n - 1) for n in dims)
        s = text(job, it, name, what, W)
        root = ET.fromstring(flatten(job, it, s, "vtk", what, W))
        job.check(" ".join(piece.get("Extent", "").split()) == ext and root[0].get("WholeExtent", "").split() == ext.split(), "domain/extent",
                  "%s: extent %r of %r, required %s" % (what, piece.get("Extent"), root[0].get("WholeExtent"), ext), W)
        a = piece.findall("Points/DataArray")
        X = block(job, it, a[0] if len(a) == 1 else None, len(pts), 3, "domain/points", what + ": points", W)
        for i, (g, w) in enumerate(zip(X, pts)):
            for d in range(3):
                cmp(job, "domain/points", g[d], w[d], "%s: point %d component %d" % (what, i, d), W)
        sets = required(k, mask, [((0.0,) * 3, p) for p in pts])
        data(job, it, piece, sets, len(pts), what, W, [])


def data(job, it, piece, sets, n, what, W, extra):
    ca = arrays(piece, "PointData")
    have = {k: len(v) for k, v in ca.items()}
    need = {k: 1 for k in list(sets) + extra}
    job.check(have == need, "data sets", "%s: data sets %s, required %s" % (what, sorted(have.items()), sorted(need)), W)
    for s, rows in sets.items():
        got = block(job, it, (ca.get(s) or [None])[0], n, len(rows[0]), "data", "%s: data set %s" % (what, s), W)
        for i, (g, w) in enumerate(zip(got, rows)):
            for d in range(len(w)):
                cmp(job, "data", g[d], w[d], "%s: data set %s of point %d component %d" % (what, s, i, d), W)
    return ca


def j_cloud(job, n, mask, clear=0, length="even"):
    it = interp(job, length)
    W = "Bembel/src/IO/VTKPointExport.hpp"
    x = [var("x%d" % i) for i in range(3 * n)]
    d = [var("d%d" % i) for i in range(6 * n)]
    job.call(it, "cloud", [reals(it, x), n, reals(it, d), mask, clear, cstr(it, "p.vtp"), cstr(it, "q.vtp")], live=True)
    cols = {"s": [0], "c_real": [0], "c_imag": [1], "v": [0, 1, 2], "w_real": [0, 1, 2], "w_imag": [3, 4, 5]}
    sets = {s: [[d[c * n + i] for c in cs] for i in range(n)] for s, cs in cols.items() if SETS[s][0] & mask}
    for name in ("p.vtp", "q.vtp"):
        what = "cloud of %d points%s" % (n, " written twice" if name[0] == "q" else "")
        piece = xml(job, it, name, "PolyData", what, W)
        if piece is None:
            continue
        job.check(int(piece.get("NumberOfPoints")) == n, "cloud/points", "%s: declares %s points" % (what, piece.get("NumberOfPoints")), W)
        a = piece.findall("Points/DataArray")
        X = block(job, it, a[0] if len(a) == 1 else None, n, 3, "cloud/points", what + ": points", W)
        for i, g in enumerate(X):
            for q in range(3):
                cmp(job, "cloud/points", g[q], x[3 * i + q], "%s: point %d component %d" % (what, i, q), W)
        ca = data(job, it, piece, sets, n, what, W, ["number"])
        num = block(job, it, (ca.get("number") or [None])[0], n, 1, "cloud/number", what + ": point numbers", W)
        job.check([r[0] for r in num] == [float(i) for i in range(n)], "cloud/number", what + ": points are numbered in order", W)


# ---------------------------------------------------------------- matrices
WP = "Bembel/src/IO/print2file.hpp"


def table(job, it, chars, key, what, need, want):
    """rows of whitespace separated numbers"""
    s = flatten(job, it, chars, key, what, WP)
    if s is None:
        return
    rows = [values(job, it, l, key, what, WP) for l in s.split("\n") if l.strip()]
    if not job.check([len(r) for r in rows] == [len(w) for w in want] and s.endswith("\n"), key + "/shape", "%s: rows of %s entries, required %s" % (what, [len(r) for r in rows], [len(w) for w in want]), WP):
        return
    for i, (r, w) in enumerate(zip(rows, want)):
        for j in range(len(w)):
            cmp(job, key, r[j], w[j], "%s: entry (%d,%d)" % (what, i, j), WP, need)


def j_ascii(job, m, n, how, length):
    it = interp(job, length)
    d = [var("d%d" % i) for i in range(m * n)]
    r = job.call(it, "ascii", [cstr(it, "m.txt"), reals(it, d), m, n, how], live=True)
    what = "%dx%d matrix (%s) as text" % (m, n, ["column major", "row major", "transposed expression", "expression", "over an old file"][how])
    job.check(r == 0, "ascii/result", "%s: returns %s" % (what, r), WP)
    want = [[d[j * m + i] for j in range(n)] for i in range(m)]
    if how == 2:
        want = [list(c) for c in zip(*want)]
    if how == 3:
        want = [[dom.mul(2.0, w[0])] for w in want]
    t = text(job, it, "m.txt", what, WP)
    if t is not None:
        table(job, it, t, "ascii", what, 10, want)


def evaluate(job, it, s, key, what):
    """the variables defined by a sequence of MATLAB assignments name=[rows]; and name=sparse(i,j,v[,m,n]);"""
    env = {}
    pos = 0
    while s[pos:].strip():
        m = re.compile(r"\s*(\w+)\s*=\s*(?:\[(.*?)\]|(sparse)\(([^()]*)\))\s*;", re.S).match(s, pos)
        if not job.check(bool(m), key + "/syntax", "%s: not an assignment: %r" % (what, s[pos:pos + 40]), WP):
            return env
        pos = m.end()
        if m.group(3):
            a = [x.strip() for x in m.group(4).split(",")]
            if not job.check(len(a) in (3, 5) and all(x in env for x in a[:3]), key + "/arguments", "%s: sparse(%s) of undefined variables" % (what, ",".join(a)), WP):
                return env
            i, j, v = [[val(t) for r in env[x] for t in r] for x in a[:3]]
            if not job.check(len(i) == len(j) == len(v), key + "/arguments", "%s: index and value vectors have the same length" % what, WP):
                return env
            rows, cols = (int(a[3]), int(a[4])) if len(a) == 5 else (int(max(i, default=0)), int(max(j, default=0)))
            A = [[0.0] * cols for _ in range(rows)]
            for r, c, x, t in zip(i, j, v, [t for r in env[a[2]] for t in r]):
                if not job.check(1 <= r <= rows and 1 <= c <= cols, key + "/index", "%s: index (%s,%s) outside of %dx%d" % (what, r, c, rows, cols), WP):
                    return env
                o = A[int(r) - 1][int(c) - 1]
                A[int(r) - 1][int(c) - 1] = t if o == 0.0 else dom.add(val(o), x)
            env[m.group(1)] = A
        else:
            env[m.group(1)] = [values(job, it, l, key, what, WP) for l in m.group(2).split("\n") if l.strip()]
    return env


def same(job, key, got, want, what, rows, cols):
    shape = (len(got), len(got[0]) if got else 0) if got is not None else None
    ok = shape == (rows, cols) or (got == [] and rows * cols == 0)
    if not job.check(ok and all(len(r) == cols for r in got), key + "/shape", "%s: defines a matrix of size %s, required %dx%d" % (what, shape, rows, cols), WP):
        return
    for i in range(rows):
        for j in range(cols):
            cmp(job, key, got[i][j], want[i][j], "%s: entry (%d,%d)" % (what, i + 1, j + 1), WP, 15)


def j_matlab(job, seq, m, n, length):
    """seq: list of (how, variable) written one after the other"""
    it = interp(job, length)
    put = it.put
    o = it.new_obj("t", 40, "undef")
    old = "old=[\n1 \t \n];\n"
    put(Ptr(o, 0), [ord(c) for c in old])
    job.call(it, "put", [cstr(it, "m.m"), Ptr(o, 0), len(old)], live=True)
    env = {"old": [[1.0]]}
    for q, (how, name) in enumerate(seq):
        d = [var("d%d_%d" % (q, i)) for i in range(m * n)]
        r = job.call(it, "matlab", [cstr(it, "m.m"), cstr(it, name), reals(it, d), m, n, how], live=True)
        what = "%dx%d matrices written as %s" % (m, n, seq)
        job.check((r == 0) == (how != 4), "matlab/result", "%s: returns %s" % (what, r), WP)
        w = [[d[j * m + i] for j in range(n)] for i in range(m)]
        if how in (0, 3):
            env = {}
        if how != 4:
            env[name] = w if how in (0, 1) else [list(c) for c in zip(*w)] if how == 2 else w[:1]
    s = flatten(job, it, text(job, it, "m.m", what, WP) or [], "matlab", what, WP)
    got = evaluate(job, it, s or "", "matlab", what)
    job.check(sorted(got) == sorted(env), "matlab/variables", "%s: variables %s, required %s" % (what, sorted(got), sorted(env)), WP)
    for name in env:
        if name in got:
            same(job, "matlab", got[name], env[name], what + ": " + name, len(env[name]), len(env[name][0]))


def j_sparse(job, ij, m, n, how, length):
    it = interp(job, length)
    old = "old=[\n1 \t \n];\n"
    o = it.new_obj("t", 40, "undef")
    it.put(Ptr(o, 0), [ord(c) for c in old])
    job.call(it, "put", [cstr(it, "m.m"), Ptr(o, 0), len(old)], live=True)
    d = [var("d%d" % i) for i in range(len(ij))]
    idx = it.new_obj("ij", 8 * max(1, len(ij)), "undef")
    for q, p in enumerate(ij):
        it.store(Ptr(idx, 8 * q), p[0], I32)
        it.store(Ptr(idx, 8 * q + 4), p[1], I32)
    r = job.call(it, "sparse", [cstr(it, "m.m"), cstr(it, "A"), reals(it, d), Ptr(idx, 0), len(ij), m, n, how], live=True)
    what = "%dx%d sparse matrix with entries at %s, mode %r" % (m, n, ij, ["w", "a", "x", "w"][how])
    s = flatten(job, it, text(job, it, "m.m", what, WP) or [], "sparse", what, WP)
    if how == 2:
        job.check(r != 0, "sparse/mode", "%s: an unknown mode is refused (returns %s)" % (what, r), WP)
        job.check(s == old, "sparse/mode", "%s: an unknown mode leaves the file alone" % what, WP)
        return
    job.check(r == 0, "sparse/result", "%s: returns %s" % (what, r), WP)
    got = evaluate(job, it, s or "", "sparse", what)
    job.check(("old" in got) == (how == 1), "sparse/old", "%s: earlier contents are %s" % (what, "kept" if how == 1 else "replaced"), WP)
    w = [[0.0] * n for _ in range(m)]
    for q, (i, j) in enumerate(ij):
        w[i][j] = dom.add(w[i][j], d[q])
    same(job, "sparse", got.get("A"), w, what, m, n)


BIN = ["column major", "row major", "transposed expression", "block expression", "complex", "complex row major", "vector", "absent file"]


def j_bin(job, m, n, how, to):
    it = interp(job)
    d = [var("d%d" % i) for i in range(2 * m * n)]
    o = it.new_obj("o", None, "undef")
    r = job.call(it, "bin", [cstr(it, "m.bin"), reals(it, d), m, n, how, to, Ptr(o, 0)], live=True)
    what = "%dx%d matrix, %s, read back into %s" % (m, n, BIN[how], ["a matrix", "a row major matrix", "a complex matrix", "a vector", "a non-empty matrix"][to])
    cx = how in (4, 5)
    if cx != (to == 2) or how == 7:
        job.check(r != 0, "bin/refused", "%s: a file of other contents is refused (returns %s)" % (what, r), WP)
        return
    job.check(r == 0, "bin/result", "%s: returns %s" % (what, r), WP)
    at = lambda i, j: (d[2 * (j * m + i)], d[2 * (j * m + i) + 1]) if cx else (d[j * m + i], 0.0)
    w = [[at(i, j) for j in range(n)] for i in range(m)]
    if how == 2:
        w = [list(c) for c in zip(*w)]
    if how == 3:
        w = [[tuple(dom.mul(2.0, t) for t in c) for c in w[0]]]
    if how == 6:
        w = [r[:1] for r in w]
    R, Cc = it.load(Ptr(o, 0), D), it.load(Ptr(o, 8), D)
    if not job.check((R, Cc) == (len(w), len(w[0])), "bin/shape", "%s: size %sx%s, required %dx%d" % (what, R, Cc, len(w), len(w[0])), WP):
        return
    for i in range(len(w)):
        for j in range(len(w[0])):
            for q in range(2):
                job.eq("bin/entry", it.load(Ptr(o, 16 + 16 * (j * len(w) + i) + 8 * q), D), w[i][j][q], "%s: entry (%d,%d)" % (what, i, j), where=WP)


# ---------------------------------------------------------------- logger, stopwatch
LOG = {  # how: (file, N, separator, keeps old contents, rows, also on the terminal)
    0: ("log", 10, " ", False, [["h", "err", "n"], [0, 1, 17.], [2, "str", 1234567.]], False), 1: ("log", 12, ";", False, [["h", "err", "n"], [0, 1, -5.]], False),
    2: ("default.log", 10, " ", False, [[0], [1]], False), 3: ("log", 10, " ", True, [[0, 1]], False), 4: ("log", 10, " ", True, [[0]], False), 5: ("log", 10, " ", False, [[0]], False),
    6: ("log", 20, " ", False, [[0, 1, "x"], [2, 3., "y"]], True), 7: (None, 10, " ", False, [["a", 0, 3.], [1, 2, "c"]], True), 8: ("log", 10, " ", False, [[0], [1, 2.]], False),
    9: ("default.log", 10, " ", True, [[0, 1]], False)}


def j_logger(job, how, length):
    it = interp(job, length)
    W = "Bembel/src/IO/Logger.hpp"
    name, N, sep, keep, rows, term = LOG[how]
    old = "old\n"
    for f in ("log", "default.log"):
        o = it.new_obj("t", 8, "undef")
        it.put(Ptr(o, 0), [ord(c) for c in old])
        job.call(it, "put", [cstr(it, f), Ptr(o, 0), len(old)], live=True)
    d = [var("d%d" % i) for i in range(3)]
    job.call(it, "logger", [cstr(it, "log"), reals(it, d), how], live=True)
    for f in ("log", "default.log", "<cout>"):
        what = "logger (case %d, number widths %s): %s" % (how, length, f)
        if f == "<cout>" and not term:
            continue
        chars = text(job, it, f, what, W) or []
        mine = f == name or (f == "<cout>" and term)
        s = flatten(job, it, chars, "logger", what, W)
        if s is None:
            continue
        if not mine:
            job.check(s == old, "logger/other", "%s is not touched" % what, W)
            continue
        if f != "<cout>":
            job.check(s.startswith(old) == keep, "logger/mode", "%s: earlier contents are %s" % (what, "kept" if keep else "replaced"), W)
            if keep and s.startswith(old):
                s = s[len(old):]
                chars = chars[len(old):]
            elif s.startswith(old):
                continue
        ls = s.split("\n")
        if not job.check(len(ls) == len(rows) + 1 and ls[-1] == "", "logger/rows", "%s: %d lines, required %d" % (what, len(ls) - 1, len(rows)), W):
            continue
        for i, (l, r) in enumerate(zip(ls, rows)):
            ws = [x.strip() for x in l.split(sep if sep != " " else None)]
            if not job.check(len(ws) == len(r), "logger/columns", "%s: line %d has %d columns, required %d" % (what, i, len(ws), len(r)), W):
                continue
            for j, (g, w) in enumerate(zip(ws, r)):
                if isinstance(w, str):
                    job.check(g == w, "logger/value", "%s: line %d column %d is %r, required %r" % (what, i, j, g, w), W)
                    continue
                x = number(it, g)
                if job.check(x is not None, "logger/value", "%s: line %d column %d is %r" % (what, i, j, g), W):
                    cmp(job, "logger/value", x, d[w] if isinstance(w, int) else w, "%s: line %d column %d" % (what, i, j), W, N - 4)
        if len(rows) > 1 and f != "<cout>":
            cl, _ = lines(chars)
            starts = []
            for l in cl:
                st, prev = [], True
                for q, c in enumerate(l):
                    blank = isinstance(c, int) and chr(c) in " " + sep
                    if not blank and prev:
                        st.append(q)
                    prev = blank
                starts.append(st)
            common = min(map(len, starts))
            job.check(all(s[:common] == starts[0][:common] for s in starts), "logger/aligned", "%s: columns start at %s" % (what, starts), W)


WATCH = {0: "tic toc toc tic toc", 1: "start stop", 2: "start lap lap lap stop", 3: "start stop start stop", 4: "start lap stop start lap lap stop"}


def j_watch(job, how):
    """every duration is the difference of a reading taken in its own call and one taken in the call that began the interval"""
    it = interp(job)
    W = "Bembel/src/IO/Stopwatch.hpp"
    marks = []
    it.hooks["va_mark"] = lambda it_, a, info: marks.append(it.clock)
    o = it.new_obj("o", 256, "undef")
    job.call(it, "watch", [Ptr(o, 0), how], live=True)
    calls = WATCH[how].split()
    t = lambda i: dom.mul(var("clock%d" % (i + 1)), 1e-9)
    rd = [[t(i) for i in range(marks[2 * q], marks[2 * q + 1])] for q in range(len(calls))]
    g = lambda i: it.load(Ptr(o, 8 * i), D)

    def differ(v, q, q0, base):
        return any(dom.equal(v, dom.add(base, dom.sub(a, b))) for a in rd[q] for b in rd[q0])

    def require(q, q0, what, base=0.0):
        v = g(q)
        job.check(differ(v, q, q0, base), "watch/" + calls[q], "%s: call %d (%s) %s, but gives %s" % (WATCH[how], q, calls[q], what, dom.show(v)), W)
        return v
    tot, s0, laps = 0.0, 0, []
    for q, c in enumerate(calls):
        if c in ("start", "tic"):
            s0, tot, laps = q, 0.0, []
        elif c == "toc":
            require(q, s0, "gives the time since tic")
        elif c == "lap":
            v = require(q, q - 1, "gives the time since start or the last lap")
            laps.append(v)
            tot = dom.add(tot, v)
        elif not differ(g(q), q, s0, 0.0):
            require(q, q - 1, "gives the overall time since start", tot)
        else:
            job.ok("watch/stop", "stop gives the time since start", W)
    if how in (2, 4):
        job.check(g(8) == len(laps), "watch/data", "%s: get_data has %s lap times, required %d" % (WATCH[how], g(8), len(laps)), W)
        if g(8) == len(laps):
            for i, v in enumerate(laps):
                job.eq("watch/data", g(9 + i), v, "%s: get_data gives lap %d" % (WATCH[how], i), where=W)


def j_bytes(job):
    """byte counts of binary files are computed in 64 bits: a matrix of more than 2 GB is a valid matrix"""
    it = interp(job)
    mod = it.mod
    n = 0
    for name in sorted(mod.functions):
        d = mod.dem(name)
        if "Bembel::IO::" not in d:
            continue
        f = mod.functions[name]
        defs, sites = {}, []
        for b in f.blocks:
            for l in f.blocks[b]:
                m = re.match(r"(%[-\w.$]+) = (.*)", l)
                if m:
                    defs[m.group(1)] = m.group(2)
                m = re.search(r"@(_ZNSo5writeEPKcl|_ZNSi4readEPcl|_Znam)\((.*)\) ?", l)
                if m and re.search(r"\b(call|invoke)\b", l):
                    a = re.findall(r"i64 (?:noundef )?(%[-\w.$]+|\d+)\)", l)
                    g = re.search(r"!dbg !(\d+)", l)
                    loc = mod.repo_loc(int(g.group(1)), it.root) if g else "?"
                    if "print2file" in loc and a:
                        sites.append((a[-1], loc, m.group(1)))
        for v, loc, callee in sites:
            seen, work, bad = set(), [v], None
            while work:
                r = work.pop()
                if r in seen or r not in defs:
                    continue
                seen.add(r)
                e = defs[r]
                if re.match(r"(mul|shl)\b.* i32 ", e):
                    bad = e.split(", !dbg")[0]
                if re.match(r"(mul|shl|add|or|sext|zext|select|phi|freeze|extractvalue|call|tail call)\b", e) and ("with.overflow" in e or "call" not in e[:10]):
                    work += re.findall(r"%[-\w.$]+", e.split(", !dbg")[0])
            n += 1
            what = {"_Znam": "new[]", "_ZNSo5writeEPKcl": "write", "_ZNSi4readEPcl": "read"}[callee]
            job.check(bad is None, "bin/bytes", "size passed to %s in %s is a product formed in 32 bits (%s)" % (what, d.split("(")[0], bad), loc)
    job.check(n >= 8, "bin/bytes sites", "%d calls examined" % n, WP)


def witnesses(tier):
    return {"v": (SRC, FLAGS), "m": (MAT, FLAGS)}


def jobs(tier):
    js = []
    full = tier != "quick"

    def A(fn, w, **k):
        js.append(("%s %s" % (fn, " ".join(str(x) for x in k.values())), w, "j_" + fn, k))
    A("surface", "v", topo="pair 12", M=1, mask=255)
    A("surface", "v", topo="L", M=0, mask=15, clear=240, length="mix")
    A("surface", "v", topo="box rotated", M=1, mask=17)
    A("surface", "v", topo="single", M=2, mask=130, length="mix")
    A("surface", "v", topo="apart", M=0, mask=0)
    A("surface", "v", topo="L", M=1, mask=66, first="box")
    A("surface", "v", topo="box", M=0, mask=8, first="single", length="mix")
    for op, deg in (("L", 0), ("L", 1), ("H", 1), ("M", 1)):
        for M, m in ((1, 0), (0, 1), (1, 1)):
            A("space", "v", op=op, topo="pair 12", M=M, m=m, deg=deg)
    for dims in ((2, 3, 4), (3, 1, 2), (1, 1, 1), (4, 2, 1)):
        A("domain", "v", dims=dims, mask=80)
    A("domain", "v", dims=(2, 2, 3), mask=16, clear=64, length="mix")
    for n in (1, 2, 5):
        A("cloud", "v", n=n, mask=15)
    A("cloud", "v", n=3, mask=4, clear=11, length="mix")
    A("cloud", "v", n=3, mask=0, clear=1)
    for length in ("even", "mix"):
        for how in range(5):
            A("ascii", "m", m=3, n=2, how=how, length=length)
        A("ascii", "m", m=1, n=4, how=0, length=length)
        A("matlab", "m", seq=[(0, "A")], m=2, n=3, length=length)
        A("matlab", "m", seq=[(1, "A")], m=2, n=3, length=length)
        A("matlab", "m", seq=[(0, "A"), (1, "B"), (2, "C")], m=3, n=2, length=length)
        A("matlab", "m", seq=[(2, "A"), (3, "B"), (4, "C"), (1, "D")], m=2, n=2, length=length)
        A("matlab", "m", seq=[(4, "A")], m=1, n=1, length=length)
        for how in range(4):
            A("sparse", "m", ij=[(0, 0), (2, 1), (1, 2), (2, 2)], m=3, n=3, how=how, length=length)
        A("sparse", "m", ij=[(0, 1)], m=4, n=3, how=0, length=length)
        A("sparse", "m", ij=[(1, 0), (0, 0)], m=2, n=5, how=1, length=length)
        A("sparse", "m", ij=[], m=2, n=2, how=0, length=length)
    for how in range(8):
        for to in range(5):
            if to == 3 and how not in (6,):
                continue
            A("bin", "m", m=3, n=2, how=how, to=to)
    A("bin", "m", m=1, n=5, how=1, to=0)
    A("bin", "m", m=5, n=1, how=5, to=2)
    js.append(("byte counts", "m", "j_bytes", {}))
    for how in range(len(LOG)):
        for length in ("even", "mix"):
            A("logger", "m", how=how, length=length)
    for how in range(5):
        A("watch", "m", how=how)
    return js
