"""geometry files: what is written is read back, what is read is what the file says"""
import re

from va import dom
from va.contracts import use_trisolve
from va.rig import D, I32, I64, P, Ptr, VERIF
from va.spec import in_span, unique
from va.text import FIXED, SCI, Chr, Tok, TextInterp, lines, plain, words

PID = "C09"
EXPLAIN = ("The readers and writers of geometry files are interpreted together with a stand-in for the stream headers in which files are named texts; the text of an "
           "unknown control point is a token of abstract characters whose length varies over a table.  A file assembled from its format definition must be read to exactly its control "
           "points and knots, in its order, for every layout variant (line endings, blanks, degrees, interior knots, path names); a written file must obey the record layout of its format, carry "
           "enough digits, and be read back to the same surfaces.  Equality is decided by evaluating both geometries at an unknown reference point.")
MIN_OBLIGATIONS = {"quick": 150}
ASSUMPTIONS = ["real arithmetic; numbers are read back up to the rounding of the requested number of digits", "semantics of the C++ stream classes as in witness/shim/vastream.hpp"]
FLAGS = ["-include", VERIF + "/witness/shim/pre.hpp", "-I" + VERIF + "/witness/shim"]
SRC = """
#include <Bembel/Geometry>
using namespace Bembel;
extern "C" void put(const char *name, const char *data, long n) { VA::File *f = VA::get(name); f->data.assign(data, n); }
extern "C" const std::string *content(const char *name) { VA::File *f = VA::find(name); return f ? &f->data : nullptr; }
extern "C" int nfiles() { return VA::fs().n; }
extern "C" const char *fname(int i) { return VA::fs().f[i].name.c_str(); }
extern "C" PatchVector *fresh() { return new PatchVector; }
extern "C" void add(PatchVector *v, int nx, int ny, int nkx, const double *kx, int nky, const double *ky, const double *cp) {
  std::vector<Eigen::MatrixXd> m(4, Eigen::MatrixXd(ny, nx));
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) for (int k = 0; k < 4; ++k) m[k](j, i) = cp[4 * (j * nx + i) + k];
  Patch p; p.init_Patch(m, std::vector<double>(kx, kx + nkx), std::vector<double>(ky, ky + nky)); v->push_back(p);
}
extern "C" PatchVector *shred(const PatchVector *v) { return new PatchVector(PatchShredder(*v)); }
extern "C" int npatch(const PatchVector *v) { return v->size(); }
extern "C" void ev(const PatchVector *v, int i, double x, double y, double *o) {
  Eigen::Vector3d p = (*v)[i].eval(Eigen::Vector2d(x, y)); o[0] = p(0); o[1] = p(1); o[2] = p(2);
}
extern "C" PatchVector *load(const char *name, int how) {
  switch (how) {
    case 0: { Geometry g((std::string(name))); return new PatchVector(g.get_geometry()); }
    case 1: { Geometry g; g.init_Geometry(name); return new PatchVector(g.get_geometry()); }
    case 2: return new PatchVector(LoadGeometryFileDAT(name));
    case 3: return new PatchVector(LoadGeometryFileIGS(name));
    case 4: { Geometry g((std::string(name))); g.init_Geometry(name); return new PatchVector(g.get_geometry()); }
  }
  return nullptr;
}
extern "C" void save(const PatchVector *v, const char *name, int how, int prec) {
  VA::get(name)->data = "earlier contents ";
  switch (how) {
    case 0: WriteDATFile(*v, name); break;
    case 1: writeIGSFile(*v, name); break;
    case 2: writeIGSFile(*v, name, prec); break;
  }
}
extern "C" int objects(const PatchVector *v, int what, const double *c, PatchVector **out) {
  Geometry *g = new Geometry(*v);
  switch (what) {
    case 0: { Geometry h(*g); h.get_geometry()[0].data_[0] = c[0]; out[0] = &g->get_geometry(); out[1] = &h.get_geometry(); int n = h.get_number_of_patches(); static Geometry keep(h); out[1] = &keep.get_geometry(); return n; }
    case 1: { static Geometry h; h = *g; h.get_geometry()[0].data_[0] = c[0]; out[0] = &g->get_geometry(); out[1] = &h.get_geometry(); return h.get_number_of_patches(); }
    case 2: { static Geometry h(std::move(*g)); h.get_geometry()[0].data_[0] = c[0]; out[0] = nullptr; out[1] = &h.get_geometry(); delete g; return h.get_number_of_patches(); }
    case 3: { PatchVector *w = new PatchVector(*v); Geometry *h = new Geometry(*w); (*w)[0].data_[0] = c[0]; out[0] = &h->get_geometry(); out[1] = w; return h->get_number_of_patches(); }
    case 4: { auto p = g->get_geometry_ptr(); const Geometry &k = *g; auto q = k.get_geometry_ptr(); (*p)[0].data_[0] = c[0]; out[0] = nullptr; out[1] = &g->get_geometry(); return p == q && &k.get_geometry() == p.get() ? k.get_number_of_patches() : -1; }
  }
  return -1;
}
"""
B = {1: [0, 1], 2: [0, 0, 1, 1], 3: [0, 0, 0, 1, 1, 1], 4: [0, 0, 0, 0, 1, 1, 1, 1]}
I2 = [0, 0, .25, 1, 1]
I3 = [0, 0, 0, .5, .5, 1, 1, 1]
I3b = [0, 0, 0, .25, .75, 1, 1, 1]
GEO = {  # lists of (knots_x, order_x, knots_y, order_y)
    "one": [(B[2], 2, B[2], 2)],
    "mixed": [(B[3], 3, B[2], 2), (B[2], 2, B[4], 4), (B[1], 1, B[3], 3)],
    "inner": [(I2, 2, B[3], 3), (B[2], 2, I3, 3), (B[2], 2, B[2], 2), (I2, 2, I3b, 3)],
    "many": [(B[2], 2, B[3], 3)] * 6,
}
LEN = {  # widths of the text of the i-th unknown number
    "wide": lambda i: 17 + i % 4, "narrow": lambda i: 1 + (i * 7 + i // 5) % 8, "even": lambda i: 9, "long": lambda i: 22 - i % 2, "short": lambda i: 1 + i % 2,
    "mix": lambda i: 1 + (i * i + 3 * i) % 21, "edge": lambda i: (20, 21, 20, 1)[i % 4], "b": lambda i: (15, 16, 15, 14, 31, 32)[i % 6],
}


class File:
    """a text under construction"""

    def __init__(self, it):
        self.it, self.c = it, []

    def __call__(self, *xs):
        for x in xs:
            if isinstance(x, str):
                self.c += [ord(ch) for ch in x]
            elif isinstance(x, int):
                self.c += [ord(ch) for ch in str(x)]
            else:
                self.c += self.it.text_of(x, FIXED, 15)
        return self


def cstring(it, s):
    o = it.new_obj("str", len(s) + 1, "undef")
    it.put(Ptr(o, 0), [ord(c) for c in s] + [0])
    return Ptr(o, 0)


def put(job, it, name, chars):
    o = it.new_obj("text", len(chars) + 1, "undef")
    it.put(Ptr(o, 0), chars + [0])
    job.call(it, "put", [cstring(it, name), Ptr(o, 0), len(chars)], live=True)


def points(spec, i):
    """unknown control points of patch i: rows j (y), columns k (x); weights positive"""
    kx, px, ky, py = spec
    nx, ny = len(kx) - px, len(ky) - py
    c = {}
    for j in range(ny):
        for k in range(nx):
            w = dom.var("w%d_%d_%d" % (i, k, j))
            dom.assume_pos(w)
            c[k, j] = [dom.var("%s%d_%d_%d" % (n, i, k, j)) for n in "xyz"] + [w]
    return nx, ny, c


def reals(it, vals):
    o = it.new_obj("reals", 8 * max(1, len(vals)), "undef")
    for i, v in enumerate(vals):
        it.store(Ptr(o, 8 * i), v, D)
    return Ptr(o, 0)


def build(job, it, specs, pts, affine):
    """PatchVector made by init_Patch directly; affine: points given without weight factor"""
    v = job.call(it, "fresh", [], live=True)
    for (kx, px, ky, py), (nx, ny, c) in zip(specs, pts):
        flat = []
        for j in range(ny):
            for k in range(nx):
                x, y, z, w = c[k, j]
                flat += [dom.mul(x, w), dom.mul(y, w), dom.mul(z, w), w] if affine else [x, y, z, w]
        job.call(it, "add", [v, nx, ny, len(kx), reals(it, [float(t) for t in kx]), len(ky), reals(it, [float(t) for t in ky]), reals(it, flat)], live=True)
    return v


def same(job, it, key, what, got, want, where, cells=None):
    """the same number of patches, each the same surface; cells: the knot vectors of the patches, if not shredded"""
    n, m = job.call(it, "npatch", [got]), job.call(it, "npatch", [want])
    if not job.check(n == m, key + "/patches", "%s: %s patches, expected %s" % (what, n, m), where):
        return
    for i in range(n):
        kx, ky = ([0, 1], [0, 1]) if cells is None else (cells[i][0], cells[i][2])
        for s in range(len(unique(kx)) - 1):
            for t in range(len(unique(ky)) - 1):
                x, y = dom.var("x%d_%d" % (i, s) if len(unique(kx)) > 2 else "x"), dom.var("y%d_%d" % (i, t) if len(unique(ky)) > 2 else "y")
                in_span(x, kx, s)
                in_span(y, ky, t)
                a, b = it.new_obj("a", 24, "undef"), it.new_obj("b", 24, "undef")
                job.call(it, "ev", [got, i, x, y, Ptr(a, 0)])
                job.call(it, "ev", [want, i, x, y, Ptr(b, 0)])
                for k in range(3):
                    job.eq("%s/patch" % key, it.load(Ptr(a, 8 * k), D), it.load(Ptr(b, 8 * k), D), "%s: patch %d, knot cell (%d,%d), component %s at an unknown point" % (what, i, s, t, "xyz"[k]), where=where)


def dat_text(it, specs, pts, eol, trail, sep, counts):
    f = File(it)
    f("# nurbs mesh v.2.1", eol, "# cube 2 3 5", eol, "# any comment", eol, "#", eol)
    f("2 3 ", len(specs), counts, trail, eol)
    for i, ((kx, px, ky, py), (nx, ny, c)) in enumerate(zip(specs, pts)):
        f("PATCH ", i + 1, trail, eol, px - 1, " ", py - 1, trail, eol, nx, sep, ny, trail, eol)
        for kn in (kx, ky):
            for q, t in enumerate(kn):
                f(sep if q else "", "%.15f" % t)
            f(trail, eol)
        for k in range(4):
            for j in range(ny):
                for l in range(nx):
                    f(sep if (j or l) else "", c[l, j][k])
            f(trail, eol)
    return f.c


def igs_text(it, specs, pts, widths):
    """IGES text assembled from the definition of entity 128"""
    f = File(it)

    def line(s, letter, n):
        s = list(s)
        f.c += s + [32] * (72 - len(s)) + [ord(ch) for ch in "%s%7d\n" % (letter, n)]
    O = lambda s: [ord(ch) for ch in s]
    line(O(""), "S", 1)
    line(O("a surface with D and P in its text"), "S", 2)
    line(O("1H,,1H;,4HSLOT,37H$1$DUA2:[IGESLIB.BDRAFT.B2I]SLOT.IGS;,"), "G", 1)
    line(O("17HBravo3 BravoDRAFT,31HBravo3->IGES V3.002 (02-Oct-87),32,38,6,38,15;"), "G", 2)
    patch_lines = []
    for (kx, px, ky, py), (nx, ny, c) in zip(specs, pts):
        items = ["128", str(nx - 1), str(ny - 1), str(px - 1), str(py - 1), "0", "0", "1", "0", "0"] + ["%g" % t for t in kx] + ["%g" % t for t in ky]
        items += [c[k, j][3] for j in range(ny) for k in range(nx)]
        items += [c[k, j][d] for j in range(ny) for k in range(nx) for d in range(3)]
        items += ["0.", "1.", "0.", "1."]
        ls, cur = [], []
        for q, x in enumerate(items):
            w = O(x) if isinstance(x, str) else it.text_of(x, 0, 15)
            w = w + O("," if q < len(items) - 1 else ";")
            if len(cur) + len(w) > widths:
                ls.append(cur)
                cur = []
            cur = cur + w
        patch_lines.append(ls + [cur])
    start = 1
    for i, ls in enumerate(patch_lines):
        line(O("%8d%8d%8d%8d%8d%8d%8d%8d%8d" % (128, start, 0, 0, 0, 0, 0, 0, 0)), "D", 2 * i + 1)
        line(O("%8d%8d%8d%8d%8d%8s%8s%8s%8d" % (128, 0, 0, len(ls), 0, "", "", "", 0)), "D", 2 * i + 2)
        start += len(ls)
    n = 1
    for i, ls in enumerate(patch_lines):
        for l in ls:
            line(l + [32] * (64 - len(l)) + O("%8d" % (2 * i + 1)), "P", n)
            n += 1
    line(O("S%7dG%7dD%7dP%7d" % (2, 2, 2 * len(specs), n - 1)), "T", 1)
    return f.c


def interp(job, length):
    it = job.interp(cls=TextInterp, lengths=LEN[length])
    use_trisolve(it)
    it.loopmax = 100000
    return it


def j_read(job, geo, fmt, name, how, length, eol="\n", trail="", sep=" ", counts=" 0 0", widths=64):
    it = interp(job, length)
    specs = GEO[geo]
    pts = [points(s, i) for i, s in enumerate(specs)]
    text = dat_text(it, specs, pts, eol, trail, sep, counts) if fmt == "dat" else igs_text(it, specs, pts, widths)
    put(job, it, name, text)
    got = job.call(it, "load", [cstring(it, name), how])
    want = build(job, it, specs, pts, fmt == "igs")
    if how in (0, 1, 4):
        want = job.call(it, "shred", [want])
    what = "%s file '%s' of the geometry '%s' (line end %r, trailing %r, separator %r, number widths %s)" % (fmt, name, geo, eol, trail, sep, length)
    same(job, it, "read %s" % fmt, what, got, want, "Bembel/src/Geometry/Geometry%s.hpp" % ("IO" if fmt == "dat" else "IGS"), None if how in (0, 1, 4) else specs)
    job.check(len(it.reads) >= len(it.toks), "read %s/all" % fmt, "%s: %d of %d numbers are read" % (what, len(it.reads), len(it.toks)))


def digits(t):
    """(absolute decimals, significant digits) guaranteed by the style"""
    if t.flags & FIXED:
        return t.prec, 0
    if t.flags & SCI:
        return 0, t.prec + 1
    return 0, max(t.prec, 1)


def j_write(job, geo, fmt, name, length, prec=None, twice=False):
    it = interp(job, length)
    specs = GEO[geo]
    pts = [points(s, i) for i, s in enumerate(specs)]
    v = build(job, it, specs, pts, False)
    if twice:
        put(job, it, name, [ord(c) for c in "stale text " * 40])
    how = 0 if fmt == "dat" else 1 if prec is None else 2
    job.call(it, "save", [v, cstring(it, name), how, prec or 0])
    where = "Bembel/src/Geometry/Geometry%s.hpp" % ("IO" if fmt == "dat" else "IGS")
    what = "geometry '%s' written to '%s'%s (number widths %s)" % (geo, name, "" if prec is None else " with precision %d" % prec, length)
    p = job.call(it, "content", [cstring(it, name)])
    if not job.check(isinstance(p, Ptr), "write %s/file" % fmt, what + ": the file exists", where):
        return
    text = it.string(p)
    # nothing else is written
    for i in range(job.call(it, "nfiles", [])):
        s = bytes(it.scan(job.call(it, "fname", [i]))).decode()
        job.check(s in (name, "<cout>", "<cerr>"), "write %s/only" % fmt, "%s: only that file is written (%s)" % (what, s), where)
    need = 15 if fmt == "dat" else (prec or 6)
    for t in it.toks:
        a, s = digits(t)
        job.check(a >= need if fmt == "dat" and t.flags & FIXED else s >= need, "write %s/digits" % fmt,
                  "%s: number written with %s, needed %d digits" % (what, t.style(), need), t.where)
    if fmt == "igs":
        layout(job, text, specs, what, where)
    else:
        ls, rest = lines(text)
        job.check(not rest and len(ls) == 5 + 9 * len(specs), "write dat/lines", "%s: %d lines" % (what, len(ls)), where)
    for how2 in ((0, 2) if fmt == "dat" else (0, 3)):
        got = job.call(it, "load", [cstring(it, name), how2])
        same(job, it, "round trip %s" % fmt, what + " and read by " + ("Geometry" if how2 == 0 else "the loader"), got, v, where)


def layout(job, text, specs, what, where):
    ls, rest = lines(text)
    job.check(not rest, "write igs/terminated", what + ": the last line is terminated", where)
    bad = [i for i, l in enumerate(ls) if len(l) != 80]
    job.check(not bad, "write igs/width", "%s: every record has 80 columns (line %s has %s)" % (what, bad[:1] and bad[0] + 1, bad and len(ls[bad[0]])), where)
    if bad:
        return
    sec = [chr(l[72]) if isinstance(l[72], int) else "#" for l in ls]
    s = "".join(sec)
    m = re.match(r"^(S+)(G+)(D+)(P+)T$", s)
    if not job.check(bool(m), "write igs/sections", "%s: sections S G D P T in order (%s)" % (what, re.sub(r"(.)\1+", r"\1", s)), where):
        return
    cnt = {}
    for l, c in zip(ls, sec):
        cnt[c] = cnt.get(c, 0) + 1
        job.check(plain(l[73:]) == "%7d" % cnt[c], "write igs/sequence", "%s: sequence number of %s%d is %r" % (what, c, cnt[c], plain(l[73:])), where)
    par = [l for l, c in zip(ls, sec) if c == "P"]
    dirs = [l for l, c in zip(ls, sec) if c == "D"]
    job.check(len(dirs) == 2 * len(specs), "write igs/directory", "%s: two directory records per patch" % what, where)
    nxt = 1
    for i in range(len(dirs) // 2):
        a = [plain(dirs[2 * i][8 * k:8 * k + 8]).strip() for k in range(9)]
        b = [plain(dirs[2 * i + 1][8 * k:8 * k + 8]).strip() for k in range(9)]
        job.check(a[0] == b[0] == "128" and a[1] == str(nxt), "write igs/pointer", "%s: directory entry %d points to parameter line %s, expected %d" % (what, i, a[1], nxt), where)
        n = int(b[3]) if b[3].isdigit() else 0
        job.check(n > 0, "write igs/count", "%s: directory entry %d counts %s parameter lines" % (what, i, b[3]), where)
        mine = par[nxt - 1:nxt - 1 + n]
        for q, l in enumerate(mine):
            job.check(plain(l[64:72]) == "%8d" % (2 * i + 1), "write igs/back pointer", "%s: parameter line %d points back to %r" % (what, nxt + q, plain(l[64:72])), where)
        body = [c for l in mine for c in l[:64] if c != 32]
        w = words(body, ",")
        want = 16 + len(specs[i][0]) + len(specs[i][2]) + 4 * (len(specs[i][0]) - specs[i][1]) * (len(specs[i][2]) - specs[i][3])
        ends = [q for l in mine for q in (l[:64],)]
        tail = [plain(l[:64]).rstrip()[-1:] for l in ends]
        job.check(all(t == "," for t in tail[:-1]) and tail[-1:] == [";"], "write igs/records", "%s: parameters of patch %d are separated by commas and end with a semicolon" % (what, i), where)
        job.check(len(w) == want, "write igs/parameters", "%s: patch %d has %d parameters, expected %d" % (what, i, len(w), want), where)
        nxt += n
    job.check(nxt - 1 == len(par), "write igs/all lines", "%s: the directory covers %d of %d parameter lines" % (what, nxt - 1, len(par)), where)
    t = plain(ls[-1][:72])
    got = {x[1]: int(x[0]) for x in re.findall(r"(\d+)([SGDP])", t)}
    if not got:
        got = {x[0]: int(x[1]) for x in re.findall(r"([SGDP]) *(\d+)", t)}
    job.check(got == {c: cnt[c] for c in "SGDP"}, "write igs/terminate", "%s: the terminate record counts %s, the file has %s" % (what, got, {c: cnt[c] for c in "SGDP"}), where)


OBJ = ["copy constructed", "assigned", "moved", "constructed from a patch vector", "shared through get_geometry_ptr"]


def j_objects(job, what):
    it = interp(job, "even")
    specs = GEO["mixed"]
    pts = [points(s, i) for i, s in enumerate(specs)]
    v = build(job, it, specs, pts, False)
    mod = [points(s, i) for i, s in enumerate(specs)]
    q = dom.var("q")
    mod[0][2][0, 0][0] = q
    changed = build(job, it, specs, mod, False)
    out = it.new_obj("out", 16, "undef")
    n = job.call(it, "objects", [v, what, reals(it, [q]), Ptr(out, 0)])
    where = "Bembel/src/Geometry/Geometry.hpp"
    job.check(n == len(specs), "object/count", "geometry %s: %s patches" % (OBJ[what], n), where)
    a, b = it.load(Ptr(out, 0), P), it.load(Ptr(out, 8), P)
    if a != 0:
        same(job, it, "object/source", "geometry %s: the source keeps its surfaces when the other is changed" % OBJ[what], a, v, where)
    same(job, it, "object/target", "geometry %s: the object has the surfaces of its source, with the change" % OBJ[what], b, changed, where)


def witnesses(tier):
    return {"g": (SRC, FLAGS)}


def jobs(tier):
    js = []
    full = tier != "quick"

    def R(**k):
        js.append(("read %s" % " ".join("%s" % repr(x) if i else str(x) for i, x in enumerate(k.values())), "g", "j_read", k))

    def Wr(**k):
        js.append(("write %s" % " ".join(str(x) for x in k.values()), "g", "j_write", k))
    for how in (0, 1, 2, 4):
        R(geo="mixed", fmt="dat", name="x.dat", how=how, length="wide")
    for eol in ("\n", "\r\n"):
        for trail in ("", " "):
            for sep in (" ", "   ", "\t"):
                R(geo="one" if sep != " " else "mixed", fmt="dat", name="a.dat", how=0, length="narrow", eol=eol, trail=trail, sep=sep)
    R(geo="inner", fmt="dat", name="in.dat", how=0, length="mix")
    R(geo="inner", fmt="dat", name="in.dat", how=2, length="wide", eol="\r\n", trail=" ", counts=" 12 0")
    R(geo="one", fmt="dat", name="c.dat", how=0, length="wide", counts=" 12 34 ")
    for name in ("./x.dat", "../geo/x.dat", "/a.b/c.d/x.y.dat", "dir/.dat", "igs.dat"):
        R(geo="one", fmt="dat", name=name, how=0, length="even")
    R(geo="many", fmt="dat", name="many.dat", how=0, length="mix", eol="\r\n")
    for how in (0, 1, 3, 4):
        R(geo="mixed", fmt="igs", name="x.igs", how=how, length="mix")
    for length in ("narrow", "wide", "edge", "b", "short"):
        R(geo="mixed", fmt="igs", name="x.igs", how=3, length=length)
    R(geo="inner", fmt="igs", name="x.igs", how=0, length="narrow")
    R(geo="inner", fmt="igs", name="x.igs", how=3, length="wide")
    R(geo="many", fmt="igs", name="x.igs", how=3, length="mix")
    for name in ("./x.igs", "../g.d/x.igs", "dat.igs"):
        R(geo="one", fmt="igs", name=name, how=0, length="even")
    for length in ("wide", "narrow", "mix"):
        Wr(geo="mixed", fmt="dat", name="out.dat", length=length)
    Wr(geo="many", fmt="dat", name="./o.dat", length="wide")
    Wr(geo="one", fmt="dat", name="o.dat", length="long", twice=True)
    for length in LEN:
        Wr(geo="mixed", fmt="igs", name="out.igs", length=length)
    Wr(geo="mixed", fmt="igs", name="o.igs", length="wide", prec=15)
    Wr(geo="one", fmt="igs", name="o.igs", length="long", prec=16)
    Wr(geo="many", fmt="igs", name="./o.igs", length="b", prec=10)
    Wr(geo="one", fmt="igs", name="o.igs", length="mix", twice=True)
    Wr(geo="one", fmt="igs", name="/" + "D" * 33 + "/" + "PDSG" * 20 + "/o.igs", length="mix")
    for w in range(len(OBJ)):
        js.append(("geometry %s" % OBJ[w], "g", "j_objects", dict(what=w)))
    return js
