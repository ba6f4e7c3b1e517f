"""the headers as an interface: self-contained, order independent, linkable, instantiable, type-safe"""
import itertools
import os
import re
import shutil
import subprocess
import tempfile

from va import rig
from va.rig import Broken

PID = "C19"
EXPLAIN = ("Every module header under Bembel/ is type-checked alone, doubled, and in forward, backward (thorough: pairwise) order by the compiler front end; "
           "the LLVM IR of a translation unit with all modules is scanned for definitions with strong external linkage; every public template is explicitly "
           "instantiated for each scalar and operator of a table; misuse programs must be rejected while their twins that differ in one type are accepted.")
MIN_OBLIGATIONS = {"quick": 100}
ASSUMPTIONS = ["clang 18 and g++ 13 front ends, -std=gnu++11"]
FL = ["-std=gnu++11", "-I/usr/include/eigen3"]


def modules():
    d = os.path.join(rig.REPO, "Bembel")
    return sorted(f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)) and not f.startswith("."))


def cc(src, args=("-fsyntax-only",), comp="clang++"):
    t = tempfile.mkdtemp(prefix="va-C19-")
    try:
        with open(t + "/w.cpp", "w") as f:
            f.write(src)
        r = subprocess.run([comp] + FL + ["-I" + rig.REPO] + list(args) + ["w.cpp"], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode == 0, r.stdout
    except OSError as e:
        raise Broken("cannot run %s: %s" % (comp, e))
    finally:
        shutil.rmtree(t, ignore_errors=True)


_PCH = {}


def pch():
    """precompiled module headers, one per worker process and tree; removed when the process ends"""
    if "d" not in _PCH:
        d = tempfile.mkdtemp(prefix="va-C19-pch-")
        _PCH["d"] = d
        with open(d + "/all.hpp", "w") as f:
            f.write(inc(modules()))
        r = subprocess.run(["clang++"] + FL + ["-I" + rig.REPO, "-x", "c++-header", "-fpch-instantiate-templates", "all.hpp", "-o", "all.pch"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        _PCH["ok"] = r.returncode == 0
    return _PCH["d"], _PCH["ok"]


def group(job, parts):
    """several obligations that share one precompiled header"""
    try:
        pch()
        for fn, kw in parts:
            globals()[fn](job, **kw)
    finally:
        shutil.rmtree(_PCH.pop("d"), ignore_errors=True)


def ccall(body):
    """compile body behind all modules"""
    d, ok = pch()
    if ok:
        return cc(body, ("-fsyntax-only", "-include-pch", d + "/all.pch"))
    return cc(inc(modules()) + body)


def diag(out):
    m = re.search(r"^(\S+?:\d+)(?::\d+)?: (?:fatal )?error: (.*)$", out, re.M)
    w = m.group(1) if m else ""
    if w.startswith(rig.REPO):
        w = w[len(rig.REPO) + 1:]
    return w, (m.group(2) if m else out[:300])


def must(job, key, src, what, comp="clang++"):
    ok, out = cc(src, comp=comp)
    w, d = diag(out)
    job.check(ok, key, what + ("" if ok else ": " + d), w)
    return ok


def inc(hs):
    return "".join("#include <Bembel/%s>\n" % h for h in hs)


def header(job, h):
    for comp in ("clang++", "g++") if job.tier == "thorough" else ("clang++",):
        must(job, "alone:%s:%s" % (h, comp), inc([h]), "a program that includes only <Bembel/%s> compiles" % h, comp)


def order(job, pairs):
    ms = modules()
    must(job, "order:forward", inc(ms + ms), "all modules in alphabetical order, each included twice", "g++")
    must(job, "order:backward", inc(ms[::-1]), "all modules in reverse order")
    if pairs:
        for a, b in itertools.permutations(ms, 2):
            must(job, "order:%s,%s" % (a, b), inc([a, b]), "<Bembel/%s> before <Bembel/%s>" % (a, b))


def linkage(job, hs):
    """a definition in a header must be inline, a template, static or constant: otherwise two translation units do not link"""
    # a user type mentions nothing of the library, so every strong symbol comes from a header
    ok, out = cc(inc(hs), ("-S", "-emit-llvm", "-O0", "-gline-tables-only", "-o", "/dev/stdout"))
    if not ok:
        w, d = diag(out)
        job.fail("linkage:build", "modules %s do not build: %s" % (",".join(hs), d), w)
        return
    md = dict(re.findall(r"^(!\d+) = (.*)$", out, re.M))
    n = 0
    for line in out.splitlines():
        if line.startswith("define "):
            n += 1
            head = line.split("@", 1)[0]
            name = re.match(r'define .*?@("?[\w.$]+"?)\(', line)
            name = name.group(1) if name else line[:80]
            if re.search(r"\b(linkonce_odr|internal|private|weak_odr|linkonce|available_externally)\b", head):
                continue
            where = ""
            m = re.search(r"!dbg (!\d+)", line)
            if m:
                sp = md.get(m.group(1), "")
                fm, lm = re.search(r"file: (!\d+)", sp), re.search(r"line: (\d+)", sp)
                if fm and lm:
                    fn = re.search(r'filename: "([^"]*)"', md.get(fm.group(1), ""))
                    where = "%s:%s" % (fn.group(1).replace(rig.REPO + "/", "") if fn else "?", lm.group(1))
            dn = subprocess.run(["c++filt", name.strip('"')], stdout=subprocess.PIPE, text=True).stdout.strip()
            job.fail("linkage:%s" % name, "%s is defined in a header with strong external linkage: two translation units that include it do not link" % dn, where)
        elif re.match(r"@[^ ]+ = ", line) and re.search(r"\b(global|constant)\b", line):
            n += 1
            if re.search(r"= .*\b(linkonce_odr|internal|private|weak_odr|linkonce|external|appending|common)\b", line.split(" global ")[0].split(" constant ")[0]):
                continue
            job.fail("linkage:%s" % line.split(" ", 1)[0], "variable %s is defined in a header with strong external linkage" % line.split(" ", 1)[0], "")
    job.ok("linkage:%s" % "+".join(hs), "%d definitions in the translation unit, none with strong external linkage" % n)


OPS = ["LaplaceSingleLayerOperator", "LaplaceDoubleLayerOperator", "LaplaceAdjointDoubleLayerOperator", "LaplaceHypersingularOperator",
       "HelmholtzSingleLayerOperator", "HelmholtzDoubleLayerOperator", "HelmholtzAdjointDoubleLayerOperator", "HelmholtzHypersingularOperator",
       "MaxwellSingleLayerOperator", "HomogenisedLaplaceSingleLayerOperator"]
LOCAL = ["MassMatrixScalarDisc", "MassMatrixScalarCont", "LaplaceBeltramiOperator"]
PRE = """
using namespace Bembel;
typedef std::complex<double> Z;
template <class O> struct Tr { typedef typename LinearOperatorTraits<O>::Scalar S; typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M; enum { C = getFunctionSpaceOutputDimension<LinearOperatorTraits<O>::Form>() }; };
"""
SPACE = """template struct Bembel::SuperSpace<%(o)s>; template class Bembel::AnsatzSpace<%(o)s>; template class Bembel::Glue<%(o)s>; template class Bembel::Projector<%(o)s>;
void fe(const AnsatzSpace<%(o)s> &a) { FunctionEvaluator<%(o)s> f(a), g, h(f), k(std::move(h)); g = f; k = std::move(f); g.set_function(Eigen::Matrix<Tr<%(o)s>::S, Eigen::Dynamic, 1>());
  g.evaluateOnPatch(0, Eigen::Vector2d(0, 0)); Eigen::Matrix<Tr<%(o)s>::S, Tr<%(o)s>::C, 1> v = g.evaluate(*a.get_superspace().get_mesh().get_element_tree().cpbegin(), SurfacePoint()); (void)v; }
"""
OP = """template struct Bembel::LinearOperatorBase<%(o)s>; template class Bembel::DiscreteOperator<Tr<%(o)s>::M, %(o)s>; template class Bembel::DiscreteOperator<Eigen::H2Matrix<Tr<%(o)s>::S>, %(o)s>;
void go(const AnsatzSpace<%(o)s> &a) { DiscreteOperator<Tr<%(o)s>::M, %(o)s> d(a); d.compute(); const Tr<%(o)s>::M &m = d.get_discrete_operator(); (void)m;
  DiscreteOperator<Eigen::H2Matrix<Tr<%(o)s>::S>, %(o)s> h(a); h.compute(); Eigen::Matrix<Tr<%(o)s>::S, Eigen::Dynamic, 1> x = h.get_discrete_operator() * Eigen::Matrix<Tr<%(o)s>::S, Eigen::Dynamic, 1>(); }
"""
LOP = """void go(const AnsatzSpace<%(o)s> &a) { DiscreteLocalOperator<%(o)s> d(a); d.compute(); const Eigen::SparseMatrix<Tr<%(o)s>::S> &m = d.get_discrete_operator(); (void)m; }
"""
FORMS = [("DirichletTrace", 1), ("NeumannTrace", 1), ("TangentialTrace", 2), ("RotatedTangentialTrace", 2)]
FORM = """template class Bembel::%(f)s<%(s)s>; template class Bembel::DiscreteLinearForm<%(f)s<%(s)s>, %(o)s>;
void lf(const AnsatzSpace<%(o)s> &a) { DiscreteLinearForm<%(f)s<%(s)s>, %(o)s> d(a); d.compute(); Eigen::Matrix<%(s)s, Eigen::Dynamic, 1> v = d.get_discrete_linear_form(); (void)v;
  const LinearFormBase<%(f)s<%(s)s>, %(s)s> &b = d.get_linear_form(); SuperSpace<%(o)s> ss; SurfacePoint p; Eigen::Matrix<%(s)s, Eigen::Dynamic, %(c)d> i; b.evaluateIntegrand(ss, p, &i); }
"""
POTS = [("LaplaceSingleLayerPotential", "LaplaceSingleLayerOperator", "double", 1), ("LaplaceSingleLayerPotential", "HelmholtzSingleLayerOperator", "Z", 1),
        ("LaplaceDoubleLayerPotential", "LaplaceDoubleLayerOperator", "double", 1), ("LaplaceDoubleLayerPotential", "LaplaceHypersingularOperator", "double", 1),
        ("LaplaceSingleLayerPotentialGradient", "LaplaceSingleLayerOperator", "double", 3), ("HelmholtzSingleLayerPotential", "HelmholtzSingleLayerOperator", "Z", 1),
        ("HelmholtzSingleLayerPotential", "LaplaceSingleLayerOperator", "Z", 1), ("HelmholtzDoubleLayerPotential", "HelmholtzDoubleLayerOperator", "Z", 1),
        ("HelmholtzDoubleLayerPotential", "HelmholtzHypersingularOperator", "Z", 1), ("MaxwellSingleLayerPotential", "MaxwellSingleLayerOperator", "Z", 3),
        ("HomogenisedLaplaceSingleLayerPotential", "HomogenisedLaplaceSingleLayerOperator", "double", 1)]
POT = """template class Bembel::%(p)s<%(o)s>; template class Bembel::DiscretePotential<%(p)s<%(o)s>, %(o)s>;
void po(const AnsatzSpace<%(o)s> &a) { DiscretePotential<%(p)s<%(o)s>, %(o)s> d(a); d.set_cauchy_data(Eigen::Matrix<Tr<%(o)s>::S, Eigen::Dynamic, 1>());
  Eigen::Matrix<%(s)s, Eigen::Dynamic, %(d)d> v = d.evaluate(Eigen::Matrix<double, Eigen::Dynamic, 3>()); (void)v;
  const PotentialBase<%(p)s<%(o)s>, %(o)s> &b = d.get_potential(); b.evaluateIntegrand(FunctionEvaluator<%(o)s>(), ElementTreeNode(), Eigen::Vector3d(), SurfacePoint()); }
"""
MISC = {
    "H2Matrix<double>": "template class Eigen::H2Matrix<double>;", "H2Matrix<complex>": "template class Eigen::H2Matrix<Z>;",
    "TreeLeaf": "template class Bembel::TreeLeaf<Eigen::MatrixXd>; template class Bembel::TreeLeaf<Eigen::MatrixXcd>;",
    "BlockClusterTree": "template class Bembel::BlockClusterTree<double>; template class Bembel::BlockClusterTree<Z>;",
    "GenericMatrix": "template class Bembel::GenericMatrix<Eigen::MatrixXd>; template class Bembel::GenericMatrix<BlockClusterTree<Z>>;",
    "PSpecificBasisHandler<double>": "template class Bembel::Basis::PSpecificBasisHandler<Constants::MaxP, double>;",
    "PSpecificBasisHandler<complex>": "template class Bembel::Basis::PSpecificBasisHandler<Constants::MaxP, Z>;",
    "PSpecificShapeFunctionHandler": "template class Bembel::Basis::PSpecificShapeFunctionHandler<Constants::MaxP>;",
    "pointer dispatch": "double f(double *a) { return Basis::ShapeFunctionHandler::ptrEvalCoef(3)(a, .5) + Basis::ShapeFunctionHandler::ptrEvalDerCoef(0)(a, .5); }",
    "Logger": "template class Bembel::IO::Logger<12>; void f(IO::Logger<12> l) { l.term(\"a\", 1, 2.5); l.both(\"a\"); l.file(3); }",
    "Quadrature": "template struct Bembel::Quadrature<1>; template struct Bembel::Quadrature<2>; template struct Bembel::GaussLegendreRule<50>;",
    "FunctionEvaluator::evaluateDiv": "Z f(const FunctionEvaluator<MaxwellSingleLayerOperator> &f, const ElementTreeNode &e, const SurfacePoint &p) { return f.evaluateDiv(e, p); }",
    "solid harmonics": "double f(Eigen::Vector3d x, Eigen::VectorXd c) { return evaluate_sphericals(x, c, 2) + evaluate_solid_sphericals(x, c, 2, false) + evaluate_dsphericals(x, c, 2).sum() + evaluate_dsolid_sphericals(x, c, 2).sum(); }",
    "Geometry": "void f() { Geometry g(\"a.dat\"), h(g), k(std::move(h)), l; l = g; l = std::move(k); PatchVector v = l.get_geometry(); Geometry m(v); ClusterTree t(m, 1), u; u.init_ClusterTree(m, 2); ElementTree e(m, 1); }",
    "Patch": "void f(const Patch &p, const Eigen::Vector2d &x) { Patch q(p), r; r = q; Eigen::Vector3d a = p.eval(x), n = p.evalNormal(x); Eigen::Matrix<double, 3, 2> j = p.evalJacobian(x); PatchShredder(p); (void)a; (void)n; (void)j; }",
}
# accepted twin, rejected misuse: one replaced token tells them apart
MIS = [
    ("operator and space", "void f(const AnsatzSpace<@> &a) { DiscreteOperator<Eigen::MatrixXd, LaplaceSingleLayerOperator> d(a); }", "LaplaceSingleLayerOperator", "LaplaceHypersingularOperator",
     "an operator cannot be discretised on the ansatz space of another operator"),
    ("potential and space", "void f(const AnsatzSpace<@> &a) { DiscretePotential<LaplaceSingleLayerPotential<LaplaceSingleLayerOperator>, LaplaceSingleLayerOperator> d(a); }",
     "LaplaceSingleLayerOperator", "LaplaceHypersingularOperator", "a potential cannot be evaluated on the space of another operator"),
    ("potential and operator", "void f(const AnsatzSpace<LaplaceSingleLayerOperator> &a, Eigen::Matrix<double, -1, 3> x) { DiscretePotential<LaplaceSingleLayerPotential<@>, LaplaceSingleLayerOperator> d(a); d.evaluate(x); }",
     "LaplaceSingleLayerOperator", "LaplaceHypersingularOperator", "a potential of another operator's density cannot be evaluated"),
    ("evaluator and space", "void f(const AnsatzSpace<@> &a) { FunctionEvaluator<MaxwellSingleLayerOperator> d(a); }", "MaxwellSingleLayerOperator", "HelmholtzSingleLayerOperator",
     "a function evaluator cannot use the space of another operator"),
    ("linear form and space", "void f(const AnsatzSpace<@> &a) { DiscreteLinearForm<DirichletTrace<double>, LaplaceSingleLayerOperator> d(a); }", "LaplaceSingleLayerOperator", "LaplaceDoubleLayerOperator",
     "a linear form cannot be assembled on the space of another operator"),
    ("divergence", "void f(const FunctionEvaluator<@> &f, const ElementTreeNode &e, const SurfacePoint &p) { f.evaluateDiv(e, p); }", "MaxwellSingleLayerOperator", "HelmholtzSingleLayerOperator",
     "the divergence exists only for div-conforming spaces"),
    ("unspecified traits", "class Op; class Op2; namespace Bembel { template <> struct LinearOperatorTraits<Op> { typedef Eigen::VectorXd EigenType; typedef double Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 }; }; } void f(const Geometry &g) { AnsatzSpace<@> a(g, 0, 0); }",
     "Op", "Op2", "an operator without traits has no ansatz space"),
    ("complex data to real form", "void f(DirichletTrace<double> &t, std::function<@(Eigen::Vector3d)> g) { t.set_function(g); }", "double", "Z", "complex data cannot be given to a real trace"),
    ("complex wavenumber to Laplace", "void f(@ &o) { o.set_wavenumber(Z(1, 1)); }", "HelmholtzSingleLayerOperator", "LaplaceSingleLayerOperator", "a Laplace operator has no wavenumber"),
    ("copying a compressed operator", "void f(const Eigen::H2Matrix<double> &a) { @ b(a); }", "const Eigen::H2Matrix<double> &", "Eigen::H2Matrix<double>", "a compressed operator, which holds pointers into its trees, cannot be copied"),
    ("const space", "void f(const AnsatzSpace<LaplaceSingleLayerOperator> &a) { @ s = a.get_superspace(); }", "const SuperSpace<LaplaceSingleLayerOperator> &", "SuperSpace<LaplaceSingleLayerOperator> &",
     "a constant ansatz space hands out its super space as constant"),
    ("const mesh", "void f(const SuperSpace<LaplaceSingleLayerOperator> &a) { @ s = a.get_mesh(); }", "const ClusterTree &", "ClusterTree &", "a constant super space hands out its mesh as constant"),
    ("const matrix", "void f(const DiscreteOperator<Eigen::MatrixXd, LaplaceSingleLayerOperator> &a) { @ s = a.get_discrete_operator(); }", "const Eigen::MatrixXd &", "Eigen::MatrixXd &",
     "a constant discrete operator hands out its matrix as constant"),
    ("const tree leaf", "void f(const TreeLeaf<Eigen::MatrixXd> &a) { @ s = a.get_R(); }", "const Eigen::MatrixXd &", "Eigen::MatrixXd &", "a constant leaf hands out its matrices as constant"),
    ("copying a mesh", "void f(const Geometry &g) { ClusterTree a(g, 1); @ b(a); }", "const ClusterTree &", "ClusterTree ", "a mesh, whose elements are referred to by address, cannot be copied"),
    ("matrix size", "void f(Eigen::MatrixXd m) { Eigen::H2Matrix<@> h; Eigen::VectorXd x = h * Eigen::VectorXd(); }", "double", "Z", "a complex compressed operator cannot be applied to give a real vector"),
]


def inst(job, key, body, what):
    ok, out = ccall(PRE + body)
    w, d = diag(out)
    job.check(ok, key, what + ("" if ok else ": " + d), w)
    return ok


def inst_op(job, o):
    inst(job, "inst:space:%s" % o, SPACE % dict(o=o), "super space, ansatz space, glue, projector and function evaluator of %s instantiate" % o)
    if o in LOCAL:
        inst(job, "inst:op:%s" % o, LOP % dict(o=o), "local operator %s: base class and sparse discretisation instantiate" % o)
    else:
        inst(job, "inst:op:%s" % o, OP % dict(o=o), "operator %s: base class, dense and compressed discretisation instantiate" % o)


def inst_form(job, f, c):
    for s, o in ((("double", "LaplaceSingleLayerOperator"), ("Z", "HelmholtzSingleLayerOperator")) if c == 1 else (("double", "TanOp"), ("Z", "MaxwellSingleLayerOperator"))):
        pre = ""
        if o == "TanOp":
            pre = "class TanOp; namespace Bembel { template <> struct LinearOperatorTraits<TanOp> { typedef Eigen::VectorXd EigenType; typedef double Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 1 }; }; }\n"
        inst(job, "inst:form:%s<%s>" % (f, s), pre + FORM % dict(f=f, s=s, o=o, c=c), "linear form %s<%s>: class, base class forwarding and discretisation instantiate" % (f, s))


def inst_pot(job, p, o, s, d):
    inst(job, "inst:pot:%s<%s>" % (p, o), POT % dict(p=p, o=o, s=s, d=d), "potential %s<%s>: class, base class forwarding and evaluation instantiate" % (p, o))


def inst_misc(job, k):
    inst(job, "inst:%s" % k, MISC[k], "%s instantiates completely" % k)


def misuse(job, i):
    key, src, good, bad, what = MIS[i]
    if not inst(job, "twin:%s" % key, src.replace("@", good), "the correct use of '%s' is accepted" % key):
        return
    ok, out = ccall(PRE + src.replace("@", bad))
    job.check(not ok, "misuse:%s" % key, "%s: the misuse with %s %s" % (what, bad, "is rejected" if not ok else "compiles"), "public interface")


def witnesses(tier):
    return {}


def jobs(tier):
    ms = modules()
    if len(ms) < 10:
        raise SystemExit("only %d module headers under %s/Bembel" % (len(ms), rig.REPO))
    out = [("header:" + h, None, "header", dict(h=h)) for h in ms]
    out.append(("order", None, "order", dict(pairs=tier == "thorough")))
    out.append(("linkage", None, "linkage", dict(hs=ms)))
    parts = [("inst_op", dict(o=o)) for o in OPS + LOCAL]
    parts += [("inst_form", dict(f=f, c=c)) for f, c in FORMS]
    parts += [("inst_pot", dict(p=p[0], o=p[1], s=p[2], d=p[3])) for p in POTS]
    parts += [("inst_misc", dict(k=k)) for k in MISC]
    parts += [("misuse", dict(i=i)) for i in range(len(MIS))]
    n = 6
    out = [("instances:%d" % i, None, "group", dict(parts=parts[i::n])) for i in range(n)] + out
    return out
