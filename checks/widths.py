"""widths: no size, index or real number of the library goes through a type narrower than int or double"""
import os
import re
import shutil
import subprocess
import tempfile
from checks import interface as I
from va import rig
from va.rig import Broken

PID = "C22"
EXPLAIN = ("All headers, with every non-template function emitted and every operator, form, potential and helper template instantiated, are lowered to unoptimised IR; "
           "every instruction whose source location lies in the library is visited: an integer truncation below 32 bits of a value that is not character data, or any "
           "conversion to, from or arithmetic in single or half precision, is a violation at that instruction's source line.")
MIN_OBLIGATIONS = {"quick": 2500}
ASSUMPTIONS = ["clang 18 front end; characters are the values obtained from or passed to the C character functions"]
FL = ["clang++", "-std=gnu++11", "-w", "-DEIGEN_NO_DEBUG", "-DEIGEN_DONT_VECTORIZE", "-I/usr/include/eigen3", "-O0", "-gline-tables-only", "-S", "-emit-llvm"]
CHARS = re.compile(r"call .*@(tolower|toupper|getc|fgetc|_ZNSi3getEv|_ZNSi4peekEv|_ZNS?t?.*(widen|narrow).*)\(")
NARROW = re.compile(r"= trunc (?:nuw |nsw )*i(32|64|128) (%[-\w.]+|-?\d+) to i(8|16)\b")
FLOAT = re.compile(r"= (?:f(?:add|sub|mul|div|rem|neg|cmp|ptrunc|pext)|sitofp|uitofp|fptosi|fptoui|load|call|alloca)\b.*\b(float|half|bfloat)\b")


def scan(job, path, root, key):
    """visit the instructions of one IR file; returns the number of library functions seen"""
    md, body = {}, []
    with open(path) as f:
        for l in f:
            if l.startswith("!"):
                a, _, b = l.partition(" = ")
                md[a] = b
            else:
                body.append(l)

    files = {}

    def path(e):
        d = re.search(r'directory: "([^"]*)"', e)
        return os.path.join(d.group(1) if d else "", re.search(r'filename: "([^"]*)"', e).group(1))

    def file(s):
        if s in files:
            return files[s]
        k, r = s, None
        for _ in range(60):
            e = md.get(k, "")
            if "DIFile(" in e:
                r = path(e)
                break
            m = re.search(r"\bfile: (!\d+)", e)
            if m:
                r = path(md[m.group(1)])
                break
            m = re.search(r"\bscope: (!\d+)", e)
            if not m:
                break
            k = m.group(1)
        files[s] = r
        return r

    def place(l):
        d = re.search(r"!dbg (!\d+)", l)
        e = md.get(d.group(1), "") if d else ""
        f = file(d.group(1)) if d else None
        if not f or not os.path.abspath(f).startswith(root):
            return None
        n = re.search(r"\bline: (\d+)", e)
        return "%s:%s" % (os.path.abspath(f)[len(root):], n.group(1) if n else "?")

    fns, fn, ours, defs = 0, None, False, {}
    bad = []
    for l in body:
        if l.startswith("define "):
            w = place(l)
            fn, ours, defs, nb = l, w, {}, len(bad)
            continue
        if l.startswith("}"):
            if ours:
                fns += 1
                name = re.search(r'@("[^"]*"|[\w.$]+)\(', fn).group(1)
                job.fns.add(name)
                if len(bad) == nb:
                    job.ok("%s:%s" % (key, name), "%s (%s) keeps full widths" % (name, ours))
            fn = None
            continue
        if fn is None:
            continue
        m = re.match(r"\s+(%[-\w.]+) = ", l)
        if m:
            defs[m.group(1)] = l
        n = NARROW.search(l)
        if n:
            w = place(l)
            if w and not character(defs, n.group(2)):
                bad.append((w, "an integer of %s bits is cut to %s bits" % (n.group(1), n.group(3))))
        elif FLOAT.search(l):
            w = place(l)
            if w:
                bad.append((w, "a number passes through type %s" % FLOAT.search(l).group(1)))
    for w, t in sorted(set(bad)):
        job.fail("%s:%s" % (key, w), t, w)
    return fns


def character(defs, v):
    """the value comes from a character: a C character function, a character constant, or widened char data"""
    if not v.startswith("%"):
        return True
    for _ in range(6):
        l = defs.get(v, "")
        if CHARS.search(l):
            return True
        if re.search(r"= [sz]ext i8 ", l):
            return True
        m = re.search(r"= (?:add|sub|or|and|xor)\b[^%]*i\d+ (.*?), !dbg", l)
        if not m:
            return False
        ops = re.findall(r"%[-\w.]+", m.group(1))
        if not ops:
            return True
        if len(ops) > 1:
            return any(character(defs, o) for o in ops)
        v = ops[0]
    return False


def parts():
    r = []
    for o in I.OPS:
        r.append(I.SPACE % dict(o=o) + I.OP % dict(o=o))
    for o in I.LOCAL:
        r.append(I.SPACE % dict(o=o) + I.LOP % dict(o=o))
    tan = "class TanOp; namespace Bembel { template <> struct LinearOperatorTraits<TanOp> { typedef Eigen::VectorXd EigenType; typedef double Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 1 }; }; }\n"
    for f, c in I.FORMS:
        for s, o in ((("double", "LaplaceSingleLayerOperator"), ("Z", "HelmholtzSingleLayerOperator")) if c == 1 else (("double", "TanOp"), ("Z", "MaxwellSingleLayerOperator"))):
            r.append((tan if o == "TanOp" else "") + I.FORM % dict(f=f, s=s, o=o, c=c))
    for p, o, s, d in I.POTS:
        r.append(I.POT % dict(p=p, o=o, s=s, d=d))
    r += [b for k, b in sorted(I.MISC.items())]
    return r


def unit(job, n, k):
    d = tempfile.mkdtemp(prefix="va-C22-")
    try:
        src = "".join("#include <Bembel/%s>\n" % h for h in I.modules()) + I.PRE
        ps = parts()
        tan = ps[0][:0]
        for i, p in enumerate(ps):
            if i % n == k:
                if p.startswith("class TanOp;"):
                    decl, p = p.split("\n", 1)
                    if decl not in src:
                        src += decl + "\n"
                p = re.sub(r"\bvoid (fe|go|lf|po|f)\(", lambda m: "void %s%d(" % (m.group(1), i), p)
                p = re.sub(r"\b(double|Z) f\(", lambda m: "%s f%d(" % (m.group(1), i), p)
                src += p
        open(d + "/a.cpp", "w").write(src)
        ex = ["-femit-all-decls"] if k == 0 else []
        r = subprocess.run(FL + ex + ["-I" + rig.REPO, d + "/a.cpp", "-o", d + "/a.ll"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken("translation unit does not compile:\n" + r.stdout[:1500])
        m = scan(job, d + "/a.ll", os.path.abspath(rig.REPO) + "/", "width")
        job.check(m > 100, "width/functions %d" % k, "%d functions of the library visited" % m)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def witnesses(tier):
    return {}


def jobs(tier):
    n = 7
    return [("translation unit %d" % k, None, "unit", dict(n=n, k=k)) for k in range(n)]
