"""Driver shared by all checks: compiles witnesses from /repo's current tree,
runs the abstract interpretation jobs, collects obligations, writes evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import dom, ir
from .absint import (DEAD, UNDEF, Cond, Finding, Fn, GPtr, Interp, Ptr, SInt, Top)
from .dom import Poly, Undecided

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BEMBEL_REPO", "/repo")
CXX = ["clang++", "-std=gnu++11", "-S", "-emit-llvm", "-O2", "-gline-tables-only",
       "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
       "-fno-math-errno", "-fno-signed-zeros", "-fno-trapping-math",
       "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG", "-fno-access-control", "-w"]
D = ("double",)
I64 = ("i", 64)
I32 = ("i", 32)
I8 = ("i", 8)
P = ("ptr",)


class Broken(Exception):
    """the analysis itself cannot run (vanished anchor, witness does not build)"""


def incs():
    return ["-I" + REPO, "-I" + os.path.join(VERIF, "witness"), "-I/usr/include/eigen3"]


def compile_ir(src, out, extra=()):
    """compile witness source text to textual LLVM IR; returns (ok, diagnostics)"""
    cpp = out[:-3] + ".cpp"
    with open(cpp, "w") as f:
        f.write(src)
    r = subprocess.run(CXX + list(extra) + incs() + [cpp, "-o", out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


class Job:
    """context handed to one job function"""

    def __init__(self, name, path, tier):
        self.name = name
        self.path = path
        self.tier = tier
        self.mod = None
        self.res = []          # (ok, key, text, where)
        self.steps = 0
        self.joins = 0
        self.cov = set()
        self.notes = []
        self.it = None
        self.fns = set()       # functions analysed without an interpreter

    # -- interpreters
    def interp(self, **kw):
        if self.mod is None:
            self.mod = ir.Module(self.path)
        self.flush()
        dom.reset()
        it = kw.pop("cls", Interp)(self.mod, root=REPO + "/", **kw)
        it.storelog = {}
        self.it = it
        return it

    def flush(self):
        it = self.it
        if it is not None:
            self.steps += it.steps
            self.joins += it.joins
            for n in it.coverage:
                self.cov.add(n)
            self.it = None

    def call(self, it, fn, args, live=True):
        if fn not in it.mod.functions:
            raise Broken("witness function %s vanished" % fn)
        r = it.call(fn, args)
        if r is DEAD or r[0] != "ret":
            if live:
                raise Finding("abort", "every path ends in an assertion failure, abort or exception (%s)"
                              % (it.dead_reason,), it.where() if it.stack else str(it.dead_reason))
            return None
        return r[1]

    # -- obligations
    def ok(self, key, text, where=""):
        self.res.append((True, key, text, where))

    def fail(self, key, text, where=""):
        self.res.append((False, key, text, where))

    def check(self, cond, key, text, where=""):
        (self.ok if cond else self.fail)(key, text, where)
        return bool(cond)

    def eq(self, key, got, want, what="", where=None, obj=None, off=None, tol=None):
        if got is UNDEF:
            self.fail(key, "%s: value is uninitialised" % what, where or self.loc(obj, off))
            return False
        if isinstance(got, Top):
            raise Undecided("%s: %r" % (what, got))
        if isinstance(want, Top):
            raise Undecided("%s: %r" % (what, want))
        if isinstance(got, SInt):
            got = got.p
        if isinstance(want, SInt):
            want = want.p
        e = dom.equal(got, want, **({} if tol is None else {"tol": tol}))
        if e:
            self.res.append((True, key, what, ""))
            return True
        self.fail(key, "%s: code computes  %s  but required is  %s" % (what, dom.show(got), dom.show(want)),
                  where or self.loc(obj, off))
        return False

    def loc(self, obj, off):
        if obj is None or self.it is None:
            return ""
        try:
            return self.it.last_store(obj, off)
        except Exception:
            return ""

    def laws(self, fn, args, n, key, what, it=None, l=None, r=None, names=None, tol=None):
        """witness  fn(args..., lhs, rhs)  must store equal values in lhs[i], rhs[i], i<n"""
        it = it or self.interp()
        l = l or it.new_obj("lhs", 8 * n, "undef")
        r = r or it.new_obj("rhs", 8 * n, "undef")
        self.call(it, fn, list(args) + [Ptr(l, 0), Ptr(r, 0)])
        for i in range(n):
            a, b = it.load(Ptr(l, 8 * i), D), it.load(Ptr(r, 8 * i), D)
            self.eq("%s#%s" % (key, names[i] if names else i), a, b,
                    "%s [%s]" % (what, names[i] if names else i), obj=l, off=8 * i, tol=tol)


_MOD = None


def _run_job(a):
    modname, jobname, fname, kw, path, tier = a
    sys.setrecursionlimit(20000)
    m = importlib.import_module(modname)
    j = Job(jobname, path, tier)
    t = time.time()
    err = None
    try:
        getattr(m, fname)(j, **kw)
    except Finding as f:
        j.res.append((False, "%s:%s" % (jobname, f.kind), "%s: %s" % (f.kind, f.msg), f.where))
    except Undecided as u:
        w = ""
        try:
            w = j.it.where() if j.it is not None else ""
        except Exception:
            pass
        err = "undecided in %s: %s %s" % (jobname, u, w)
    except Broken as b:
        err = "broken: %s: %s" % (jobname, b)
    except RecursionError:
        err = "undecided in %s: recursion limit" % jobname
    except Exception:
        err = "internal error in %s:\n%s" % (jobname, traceback.format_exc())
    j.flush()
    fns = set(j.fns)
    if j.mod is not None:
        for n in j.cov:
            try:
                d = j.mod.dem(n)
            except Exception:
                d = n
            if "Bembel" in d:
                fns.add(d[:160])
    lines = set()
    try:
        if j.mod is not None:
            lines = source_lines(j.mod)
    except Exception:       # information only
        pass
    return dict(job=jobname, res=j.res, err=err, steps=j.steps, joins=j.joins, fns=sorted(fns),
                wall=time.time() - t, notes=j.notes, lines=lines)


def source_lines(mod):
    """(file, function, line) of the library for every instruction of a block that the interpreter entered"""
    dbg = set()
    for f in mod.functions.values():
        for ins in f.compiled.values():
            for x in ins:
                for y in x[-2:]:
                    if type(y) is int:
                        dbg.add(y)
                    elif type(y) is dict and type(y.get("dbg")) is int:
                        dbg.add(y["dbg"])
    md, out, seen, scopes = mod._dbg, set(), set(), {}
    root = REPO + "/"
    while dbg:
        n = dbg.pop()
        if n in seen:
            continue
        seen.add(n)
        s = md.get(n)
        if not s or not s.startswith("!DILocation"):
            continue
        m = re.search(r"line: (\d+).*?scope: !(\d+)(?:, inlinedAt: !(\d+))?", s)
        if not m:
            continue
        if m.group(3):
            dbg.add(int(m.group(3)))
        sc = int(m.group(2))
        if sc not in scopes:
            scopes[sc] = mod._scope(sc)
        f, fn = scopes[sc]
        if f.startswith(root):
            out.add((f[len(root):], fn, int(m.group(1))))
    return out


def _compile(a):
    name, src, path, extra = a
    return name, compile_ir(src, path, extra)


def _go(a):
    """compile (shared, first come) then run"""
    return _run_job(a)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and ("property=%s " % pid) in line:
                # finding: property=<id> key=<key> <text>
                k = line.split(" key=", 1)[1].split(" ", 1)
                out.append((k[0], k[1] if len(k) > 1 else ""))
    return out


def main(argv):
    name = argv[0].replace("-", "_")
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    sys.path.insert(0, VERIF)
    os.chdir(VERIF)
    if re.match(r"^[A-Z]\d+$", name):
        for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
            if f.endswith(".py") and ('PID = "%s"' % name) in open(os.path.join(VERIF, "checks", f)).read():
                name = f[:-3]
    modname = "checks." + name
    m = importlib.import_module(modname)
    pid = m.PID
    scratch = tempfile.mkdtemp(prefix="va-%s-" % pid)
    try:
        rc = execute(pid, tier, m, modname, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def execute(pid, tier, m, modname, scratch, t0):
    wit = m.witnesses(tier)          # name -> source | (source, extra flags)
    jobs = m.jobs(tier)              # list of (jobname, witness or None, function name, kwargs)
    used = {j[1] for j in jobs if j[1]}
    comp = {}
    errs = []
    results = []
    only = os.environ.get("VA_ONLY")
    if only:
        jobs = [j for j in jobs if only in j[0]]
        used = {j[1] for j in jobs if j[1]}
    nproc = int(os.environ.get("VA_PROCS", os.cpu_count() or 8))
    with mp.Pool(nproc, maxtasksperchild=int(os.environ.get("VA_MTPC", 4))) as pool:
        pend = []
        for w in sorted(used):
            s = wit[w]
            src, extra = s if isinstance(s, tuple) else (s, ())
            path = os.path.join(scratch, w + ".ll")
            pend.append(pool.apply_async(_compile, ((w, src, path, extra),)))
        paths = {}
        res = []
        # jobs without witness can start immediately
        for j in jobs:
            if not j[1]:
                res.append(pool.apply_async(_go, ((modname, j[0], j[2], j[3], None, tier),)))
        waiting = list(pend)
        todo = [j for j in jobs if j[1]]
        while waiting:
            for p in list(waiting):
                if p.ready():
                    waiting.remove(p)
                    w, (ok, diag) = p.get()
                    if not ok:
                        errs.append("witness %s does not build against the current tree:\n%s" % (w, diag[:3000]))
                    else:
                        for j in todo:
                            if j[1] == w:
                                res.append(pool.apply_async(
                                    _go, ((modname, j[0], j[2], j[3], os.path.join(scratch, w + ".ll"), tier),)))
            time.sleep(0.02)
        for r in res:
            results.append(r.get())
    kf = known_findings(pid)
    nob = sum(len(r["res"]) for r in results)
    bad = []
    for r in results:
        if r["err"]:
            errs.append(r["err"])
        for ok, key, text, where in r["res"]:
            if not ok:
                bad.append((r["job"], key, text, where))
    new, old = [], {}
    for b in bad:
        for k, text in kf:
            if b[1] == k:
                old[k] = text
                break
        else:
            new.append(b)
    fns = sorted({f for r in results for f in r["fns"]})
    lines = {x for r in results for x in r["lines"]}
    if os.environ.get("VA_COV"):
        with open(os.path.join(os.environ["VA_COV"], pid + ".json"), "w") as f:
            json.dump(sorted(lines), f)
    floor = getattr(m, "MIN_OBLIGATIONS", {}).get(tier, getattr(m, "MIN_OBLIGATIONS", {}).get("quick", 1))
    if not errs and not new and not only and nob < floor:
        errs.append("only %d obligations were generated, at least %d expected (analysis broken)" % (nob, floor))
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=getattr(m, "LEVEL", "other"),
        coverage=dict(
            explanation=m.EXPLAIN,
            obligations=nob, discharged=nob - len(bad),
            checker_cmd="python3 /verif/run.py %s %s" % (pid, tier),
            trusted_base=["clang 18 front end and -O2 IR", "va/ir.py IR reader", "va/absint.py transfer functions",
                          "va/externs.py library summaries", "va/dom.py polynomial equality (real arithmetic)"],
            witnesses=sorted(used), jobs=[(r["job"], len(r["res"]), round(r["wall"], 2)) for r in results],
            abstract_steps=sum(r["steps"] for r in results), joins=sum(r["joins"] for r in results),
            functions_analysed=len(fns), functions=fns[:400],
            library_functions=sorted({"%s: %s" % x[:2] for x in lines}), library_lines=len({(x[0], x[2]) for x in lines}),
            samples=[x[2] for r in results for x in r["res"][:2]][:40],
            known_findings=sorted(old), errors=errs[:20]),
        assumptions=getattr(m, "ASSUMPTIONS", ["real arithmetic (rounding ignored)", "sequential semantics of OpenMP regions"]),
        wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, text in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, text or k))
    for e in errs:
        print("ERROR: " + e)
    if new:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".txt")
        with open(rp, "w") as f:
            f.write("property %s, tier %s: %d violated obligations\nre-run: cd /verif && python3 run.py %s %s\n\n"
                    % (pid, tier, len(new), pid, tier))
            for jn, key, text, where in new:
                f.write("[%s] %s\n  at %s\n  %s\n" % (jn, key, where or "?", text))
        for jn, key, text, where in new[:12]:
            print("  violated [%s] %s at %s: %s" % (jn, key, where or "?", text[:500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errs:
        return 3
    print("OK property=%s tier=%s obligations=%d functions=%d jobs=%d wall=%.1fs"
          % (pid, tier, nob, len(fns), len(results), time.time() - t0))
    return 0
