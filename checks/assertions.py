"""consistency: in valid use no assertion of the library or of Eigen (sizes, index ranges, aliasing) can fail"""
import importlib
import re

from checks import lifetime
from va.absint import Finding
from va.externs import cstr

PID = "C24"
EXPLAIN = ("The public operations are interpreted with the assertions of the library and of Eigen compiled in (sizes of operands agree, indices in range, no aliased transposition, files closed, "
           "pre- and postconditions): an assertion whose condition is false for the abstract state that reaches it is a violation, at the source line of the library that leads there.")
MIN_OBLIGATIONS = {"quick": 330}
ASSUMPTIONS = ["assertions whose condition depends on unknown reals are not decided here", "no allocation fails"]
ON = ["-UEIGEN_NO_DEBUG"]
# module -> every how manieth of its quick jobs is repeated here with assertions
OTHERS = dict(basis_functions=8, patch_parametrization=6, gauss_rules=1, dense_integrand=1, fmm_factors=10, bspline_evaluators=1, super_space=2, element_tree=3, ansatz_space=8,
              function_evaluator=5, duffy=5, potentials=1, traces=2, assembly=5, h2matrix=4, homogenised=4, copies=6, exports=3, geometry_files=3)
# decides by itself what an assertion of the library answers
SKIP = {"element_tree": ("orientation",)}
LONG = re.compile(r" P6 |product .*p=(9|1\d|20)$|M2 P0 q3")  # left to the thorough tier


def witnesses(tier):
    r = {}
    for m in ["lifetime"] + sorted(OTHERS):
        for w, s in importlib.import_module("checks." + m).witnesses(tier).items():
            r[m + "." + w] = (s, ON) if isinstance(s, str) else (s[0], list(s[1]) + ON)
    return r


def jobs(tier):
    r = [(n, "lifetime." + w, "history", kw) for n, w, f, kw in lifetime.jobs(tier)]
    for m in sorted(OTHERS):
        js = [j for j in importlib.import_module("checks." + m).jobs(tier) if j[1] and j[0] not in SKIP.get(m, ())]
        if tier == "quick":
            js = [j for j in js if not LONG.search(j[0])][::OTHERS[m]]
        for n, w, f, kw in js:
            r.append(("%s: %s" % (m, n), m + "." + w, "other", dict(mod=m, fn=f, kw=kw)))
    return r


def armed(it):
    def h(it, a, info):
        if it.arms == 0:
            e = cstr(it, a[0]).decode("latin1")
            raise Finding("assertion", "the assertion '%s' fails" % " ".join(e.split())[:200], it.where())
        return orig(it, a, info)
    orig = it.hooks.get("__assert_fail")
    if orig is None:
        from va.externs import assert_fail as orig
    it.hooks["__assert_fail"] = h


def history(job, fn, args, where):
    it = lifetime.prepare(job, fn in ("files", "exports", "tools"))
    armed(it)
    lifetime.run(job, it, fn, args)
    job.ok("asserts/" + fn, "%s%s: no assertion fails (%d steps)" % (fn, tuple(args), it.steps), where)


def other(job, mod, fn, kw):
    """a job of another check with the assertions armed; what else it establishes is that check's business"""
    make = job.interp

    def interp(*a, **k):
        it = make(*a, **k)
        armed(it)
        return it

    job.interp = interp
    try:
        getattr(importlib.import_module("checks." + mod), fn)(job, **kw)
    except Finding as f:
        if f.kind == "assertion":
            raise
    job.res[:] = []
    job.ok("asserts/" + mod, "%s: no assertion fails" % job.name)
