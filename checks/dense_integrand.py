from checks.ops import *

PID = "C04"
EXPLAIN = ("Each operator's evaluateIntegrand is compiled from the current tree for fixed (degree, level) and abstractly "
           "interpreted with every SurfacePoint entry, the wavenumber and the previous content of the output matrix unknown; "
           "each matrix entry's normal form must equal  previous + w_s w_t * kernel * surface measures * basis products  where the "
           "kernel is derived formally (differentiation of the fundamental solution) on the specification side.")
MIN_OBLIGATIONS = {"quick": 500}


def cfg(tier):
    lv = [0, 1] if tier == "quick" else [0, 1, 2]
    out = []
    for n in OPS:
        for p in ([0, 1, 2] if tier == "quick" else [0, 1, 2, 3, 4]):
            if p == 0 and OPS[n][4] > 1:
                continue
            for l in lv:
                if l > 0 and p != 1:
                    continue
                if n in ("HHS", "MSL", "LHS") and p > (2 if tier == "quick" else 3):
                    continue
                out.append((n, p, l))
    return out


def groups(tier):
    g = {}
    for n, p, l in cfg(tier):
        g.setdefault(n, set()).add((p, l))
    return g


def witnesses(tier):
    w = {}
    for n, s in groups(tier).items():
        w["w_" + n] = witness([n], sorted({p for p, l in s}), sorted({l for p, l in s}))
    return w


def jobs(tier):
    return [("%s P=%d M=%d" % c, "w_" + c[0], "job", dict(name=c[0], p=c[1], level=c[2])) for c in cfg(tier)]


def job(job, name, p, level):
    it, o, n = run_integrand(job, name, p, level)
    a, b = SP("a"), SP("b")
    spec = integrand_spec(name, p, level, a, b)
    cls = OPS[name][0]
    for (i, j), v in spec.items():
        e = 2 * (j * n + i)
        for part, off in ((v.re, 0), (v.im, 8)):
            if off and not OPS[name][2]:
                continue
            init = var("c[%d]" % (8 * e + off))
            job.eq("%s/P%d/(%d,%d)%s" % (cls, p, i, j, ".im" if off else ""),
                   it.load(Ptr(o, 8 * e + off), D), init + part,
                   "%s::evaluateIntegrand, degree %d, level %d, entry (%d,%d)%s" % (cls, p, level, i, j, " imaginary part" if off else ""),
                   where="Bembel/src/%s (%s::evaluateIntegrand_impl)" % (OPS[name][1], cls))
