"""Modular contracts: callees proved by one check are replaced by their contract in the others."""
import math
import re

from .absint import Ptr
from .externs import malloc

_GL = {}


def gauss(n):
    """n-point Gauss-Legendre rule on [0,1], ascending nodes"""
    if not n:
        return []
    if n not in _GL:
        out = []
        for k in range(n, 0, -1):
            x = math.cos(math.pi * (k - 0.25) / (n + 0.5))
            for _ in range(100):
                p0, p1 = 1.0, x
                for j in range(2, n + 1):
                    p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
                dp = n * (x * p1 - p0) / (x * x - 1)
                d = p1 / dp
                x -= d
                if abs(d) < 1e-17:
                    break
            p0, p1 = 1.0, x
            for j in range(2, n + 1):
                p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
            dp = n * (x * p1 - p0) / (x * x - 1)
            out.append((0.5 * (1 + x), 1 / ((1 - x * x) * dp * dp)))
        if n % 2:
            out[n // 2] = (0.5, out[n // 2][1])
        _GL[n] = out
    return _GL[n]


def use_gauss(it, above=20, empty=False):
    """GaussLegendreRule<N>, N > above (computed by an eigenvalue solver at run time): contract established by C02.
    With empty, those rules have no points (for clients whose degrees stay small; a client using them would obtain zero)."""
    for name in it.mod.functions:
        m = re.match(r"^_ZN6Bembel17GaussLegendreRuleILj(\d+)EEC[12]Ev$", name)
        if m and int(m.group(1)) > above:
            def h(it, a, info, n=0 if empty else int(m.group(1))):
                for off, q in ((0, 0), (24, 1)):
                    v = malloc(it, 8 * n, "new")
                    for i, t in enumerate(gauss(n)):
                        it.store(Ptr(v.obj, 8 * i), t[q], ("double",))
                    b = it.padd(a[0], off)
                    it.store(b, v, ("ptr",))
                    it.store(it.padd(b, 8), Ptr(v.obj, 8 * n), ("ptr",))
                    it.store(it.padd(b, 16), Ptr(v.obj, 8 * n), ("ptr",))
                return None
            it.hooks[name] = h


def _cells(it, p, n):
    return [it.load(it.padd(p, 8 * i), ("double",)) for i in range(n)]


def use_trisolve(it):
    """Eigen's in-place dense triangular vector solves (column major, no conjugation) on constant data: computed directly."""
    pat = re.compile(r"^_ZN5Eigen8internal26triangular_solver_selectorIKNS_6MatrixIdLin1ELin1ELi0ELin1ELin1EEENS2_IdLin1ELi1ELi0ELin1ELi1EEELi1ELi([125])ELi0ELi1EE3runERS4_RS5_$")
    for name in it.mod.functions:
        m = pat.match(name)
        if m:
            def h(it, a, info, mode=int(m.group(1)), name=name):
                n = it.load(it.padd(a[0], 8), ("i", 64))
                mat = it.load(a[0], ("ptr",))
                rp = it.load(a[1], ("ptr",))
                A = _cells(it, mat, n * n)
                x = _cells(it, rp, n)
                if not all(isinstance(v, float) for v in x) or not all(isinstance(v, float) for v in A):
                    raise RuntimeError("symbolic triangular solve")
                order = range(n) if mode & 1 else range(n - 1, -1, -1)
                for j in order:
                    if x[j]:
                        c = j * n
                        if not mode & 4:
                            x[j] /= A[c + j]
                        t = x[j]
                        for i in (range(j + 1, n) if mode & 1 else range(j)):
                            x[i] -= t * A[c + i]
                for i in range(n):
                    it.store(it.padd(rp, 8 * i), x[i], ("double",))
                return None
            it.hooks[name] = h
