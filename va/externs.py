"""Summaries of library functions the analysed code calls."""
import re
from . import dom
from .dom import Poly, Cond, Undecided, is_num
from .absint import Ptr, GPtr, Fn, SInt, UNDEF, Top, DEAD, mkint, sgn

REAL1 = {"exp", "cos", "sin", "tan", "log", "log10", "log2", "acos", "asin", "atan", "tgamma", "lgamma", "floor",
         "ceil", "round", "trunc", "sinh", "cosh", "tanh"}


def real(it, v):
    if v is UNDEF or isinstance(v, Top):
        return v
    if isinstance(v, (float, Poly)):
        return v
    if isinstance(v, int):
        return float(v) if v == 0 else it.retype(v, ("double",))
    return v


def bad(vs):
    for v in vs:
        if v is UNDEF or isinstance(v, Top):
            return v
    return None


def malloc(it, n, what):
    if isinstance(n, SInt):
        o = it.new_obj("%s@%s" % (what, it.where()), None, "undef")
    else:
        o = it.new_obj("%s@%s" % (what, it.where()), n, "undef")
    o.heap = what
    return Ptr(o, 0)


def free(it, p, what):
    if isinstance(p, GPtr):
        c = it.decide(p.c)
        if c is not None:
            return free(it, p.a if c else p.b, what)
        return None
    if isinstance(p, int):
        return None
    if not isinstance(p, Ptr):
        if p is UNDEF:
            it.finding("bad-free", "release of an uninitialised pointer")
        return None
    o = p.obj
    if it.arms:
        # inside a conditional arm: remember only on definite paths
        o.mayfree = True
        return None
    if o.kind == "sym" and o.heap is None:
        return None
    if o.heap is None:
        it.finding("bad-free", "release of memory that was not heap allocated (%s)" % o.name)
    if p.off != 0:
        it.finding("bad-free", "release of an interior pointer")
    if not o.alive:
        it.finding("double-free", "memory released twice (%s)" % o.name)
    if o.heap != what:
        it.finding("mismatched-free", "memory from %s released with the counterpart of %s" % (o.heap, what))
    o.alive = False
    return None


def cexp(re_, im_):
    e = dom.fn("exp", re_) if not (is_num(re_) and re_ == 0) else 1.0
    return (dom.mul(e, dom.fn("cos", im_)), dom.mul(e, dom.fn("sin", im_)))


def cdiv(a, b, c, d):
    n = dom.add(dom.mul(c, c), dom.mul(d, d))
    i = dom.inv(n) if not is_num(n) else 1.0 / n
    return (dom.mul(dom.add(dom.mul(a, c), dom.mul(b, d)), i),
            dom.mul(dom.sub(dom.mul(b, c), dom.mul(a, d)), i))


def call(it, name, a, info):
    h = EXT.get(name)
    if h is not None:
        return h(it, a, info)
    if name in REAL1:
        v = [real(it, x) for x in a]
        b = bad(v)
        return b if b is not None else dom.fn(name, v[0])
    if name.startswith("llvm."):
        return llvm(it, name, a, info)
    if name.startswith("_ZSt") and "throw" in name or name.startswith("_ZSt20__throw") or "__throw_" in name:
        return dead(it, "throws " + name)
    h = it.hooks.get("<extern>")
    if h is not None:
        r = h(it, name, a, info)
        if r is not NotImplemented:
            return r
    raise Undecided("external function " + it.mod.dem(name)[:160])


def dead(it, why):
    if it.dead_reason is None or it.arms == 0:
        it.dead_reason = why + " at " + it.where()
    return DEAD


def assert_fail(it, a, info):
    return dead(it, "assertion failure")


def cstr(it, p):
    s = b""
    while True:
        v = it.load(p, ("i", 8))
        if not isinstance(v, int):
            raise Undecided("unknown string")
        if v == 0:
            return s
        s += bytes([v])
        p = it.padd(p, 1)


def llvm(it, name, a, info):
    n = name.split(".")
    k = n[1]
    if k in ("memcpy", "memmove"):
        it.memcpy(a[0], a[1], a[2])
        return None
    if k == "memset":
        it.memset(a[0], a[1], a[2])
        return None
    if k in ("sqrt", "fabs", "exp", "cos", "sin", "log", "floor", "ceil", "round", "trunc", "pow", "powi", "fmuladd",
             "fma", "maxnum", "minnum", "copysign", "exp2", "log2", "log10", "rint", "nearbyint", "ldexp"):
        if isinstance(a[0], tuple):
            return tuple(llvm(it, name, [x[i] if isinstance(x, tuple) else x for x in a], info)
                         for i in range(len(a[0])))
        if k == "powi":
            v = real(it, a[0])
            if not isinstance(a[1], int):
                return dom.fn("pow", v, a[1].p)
            return dom.powi(v, sgn(a[1], 32))
        v = [real(it, x) for x in a]
        b = bad(v)
        if b is not None:
            return b
        if k == "sqrt":
            return dom.sqrt(v[0])
        if k == "fabs":
            return dom.fabs(v[0])
        if k in ("fmuladd", "fma"):
            return dom.add(dom.mul(v[0], v[1]), v[2])
        if k == "maxnum":
            return dom.gamma(dom.gt0(dom.sub(v[0], v[1])), v[0], v[1])
        if k == "minnum":
            return dom.gamma(dom.gt0(dom.sub(v[1], v[0])), v[0], v[1])
        if k == "copysign":
            m = dom.fabs(v[0])
            return dom.gamma(dom.gt0(dom.neg(v[1])), dom.neg(m), m)
        if k == "exp2":
            return dom.fn("pow", 2.0, v[0])
        if k == "ldexp":
            return dom.mul(v[0], 2.0 ** sgn(a[1], 32))
        if k in ("rint", "nearbyint"):
            return dom.fn("rint", v[0])
        return dom.fn(k, *v)
    if k in ("smax", "smin", "umax", "umin"):
        x, y = a
        p = {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[k]
        t = info["ret"]
        if isinstance(x, tuple):
            return tuple(llvm(it, name, [p_, q_], dict(info, ret=t[2])) for p_, q_ in zip(x, y))
        c = it.cond_value(it.icmp(p, t, x, y)) if not (x is UNDEF or y is UNDEF) else UNDEF
        if c is UNDEF:
            return UNDEF
        if not isinstance(c, Cond):
            return x if c else y
        return it.mergeval(c, x, y)
    if k == "abs":
        x = a[0]
        t = info["ret"]
        if isinstance(x, int):
            return abs(sgn(x, t[1])) & ((1 << t[1]) - 1)
        c = it.icmp("slt", t, x, 0)
        return it.mergeval(c, it.binop("sub", t, 0, x), x)
    if k in ("expect",):
        return a[0]
    if k == "is" and n[2] == "constant":
        return 0
    if k == "is" and n[2] == "fpclass":
        v = real(it, a[0])
        if is_num(v):
            mask = a[1]
            import math
            if v != v:
                return int(bool(mask & 3))
            if math.isinf(v):
                return int(bool(mask & (0x200 if v > 0 else 4)))
            return int(bool(mask & ~(3 | 4 | 0x200)))
        return 0 if not (a[1] & ~(3 | 4 | 0x200)) else 1
    if k == "objectsize":
        return (1 << 64) - 1
    if k in ("umul", "uadd", "usub", "sadd", "ssub", "smul") and len(n) > 3 and n[3] == "overflow":
        op = k[1:]
        t = it.T.resolve(info["ret"])[1][0]
        x, y = a
        r = it.binop(op, t, x, y)
        ov = 0
        if isinstance(x, int) and isinstance(y, int):
            M = 1 << t[1]
            if k[0] == "u":
                full = x * y if op == "mul" else x + y if op == "add" else x - y
                ov = int(full < 0 or full >= M)
            else:
                sx, sy = sgn(x, t[1]), sgn(y, t[1])
                full = sx * sy if op == "mul" else sx + sy if op == "add" else sx - sy
                ov = int(not (-(M >> 1) <= full < (M >> 1)))
        return (r, ov)
    if k in ("usub", "uadd") and n[2] == "sat":
        x, y = a
        t = info["ret"]
        if isinstance(x, int) and isinstance(y, int):
            return max(0, x - y) if k == "usub" else min(x + y, (1 << t[1]) - 1)
        c = it.icmp("ult", t, x, y)
        if k == "usub":
            d = it.binop("sub", t, x, y)
            return it.mergeval(c, 0, d) if isinstance(c, Cond) else (0 if c else d)
    if k in ("ctlz", "cttz", "ctpop", "bswap"):
        x = a[0]
        t = info["ret"]
        if isinstance(x, int):
            if k == "ctpop":
                return bin(x).count("1")
            if k == "ctlz":
                return t[1] - x.bit_length()
            if k == "cttz":
                return (x & -x).bit_length() - 1 if x else t[1]
        return SInt(dom.fn("i" + k, it.spoly(x)))
    if k in ("stacksave",):
        return 0
    if k in ("stackrestore", "va_end", "trap"):
        return None if k != "trap" else dead(it, "trap")
    if k in ("fshl", "fshr"):
        x, y, s = a
        t = info["ret"]
        if all(isinstance(q, int) for q in a):
            b = t[1]
            s %= b
            v = (x << b) | y
            v = (v << s) >> b if k == "fshl" else v >> s
            return v & ((1 << b) - 1)
        if k == "fshl" and isinstance(s, int) and x is y:
            return SInt(dom.fn("rotl", it.spoly(x), float(s)))
    if k == "vector" and n[2] == "reduce":
        op = n[3]
        if op == "fadd":
            r = a[0]
            for x in a[1]:
                r = dom.add(r, x)
            return r
        if op == "fmul":
            r = a[0]
            for x in a[1]:
                r = dom.mul(r, x)
            return r
        r = a[0][0]
        for x in a[0][1:]:
            r = it.binop(op, info["ret"], r, x)
        return r
    if k == "threadlocal":
        return a[0]
    if k == "eh":
        return 0
    raise Undecided("intrinsic " + name)


def _pow(it, a, info):
    v = [real(it, x) for x in a]
    b = bad(v)
    return b if b is not None else dom.fn("pow", *v)


def _f1(f):
    def g(it, a, info):
        v = [real(it, x) for x in a]
        b = bad(v)
        return b if b is not None else f(*v)
    return g


def _memchr(it, a, info):
    p, c, n = a
    for i in range(n):
        v = it.load(it.padd(p, i), ("i", 8))
        if not isinstance(v, int):
            raise Undecided("memchr on unknown data")
        if v == (c & 255):
            return it.padd(p, i)
    return 0


def _memcmp(it, a, info):
    p, q, n = a
    for i in range(n):
        x = it.load(it.padd(p, i), ("i", 8))
        y = it.load(it.padd(q, i), ("i", 8))
        if not isinstance(x, int) or not isinstance(y, int):
            raise Undecided("memcmp on unknown data")
        if x != y:
            return 1 if x > y else (1 << 32) - 1
    return 0


def _memmove(it, a, info):
    it.memcpy(a[0], a[1], a[2])
    return a[0]


def _memset(it, a, info):
    it.memset(a[0], a[1], a[2])
    return a[0]


def _calloc(it, a, info):
    n = a[0] * a[1]
    p = malloc(it, n, "malloc")
    p.obj.kind = "zero"
    return p


def _realloc(it, a, info):
    q = malloc(it, a[1], "malloc")
    if isinstance(a[0], Ptr):
        n = a[1] if a[0].obj.size is None else min(a[1], a[0].obj.size)
        it.memcpy(q, a[0], n)
        free(it, a[0], "malloc")
    return q


def _strlen(it, a, info):
    return len(cstr(it, a[0]))


def _muldc3(it, a, info):
    v = [real(it, x) for x in a]
    b = bad(v)
    if b is not None:
        return (b, b)
    return (dom.sub(dom.mul(v[0], v[2]), dom.mul(v[1], v[3])), dom.add(dom.mul(v[0], v[3]), dom.mul(v[1], v[2])))


def _divdc3(it, a, info):
    v = [real(it, x) for x in a]
    b = bad(v)
    return (b, b) if b is not None else cdiv(*v)


def _cexp(it, a, info):
    v = [real(it, x) for x in a]
    b = bad(v)
    return (b, b) if b is not None else cexp(*v)


def _rb_increment(it, a, info):
    p = a[0]
    P = ("ptr",)
    r = it.load(it.padd(p, 24), P)
    if isinstance(r, Ptr):
        p = r
        while True:
            l = it.load(it.padd(p, 16), P)
            if not isinstance(l, Ptr):
                return p
            p = l
    y = it.load(it.padd(p, 8), P)
    while it.load(it.padd(y, 24), P) == p:
        p = y
        y = it.load(it.padd(y, 8), P)
    if it.load(it.padd(p, 24), P) != y:
        p = y
    return p


def _rb_decrement(it, a, info):
    x = a[0]
    P = ("ptr",)
    par = it.load(it.padd(x, 8), P)
    if it.load(x, ("i", 32)) == 0 and isinstance(par, Ptr) and it.load(it.padd(par, 8), P) == x:
        return it.load(it.padd(x, 24), P)
    l = it.load(it.padd(x, 16), P)
    if isinstance(l, Ptr):
        y = l
        while True:
            r = it.load(it.padd(y, 24), P)
            if not isinstance(r, Ptr):
                return y
            y = r
    y = par
    while x == it.load(it.padd(y, 16), P):
        x = y
        y = it.load(it.padd(y, 8), P)
    return y


def _rb_insert(it, a, info):
    """red-black tree insertion, order semantics only (shape is unobservable)"""
    left, x, p, h = a
    P = ("ptr",)
    it.store(it.padd(x, 8), p, P)
    it.store(it.padd(x, 16), 0, P)
    it.store(it.padd(x, 24), 0, P)
    it.store(x, 1, ("i", 32))
    if isinstance(left, Cond):
        raise Undecided("ordered container keyed by unknown values")
    if left:
        it.store(it.padd(p, 16), x, P)
        if p == h:
            it.store(it.padd(h, 8), x, P)
            it.store(it.padd(h, 24), x, P)
        elif p == it.load(it.padd(h, 16), P):
            it.store(it.padd(h, 16), x, P)
    else:
        it.store(it.padd(p, 24), x, P)
        if p == it.load(it.padd(h, 24), P):
            it.store(it.padd(h, 24), x, P)
    it.store(h, 0, ("i", 32))
    return None


def _noop(it, a, info):
    return None


def _list_hook(it, a, info):
    # std::__detail::_List_node_base::_M_hook(pos): insert this before pos
    n, pos = a
    P = ("ptr",)
    prev = it.load(it.padd(pos, 8), P)
    it.store(n, pos, P)
    it.store(it.padd(n, 8), prev, P)
    it.store(prev, n, P)
    it.store(it.padd(pos, 8), n, P)
    return None


def _list_unhook(it, a, info):
    P = ("ptr",)
    nx = it.load(a[0], P)
    pv = it.load(it.padd(a[0], 8), P)
    it.store(pv, nx, P)
    it.store(it.padd(nx, 8), pv, P)
    return None


def _div(bits):
    def g(it, a, info):
        if not (isinstance(a[0], int) and isinstance(a[1], int)):
            raise Undecided("div of unknown integers")
        x, y = sgn(a[0], bits), sgn(a[1], bits)
        if y == 0:
            it.finding("div-by-zero", "integer division by zero")
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        r = x - q * y
        m = (1 << bits) - 1
        return ((q & m) | ((r & m) << bits)) if bits == 32 else (q & m, r & m)
    return g


EXT = {
    "div": _div(32), "ldiv": _div(64), "lldiv": _div(64),
    "sqrt": _f1(dom.sqrt), "fabs": _f1(dom.fabs), "pow": _pow, "atan2": _f1(lambda y, x: dom.fn("atan2", y, x)),
    "fmod": _f1(lambda y, x: dom.fn("fmod", y, x)), "hypot": _f1(lambda y, x: dom.fn("hypot", y, x)),
    "fmax": _f1(lambda x, y: dom.gamma(dom.gt0(dom.sub(x, y)), x, y)),
    "fmin": _f1(lambda x, y: dom.gamma(dom.gt0(dom.sub(y, x)), x, y)),
    "sincos": None, "cexp": _cexp, "__muldc3": _muldc3, "__divdc3": _divdc3,
    "cabs": _f1(lambda x, y: dom.fn("hypot", x, y)),
    "ldexp": lambda it, a, info: dom.mul(real(it, a[0]), 2.0 ** sgn(a[1], 32)),
    "malloc": lambda it, a, info: malloc(it, a[0], "malloc"),
    "_Znwm": lambda it, a, info: malloc(it, a[0], "new"),
    "_Znam": lambda it, a, info: malloc(it, a[0], "new[]"),
    "_ZnwmSt11align_val_t": lambda it, a, info: malloc(it, a[0], "new"),
    "calloc": _calloc, "realloc": _realloc,
    "free": lambda it, a, info: free(it, a[0], "malloc"),
    "_ZdlPv": lambda it, a, info: free(it, a[0], "new"),
    "_ZdlPvm": lambda it, a, info: free(it, a[0], "new"),
    "_ZdaPv": lambda it, a, info: free(it, a[0], "new[]"),
    "_ZdaPvm": lambda it, a, info: free(it, a[0], "new[]"),
    "_ZdlPvSt11align_val_t": lambda it, a, info: free(it, a[0], "new"),
    "memcpy": _memmove, "memmove": _memmove, "memset": _memset, "strlen": _strlen, "memchr": _memchr,
    "memcmp": _memcmp, "bcmp": _memcmp,
    "__assert_fail": assert_fail,
    "abort": lambda it, a, info: dead(it, "abort"),
    "exit": lambda it, a, info: dead(it, "exit"),
    "_ZSt9terminatev": lambda it, a, info: dead(it, "std::terminate"),
    "__cxa_throw": lambda it, a, info: dead(it, "throw"),
    "__cxa_rethrow": lambda it, a, info: dead(it, "throw"),
    "__cxa_allocate_exception": lambda it, a, info: malloc(it, None if isinstance(a[0], SInt) else a[0], "exc"),
    "__cxa_bad_cast": lambda it, a, info: dead(it, "bad_cast"),
    "__cxa_guard_acquire": lambda it, a, info: int(it.load(a[0], ("i", 8)) == 0),
    "__cxa_guard_release": lambda it, a, info: it.store(a[0], 1, ("i", 8)), "__cxa_guard_abort": _noop, "__cxa_atexit": lambda it, a, info: 0,
    "__cxa_begin_catch": lambda it, a, info: 0, "__cxa_end_catch": _noop,
    "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base": _rb_increment,
    "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base": _rb_increment,
    "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base": _rb_decrement,
    "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base": _rb_decrement,
    "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_": _rb_insert,
    "_ZNSt8__detail15_List_node_base7_M_hookEPS0_": _list_hook,
    "_ZNSt8__detail15_List_node_base9_M_unhookEv": _list_unhook,
}
EXT.pop("sincos")
