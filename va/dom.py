"""Abstract value domain: multivariate polynomials over opaque/algebraic atoms.

A real value is a Python float (constant) or a Poly (normal form).  A Poly is
a finite map  monomial -> float coefficient  where a monomial is a sorted tuple
of (atom id, exponent).  Atoms are interned terms:

  var      an unknown input cell
  sqrt(P)  with the algebraic rule  sqrt(P)^2 -> P
  inv(P)   reciprocal of a polynomial with several terms
  f(..)    uninterpreted/elementary functions (exp, cos, sin, fabs, ...)
  gamma    gated join value  (cond ? a : b)

Equality of two values is decided over the real numbers (rounding ignored) by
clearing reciprocals, applying the square-root rule and splitting gated joins.
"""
import math

TOL = 1e-9


class Undecided(Exception):
    """The domain cannot express/decide this value (analysis gives up)."""


class Atom:
    __slots__ = ("id", "kind", "args", "name", "rank")

    def __init__(self, id, kind, args, name):
        self.id = id
        self.kind = kind
        self.args = args
        self.name = name


ATOMS = []
_BY_KIND = {}
_VARS = {}


def reset():
    ATOMS.clear()
    _BY_KIND.clear()
    _VARS.clear()
    CONDS.clear()
    _COND_IX.clear()
    POS.clear()


def _new_atom(kind, args, name):
    a = Atom(len(ATOMS), kind, args, name)
    ATOMS.append(a)
    return a


class Poly:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, n):
        return powi(self, n)


def show_mono(m):
    if not m:
        return "1"
    return "*".join(ATOMS[a].name + ("^%d" % e if e != 1 else "") for a, e in m)


def show(v, limit=6):
    if isinstance(v, Poly):
        items = sorted(v.t.items(), key=lambda kv: (len(kv[0]), kv[0]))
        s = " + ".join(
            ("%.6g" % c if not m else ("" if c == 1 else "%.6g*" % c) + show_mono(m))
            for m, c in items[:limit])
        if len(items) > limit:
            s += " + ...(%d terms)" % len(items)
        return s or "0"
    return repr(v)


def var(name):
    a = _VARS.get(name)
    if a is None:
        a = _new_atom("var", None, name)
        _VARS[name] = a
    return Poly({((a.id, 1),): 1.0})


def is_num(v):
    return isinstance(v, (int, float))


def norm(t):
    """term dict -> value (float if constant)."""
    if not t:
        return 0.0
    if len(t) == 1:
        c = t.get(())
        if c is not None:
            return c
    return Poly(t)


def as_terms(v):
    if isinstance(v, Poly):
        return v.t
    v = float(v)
    if v == 0.0:
        return {}
    return {(): v}


EPSC = 1e-14


def add(a, b):
    if is_num(a) and is_num(b):
        return a + b
    if is_num(a):
        a, b = b, a
    # a Poly
    if is_num(b):
        if b == 0:
            return a
        t = dict(a.t)
        s = t.get((), 0.0) + b
        if s == 0 or abs(s) <= EPSC * abs(b):
            t.pop((), None)
        else:
            t[()] = s
        return norm(t)
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        o = t.get(m)
        if o is None:
            t[m] = c
        else:
            s = o + c
            if s == 0 or abs(s) <= EPSC * abs(c):
                del t[m]
            else:
                t[m] = s
    return norm(t)


def neg(a):
    if is_num(a):
        return -a
    return Poly({m: -c for m, c in a.t.items()})


def sub(a, b):
    if is_num(a) and is_num(b):
        return a - b
    return add(a, neg(b))


_mono_cache = {}


def mono_mul(m1, m2):
    """product of two monomials (square roots keep their integer exponents; see reduce)"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        s = d.get(a)
        if s is None:
            d[a] = e
        else:
            s += e
            if s == 0:
                del d[a]
            else:
                d[a] = s
    return tuple(sorted(d.items()))


def reduce(v):
    """apply  sqrt(P)^2 -> P  to the non-negative even part of every square root exponent"""
    if not isinstance(v, Poly):
        return v
    todo = False
    for m in v.t:
        for x, e in m:
            if (e > 1 or e < 0) and ATOMS[x].kind == "sqrt":
                todo = True
    if not todo:
        return v
    groups = {}
    for m, c in v.t.items():
        red = []
        rest = []
        for x, e in m:
            if (e > 1 or e < 0) and ATOMS[x].kind == "sqrt":
                q, r = divmod(e, 2)
                if r:
                    rest.append((x, 1))
                red.append((x, q))
            else:
                rest.append((x, e))
        t = groups.setdefault(tuple(red), {})
        k = tuple(rest)
        n = t.get(k, 0.0) + c
        if n == 0:
            t.pop(k, None)
        else:
            t[k] = n
    out = 0.0
    for red, t in groups.items():
        p = norm(t)
        for x, q in red:
            P = ATOMS[x].args[0]
            p = mul(p, powi(P, q) if q > 0 else powi(inv_atom(P), -q))
        out = add(out, p)
    return out


def mul(a, b):
    if is_num(a):
        if is_num(b):
            return a * b
        a, b = b, a
    if is_num(b):
        if b == 0:
            return 0.0
        if b == 1:
            return a
        return Poly({m: c * b for m, c in a.t.items()})
    if len(a.t) * len(b.t) > 3000000:
        raise Undecided("polynomial product too large")
    t = {}
    for m2, c2 in b.t.items():
        for m1, c1 in a.t.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            o = t.get(m)
            if o is None:
                t[m] = c
            else:
                s = o + c
                if s == 0 or abs(s) <= EPSC * abs(c):
                    del t[m]
                else:
                    t[m] = s
    return norm(t)


def powi(a, n):
    if n < 0:
        return powi(inv(a), -n)
    if is_num(a):
        return a ** n
    r = 1.0
    base = a
    while n:
        if n & 1:
            r = mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def atom_val(a):
    return Poly({((a.id, 1),): 1.0})


def intern(kind, args, name, cmp=None):
    """intern an atom by semantic equality of its arguments."""
    bk, k = _BY_KIND.setdefault(kind, (None, {}, [], [])), _bucket(args)
    for a in _lookup(bk, k):
        if len(a.args) == len(args) and all(same(x, y) for x, y in zip(a.args, args)):
            return a
    a = _new_atom(kind, tuple(args), name)
    _enter(bk, k, a)
    return a


def _bucket(args):
    """hashable key shared by all semantically equal argument lists without algebraic atoms; None if there are such atoms"""
    out = []
    for x in args:
        if isinstance(x, Poly):
            if has_alg(x):
                return None
            out.append(frozenset(x.t))
        elif is_num(x):
            out.append(0)
        else:
            try:
                hash(x)
            except TypeError:
                return None
            out.append(x)
    return tuple(out)


def _lookup(bk, k):
    if k is None:
        return bk[2]
    l = bk[1].get(k)
    if not bk[3]:
        return l or ()
    return (l or []) + bk[3]


def _all(kind):
    return _BY_KIND[kind][2] if kind in _BY_KIND else []


def _enter(bk, k, a):
    bk[2].append(a)
    if k is None:
        bk[3].append(a)
    else:
        bk[1].setdefault(k, []).append(a)


def same(x, y):
    """cheap-first semantic equality used for interning"""
    if x is y:
        return True
    if is_num(x) and is_num(y):
        return x == y or abs(x - y) <= 1e-13 * max(abs(x), abs(y))
    if isinstance(x, (Poly, int, float)) and isinstance(y, (Poly, int, float)):
        tx, ty = as_terms(x), as_terms(y)
        if tx.keys() == ty.keys():
            return all(abs(tx[m] - ty[m]) <= 1e-12 * max(abs(tx[m]), abs(ty[m]), 1e-300)
                       for m in tx)
        if not (has_alg(x) or has_alg(y)):
            return False
        return equal(x, y)
    return x == y


def has_alg(x):
    if is_num(x):
        return False
    for m in x.t:
        for a, e in m:
            if ATOMS[a].kind in ("inv", "sqrt", "gamma") or e < 0:
                return True
    return False


def _lead(p):
    """deterministic normalising coefficient: the largest |c| of the smallest monomial"""
    m = min(p.t)
    return p.t[m]


def common_mono(p):
    it = iter(p.t)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            e = d.get(a, 0)
            f = first[a]
            if (e > 0) != (f > 0) or e == 0:
                # different signs or absent: min exponent is then min(e, f) if negative
                mn = min(e, f)
                if mn < 0:
                    first[a] = mn
                else:
                    del first[a]
            else:
                first[a] = min(e, f) if f > 0 else min(e, f)
        for a, e in d.items():
            if e < 0 and a not in first:
                first[a] = e
    return first


def inv(p):
    if is_num(p):
        if p == 0:
            return float("inf")
        return 1.0 / p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = 1.0 / c
        out = r
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "inv":
                out = mul(out, powi(at.args[0], e))
            else:
                out = mul(out, Poly({((a, -e),): 1.0}))
        return out
    cm = common_mono(p)
    if cm:
        g = tuple(sorted(cm.items()))
        gi = tuple((a, -e) for a, e in g)
        # divide without sqrt reduction (exponents only shrink towards zero)
        t = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in gi:
                s = d.get(a, 0) + e
                if s:
                    d[a] = s
                else:
                    d.pop(a, None)
            t[tuple(sorted(d.items()))] = c
        return mul(inv(Poly({g: 1.0})), inv(norm(t)))
    l = _lead(p)
    q = mul(p, 1.0 / l)
    for a in _all("sqrt"):
        x = a.args[0]
        if isinstance(x, Poly) and x.t.keys() == q.t.keys() and (same(x, q) or same(x, neg(q))):
            return mul(Poly({((a.id, -2),): 1.0}), (1.0 if same(x, q) else -1.0) / l)
    # trial division by known denominators (keeps normal forms small)
    for a in _all("inv"):
        if len(a.args[0].t) < len(q.t):
            d = exact_div(q, a.args[0])
            if d is not None:
                return mul(mul(atom_val(a), inv(d)), 1.0 / l)
    for a in _all("sqrt"):
        if isinstance(a.args[0], Poly) and 1 < len(a.args[0].t) < len(q.t):
            d = exact_div(q, a.args[0])
            if d is not None:
                return mul(mul(Poly({((a.id, -2),): 1.0}), inv(d)), 1.0 / l)
    return inv_atom(p)


def inv_atom(p):
    """reciprocal as an opaque atom"""
    if is_num(p):
        return 1.0 / p
    if len(p.t) == 1:
        return inv(p)
    l = _lead(p)
    q = mul(p, 1.0 / l)
    a = intern("inv", (q,), "(1/(%s))" % show(q, 4))
    return mul(atom_val(a), 1.0 / l)


def _order(m):
    return tuple(sorted(((-a, e) for a, e in m), reverse=True))


def _grlex(m):
    return (sum(e for _, e in m), tuple(sorted(((-a, e) for a, e in m), reverse=True)))


def exact_div(p, q, limit=400):
    """p / q if it divides exactly (polynomial exponents only) else None"""
    if any(e < 0 for m in p.t for _, e in m) or any(e < 0 for m in q.t for _, e in m):
        return None
    if len(p.t) > 3000:
        return None
    # lex order on a fixed variable order
    vs = sorted({a for m in p.t for a, _ in m} | {a for m in q.t for a, _ in m})
    ix = {a: i for i, a in enumerate(vs)}
    n = len(vs)

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[ix[a]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.t.items()}
    Q = {vec(m): c for m, c in q.t.items()}
    lq = max(Q)
    cq = Q[lq]
    scale = max(abs(c) for c in P.values())
    quo = {}
    steps = 0
    while P:
        lp = max(P)
        cp = P[lp]
        if abs(cp) < 1e-11 * scale:
            del P[lp]
            continue
        d = tuple(x - y for x, y in zip(lp, lq))
        if min(d, default=0) < 0:
            return None
        steps += 1
        if steps > limit:
            return None
        c = cp / cq
        quo[d] = c
        for m, cc in Q.items():
            mm = tuple(x + y for x, y in zip(m, d))
            s = P.get(mm, 0.0) - c * cc
            if mm == lp or abs(s) < 1e-12 * scale:
                P.pop(mm, None)
            else:
                P[mm] = s
    t = {}
    for v, c in quo.items():
        t[tuple((vs[i], e) for i, e in enumerate(v) if e)] = c
    return norm(t)


def div(a, b):
    if is_num(b):
        if is_num(a):
            if b == 0:
                return math.copysign(float("inf"), a) if a else float("nan")
            return a / b
        if b == 0:
            raise Undecided("division by constant zero")
        return mul(a, 1.0 / b)
    return mul(a, inv(b))


def sqrt(p):
    if is_num(p):
        return math.sqrt(p) if p >= 0 else float("nan")
    l = abs(_lead(p))
    q = mul(p, 1.0 / l)
    c = math.sqrt(l)
    # pull out even powers of reciprocals (positive denominators only by |.|)
    if len(q.t) == 1:
        (m, cc), = q.t.items()
        if cc == 1.0 and all(e % 2 == 0 for _, e in m):
            out = c
            for a, e in m:
                base = fabs(Poly({((a, 1),): 1.0}))
                out = mul(out, powi(base, e // 2))
            return out
    a = intern("sqrt", (q,), "sqrt(%s)" % show(q, 4))
    return mul(atom_val(a), c)


def nonneg(p):
    """syntactic proof that p >= 0"""
    if is_num(p):
        return p >= 0
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and ATOMS[a].kind not in ("sqrt", "fabs", "exp"):
                if ATOMS[a].kind == "inv" and nonneg(ATOMS[a].args[0]):
                    continue
                return False
    return True


def fabs(p):
    if is_num(p):
        return abs(p)
    if nonneg(p):
        return p
    l = _lead(p)
    q = mul(p, 1.0 / l)
    a = intern("fabs", (q,), "|%s|" % show(q, 4))
    return mul(atom_val(a), abs(l))


def f32(p):
    """rounding to single precision: an opaque, idempotent function (unlike double rounding it is never ignored)"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "f32":
            return p
    return fn("f32", p)


def fn(kind, *args):
    if all(is_num(x) for x in args):
        try:
            f = {"exp": math.exp, "cos": math.cos, "sin": math.sin, "log": math.log,
                 "tan": math.tan, "acos": math.acos, "asin": math.asin, "atan": math.atan,
                 "atan2": math.atan2, "floor": math.floor, "ceil": math.ceil,
                 "pow": math.pow, "tgamma": math.gamma, "lgamma": math.lgamma,
                 "log10": math.log10, "fmod": math.fmod, "hypot": math.hypot,
                 "log2": math.log2, "round": lambda x: math.copysign(math.floor(abs(x) + .5), x),
                 "trunc": math.trunc, "sinh": math.sinh, "cosh": math.cosh,
                 "tanh": math.tanh}[kind]
            return float(f(*args))
        except KeyError:
            pass
    if kind in ("cos", "sin"):
        p = args[0]
        l = _lead(p)
        if l < 0:
            r = fn(kind, neg(p))
            return r if kind == "cos" else neg(r)
    if kind == "hypot":
        return sqrt(add(mul(args[0], args[0]), mul(args[1], args[1])))
    if kind == "pow":
        if is_num(args[1]) and float(args[1]) == int(args[1]):
            return powi(args[0], int(args[1]))
        if is_num(args[1]) and float(2 * args[1]) == int(2 * args[1]):
            return powi(sqrt(args[0]), int(2 * args[1]))
    a = intern(kind, args, "%s(%s)" % (kind, ",".join(show(x, 4) for x in args)))
    return atom_val(a)


# ----------------------------------------------------------------- conditions

CONDS = []
_COND_IX = {}


class Cond:
    """(condition atom id, negated)"""
    __slots__ = ("id", "neg")

    def __init__(self, id, neg):
        self.id = id
        self.neg = neg

    def __repr__(self):
        k = CONDS[self.id]
        s = show_cond(k)
        return ("!(" + s + ")") if self.neg else s

    def __eq__(self, o):
        return isinstance(o, Cond) and o.id == self.id and o.neg == self.neg

    def __hash__(self):
        return hash((self.id, self.neg))


def show_cond(k):
    if k[0] in ("gt0", "eq0"):
        return "%s %s" % (show(k[1]), {"gt0": "> 0", "eq0": "== 0"}[k[0]])
    return "%s(%s)" % (k[0], ", ".join(map(str, k[1:])))


def cond_not(c):
    if isinstance(c, Cond):
        return Cond(c.id, not c.neg)
    return 1 - int(c)


def _intern_cond(kind, *args):
    bk, b = _COND_IX.setdefault(kind, (None, {}, [], [])), _bucket(args)
    for i in _lookup(bk, b):
        k = CONDS[i]
        if len(k) == 1 + len(args) and all(same(x, y) for x, y in zip(k[1:], args)):
            return i
    CONDS.append((kind,) + args)
    _enter(bk, b, len(CONDS) - 1)
    return len(CONDS) - 1


POS = []


def assume_pos(p):
    """standing assumption p > 0 (regular parametrisation, distinct points, ...)"""
    p = reduce(p)
    if not is_num(p):
        POS.append(mul(p, 1.0 / abs(_lead(p))))


def known_sign(p):
    """1 / -1 if a standing assumption settles the sign of p, else 0"""
    if not POS or is_num(p):
        return 0
    q = p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        s = 1 if c > 0 else -1
        for a, e in m:
            k = ATOMS[a].kind
            if k == "exp":
                continue
            if k == "sqrt" and known_sign(ATOMS[a].args[0]) > 0:
                continue
            if k == "inv" and e % 2:
                t = known_sign(ATOMS[a].args[0])
                if t:
                    s *= t
                    continue
            if e % 2 == 0:
                return 0
            v = Poly({((a, 1),): 1.0})
            if any(same(v, x) for x in POS):
                continue
            return 0
        return s
    q = mul(p, 1.0 / abs(_lead(p)))
    for x in POS:
        if isinstance(x, Poly) and x.t.keys() == q.t.keys():
            if same(x, q):
                return 1
            if same(x, neg(q)):
                return -1
    return 0


def gt0(p):
    p = reduce(p)
    if is_num(p):
        return int(p > 0)
    sg = known_sign(p)
    if sg:
        return int(sg > 0)
    if isinstance(p, Poly) and all(c < 0 for c in p.t.values()) and nonneg(neg(p)):
        return 0
    l = abs(_lead(p))
    q = mul(p, 1.0 / l)
    # p > 0  and  -p > 0 are different conditions; no further canonicalisation
    return Cond(_intern_cond("gt0", q), False)


def eq0(p):
    p = reduce(p)
    if is_num(p):
        return int(p == 0)
    if known_sign(p):
        return 0
    l = _lead(p)
    return Cond(_intern_cond("eq0", mul(p, 1.0 / l)), False)


def bool_op(op, a, b):
    """op in and/or/xor on conditions (ints 0/1 or Cond)"""
    if not isinstance(a, Cond):
        a, b = b, a
    if not isinstance(a, Cond):
        a, b = int(a) & 1, int(b) & 1
        return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
    if not isinstance(b, Cond):
        b = int(b) & 1
        if op == "and":
            return a if b else 0
        if op == "or":
            return 1 if b else a
        return cond_not(a) if b else a
    if a.id == b.id:
        if op == "xor":
            return int(a.neg != b.neg)
        if a.neg == b.neg:
            return a
        return 0 if op == "and" else 1
    if op == "or":
        return cond_not(bool_op("and", cond_not(a), cond_not(b)))
    if op == "xor":
        n = a.neg != b.neg
        i, j = sorted((a.id, b.id))
        return Cond(_intern_cond("xor", i, j), n)
    x, y = sorted(((a.id, a.neg), (b.id, b.neg)))
    return Cond(_intern_cond("and", x, y), False)


def gamma(c, a, b):
    """value of  c ? a : b  for reals"""
    if not isinstance(c, Cond):
        return a if c else b
    if c.neg:
        c, a, b = Cond(c.id, False), b, a
    if isinstance(a, Poly):
        a = subst_cond(a, implied(c.id, True))
    if isinstance(b, Poly):
        b = subst_cond(b, implied(c.id, False))
    if same(a, b):
        return a
    at = intern("gamma", (CondRef(c.id), a, b), "(%r ? %s : %s)" % (c, show(a, 3), show(b, 3)))
    return atom_val(at)


def implied(cid, val, acc=None):
    """truth values of conditions implied by a condition"""
    acc = {} if acc is None else acc
    acc[cid] = val
    k = CONDS[cid]
    if k[0] == "and" and val:
        for i, n in k[1:]:
            implied(i, not n, acc)
    return acc


def truth(cid, assign):
    t = assign.get(cid)
    if t is not None:
        return t
    k = CONDS[cid]
    if k[0] == "and":
        a = truth(k[1][0], assign)
        b = truth(k[2][0], assign)
        a = None if a is None else a != k[1][1]
        b = None if b is None else b != k[2][1]
        if a is False or b is False:
            return False
        if a and b:
            return True
    elif k[0] == "xor":
        a, b = truth(k[1], assign), truth(k[2], assign)
        if a is not None and b is not None:
            return a != b
    return None


def base_conds(cid, acc):
    k = CONDS[cid]
    if k[0] == "and":
        base_conds(k[1][0], acc)
        base_conds(k[2][0], acc)
    elif k[0] == "xor":
        base_conds(k[1], acc)
        base_conds(k[2], acc)
    else:
        acc.add(cid)
    return acc


class CondRef:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, CondRef) and o.id == self.id

    def __hash__(self):
        return self.id


# ------------------------------------------------------------------ equality

def atoms_of(v, deep=False, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, Poly):
        for m in v.t:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    if deep and ATOMS[a].args:
                        for x in ATOMS[a].args:
                            atoms_of(x, True, acc)
                            if isinstance(x, CondRef):
                                cond_atoms(x.id, acc)
    return acc


def cond_atoms(cid, acc):
    for x in CONDS[cid][1:]:
        if isinstance(x, Poly):
            atoms_of(x, True, acc)
        elif isinstance(x, tuple):
            cond_atoms(x[0], acc)
        elif isinstance(x, int) and CONDS[cid][0] in ("xor",):
            cond_atoms(x, acc)


def var_names(v):
    """names of all input variables the value depends on (dependency analysis)"""
    return {ATOMS[a].name for a in atoms_of(v, True) if ATOMS[a].kind == "var"}


def subst_cond(v, assign):
    """resolve gamma atoms under a truth assignment {cond id: bool}"""
    if not isinstance(v, Poly):
        return v
    hit = [a for a in atoms_of(v, True) if ATOMS[a].kind == "gamma" and
           truth(ATOMS[a].args[0].id, assign) is not None]
    if not hit:
        return v
    out = 0.0
    for m, c in v.t.items():
        p = c
        for a, e in m:
            p = mul(p, powi(_subst_atom(a, assign), e) if _touch(a, assign) else Poly({((a, e),): 1.0}))
        out = add(out, p)
    return out


def _touch(a, assign):
    at = ATOMS[a]
    if at.kind == "gamma" and truth(at.args[0].id, assign) is not None:
        return True
    if at.args:
        return any(ATOMS[b].kind == "gamma" and truth(ATOMS[b].args[0].id, assign) is not None
                   for x in at.args for b in atoms_of(x, True))
    return False


def rebuild(at, args):
    k = at.kind
    if k == "sqrt":
        return sqrt(args[0])
    if k == "inv":
        return inv(args[0])
    if k == "fabs":
        return fabs(args[0])
    if k == "gamma":
        return gamma(Cond(args[0].id, False), args[1], args[2])
    return fn(k, *args)


def _subst_atom(a, assign):
    at = ATOMS[a]
    if at.kind == "gamma":
        tv = truth(at.args[0].id, assign)
        if tv is not None:
            return subst_cond(at.args[1] if tv else at.args[2], assign)
    return rebuild(at, [subst_cond(x, assign) if isinstance(x, Poly) else x for x in at.args])


def subst(v, mp, _memo=None):
    """substitute variables by values: mp maps var name -> value"""
    if not isinstance(v, Poly):
        return v
    memo = {} if _memo is None else _memo
    out = 0.0
    for m, c in v.t.items():
        p = c
        keep = []
        for a, e in m:
            r = memo.get(a)
            if r is None:
                at = ATOMS[a]
                if at.kind == "var":
                    r = mp.get(at.name, False)
                else:
                    names = {ATOMS[b].name for x in at.args for b in atoms_of(x, True)
                             if ATOMS[b].kind == "var"}
                    if names & mp.keys():
                        args = [subst(x, mp) if isinstance(x, Poly) else x for x in at.args]
                        if at.kind == "gamma":
                            args[0] = at.args[0]
                        r = rebuild(at, args)
                    else:
                        r = False
                memo[a] = r
            if r is False:
                keep.append((a, e))
            else:
                p = mul(p, powi(r, e))
        if keep:
            p = mul(p, Poly({tuple(keep): 1.0}))
        out = add(out, p)
    return out


def diff(v, name):
    """derivative of a normal form w.r.t. an input variable (chain rule on atoms)"""
    if not isinstance(v, Poly):
        return 0.0
    out = 0.0
    for m, c in v.t.items():
        for i, (a, e) in enumerate(m):
            da = diff_atom(a, name)
            if is_num(da) and da == 0:
                continue
            rest = m[:i] + (((a, e - 1),) if e != 1 else ()) + m[i + 1:]
            out = add(out, mul(mul(da, c * e), Poly({rest: 1.0}) if rest else 1.0))
    return out


def diff_atom(a, name):
    at = ATOMS[a]
    if at.kind == "var":
        return 1.0 if at.name == name else 0.0
    x = at.args[0]
    if at.kind == "gamma":
        if not any(ATOMS[b].kind == "var" and ATOMS[b].name == name for b in atoms_of(atom_val(at), True)):
            return 0.0
        return gamma(Cond(x.id, False), diff(at.args[1], name), diff(at.args[2], name))
    dx = diff(x, name)
    if is_num(dx) and dx == 0 and len(at.args) == 1:
        return 0.0
    me = atom_val(at)
    if at.kind == "sqrt":
        return mul(mul(dx, 0.5), Poly({((a, -1),): 1.0}))
    if at.kind == "inv":
        return neg(mul(dx, mul(me, me)))
    if at.kind == "exp":
        return mul(dx, me)
    if at.kind == "cos":
        return neg(mul(dx, fn("sin", x)))
    if at.kind == "sin":
        return mul(dx, fn("cos", x))
    if name not in var_names(me):
        return 0.0
    raise Undecided("derivative of " + at.kind)


def clear_pair(a, b):
    """multiply a and b by the same non-zero quantities until reciprocal-free"""
    guard = 0
    while True:
        ids = {x for x in atoms_of(a) | atoms_of(b) if ATOMS[x].kind == "inv"}
        # negative exponents of plain atoms
        mn = {}
        for v in (a, b):
            if isinstance(v, Poly):
                for m in v.t:
                    for x, e in m:
                        if e < 0 and e < mn.get(x, 0):
                            mn[x] = e
        if not ids and not mn:
            return a, b
        guard += 1
        if guard > 200:
            raise Undecided("cannot clear reciprocals")
        if mn:
            f = Poly({tuple(sorted((x, -e) for x, e in mn.items())): 1.0})
            a, b = mul(a, f), mul(b, f)
            continue
        i = max(ids)
        P = ATOMS[i].args[0]
        k = 0
        for v in (a, b):
            if isinstance(v, Poly):
                for m in v.t:
                    for x, e in m:
                        if x == i:
                            k = max(k, e)

        def cl(v):
            if is_num(v):
                return mul(v, powi(P, k))
            groups = {}
            for m, c in v.t.items():
                j = 0
                rest = []
                for x, e in m:
                    if x == i:
                        j = e
                    else:
                        rest.append((x, e))
                groups.setdefault(j, {})[tuple(rest)] = c
            out = 0.0
            for j, t in groups.items():
                out = add(out, mul(norm(t), powi(P, k - j)))
            return out
        a, b = cl(a), cl(b)


def equal(a, b, tol=TOL):
    if is_num(a) and is_num(b):
        if a == b:
            return True
        return abs(a - b) <= tol * max(abs(a), abs(b))
    if isinstance(a, (Poly, int, float)) and isinstance(b, (Poly, int, float)):
        if _close(as_terms(a), as_terms(b), tol):
            return True
    else:
        return a == b
    # split on gated joins
    gs = sorted({ATOMS[x].args[0].id for v in (a, b) for x in atoms_of(v, True)
                 if ATOMS[x].kind == "gamma"})
    if gs:
        c = min(base_conds(gs[-1], set()))
        for t in (True, False):
            if not equal(subst_cond(a, {c: t}), subst_cond(b, {c: t}), tol):
                return False
        return True
    a2, b2 = clear_pair(a, b)
    if _close(as_terms(a2), as_terms(b2), tol):
        return True
    a1, b1 = a2, b2
    while True:
        a2, b2 = reduce(a1), reduce(b1)
        if a2 is a1 and b2 is b1:
            break
        a2, b2 = clear_pair(a2, b2)
        if _close(as_terms(a2), as_terms(b2), tol):
            return True
        a1, b1 = a2, b2
    # combine exponentials: rewrite products of exp atoms
    a3, b3 = _merge_exp(a2), _merge_exp(b2)
    if a3 is not a2 or b3 is not b2:
        return _close(as_terms(a3), as_terms(b3), tol)
    return False


def _merge_exp(v):
    if not isinstance(v, Poly):
        return v
    changed = False
    out = 0.0
    for m, c in v.t.items():
        ex = [(a, e) for a, e in m if ATOMS[a].kind == "exp"]
        if len(ex) > 1 or (ex and ex[0][1] != 1):
            changed = True
            s = 0.0
            for a, e in ex:
                s = add(s, mul(ATOMS[a].args[0], float(e)))
            rest = tuple((a, e) for a, e in m if ATOMS[a].kind != "exp")
            out = add(out, mul(fn("exp", s), Poly({rest: c}) if rest else c))
        else:
            out = add(out, Poly({m: c}) if m else c)
    return out if changed else v


def _close(ta, tb, tol):
    if not ta and not tb:
        return True
    scale = max([abs(c) for c in ta.values()] + [abs(c) for c in tb.values()])
    for m in ta.keys() | tb.keys():
        x, y = ta.get(m, 0.0), tb.get(m, 0.0)
        if abs(x - y) > tol * max(abs(x), abs(y)) and abs(x - y) > 1e-12 * scale:
            return False
    return True
