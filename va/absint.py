"""Forward abstract interpretation of LLVM IR.

Abstract state: SSA environment + field-sensitive store (region, constant
offset) -> abstract value.  Integers are constants or polynomials over unknown
integers, pointers are (region, offset), reals are polynomial normal forms
(see dom.py).  Branches whose condition is not a constant are analysed on both
sides and the two abstract states are joined at the immediate post-dominator
(gated join).  Loops are unrolled while their exit test is a constant in the
abstract state; a loop whose trip count is unknown makes the analysis give up
(Undecided), it is never guessed.  Calls are analysed context-sensitively.
"""
import re
import sys
import struct as _struct
from . import dom
from .dom import Poly, Cond, Undecided, add, sub, mul, div, neg, gamma, gt0, eq0, cond_not, bool_op, is_num

sys.setrecursionlimit(200000)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Top:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "T(%s)" % self.why


class SInt:
    """unknown integer in polynomial normal form"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "int(%s)" % dom.show(self.p)

    def __eq__(self, o):
        return isinstance(o, SInt) and dom.same(self.p, o.p)

    def __hash__(self):
        return 7


def mkint(p, bits=64):
    if is_num(p):
        return int(round(p)) & ((1 << bits) - 1)
    return SInt(p)


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "&%s+%s" % (self.obj.name, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj is self.obj and o.off == self.off

    def __hash__(self):
        return hash((self.obj.id, self.off if isinstance(self.off, int) else 0))


class GPtr:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return "(%r ? %r : %r)" % (self.c, self.a, self.b)

    def __eq__(self, o):
        return isinstance(o, GPtr) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return 11


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn:" + self.name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Obj:
    __slots__ = ("id", "name", "size", "cells", "kind", "alive", "maybe_null", "mixed", "ro", "where",
                 "src", "written", "heap", "meta", "fills", "mayfree")

    def __init__(self, id, name, size, kind):
        self.id = id
        self.name = name
        self.size = size
        self.cells = {}
        self.kind = kind        # undef | sym | zero
        self.alive = True
        self.mayfree = False
        self.maybe_null = False
        self.mixed = False
        self.ro = False
        self.where = None
        self.written = False
        self.heap = None
        self.meta = None
        self.fills = None

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class Finding(Exception):
    """definite misbehaviour found by the analysis (out of bounds, use after free, abort...)"""

    def __init__(self, kind, msg, where):
        Exception.__init__(self, "%s: %s at %s" % (kind, msg, where))
        self.kind = kind
        self.msg = msg
        self.where = where


DEAD = ("dead", None)


class Interp:
    def __init__(self, mod, root="/repo/", max_steps=60_000_000, check_mem=True):
        self.mod = mod
        self.T = mod.types
        self.root = root
        self.objs = []
        self.gobj = {}
        self.hooks = {}
        self.stack = []
        self.truth = {}
        self.arms = 0
        self.journal = None
        self.steps = 0
        self.max_steps = max_steps
        self.check_mem = check_mem
        self.events = []
        self.dead_reason = None
        self.coverage = {}
        self.default_null = True
        self.joins = 0
        self.findings = []
        self.loopmax = 200000
        self.storelog = None
        self.cur_dbg = None
        self.f32 = True          # rounding to single precision is not an identity

    # ------------------------------------------------------------ memory objects
    def new_obj(self, name, size, kind):
        o = Obj(len(self.objs), name, size, kind)
        self.objs.append(o)
        return o

    def sym(self, name, size=None, maybe_null=False):
        o = self.new_obj(name, size, "sym")
        o.maybe_null = maybe_null
        return Ptr(o, 0)

    def global_obj(self, name):
        o = self.gobj.get(name)
        if o is not None:
            return o
        if name in self.mod.aliases:
            k = self.mod.aliases[name]
            v = self.const(k, ("ptr",))
            if isinstance(v, Ptr):
                self.gobj[name] = v.obj
                return v.obj
        if name not in self.mod.globals:
            raise Undecided("unknown global " + name)
        t, init, const = self.mod.global_init(name)
        o = self.new_obj("@" + name, self.T.size(t) if init is not None else None, "zero" if init is not None else "sym")
        o.ro = const
        self.gobj[name] = o
        if init is not None and not name.startswith("_ZGV"):      # guards start at zero, byte by byte
            self._init(o, 0, t, init)
        return o

    def _init(self, o, off, t, v):
        k = v[0]
        if k == "z":
            return
        if k == "u":
            return
        if k == "agg":
            rt = self.T.resolve(t)
            if rt[0] == "struct":
                offs, _ = self.T.layout(rt)
                for (et, ev), eo in zip(v[2], offs):
                    self._init(o, off + eo, et, ev)
            else:
                es = self.T.size(rt[2])
                for i, (et, ev) in enumerate(v[2]):
                    self._init(o, off + i * es, et, ev)
            return
        if k == "str":
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        val = self.const(v, t)
        if t[0] == "i":
            val = val if not isinstance(val, int) else val & ((1 << t[1]) - 1)
        o.cells[off] = (self.T.size(t), val)

    # ------------------------------------------------------------ constants
    def const(self, v, t):
        k = v[0]
        if k == "c":
            c = v[1]
            if t[0] == "i" and isinstance(c, int):
                return c & ((1 << t[1]) - 1)
            return c
        if k == "g":
            n = v[1]
            if n in self.mod.functions or n in self.mod.decls:
                return Fn(n)
            if n in self.mod.aliases:
                return self.const(self.mod.aliases[n], t)
            return Ptr(self.global_obj(n), 0)
        if k == "u":
            rt = self.T.resolve(t)
            if rt[0] == "struct":
                return tuple(self.const(("u", x), x) for x in rt[1])
            if rt[0] in ("arr", "vec"):
                return tuple(self.const(("u", rt[2]), rt[2]) for _ in range(rt[1]))
            return UNDEF
        if k == "z":
            rt = self.T.resolve(t)
            if rt[0] == "struct":
                return tuple(self.const(("z", x), x) for x in rt[1])
            if rt[0] in ("arr", "vec"):
                return tuple(self.const(("z", rt[2]), rt[2]) for _ in range(rt[1]))
            return 0.0 if rt[0] in ("double", "float", "x86_fp80") else 0
        if k == "gep":
            vals = [self.const(o, ot) for ot, o in v[2]]
            return self.gep(v[1], vals)
        if k == "cast":
            x = self.const(v[3], v[2])
            return self.cast(v[1], v[2], x, v[4])
        if k == "cbin":
            return self.binop(v[1], v[2], self.const(v[3], v[2]), self.const(v[4], v[2]))
        if k == "cicmp":
            return self.icmp(v[1], v[2], self.const(v[3], v[2]), self.const(v[4], v[2]))
        if k == "agg":
            return tuple(self.const(ev, et) for et, ev in v[2])
        if k == "splat":
            rt = self.T.resolve(t)
            return tuple(self.const(v[2], rt[2]) for _ in range(rt[1]))
        if k == "str":
            return tuple(v[1])
        raise Undecided("constant %r" % (v,))

    def val(self, env, v, t):
        if v[0] == "l":
            return env[v[1]]
        return self.const(v, t)

    # ------------------------------------------------------------ loads / stores
    def where(self):
        for fn, dbg in reversed([(f, d) for f, d in self.stack]):
            ls = self.mod.loc(dbg) if dbg is not None else []
            for f, l, n in ls:
                if f.startswith(self.root):
                    return "%s:%d (%s)" % (f[len(self.root):], l, n)
        for fn, dbg in reversed(self.stack):
            return self.mod.dem(fn)[:120]
        return "?"

    def finding(self, kind, msg):
        raise Finding(kind, msg, self.where())

    def default(self, o, off, size, t):
        if o.kind == "zero":
            return 0.0 if t[0] in ("double", "float") else 0
        if o.kind == "undef":
            return UNDEF
        # symbolic input
        nm = "%s[%s]" % (o.name, off)
        if t[0] in ("double", "float", "x86_fp80"):
            return dom.var(nm)
        if t[0] == "ptr":
            p = self.sym(nm + "->", None, self.default_null)
            return p
        if t[0] == "i":
            if t[1] == 1:
                return Cond(dom._intern_cond("bool", nm), False)
            return SInt(dom.var(nm))
        raise Undecided("symbolic load of %r" % (t,))

    def load(self, ptr, t):
        k = t[0]
        if k in ("struct", "named"):
            rt = self.T.resolve(t)
            if rt[0] == "struct":
                offs, _ = self.T.layout(rt)
                return tuple(self.load(self.padd(ptr, o), x) for x, o in zip(rt[1], offs))
            return self.load(ptr, rt)
        if k in ("arr", "vec"):
            es = self.T.size(t[2])
            return tuple(self.load(self.padd(ptr, i * es), t[2]) for i in range(t[1]))
        if isinstance(ptr, GPtr):
            c = self.decide(ptr.c)
            if c is not None:
                return self.load(ptr.a if c else ptr.b, t)
            if ptr.a == 0 or isinstance(ptr.a, int):
                return self.load(ptr.b, t)
            if isinstance(ptr.b, int):
                return self.load(ptr.a, t)
            return self.mergeval(ptr.c, self.load(ptr.a, t), self.load(ptr.b, t))
        if not isinstance(ptr, Ptr):
            if isinstance(ptr, int):
                if 0 <= ptr < 65536:
                    self.finding("null-dereference", "load through a null pointer")
                raise Undecided("load from integer address")
            if ptr is UNDEF:
                self.finding("uninitialised-pointer", "load through an uninitialised pointer")
            raise Undecided("load through %r" % (ptr,))
        o = ptr.obj
        off = ptr.off
        size = self.T.size(t)
        if not o.alive:
            self.finding("use-after-free", "read of freed memory (%s)" % o.name)
        if not isinstance(off, int):
            return self.load_sym_index(o, off, size, t)
        if self.check_mem and (off < 0 or (o.size is not None and off + size > o.size)) and o.size is not None:
            self.finding("out-of-bounds", "read of %d bytes at offset %s of %s (size %s)" % (size, off, o.name, o.size))
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.retype(c[1], t)
        return self.load_slow(o, off, size, t, c)

    def load_slow(self, o, off, size, t, c):
        ov = []
        for q in range(off - 15, off + size):
            d = o.cells.get(q)
            if d is not None and q + d[0] > off:
                ov.append((q, d[0], d[1]))
        if not ov:
            if t[0] == "i" and t[1] == 64 and o.kind == "sym" and size == 8:
                # type-punned move of a double is indistinguishable; keep as int
                pass
            v = self.default(o, off, size, t)
            if o.kind == "sym":
                o.cells[off] = (size, v)
            return v
        if any(v is UNDEF for _, _, v in ov) and len(ov) == 1:
            return UNDEF
        # assemble bytes of constants
        buf = [None] * size
        if o.kind == "zero":
            buf = [0] * size
        for q, s, v in ov:
            b = to_bytes(v, s)
            if b is None:
                if len(ov) == 1 and q <= off and q + s >= off + size and isinstance(v, (SInt, Poly, Cond)):
                    if isinstance(v, (SInt,)) and q == off and t[0] == "i":
                        return v  # truncating read of a small unknown integer
                raise Undecided("partial read of %r at %s+%d by %r" % (v, o.name, off, t))
            for i in range(s):
                if off <= q + i < off + size:
                    buf[q + i - off] = b[i]
        if any(x is None for x in buf):
            if o.kind == "undef":
                if t[0] == "i":
                    return UNDEF
            raise Undecided("partial read of %s" % o.name)
        n = int.from_bytes(bytes(buf), "little")
        return self.retype(n, t)

    def load_sym_index(self, o, off, size, t):
        p = off.p
        if o.kind == "sym" and not o.written:
            if t[0] in ("double", "float"):
                at = dom.intern("load", (o.name, p), "%s[%s]" % (o.name, dom.show(p)))
                return dom.atom_val(at)
            if t[0] == "i":
                at = dom.intern("load", (o.name, p), "%s[%s]" % (o.name, dom.show(p)))
                return SInt(dom.atom_val(at))
            if t[0] == "ptr":
                key = ("symptr", o.id)
                lst = self.hooks.setdefault(key, [])
                for q, r in lst:
                    if dom.same(q, p):
                        return r
                r = self.sym("%s[%s]->" % (o.name, dom.show(p)), None, self.default_null)
                lst.append((p, r))
                return r
        # constant table indexed by an unknown: gated over gamma-valued offsets
        c = self.split_gamma(p)
        if c is not None:
            cid, a, b = c
            cc = Cond(cid, False)
            return self.mergeval(cc, self.load(Ptr(o, offint(a)), t), self.load(Ptr(o, offint(b)), t))
        return Top("load from %s at unknown index" % o.name)

    def split_gamma(self, p):
        if is_num(p):
            return None
        for a in dom.atoms_of(p):
            if dom.ATOMS[a].kind == "gamma":
                cid = min(dom.base_conds(dom.ATOMS[a].args[0].id, set()))
                return cid, dom.subst_cond(p, {cid: True}), dom.subst_cond(p, {cid: False})
        return None

    def retype(self, v, t):
        if isinstance(v, int):
            if t[0] == "double":
                if v == 0:
                    return 0.0
                return _struct.unpack("<d", (v & (2 ** 64 - 1)).to_bytes(8, "little"))[0]
            if t[0] == "float":
                return _struct.unpack("<f", (v & (2 ** 32 - 1)).to_bytes(4, "little"))[0]
            if t[0] == "i":
                return v & ((1 << t[1]) - 1)
            return v
        if isinstance(v, SInt) and t[0] == "double":
            # raw copy of an unknown 8-byte cell: it is the same unknown as a real
            if self.is_plain_var(v.p):
                return v.p
            raise Undecided("integer bits used as real")
        return v

    def is_plain_var(self, p):
        return isinstance(p, Poly) and len(p.t) == 1 and list(p.t.values())[0] == 1.0 and \
            all(dom.ATOMS[a].kind == "var" and e == 1 for m in p.t for a, e in m)

    def jset(self, o, off, cell):
        j = self.journal
        if j is not None:
            j.append((o, off, o.cells.get(off)))
        if cell is None:
            o.cells.pop(off, None)
        else:
            o.cells[off] = cell

    def store(self, ptr, val, t):
        k = t[0]
        if k in ("struct", "named"):
            rt = self.T.resolve(t)
            if rt[0] == "struct":
                offs, _ = self.T.layout(rt)
                for x, off, v in zip(rt[1], offs, val):
                    self.store(self.padd(ptr, off), v, x)
                return
            return self.store(ptr, val, rt)
        if k in ("arr", "vec"):
            es = self.T.size(t[2])
            for i, v in enumerate(val):
                self.store(self.padd(ptr, i * es), v, t[2])
            return
        if isinstance(ptr, GPtr):
            c = self.decide(ptr.c)
            if c is not None:
                return self.store(ptr.a if c else ptr.b, val, t)
            for q, cc in ((ptr.a, ptr.c), (ptr.b, cond_not(ptr.c))):
                if isinstance(q, int):
                    continue
                old = self.load(q, t)
                self.store(q, self.mergeval(cc, val, old), t)
            return
        if not isinstance(ptr, Ptr):
            if isinstance(ptr, int) and 0 <= ptr < 65536:
                self.finding("null-dereference", "store through a null pointer")
            if ptr is UNDEF:
                self.finding("uninitialised-pointer", "store through an uninitialised pointer")
            raise Undecided("store through %r" % (ptr,))
        o = ptr.obj
        off = ptr.off
        if not o.alive:
            self.finding("use-after-free", "write to freed memory (%s)" % o.name)
        if not isinstance(off, int):
            c = self.split_gamma(off.p)
            if c is not None:
                cid, a, b = c
                return self.store(GPtr(Cond(cid, False), Ptr(o, offint(a)), Ptr(o, offint(b))), val, t)
            raise Undecided("store to %s at unknown index %r" % (o.name, off))
        size = self.T.size(t)
        if self.check_mem and o.size is not None and (off < 0 or off + size > o.size):
            self.finding("out-of-bounds", "write of %d bytes at offset %s of %s (size %s)" % (size, off, o.name, o.size))
        o.written = True
        self.store_cell(o, off, size, val)
        if self.storelog is not None:
            self.storelog[(o.id, off)] = (self.stack[-1] if self.stack else None, list(self.stack[:-1]))

    def store_cell(self, o, off, size, val):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            self.jset(o, off, (size, val))
            return
        for q in range(off - 15, off + size):
            d = cells.get(q)
            if d is not None and q + d[0] > off:
                if q >= off and q + d[0] <= off + size:
                    self.jset(o, q, None)
                else:
                    b = to_bytes(d[1], d[0])
                    self.jset(o, q, None)
                    for i in range(d[0]):
                        if not (off <= q + i < off + size):
                            if b is None:
                                self.jset(o, q + i, (1, Top("partially overwritten") if d[1] is not UNDEF else UNDEF))
                            else:
                                self.jset(o, q + i, (1, b[i]))
        self.jset(o, off, (size, val))

    def padd(self, ptr, d):
        if d == 0:
            return ptr
        if isinstance(ptr, Ptr):
            return Ptr(ptr.obj, offadd(ptr.off, d))
        if isinstance(ptr, GPtr):
            return GPtr(ptr.c, self.padd(ptr.a, d), self.padd(ptr.b, d))
        if isinstance(ptr, int):
            if isinstance(d, int):
                return (ptr + d) & (2 ** 64 - 1)
            return Top("int ptr")
        if ptr is UNDEF:
            return UNDEF
        if isinstance(ptr, Top):
            return ptr
        if isinstance(ptr, Fn):
            raise Undecided("arithmetic on function pointer")
        raise Undecided("pointer arithmetic on %r" % (ptr,))

    def gep(self, bt, vals):
        base = vals[0]
        t = bt
        total = 0
        first = True
        T = self.T
        for ix in vals[1:]:
            if first:
                first = False
                s = T.size(t)
                total = self.offmac(total, ix, s)
                continue
            rt = T.resolve(t)
            if rt[0] == "struct":
                offs, _ = T.layout(rt)
                total = offadd(total, offs[ix])
                t = rt[1][ix]
            else:
                t = rt[2]
                total = self.offmac(total, ix, T.size(t))
        return self.padd(base, total)

    def offmac(self, total, ix, s):
        if isinstance(ix, int):
            # index is sign-interpreted
            if ix >= 1 << 63:
                ix -= 1 << 64
            elif (1 << 31) <= ix < (1 << 32):
                ix -= 1 << 32
            return offadd(total, ix * s)
        if isinstance(ix, SInt):
            return offadd(total, SInt(mul(ix.p, float(s))))
        if isinstance(ix, Cond):
            return offadd(total, SInt(gamma(ix, float(s), 0.0)))
        if ix is UNDEF:
            self.finding("uninitialised-index", "address computed from an uninitialised value")
        raise Undecided("index %r" % (ix,))

    def memcpy(self, d, s, n):
        if isinstance(d, GPtr) or isinstance(s, GPtr):
            if isinstance(s, GPtr):
                c = self.decide(s.c)
                if c is not None:
                    return self.memcpy(d, s.a if c else s.b, n)
            raise Undecided("memcpy through gated pointer")
        if isinstance(n, SInt):
            raise Undecided("memcpy of unknown length")
        if n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            if d == 0 or s == 0:
                self.finding("null-dereference", "memcpy with a null pointer")
            raise Undecided("memcpy %r <- %r" % (d, s))
        if not isinstance(d.off, int) or not isinstance(s.off, int):
            raise Undecided("memcpy at unknown offset")
        for p in (d, s):
            if not p.obj.alive:
                self.finding("use-after-free", "memcpy on freed memory")
            if self.check_mem and p.obj.size is not None and (p.off < 0 or p.off + n > p.obj.size):
                self.finding("out-of-bounds", "memcpy of %d bytes at offset %d of %s (size %d)" % (
                    n, p.off, p.obj.name, p.obj.size))
        so, do = s.obj, d.obj
        cells = []
        if so.kind == "sym":
            # materialise unknown 8-byte cells lazily as unknown reals/ints on demand
            q = s.off
            while q < s.off + n:
                c = so.cells.get(q)
                if c is not None:
                    q += c[0]
                    continue
                step = 8 if (q % 8 == 0 and q + 8 <= s.off + n and not any(
                    so.cells.get(q + i) for i in range(1, 8))) else 4 if (q % 4 == 0 and q + 4 <= s.off + n) else 1
                so.cells[q] = (step, SInt(dom.var("%s[%s]" % (so.name, q))))
                q += step
        if n <= 4096 and n < len(so.cells) * 4:
            rng = range(s.off - 15, s.off + n)
            cand = [(q, so.cells[q]) for q in rng if q in so.cells]
        else:
            cand = [(q, c) for q, c in so.cells.items() if q + c[0] > s.off and q < s.off + n]
        for q, c in cand:
            if q + c[0] <= s.off:
                continue
            if q < s.off or q + c[0] > s.off + n:
                b = to_bytes(c[1], c[0])
                for i in range(c[0]):
                    if s.off <= q + i < s.off + n:
                        cells.append((q + i - s.off, (1, b[i] if b is not None else Top("partial copy"))))
            else:
                cells.append((q - s.off, c))
        # clear destination
        self.clear(do, d.off, n)
        do.written = True
        if so.kind == "zero" and do.kind != "zero":
            have = {q: c[0] for q, c in cells}
            q = 0
            while q < n:
                if q in have:
                    q += have[q]
                    continue
                st = 8 if (q + 8 <= n and (q + s.off) % 8 == 0 and not any((q + i) in have for i in range(1, 8))) else 1
                self.jset(do, d.off + q, (st, 0))
                q += st
        elif so.kind == "undef" and do.kind != "undef":
            have = {q: c[0] for q, c in cells}
            q = 0
            while q < n:
                if q in have:
                    q += have[q]
                    continue
                st = 8 if (q + 8 <= n and (q + s.off) % 8 == 0 and not any((q + i) in have for i in range(1, 8))) else 1
                self.jset(do, d.off + q, (st, UNDEF))
                q += st
        for q, c in cells:
            self.jset(do, d.off + q, c)

    def clear(self, o, off, n):
        if n <= 4096:
            keys = [q for q in range(off - 15, off + n) if q in o.cells]
        else:
            keys = [q for q in o.cells if q > off - 16 and q < off + n]
        for q in keys:
            c = o.cells[q]
            if q + c[0] <= off:
                continue
            if q < off or q + c[0] > off + n:
                b = to_bytes(c[1], c[0])
                self.jset(o, q, None)
                for i in range(c[0]):
                    if not (off <= q + i < off + n):
                        self.jset(o, q + i, (1, b[i] if b is not None else Top("partial")))
            else:
                self.jset(o, q, None)

    def memset(self, d, b, n):
        if isinstance(n, SInt):
            raise Undecided("memset of unknown length")
        if n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(d.off, int):
            raise Undecided("memset %r" % (d,))
        if not d.obj.alive:
            self.finding("use-after-free", "memset on freed memory")
        if self.check_mem and d.obj.size is not None and (d.off < 0 or d.off + n > d.obj.size):
            self.finding("out-of-bounds", "memset of %d bytes at offset %d of %s (size %d)" % (
                n, d.off, d.obj.name, d.obj.size))
        if not isinstance(b, int):
            raise Undecided("memset value")
        self.clear(d.obj, d.off, n)
        d.obj.written = True
        q = d.off
        end = d.off + n
        v8 = int.from_bytes(bytes([b & 255]) * 8, "little")
        while q < end:
            if q % 8 == 0 and q + 8 <= end:
                self.jset(d.obj, q, (8, v8))
                q += 8
            else:
                self.jset(d.obj, q, (1, b & 255))
                q += 1

    # ------------------------------------------------------------ joins
    def decide(self, c):
        if not isinstance(c, Cond):
            return bool(c)
        t = self.truth.get(c.id)
        if t is None:
            if not self.truth:
                return None
            t = dom.truth(c.id, self.truth)
            if t is None:
                return None
        return t != c.neg

    def assume(self, c, truth, saved):
        """push the knowledge c == truth"""
        v = truth != c.neg
        if c.id not in self.truth:
            saved.append(c.id)
            self.truth[c.id] = v
            k = dom.CONDS[c.id]
            if k[0] == "and" and v:
                for x in (k[1], k[2]):
                    self.assume(Cond(*x), True, saved)

    def mergeval(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, tuple):
            return tuple(self.mergeval(c, x, y) for x, y in zip(a, b))
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("join")
        if isinstance(a, float) or isinstance(b, float) or isinstance(a, Poly) or isinstance(b, Poly):
            fa = a if isinstance(a, (float, Poly)) else self.retype(a, ("double",))
            fb = b if isinstance(b, (float, Poly)) else self.retype(b, ("double",))
            return gamma(c, fa, fb)
        if isinstance(a, (Ptr, GPtr, Fn)) or isinstance(b, (Ptr, GPtr, Fn)):
            if a == b:
                return a
            return GPtr(c, a, b)
        if isinstance(a, Cond) or isinstance(b, Cond):
            if a == b:
                return a
            x = bool_op("and", c, a)
            y = bool_op("and", cond_not(c), b)
            return bool_op("or", x, y)
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            if a == b:
                return a
            return mkint(gamma(c, self.spoly(a), self.spoly(b)))
        raise Undecided("join of %r and %r" % (a, b))

    def spoly(self, v, bits=64):
        if isinstance(v, SInt):
            return v.p
        if isinstance(v, int):
            if v >= 1 << 63:
                v -= 1 << 64
            elif (1 << 31) <= v < (1 << 32):
                v -= 1 << 32
            return float(v)
        if isinstance(v, Cond):
            return gamma(v, 1.0, 0.0)
        raise Undecided("not an integer: %r" % (v,))

    # ------------------------------------------------------------ execution
    def call(self, name, args):
        f = self.mod.functions[name]
        f.blocks
        self.coverage[name] = self.coverage.get(name, 0) + 1
        env = {}
        for (t, n), a in zip(f.params, args):
            env[n] = a
        if len(self.stack) > 3000:
            raise Undecided("recursion too deep")
        self.stack.append([name, None])
        fr = {"allocas": [], "count": {}, "vaargs": args[len(f.params):]}
        try:
            r = self.run(f, env, fr, f.entry, None, None, None)
        finally:
            self.stack.pop()
        self.leave(fr["allocas"])
        return r

    def leave(self, allocas):
        for o in allocas:
            o.alive = False

    def lifetime_end(self, p):
        pass

    def run(self, f, env, fr, b, pred, stop, skip):
        """analyse from block b until `stop`; -> ('ret',v) | ('stop',phis) | DEAD"""
        top = self.stack[-1]
        while True:
            if b == stop:
                return ("stop", self.phis(f, env, b, pred))
            c = fr["count"].get(b, 0) + 1
            fr["count"][b] = c
            if c > self.loopmax:
                raise Undecided("loop in %s exceeds the unrolling bound" % self.mod.dem(f.name)[:100])
            ins = f.instrs(b)
            if skip is None:
                ph = self.phis(f, env, b, pred)
                env.update(ph)
            skip = None
            self.steps += len(ins)
            if self.steps > self.max_steps:
                raise Undecided("step budget exhausted")
            for I in ins:
                op = I[0]
                if op == "phi":
                    continue
                h = HANDLERS.get(op)
                if h is not None:
                    top[1] = I[-1] if op != "select" else I[6]
                    h(self, env, I)
                    continue
                if op == "call":
                    top[1] = I[3]
                    r = self.do_call(env, fr, I[2])
                    if r is DEAD:
                        return DEAD
                    if I[1]:
                        env[I[1]] = r
                    continue
                if op == "alloca":
                    n = 1 if I[3] is None else self.val(env, I[3], ("i", 64))
                    if not isinstance(n, int):
                        raise Undecided("variable-length alloca")
                    o = self.new_obj("%s.%s" % (short(f.name), I[1][1:]), self.T.size(I[2]) * n, "undef")
                    fr["allocas"].append(o)
                    env[I[1]] = Ptr(o, 0)
                    continue
                # terminators
                if op == "br":
                    if len(I) == 3:
                        pred, b = b, I[2]
                        break
                    top[1] = I[5]
                    cv = self.val(env, I[2], ("i", 1))
                    r = self.branch(f, env, fr, b, cv, I[3], I[4], stop)
                    if r[0] == "goto":
                        pred, b = b, r[1]
                        break
                    if r[0] == "joined":
                        b = r[1]
                        pred = None
                        skip = True
                        break
                    return r
                if op == "ret":
                    top[1] = I[4]
                    return ("ret", None if I[3] is None else self.val(env, I[3], I[2]))
                if op == "switch":
                    top[1] = I[5]
                    cv = self.val(env, I[2][1], I[2][0])
                    bits = I[2][0][1]
                    r = self.switch(f, env, fr, b, cv, bits, I[3], list(I[4]), stop)
                    if r[0] == "goto":
                        pred, b = b, r[1]
                        break
                    if r[0] == "joined":
                        b = r[1]
                        pred = None
                        skip = True
                        break
                    return r
                if op == "invoke":
                    top[1] = I[3]
                    r = self.do_call(env, fr, I[2])
                    if r is DEAD:
                        return DEAD
                    if I[1]:
                        env[I[1]] = r
                    pred, b = b, I[2]["normal"]
                    break
                if op in ("unreachable", "resume"):
                    if self.dead_reason is None:
                        self.dead_reason = "unreachable at " + self.where()
                    return DEAD
                if op == "asm" and I[1] is None and ('"#' in I[2] or 'sideeffect ""' in I[2] or 'asm ""' in I[2]):
                    continue
                if op == "asm" and "cpuid" in I[2]:
                    env[I[1]] = (0, 0, 0, 0)     # Eigen's cache-size probe: only chooses block sizes
                    continue
                if op in ("landingpad", "fence"):
                    continue
                raise Undecided("instruction %s %s" % (op, str(I[2])[:200] if op == "asm" else ""))
            else:
                raise Undecided("block without terminator")

    def phis(self, f, env, b, pred):
        r = {}
        for I in f.instrs(b):
            if I[0] != "phi":
                break
            r[I[1]] = self.val(env, I[3][pred], I[2])
        return r

    def cond_value(self, cv):
        if isinstance(cv, Cond):
            t = self.decide(cv)
            return cv if t is None else int(t)
        if isinstance(cv, SInt):
            return self.cond_value(self.tocond(cv.p))
        if cv is UNDEF:
            self.finding("uninitialised-branch", "control flow depends on an uninitialised value")
        if isinstance(cv, Top):
            raise Undecided("branch on " + cv.why)
        return cv

    def tocond(self, p):
        """truth value of an unknown integer"""
        if is_num(p):
            return int(p != 0)
        g = self.split_gamma(p)
        if g is not None:
            c = Cond(g[0], False)
            a, b = self.tocond(g[1]), self.tocond(g[2])
            return bool_op("or", bool_op("and", c, a), bool_op("and", cond_not(c), b))
        return cond_not(eq0(p))

    def branch(self, f, env, fr, b, cv, t1, t2, stop):
        cv = self.cond_value(cv)
        if not isinstance(cv, Cond):
            return ("goto", t1 if cv & 1 else t2)
        return self.fork(f, env, fr, b, cv, lambda: ("goto", t1), lambda: ("goto", t2), stop)

    def switch(self, f, env, fr, b, cv, bits, dflt, cases, stop):
        if cv is UNDEF:
            self.finding("uninitialised-branch", "switch on an uninitialised value")
        if isinstance(cv, Cond):
            t = self.decide(cv)
            if t is not None:
                cv = int(t)
        if isinstance(cv, int):
            for k, t in cases:
                if k & ((1 << bits) - 1) == cv & ((1 << bits) - 1):
                    return ("goto", t)
            return ("goto", dflt)
        if not cases:
            return ("goto", dflt)
        k, t = cases[0]
        c = self.cond_value(self.icmp("eq", ("i", bits), cv, k & ((1 << bits) - 1)))
        if not isinstance(c, Cond):
            return ("goto", t) if c else self.switch(f, env, fr, b, cv, bits, dflt, cases[1:], stop)
        return self.fork(f, env, fr, b, c, lambda: ("goto", t),
                         lambda: ("switch", cases[1:]), stop, (cv, bits, dflt))

    def fork(self, f, env, fr, b, c, mk1, mk2, stop, sw=None):
        """analyse both sides of an undecided branch and join at the post-dominator"""
        idom, live = f.ipdom()
        j = idom.get(b)
        if j is None:
            if self.dead_reason is None:
                self.dead_reason = "no return reachable"
            return DEAD
        self.joins += 1
        js = None if j == "<exit>" else j
        res = []
        outer = self.journal
        for k, mk in ((True, mk1), (False, mk2)):
            saved = []
            self.assume(c, k, saved)
            self.journal = []
            self.arms += 1
            tgt = mk()
            ev = dict(env)
            cnt = dict(fr["count"])
            kept_dead = self.dead_reason
            try:
                if tgt[0] == "switch":
                    # remaining switch cases: treat as nested decision
                    r = self.switch(f, ev, fr, b, sw[0], sw[1], sw[2], tgt[1], js)
                    if r[0] == "goto":
                        r = self.run(f, ev, fr, r[1], b, js, None) if r[1] in live else DEAD
                    elif r[0] == "joined":
                        r = self.run(f, ev, fr, r[1], None, js, True)
                elif tgt[1] not in live and tgt[1] != js:
                    r = DEAD
                else:
                    r = self.run(f, ev, fr, tgt[1], b, js, None)
            finally:
                fr["count"] = cnt
                self.arms -= 1
                for i in saved:
                    del self.truth[i]
            self.dead_reason = kept_dead
            jn = self.journal
            # collect final values and roll back
            fin = {}
            for o, off, old in jn:
                fin[(o, off)] = o.cells.get(off)
            for o, off, old in reversed(jn):
                if old is None:
                    o.cells.pop(off, None)
                else:
                    o.cells[off] = old
            res.append((r, fin, ev))
            self.journal = outer
        (r1, w1, e1), (r2, w2, e2) = res
        if r1 is DEAD and r2 is DEAD:
            return DEAD
        if r1 is DEAD or r2 is DEAD:
            r, w, ev = (r2, w2, e2) if r1 is DEAD else (r1, w1, e1)
            env.update(ev)
            for (o, off), cell in w.items():
                self.jset(o, off, cell)
            # the surviving side's condition holds from here on
            cc = cond_not(c) if r1 is DEAD else c
            if self.arms == 0:
                self.assume(cc, True, [])
            return self._finish(f, env, r, js, stop, j)
        # merge memory
        for key in set(w1) | set(w2):
            o, off = key
            base = o.cells.get(off)
            c1 = w1[key] if key in w1 else base
            c2 = w2[key] if key in w2 else base
            if c1 == c2 and c1 is not None:
                self.jset(o, off, c1)
                continue
            if c1 is None and c2 is None:
                self.jset(o, off, None)
                continue
            if c1 is None or c2 is None:
                cc = c1 or c2
                if o.kind == "undef":
                    d = UNDEF
                elif o.kind == "zero":
                    d = 0
                else:
                    d = self.default(o, off, cc[0], guess_type(cc[1], cc[0]))
                m1 = c1 or (cc[0], d)
                m2 = c2 or (cc[0], d)
            else:
                m1, m2 = c1, c2
            if m1[0] != m2[0]:
                self.jset(o, off, (max(m1[0], m2[0]), Top("size-mismatched join")))
                continue
            self.jset(o, off, (m1[0], self.mergeval(c, m1[1], m2[1])))
        if r1[0] != r2[0]:
            raise Undecided("irregular join")
        if r1[0] == "ret":
            v = None if r1[1] is None else self.mergeval(c, r1[1], r2[1])
            return ("ret", v)
        for k, x in e1.items():
            y = e2.get(k)
            if y is None and k not in e2:
                continue
            if x is not y:
                try:
                    env[k] = self.mergeval(c, x, y)
                except Undecided:
                    env[k] = Top("join of loop-carried values")
        ph = {}
        for k in r1[1]:
            ph[k] = self.mergeval(c, r1[1][k], r2[1][k])
        return self._finish(f, env, ("stop", ph), js, stop, j)

    def _finish(self, f, env, r, js, stop, j):
        if r[0] == "ret":
            return r
        if j == stop:
            return r
        env.update(r[1])
        return ("joined", j)

    # ------------------------------------------------------------ calls
    def do_call(self, env, fr, info):
        cal = info["callee"]
        if cal[0] == "l":
            fv = env[cal[1]]
        else:
            fv = self.const(cal, ("ptr",))
        name = fv.name if isinstance(fv, Fn) else None
        if name is not None and name.startswith("llvm."):
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume",
                                "llvm.invariant", "llvm.donothing", "llvm.prefetch", "llvm.sideeffect")):
                if name.startswith("llvm.lifetime.end"):
                    t, v, _ = info["args"][1]
                    self.lifetime_end(env.get(v[1]) if v[0] == "l" else None)
                return None
        args = []
        for t, v, byval in info["args"]:
            if t[0] == "metadata":
                continue
            x = env[v[1]] if v[0] == "l" else self.const(v, t)
            if byval is not None:
                n = self.T.size(byval)
                o = self.new_obj("byval", n, "undef")
                self.memcpy(Ptr(o, 0), x, n)
                x = Ptr(o, 0)
            args.append(x)
        return self.call_value(fv, args, info)

    def call_value(self, fv, args, info):
        if isinstance(fv, GPtr):
            c = self.decide(fv.c)
            if c is not None:
                return self.call_value(fv.a if c else fv.b, args, info)
            raise Undecided("call through a gated function pointer")
        if not isinstance(fv, Fn):
            if fv == 0:
                self.finding("null-call", "call through a null function pointer")
            h = self.hooks.get("<indirect>")
            if h:
                return h(self, fv, args, info)
            raise Undecided("call through %r" % (fv,))
        name = fv.name
        if name in self.mod.aliases:
            a = self.const(self.mod.aliases[name], ("ptr",))
            if isinstance(a, Fn):
                name = a.name
        h = self.hooks.get(name)
        if h is not None:
            return h(self, args, info)
        if name in self.mod.functions:
            r = self.call(name, args)
            if r is DEAD:
                return DEAD
            return r[1]
        from . import externs
        return externs.call(self, name, args, info)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, t, a, b):
        if t[0] == "vec":
            return tuple(self.binop(op, t[2], x, y) for x, y in zip(a, b))
        if op[0] == "f":
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if isinstance(a, Top) or isinstance(b, Top):
                return a if isinstance(a, Top) else b
            if not isinstance(a, (float, Poly)):
                a = self.retype(a, ("double",))
            if not isinstance(b, (float, Poly)):
                b = self.retype(b, ("double",))
            if op == "fadd":
                return add(a, b)
            if op == "fsub":
                return sub(a, b)
            if op == "fmul":
                return mul(a, b)
            if op == "fdiv":
                return div(a, b)
            return dom.fn("fmod", a, b)
        bits = t[1]
        if isinstance(a, int) and isinstance(b, int):
            return ibin(op, a, b, bits, self)
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 or b == 0):
                return 0
            return UNDEF
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if bits == 1:
            if op in ("and", "or", "xor"):
                return bool_op(op, self.as_cond(a), self.as_cond(b))
        # pointers as integers
        if isinstance(a, (Ptr, GPtr)) or isinstance(b, (Ptr, GPtr)):
            return self.ptrbin(op, a, b, bits)
        if isinstance(a, Fn) or isinstance(b, Fn):
            if op == "and" and (a == 1 or b == 1):
                return 0
            raise Undecided("integer arithmetic on function pointer")
        if isinstance(a, Cond):
            a = SInt(gamma(a, 1.0, 0.0))
        if isinstance(b, Cond):
            b = SInt(gamma(b, 1.0, 0.0))
        if isinstance(a, (Poly, float)) or isinstance(b, (Poly, float)):
            return self.bitsop(op, a, b, bits)
        # at least one unknown integer
        if isinstance(a, int) and a >= 1 << (bits - 1):
            ai = a - (1 << bits)
        else:
            ai = a
        if isinstance(b, int) and b >= 1 << (bits - 1):
            bi = b - (1 << bits)
        else:
            bi = b
        pa = a.p if isinstance(a, SInt) else float(ai)
        pb = b.p if isinstance(b, SInt) else float(bi)
        g = self.gsplit_int(op, pa, pb, bits)
        if g is not None:
            return g
        if op == "add":
            return mkint(add(pa, pb), bits)
        if op == "sub":
            return mkint(sub(pa, pb), bits)
        if op == "mul":
            return mkint(mul(pa, pb), bits)
        if op == "shl" and isinstance(b, int):
            return mkint(mul(pa, float(1 << b)), bits)
        if op == "or" and isinstance(b, int) and isinstance(a, SInt):
            # (x * 2^k) | c with c < 2^k
            q = self.even_part(a.p)
            if 0 <= b < q:
                return mkint(add(a.p, float(b)), bits)
        if op == "and" and isinstance(b, int):
            if b == 0:
                return 0
            if b == (1 << bits) - 1:
                return a
            if (b + 1) & b == 0:
                q = self.even_part(pa)
                if q % (b + 1) == 0:
                    return 0
                if self.bounded(pa, b):
                    return a
                return SInt(dom.fn("imod", pa, float(b + 1)))
            k = (~b) & ((1 << bits) - 1)
            if (k + 1) & k == 0 and self.even_part(pa) % (k + 1) == 0:
                return a
        if op in ("sdiv", "udiv") and isinstance(b, int):
            q = mul(pa, 1.0 / bi)
            if self.integral(q):
                return mkint(q, bits)
            return SInt(dom.fn("idiv", pa, float(bi)))
        if op in ("ashr", "lshr") and isinstance(b, int):
            q = mul(pa, 1.0 / (1 << b))
            if self.integral(q):
                return mkint(q, bits)
            return SInt(dom.fn("idiv", pa, float(1 << b)))
        if op in ("srem", "urem") and isinstance(b, int):
            if self.integral(mul(pa, 1.0 / bi)):
                return 0
            return SInt(dom.fn("imod", pa, float(bi)))
        if op in ("sdiv", "udiv"):
            return SInt(dom.fn("idiv", pa, pb))
        if op in ("srem", "urem"):
            return SInt(dom.fn("imod", pa, pb))
        if op == "xor" and isinstance(b, int) and b == (1 << bits) - 1:
            return mkint(sub(-1.0, pa), bits)
        return SInt(dom.fn("i" + op, pa, pb))

    def gsplit_int(self, op, pa, pb, bits):
        """bit operations on gated constants: push the operation into the gate"""
        if op in ("add", "sub", "mul"):
            return None
        for p in (pa, pb):
            g = self.split_gamma(p)
            if g is not None:
                cid = g[0]
                r = []
                for tv in (True, False):
                    x = dom.subst_cond(pa, {cid: tv})
                    y = dom.subst_cond(pb, {cid: tv})
                    r.append(self.binop(op, ("i", bits), mkint(x, bits), mkint(y, bits)))
                return self.mergeval(Cond(cid, False), r[0], r[1])
        return None

    def even_part(self, p):
        """largest power of two dividing an integer polynomial"""
        if is_num(p):
            p = {(): p}
        else:
            p = p.t
        q = 1 << 40
        for m, c in p.items():
            if c != int(c):
                return 1
            # a gamma of even constants counts
            f = int(abs(c))
            for a, e in m:
                at = dom.ATOMS[a]
                if at.kind == "gamma":
                    f *= min(self.even_part(at.args[1]), self.even_part(at.args[2])) if True else 1
            k = f & -f
            q = min(q, k if k else q)
        return q

    def bounded(self, p, b):
        if is_num(p):
            return 0 <= p <= b
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and c == 1 and dom.ATOMS[m[0][0]].kind == "imod":
                return dom.ATOMS[m[0][0]].args[1] <= b + 1
        # unknown integers are assumed to fit their source width (no wrap-around)
        return b >= (1 << 31) - 1

    def integral(self, p):
        if is_num(p):
            return p == int(p)
        return all(c == int(c) for c in p.t.values())

    def bitsop(self, op, a, b, bits):
        # sign-bit manipulation of doubles
        if bits == 64:
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if op == "and" and b == 0x7fffffffffffffff:
                    return dom.fabs(a)
                if op == "xor" and b == 0x8000000000000000:
                    return neg(a)
                if op == "lshr" and b == 63:
                    return self.mergeval(gt0(neg(a)), 1, 0)
        raise Undecided("integer operation on real bits: " + op)

    def as_cond(self, v):
        if isinstance(v, SInt):
            return self.tocond(v.p)
        return v

    def ptrbin(self, op, a, b, bits):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, GPtr):
                l = self.binop(op, ("i", bits), x.a, b) if x is a else self.binop(op, ("i", bits), a, x.a)
                r = self.binop(op, ("i", bits), x.b, b) if x is a else self.binop(op, ("i", bits), a, x.b)
                return self.mergeval(x.c, l, r)
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                return offint(offsub(a.off, b.off))
            return SInt(dom.var("(%r-%r)" % (a, b)))
        if op == "sub" and isinstance(b, int):
            return self.padd(a, -sgn(b, bits))
        if op == "sub" and isinstance(a, int) and isinstance(b, Ptr):
            return ("negptr", b)
        if op == "add":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return self.padd(a, sgn(b, bits))
            if isinstance(b, SInt):
                return self.padd(a, b)
        if op == "and":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and isinstance(a, Ptr) and isinstance(a.off, int):
                k = (~b) & ((1 << bits) - 1)
                if k < 64:
                    return Ptr(a.obj, a.off & ~k)
                if b < 64:
                    return a.off & b
        if op == "or" and (b == 0 or a == 0):
            return a if b == 0 else b
        if op in ("lshr", "ashr", "shl", "mul", "xor", "urem", "or", "and"):
            return SInt(dom.var("bits(%r %s %r)" % (a, op, b)))
        raise Undecided("pointer arithmetic %s %r %r" % (op, a, b))

    def icmp(self, pred, t, a, b):
        if t[0] == "vec":
            return tuple(self.icmp(pred, t[2], x, y) for x, y in zip(a, b))
        if isinstance(a, int) and isinstance(b, int):
            if pred in ("eq", "ne"):
                return int((a == b) == (pred == "eq"))
            if pred[0] == "s":
                bits = t[1] if t[0] == "i" else 64
                a, b = sgn(a, bits), sgn(b, bits)
            p = pred[1:]
            return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, GPtr):
                c = self.decide(x.c)
                if c is not None:
                    z = x.a if c else x.b
                    return self.icmp(pred, t, *((y, z) if sw else (z, y)))
                l = self.icmp(pred, t, *((y, x.a) if sw else (x.a, y)))
                r = self.icmp(pred, t, *((y, x.b) if sw else (x.b, y)))
                return self.mergeval(x.c, l, r)
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.ptrcmp(pred, a, b)
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(a, int):
                a, b = b, a
                pred = SWAP.get(pred, pred)
            if pred in ("eq", "ne") and (t == ("i", 1) or (isinstance(b, int) and b in (0, 1))):
                r = bool_op("xor", a, b)
                return r if pred == "ne" else cond_not(r)
            a = SInt(gamma(a, 1.0, 0.0)) if isinstance(a, Cond) else a
            b = SInt(gamma(b, 1.0, 0.0)) if isinstance(b, Cond) else b
        if isinstance(a, (Poly, float)) or isinstance(b, (Poly, float)):
            # comparison of raw bits of reals: only sign tests are meaningful
            if isinstance(b, int) and b == 0 and pred == "slt":
                return gt0(neg(a))
            if isinstance(b, int) and b in (2 ** 64 - 1,) and pred == "sgt":
                return cond_not(gt0(neg(a)))
            raise Undecided("bit comparison of reals")
        bits = t[1] if t[0] == "i" else 64
        pa = a.p if isinstance(a, SInt) else float(sgn(a, bits) if not (pred[0] == "u" and a < (1 << 31)) else a)
        pb = b.p if isinstance(b, SInt) else float(sgn(b, bits))
        d = sub(pa, pb)
        g = self.split_gamma(d)
        if g is not None:
            cid = g[0]
            r = []
            for v in (True, False):
                x = dom.subst_cond(pa, {cid: v})
                y = dom.subst_cond(pb, {cid: v})
                r.append(self.icmp(pred, t, mkint(x, bits), mkint(y, bits)))
            return self.mergeval(Cond(cid, False), r[0], r[1])
        return cmp_poly(pred, d)

    def ptrcmp(self, pred, a, b):
        if pred in ("eq", "ne"):
            r = None
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is b.obj:
                    d = offint(offsub(a.off, b.off))
                    r = self.icmp("eq", ("i", 64), d, 0)
                elif a.obj.kind == "sym" and b.obj.kind == "sym" and (a.obj.maybe_null or b.obj.maybe_null):
                    # two unknown pointers: may be equal
                    i, j = sorted((a.obj.name, b.obj.name))
                    r = Cond(dom._intern_cond("ptreq", i, j), False)
                else:
                    r = 0
            elif isinstance(a, Fn) or isinstance(b, Fn):
                r = int(a == b)
            else:
                p, n = (a, b) if isinstance(a, Ptr) else (b, a)
                if isinstance(n, int):
                    if n == 0 and p.obj.maybe_null and p.off == 0:
                        r = Cond(dom._intern_cond("isnull", p.obj.name), False)
                    else:
                        r = 0
                else:
                    raise Undecided("pointer compared with %r" % (n,))
            return r if pred == "eq" else cond_not(r)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                return self.icmp("s" + pred[1:], ("i", 64), offint(a.off), offint(b.off))
            x, y = a.obj.id, b.obj.id
            return int({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]])
        if isinstance(b, int) and b == 0 and pred in ("ugt",):
            return cond_not(self.ptrcmp("eq", a, 0))
        if isinstance(b, int):
            return int(pred in ("ugt", "uge"))
        if isinstance(a, int):
            return int(pred in ("ult", "ule"))
        raise Undecided("pointer order")

    def fcmp(self, pred, t, a, b):
        if t[0] == "vec":
            return tuple(self.fcmp(pred, t[2], x, y) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if pred == "true":
            return 1
        if pred == "false":
            return 0
        a = a if isinstance(a, (float, Poly)) else self.retype(a, ("double",))
        b = b if isinstance(b, (float, Poly)) else self.retype(b, ("double",))
        if is_num(a) and is_num(b):
            un = a != a or b != b
            if pred == "uno":
                return int(un)
            if pred == "ord":
                return int(not un)
            if un:
                return int(pred[0] == "u")
            p = pred[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
        if pred == "uno":
            return 0
        if pred == "ord":
            return 1
        p = pred[1:]
        for x, sgnx in ((a, 1), (b, -1)):
            if is_num(x) and abs(x) == float("inf"):
                s = (x > 0) == (sgnx > 0)   # a-b = +inf ?
                return int({"eq": False, "ne": True, "lt": not s, "le": not s, "gt": s, "ge": s}[p])
        d = sub(a, b)
        return cmp_poly("s" + p if p not in ("eq", "ne") else p, d)

    def cast(self, op, t, v, t2):
        if t[0] == "vec":
            if op == "bitcast" and t2[0] != "vec":
                raise Undecided("vector bitcast")
            return tuple(self.cast(op, t[2], x, t2[2]) for x in v)
        if v is UNDEF or isinstance(v, Top):
            return v
        if op in ("zext", "sext", "trunc"):
            if isinstance(v, int):
                if op == "sext":
                    return sgn(v, t[1]) & ((1 << t2[1]) - 1)
                return v & ((1 << t2[1]) - 1)
            if isinstance(v, Cond):
                if t2 == ("i", 1):
                    return v
                return SInt(gamma(v, -1.0 if op == "sext" else 1.0, 0.0))
            if isinstance(v, SInt):
                if t2 == ("i", 1):
                    g = self.split_gamma(v.p)
                    if g is not None:
                        return self.mergeval(Cond(g[0], False),
                                             self.cast(op, t, mkint(g[1]), t2), self.cast(op, t, mkint(g[2]), t2))
                    if self.is_bool_load(v.p):
                        return Cond(dom._intern_cond("bool", dom.show(v.p)), False)
                    return self.icmp("ne", ("i", 64), self.binop("and", t, v, 1), 0)
                return v
            if isinstance(v, (Ptr, GPtr)):
                return SInt(dom.var("bits(%r)" % (v,)))
            if isinstance(v, (Poly, float)) and op == "trunc":
                raise Undecided("trunc of real bits")
            return v
        if op in ("sitofp", "uitofp"):
            if isinstance(v, int):
                return float(sgn(v, t[1]) if op == "sitofp" else v)
            if isinstance(v, Cond):
                return gamma(v, -1.0 if (op == "sitofp" and t[1] == 1) else 1.0, 0.0)
            if isinstance(v, SInt):
                return v.p
            raise Undecided("int to real of %r" % (v,))
        if op in ("fptosi", "fptoui"):
            if is_num(v):
                if v != v or abs(v) == float("inf"):
                    return UNDEF
                return int(v) & ((1 << t2[1]) - 1)
            if self.integral_value(v):
                return SInt(v)
            return SInt(dom.fn("trunc", v))
        if op in ("fptrunc", "fpext"):
            if op == "fptrunc" and is_num(v) and t2[0] == "float":
                return _struct.unpack("<f", _struct.pack("<f", v))[0]
            if op == "fptrunc" and t2[0] == "float" and isinstance(v, Poly) and self.f32:
                return dom.f32(v)
            return v
        if op in ("ptrtoint", "inttoptr"):
            return v
        if op == "bitcast":
            if isinstance(v, float) and t2[0] == "i":
                return int.from_bytes(_struct.pack("<d", v), "little")
            if isinstance(v, int):
                return self.retype(v, t2)
            return v
        raise Undecided("cast " + op)

    def integral_value(self, v):
        """syntactically integer valued: integer combination of unknown integers / floor atoms"""
        return all(c == int(c) and all(dom.ATOMS[a].kind in ("floor", "ceil", "trunc", "round", "imod", "idiv")
                                       for a, e in m) for m, c in v.t.items())

    def is_bool_load(self, p):
        return self.is_plain_var(p)

    # ------------------------------------------------------------ helpers for checks
    def poke(self, ptr, off, t, v):
        ptr.obj.cells[ptr.off + off] = (self.T.size(t), v)

    def peek(self, ptr, off, t):
        return self.load(Ptr(ptr.obj, ptr.off + off), t)

    def last_store(self, obj, off):
        """source location of the last store to a cell (needs storelog enabled)"""
        e = (self.storelog or {}).get((obj.id, off))
        if not e or not e[0]:
            return "?"
        chain = [e[0]] + list(reversed(e[1]))
        for fn, dbg in chain:
            for f, l, n in (self.mod.loc(dbg) if dbg is not None else []):
                if f.startswith(self.root):
                    return "%s:%d (%s)" % (f[len(self.root):], l, n)
        return self.mod.dem(e[0][0])[:100]


def short(n):
    return n if len(n) < 40 else n[:37] + "..."


def guess_type(v, size):
    if isinstance(v, (float, Poly)):
        return ("double",) if size == 8 else ("float",)
    if isinstance(v, (Ptr, GPtr, Fn)):
        return ("ptr",)
    return ("i", size * 8)


def sgn(v, bits):
    return v - (1 << bits) if v >= 1 << (bits - 1) else v


def to_bytes(v, s):
    if isinstance(v, int):
        return (v & ((1 << (8 * s)) - 1)).to_bytes(s, "little")
    if isinstance(v, float):
        return _struct.pack("<d", v) if s == 8 else _struct.pack("<f", v) if s == 4 else None
    return None


def offadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    pa = a.p if isinstance(a, SInt) else float(a)
    pb = b.p if isinstance(b, SInt) else float(b)
    r = add(pa, pb)
    return int(r) if is_num(r) else SInt(r)


def offsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    pa = a.p if isinstance(a, SInt) else float(a)
    pb = b.p if isinstance(b, SInt) else float(b)
    r = sub(pa, pb)
    return int(r) if is_num(r) else SInt(r)


def offint(o):
    if isinstance(o, int):
        return o & (2 ** 64 - 1)
    if isinstance(o, SInt):
        return o
    if is_num(o):
        return int(o) & (2 ** 64 - 1)
    return SInt(o)


SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge",
        "uge": "ule"}


def cmp_poly(pred, d):
    if pred == "eq":
        return eq0(d)
    if pred == "ne":
        return cond_not(eq0(d))
    p = pred[1:]
    if p == "gt":
        return gt0(d)
    if p == "lt":
        return gt0(neg(d))
    if p == "le":
        return cond_not(gt0(d))
    return cond_not(gt0(neg(d)))


def ibin(op, a, b, bits, it):
    M = (1 << bits) - 1
    if op == "add":
        return (a + b) & M
    if op == "sub":
        return (a - b) & M
    if op == "mul":
        return (a * b) & M
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op in ("shl", "lshr", "ashr") and b >= bits:
        return UNDEF            # shift by the width or more has no value
    if op == "shl":
        return (a << b) & M
    if op == "lshr":
        return a >> b
    if op == "ashr":
        return (sgn(a, bits) >> b) & M
    if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
        it.finding("division-by-zero", "integer division by zero")
    if op == "udiv":
        return a // b
    if op == "urem":
        return a % b
    x, y = sgn(a, bits), sgn(b, bits)
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        q = -q
    if op == "sdiv":
        return q & M
    return (x - q * y) & M


# ------------------------------------------------------------------ instruction handlers

def _load(s, env, I):
    p = I[3]
    env[I[1]] = s.load(env[p[1]] if p[0] == "l" else s.const(p, ("ptr",)), I[2])


def _store(s, env, I):
    v = I[3]
    p = I[4]
    s.store(env[p[1]] if p[0] == "l" else s.const(p, ("ptr",)),
            env[v[1]] if v[0] == "l" else s.const(v, I[2]), I[2])


def _gep(s, env, I):
    env[I[1]] = s.gep(I[2], [env[o[1]] if o[0] == "l" else s.const(o, t) for t, o in I[3]])


def _bin(s, env, I):
    a, b, t = I[4], I[5], I[3]
    env[I[1]] = s.binop(I[2], t, env[a[1]] if a[0] == "l" else s.const(a, t),
                        env[b[1]] if b[0] == "l" else s.const(b, t))


def _fneg(s, env, I):
    v = s.val(env, I[3], I[2])
    env[I[1]] = tuple(fneg1(s, x) for x in v) if isinstance(v, tuple) else fneg1(s, v)


def fneg1(s, v):
    if v is UNDEF or isinstance(v, Top):
        return v
    if isinstance(v, int):
        v = s.retype(v, ("double",))
    return neg(v)


def _icmp(s, env, I):
    env[I[1]] = s.icmp(I[2], I[3], s.val(env, I[4], I[3]), s.val(env, I[5], I[3]))


def _fcmp(s, env, I):
    env[I[1]] = s.fcmp(I[2], I[3], s.val(env, I[4], I[3]), s.val(env, I[5], I[3]))


def _cast(s, env, I):
    env[I[1]] = s.cast(I[2], I[3], s.val(env, I[4], I[3]), I[5])


def _select(s, env, I):
    c = s.val(env, I[3], I[7])
    t = I[2]
    if isinstance(c, tuple):
        a, b = s.val(env, I[4], t), s.val(env, I[5], t)
        env[I[1]] = tuple(sel1(s, x, y, z) for x, y, z in zip(c, a, b))
        return
    c = s.cond_value(c) if not (c is UNDEF) else UNDEF
    if c is UNDEF:
        env[I[1]] = UNDEF
        return
    if not isinstance(c, Cond):
        env[I[1]] = s.val(env, I[4] if c & 1 else I[5], t)
        return
    env[I[1]] = s.mergeval(c, s.val(env, I[4], t), s.val(env, I[5], t))


def sel1(s, c, a, b):
    c = s.cond_value(c)
    if not isinstance(c, Cond):
        return a if c & 1 else b
    return s.mergeval(c, a, b)


def _extractvalue(s, env, I):
    v = s.val(env, I[3], I[2])
    for i in I[4]:
        v = v[i] if isinstance(v, tuple) else UNDEF
    env[I[1]] = v


def _insert(v, ix, x):
    l = list(v)
    l[ix[0]] = x if len(ix) == 1 else _insert(l[ix[0]], ix[1:], x)
    return tuple(l)


def _insertvalue(s, env, I):
    v = s.val(env, I[3], I[2])
    rt = s.T.resolve(I[2])
    t = rt
    for i in I[5]:
        t = t[1][i] if t[0] == "struct" else t[2]
        t = s.T.resolve(t) if t[0] == "named" else t
    env[I[1]] = _insert(v, I[5], s.val(env, I[4], t))


def _extractelement(s, env, I):
    env[I[1]] = s.val(env, I[3], I[2])[s.val(env, I[4], ("i", 64))]


def _insertelement(s, env, I):
    v = list(s.val(env, I[3], I[2]))
    v[s.val(env, I[5], ("i", 64))] = s.val(env, I[4], I[2][2])
    env[I[1]] = tuple(v)


def _shuffle(s, env, I):
    a = s.val(env, I[3], I[2])
    b = s.val(env, I[4], I[2])
    m = s.val(env, I[6], I[5])
    ab = tuple(a) + tuple(b)
    env[I[1]] = tuple(UNDEF if k is UNDEF else ab[k] for k in m)


def _freeze(s, env, I):
    env[I[1]] = s.val(env, I[3], I[2])


def _atomicrmw(s, env, I):
    p = s.val(env, I[4], ("ptr",))
    old = s.load(p, I[3])
    v = s.val(env, I[5], I[3])
    k = I[2]
    new = {"add": lambda: s.binop("add", I[3], old, v), "sub": lambda: s.binop("sub", I[3], old, v),
           "xchg": lambda: v, "or": lambda: s.binop("or", I[3], old, v),
           "and": lambda: s.binop("and", I[3], old, v),
           "fadd": lambda: s.binop("fadd", I[3], old, v)}[k]()
    s.store(p, new, I[3])
    env[I[1]] = old


def _cmpxchg(s, env, I):
    p = s.val(env, I[3], ("ptr",))
    old = s.load(p, I[2])
    eq = s.icmp("eq", I[2], old, s.val(env, I[4], I[2]))
    new = s.val(env, I[5], I[2])
    if isinstance(eq, Cond):
        s.store(p, s.mergeval(eq, new, old), I[2])
    elif eq:
        s.store(p, new, I[2])
    env[I[1]] = (old, eq)


HANDLERS = {
    "load": _load, "store": _store, "gep": _gep, "bin": _bin, "fneg": _fneg, "icmp": _icmp, "fcmp": _fcmp,
    "cast": _cast, "select": _select, "extractvalue": _extractvalue, "insertvalue": _insertvalue,
    "extractelement": _extractelement, "insertelement": _insertelement, "shuffle": _shuffle,
    "freeze": _freeze, "atomicrmw": _atomicrmw, "cmpxchg": _cmpxchg,
}
