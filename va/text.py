"""Text and files in the abstract domain.

The stream headers are replaced by a stand-in (witness/shim) in which a stream is a character buffer and a file a named
string, so the code's own text handling is interpreted character by character.  The text of an unknown real number is a token: a
run of abstract characters chr(tok, k) of a length fixed per configuration.  A character of a token is one of the
characters of a decimal number, which settles comparisons with separators; a number is read back exactly when all of its
characters stand together between separators."""
from . import dom
from .absint import Finding, Interp, Ptr, SInt, Top, UNDEF, sgn
from .dom import Poly, Undecided, is_num

I8, I32, I64 = ("i", 8), ("i", 32), ("i", 64)
CS = "0123456789+-.eE"
FIXED, SCI = 8, 16


class Tok:
    __slots__ = ("v", "flags", "prec", "n", "i", "where")

    def __init__(self, v, flags, prec, n, i, where):
        self.v, self.flags, self.prec, self.n, self.i, self.where = v, flags, prec, n, i, where

    def style(self):
        return "%s, precision %d" % ("fixed" if self.flags & FIXED else "scientific" if self.flags & SCI else "general", self.prec)

    def __repr__(self):
        return "<%s>" % dom.show(self.v)


class Chr:
    """the k-th character of a token, mapped elementwise by integer operations"""
    __slots__ = ("tok", "k", "m")

    def __init__(self, tok, k, m=None):
        self.tok, self.k = tok, k
        self.m = m or tuple(map(ord, CS))

    def __eq__(self, o):
        return isinstance(o, Chr) and self.tok is o.tok and self.k == o.k and self.m == o.m

    def __hash__(self):
        return hash((id(self.tok), self.k))

    def __repr__(self):
        return "chr(%r,%d)" % (self.tok, self.k)


class Bytes:
    """several bytes moved as one integer"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return "bytes%r" % (self.b,)


class TextInterp(Interp):
    def __init__(self, *a, lengths=None, **k):
        Interp.__init__(self, *a, **k)
        self.lengths = lengths or (lambda i: 5)
        self.toks = []
        self.reads = []
        self.clock = 0
        h = self.hooks
        h["va_fmt"] = self.h_fmt
        for n in ("strtod", "atof", "strtold"):
            h[n] = self.h_strtod
        h["strtof"] = lambda it, a, info: self.cast("fptrunc", ("double",), self.h_strtod(it, a, info), ("float",))
        for n in ("strtol", "__isoc23_strtol", "strtoul", "__isoc23_strtoul", "strtoll", "__isoc23_strtoll", "atoi", "atol"):
            h[n] = self.h_strtol
        h["strlen"] = self.h_strlen
        h["memchr"] = self.h_memchr
        h["strchr"] = self.h_strchr
        for n in ("memcmp", "bcmp"):
            h[n] = self.h_memcmp
        h["strcmp"] = self.h_strcmp
        h["isspace"] = lambda it, a, info: self.cls(a[0], lambda c: c in (9, 10, 11, 12, 13, 32))
        h["__errno_location"] = self.h_errno
        h["time"] = lambda it, a, info: 0
        h["localtime"] = lambda it, a, info: Ptr(self.new_obj("tm", 56, "zero"), 0)
        h["strftime"] = self.h_strftime
        h["_ZNSt6chrono3_V212system_clock3nowEv"] = self.h_now
        h["_ZNSt6chrono3_V212steady_clock3nowEv"] = self.h_now
        for n in self.mod.functions:
            if n.startswith("_ZN9__gnu_cxx12__to_xstring"):
                h[n] = self.h_xstring
        self.errno = None

    # ------------------------------------------------------------ memory of mixed bytes
    def load_slow(self, o, off, size, t, c):
        if t[0] == "i" and size > 1:
            bs = self.bytes_at(o, off, size)
            if bs is not None:
                return Bytes(bs)
        return Interp.load_slow(self, o, off, size, t, c)

    def bytes_at(self, o, off, size):
        b = [UNDEF if o.kind == "undef" else 0] * size
        mixed = False
        seen = o.kind == "undef"
        n = 0
        for q in range(off - 15, off + size):
            d = o.cells.get(q)
            if d is None or q + d[0] <= off:
                continue
            v = d[1]
            n += 1
            if isinstance(v, Chr):
                mixed = True
                v = [v]
            elif isinstance(v, Bytes):
                mixed = True
                v = v.b
            elif isinstance(v, int):
                v = list(v.to_bytes(d[0], "little"))
            elif v is UNDEF:
                mixed = True
                v = [UNDEF] * d[0]
            else:
                return None
            for i, x in enumerate(v):
                if off <= q + i < off + size:
                    b[q + i - off] = x
        if o.kind == "sym":
            return None
        if n and (mixed or any(x is UNDEF for x in b)):
            return b
        return None

    def retype(self, v, t):
        if isinstance(v, (Chr, Bytes)):
            return v
        return Interp.retype(self, v, t)

    def load(self, ptr, t):
        v = Interp.load(self, ptr, t)
        if v is UNDEF and t[0] == "i" and t[1] > 8 and isinstance(ptr, Ptr) and isinstance(ptr.off, int):
            b = self.bytes_at(ptr.obj, ptr.off, t[1] // 8)
            if b and not all(x is UNDEF for x in b):
                return Bytes(b)
        return v

    def store(self, ptr, val, t):
        if isinstance(val, Bytes):
            for i, x in enumerate(val.b):
                Interp.store(self, self.padd(ptr, i), x, I8)
            return
        return Interp.store(self, ptr, val, t)

    # ------------------------------------------------------------ characters in arithmetic
    def cls(self, v, f):
        if isinstance(v, Chr):
            r = {bool(f(c)) for c in v.m}
            if len(r) > 1:
                raise Undecided("a character class that splits the characters of a number")
            return int(r.pop())
        return int(bool(f(v & 255)))

    def binop(self, op, t, a, b):
        if isinstance(a, Chr) or isinstance(b, Chr):
            return self.chrop(lambda x, y: Interp.binop(self, op, t, x, y), a, b, "arithmetic")
        return Interp.binop(self, op, t, a, b)

    def chrop(self, f, a, b, what):
        if isinstance(a, Chr) and isinstance(b, int):
            r = tuple(f(x, b) for x in a.m)
            k = a
        elif isinstance(b, Chr) and isinstance(a, int):
            r = tuple(f(a, x) for x in b.m)
            k = b
        else:
            raise Undecided("%s on characters of two numbers" % what)
        if not all(isinstance(x, int) for x in r):
            raise Undecided("%s on a character of a number" % what)
        if len(set(r)) == 1:
            return r[0]
        return Chr(k.tok, k.k, r)

    def icmp(self, pred, t, a, b):
        if isinstance(a, Chr) or isinstance(b, Chr):
            r = self.chrop(lambda x, y: Interp.icmp(self, pred, t, x, y), a, b, "comparison")
            if isinstance(r, Chr):
                raise Undecided("a comparison that splits the characters of a number")
            return r
        return Interp.icmp(self, pred, t, a, b)

    def cast(self, op, t, v, t2):
        if isinstance(v, Chr):
            return Chr(v.tok, v.k, tuple(Interp.cast(self, op, t, x, t2) for x in v.m))
        if isinstance(v, Bytes):
            if op == "trunc":
                b = v.b[:t2[1] // 8]
                if len(b) == 1:
                    return b[0]
                return Bytes(b) if not all(isinstance(x, int) for x in b) else int.from_bytes(bytes(b), "little")
            if op == "bitcast":
                return v
            raise Undecided("cast of mixed bytes")
        return Interp.cast(self, op, t, v, t2)

    # ------------------------------------------------------------ library
    def put(self, p, vals):
        for i, x in enumerate(vals):
            Interp.store(self, self.padd(p, i), x, I8)

    def text_of(self, v, flags, prec):
        if isinstance(v, (float, int)) or is_num(v):
            v = float(v)
            if flags & FIXED and flags & SCI:
                raise Undecided("hexadecimal floating point text")
            s = "%.*f" % (prec, v) if flags & FIXED else "%.*e" % (prec, v) if flags & SCI else "%.*g" % (prec or 1, v)
            return [ord(c) for c in s]
        if v is UNDEF:
            self.finding("uninitialised-output", "an uninitialised number is written")
        if not isinstance(v, Poly):
            raise Undecided("text of %r" % (v,))
        i = len(self.toks)
        t = Tok(v, flags, prec, self.lengths(i), i, self.where())
        self.toks.append(t)
        return [Chr(t, k) for k in range(t.n)]

    def h_fmt(self, it, a, info):
        r = self.text_of(a[1], a[2], sgn(a[3], 32))
        self.put(a[0], r)
        return len(r)

    def char(self, p):
        v = Interp.load(self, p, I8)
        if v is UNDEF:
            self.finding("uninitialised-text", "an uninitialised character is read as text")
        if not isinstance(v, (int, Chr)):
            raise Undecided("unknown character")
        return v

    def h_strlen(self, it, a, info):
        n, p = 0, a[0]
        while True:
            v = self.char(p)
            if v == 0:
                return n
            n += 1
            p = self.padd(p, 1)

    def eqc(self, x, y):
        if isinstance(x, Chr) or isinstance(y, Chr):
            if x == y:
                return True
            return bool(self.icmp("eq", I8, x, y))
        return x == y

    def h_memchr(self, it, a, info):
        p, c, n = a
        for i in range(n):
            if self.eqc(self.char(self.padd(p, i)), c & 255):
                return self.padd(p, i)
        return 0

    def h_strchr(self, it, a, info):
        p = a[0]
        while True:
            v = self.char(p)
            if self.eqc(v, a[1] & 255):
                return p
            if v == 0:
                return 0
            p = self.padd(p, 1)

    def h_memcmp(self, it, a, info):
        for i in range(a[2]):
            x, y = self.char(self.padd(a[0], i)), self.char(self.padd(a[1], i))
            if not self.eqc(x, y):
                if isinstance(x, Chr) or isinstance(y, Chr):
                    return 1
                return 1 if x > y else (1 << 32) - 1
        return 0

    def h_strcmp(self, it, a, info):
        i = 0
        while True:
            x, y = self.char(self.padd(a[0], i)), self.char(self.padd(a[1], i))
            if not self.eqc(x, y):
                return 1 if isinstance(x, Chr) or isinstance(y, Chr) or x > y else (1 << 32) - 1
            if x == 0:
                return 0
            i += 1

    def scan(self, p):
        """characters up to the end of the string (at most 400)"""
        out = []
        while len(out) < 400:
            v = self.char(p)
            if v == 0:
                break
            out.append(v)
            p = self.padd(p, 1)
        return out

    def h_strtod(self, it, a, info):
        s = self.scan(a[0])
        i = 0
        while i < len(s) and isinstance(s[i], int) and s[i] in (32, 9, 10, 13):
            i += 1
        if i < len(s) and isinstance(s[i], Chr):
            v, n = self.whole(s, i)
            end = i + n
        else:
            if i < len(s) and chr(s[i]) in "+-" and i + 1 < len(s) and isinstance(s[i + 1], Chr):
                v, n = self.whole(s, i + 1)
                v = dom.neg(v) if chr(s[i]) == "-" else v
                end = i + 1 + n
            else:
                import re
                t = "".join(chr(c) if isinstance(c, int) else "\1" for c in s)
                m = re.compile(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)").match(t, i)
                v = float(m.group(0)) if m else 0.0
                end = m.end() if m else 0
                if m and end < len(t) and t[end] == "\1":
                    self.finding("number-cut", "two numbers run together in the text that is read")
        if len(a) > 1 and isinstance(a[1], Ptr):
            self.store(a[1], self.padd(a[0], end), ("ptr",))
        return v

    def whole(self, s, i):
        t = s[i].tok
        if s[i].k != 0 or i + t.n > len(s) or any(not isinstance(s[i + k], Chr) or s[i + k].tok is not t or s[i + k].k != k for k in range(t.n)):
            self.finding("number-cut", "only a part of the text of a number (%r) is read" % (t,))
        if i + t.n < len(s):
            c = s[i + t.n]
            if isinstance(c, Chr) or chr(c) in CS:
                self.finding("number-cut", "the text of a number (%r) runs into the next one" % (t,))
        self.reads.append(t)
        return t.v, t.n

    def h_strtol(self, it, a, info):
        s = self.scan(a[0])
        i = 0
        while i < len(s) and isinstance(s[i], int) and s[i] in (32, 9, 10, 13):
            i += 1
        if i < len(s) and isinstance(s[i], Chr):
            raise Undecided("the text of a real number is read as an integer")
        import re
        t = "".join(chr(c) if isinstance(c, int) else "\1" for c in s)
        m = re.compile(r"[+-]?\d+").match(t, i)
        v = int(m.group(0)) if m else 0
        if len(a) > 1 and isinstance(a[1], Ptr):
            self.store(a[1], self.padd(a[0], m.end() if m else 0), ("ptr",))
        return v & ((1 << 64) - 1)

    def h_errno(self, it, a, info):
        if self.errno is None:
            self.errno = self.new_obj("errno", 4, "zero")
        return Ptr(self.errno, 0)

    def h_strftime(self, it, a, info):
        s = b"2024-01-31"
        self.put(a[0], list(s) + [0])
        return len(s)

    def h_now(self, it, a, info):
        self.clock += 1
        return SInt(dom.var("clock%d" % self.clock))

    def h_xstring(self, it, a, info):
        fmt = "".join(chr(c) for c in self.scan(a[3]))
        if fmt == "%f":
            r = self.text_of(a[4], FIXED, 6)
        elif fmt in ("%d", "%ld", "%u", "%lu", "%lld", "%llu") and isinstance(a[4], int):
            r = [ord(c) for c in str(sgn(a[4], 64) if fmt[-1] == "d" else a[4])]
        else:
            raise Undecided("to_string format %s" % fmt)
        self.mkstring(a[0], r)
        return None

    def mkstring(self, p, r):
        if len(r) > 15:
            o = self.new_obj("string", len(r) + 1, "undef")
            o.heap = "new"
            d = Ptr(o, 0)
            self.store(self.padd(p, 16), len(r), I64)
        else:
            d = self.padd(p, 16)
        self.store(p, d, ("ptr",))
        self.store(self.padd(p, 8), len(r), I64)
        self.put(d, r + [0])

    # ------------------------------------------------------------ reading results
    def string(self, p):
        d = Interp.load(self, p, ("ptr",))
        n = Interp.load(self, self.padd(p, 8), I64)
        if not isinstance(n, int):
            raise Undecided("string of unknown length")
        return [self.char(self.padd(d, i)) for i in range(n)]


def lines(chars):
    out, cur = [], []
    for c in chars:
        if c == 10:
            out.append(cur)
            cur = []
        else:
            cur.append(c)
    return out, cur


def words(line, sep=" \t\r"):
    """words of a line: str, Tok, or a tuple of parts when text and numbers are glued together"""
    out, cur = [], []

    def flush():
        if not cur:
            return
        parts, i = [], 0
        while i < len(cur):
            c = cur[i]
            if isinstance(c, Chr):
                t = c.tok
                if c.k == 0 and all(i + k < len(cur) and isinstance(cur[i + k], Chr) and cur[i + k].tok is t and cur[i + k].k == k for k in range(t.n)):
                    parts.append(t)
                    i += t.n
                    continue
                parts.append("<part of %r>" % (t,))
                i += 1
                continue
            if parts and isinstance(parts[-1], str) and not parts[-1].startswith("<part"):
                parts[-1] += chr(c)
            else:
                parts.append(chr(c))
            i += 1
        out.append(parts[0] if len(parts) == 1 else tuple(parts))
        cur.clear()
    for c in line:
        if isinstance(c, int) and chr(c) in sep:
            flush()
        else:
            cur.append(c)
    flush()
    return out


def plain(line):
    return "".join(chr(c) if isinstance(c, int) else "#" for c in line)


def tokens(chars, sep):
    return words([c if c != 10 else 32 for c in chars], sep)
