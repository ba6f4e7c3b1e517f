"""Reader for textual LLVM IR (clang 18, opaque pointers, x86-64 data layout)."""
import re
import struct as _struct
import subprocess

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<glb>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<md>![\w.]*|\#\d+)
 | (?P<com>\$[-\w.$"]+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLH]?[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<p>[(){}\[\]<>=,*:|])
''', re.X)


def tokenize(s):
    return TOK.findall(s) and [m.group() for m in TOK.finditer(s)]


ATTR_WORDS = {
    "noundef", "nonnull", "nocapture", "readonly", "readnone", "writeonly", "noalias", "signext",
    "zeroext", "inreg", "returned", "immarg", "swiftself", "nest", "noreturn", "writable",
    "dead_on_unwind", "nofree", "allocptr", "allocalign", "inalloca", "local_unnamed_addr",
    "unnamed_addr", "dso_local", "tail", "musttail", "notail", "fast", "nnan", "ninf", "nsz", "arcp",
    "contract", "afn", "reassoc", "fastcc", "coldcc", "ccc", "hidden", "linkonce_odr", "internal",
    "external", "weak_odr", "private", "available_externally", "protected", "weak", "linkonce",
    "default", "dso_preemptable", "common", "extern_weak", "inrange",
}
ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "nofpclass",
              "elementtype", "preallocated", "byref", "initializes", "range", "memory",
              "captures"}


class Types:
    def __init__(self):
        self.named = {}
        self._sz = {}

    def size(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = self._size(t)
        return r

    def _size(self, t):
        k = t[0]
        if k == "i":
            n = t[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else (n + 7) // 8
        if k == "double" or k == "ptr":
            return 8
        if k == "float":
            return 4
        if k == "x86_fp80" or k == "fp128":
            return 16
        if k == "arr":
            return t[1] * self.size(t[2])
        if k == "vec":
            return t[1] * self.size(t[2])
        if k == "named":
            return self.size(self.named[t[1]])
        if k == "struct":
            return self.layout(t)[1]
        raise ValueError("size of %r" % (t,))

    def align(self, t):
        k = t[0]
        if k == "arr":
            return self.align(t[2])
        if k == "named":
            return self.align(self.named[t[1]])
        if k == "struct":
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        if k == "vec":
            return self.size(t)
        return min(self.size(t), 16)

    def layout(self, t):
        if t[0] == "named":
            t = self.named[t[1]]
        key = ("L", t)
        r = self._sz.get(key)
        if r:
            return r
        off = 0
        offs = []
        mx = 1
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            mx = max(mx, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        off = (off + mx - 1) // mx * mx
        r = (offs, off)
        self._sz[key] = r
        return r

    def resolve(self, t):
        while t[0] == "named":
            t = self.named[t[1]]
        return t


class P:
    """token cursor"""
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise SyntaxError("expected %s got %s in %s" % (x, v, " ".join(self.t)[:300]))

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            v = self.next()
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1

    def attrs(self):
        while True:
            v = self.peek()
            if v in ATTR_WORDS:
                self.i += 1
            elif v in ATTR_PAREN:
                self.i += 1
                if self.peek() == "(":
                    self.skip_paren()
            elif v == "align":
                self.i += 1
                if self.peek() == "(":
                    self.skip_paren()
                else:
                    self.i += 1
            elif v is not None and v.startswith("cc") and v[2:].isdigit():
                self.i += 1
            elif v == "addrspace":
                self.i += 1
                self.skip_paren()
            else:
                return

    def type(self):
        v = self.next()
        if v == "ptr":
            t = ("ptr",)
            if self.peek() == "addrspace":
                self.next()
                self.skip_paren()
        elif v[0] == "i" and v[1:].isdigit():
            t = ("i", int(v[1:]))
        elif v in ("double", "float", "void", "label", "metadata", "x86_fp80", "fp128", "token", "opaque", "half"):
            t = (v,)
        elif v == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif v == "<":
            if self.accept("{"):
                fs = []
                if not self.accept("}"):
                    fs.append(self.type())
                    while self.accept(","):
                        fs.append(self.type())
                    self.expect("}")
                self.expect(">")
                t = ("struct", tuple(fs), True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif v == "{":
            fs = []
            if not self.accept("}"):
                fs.append(self.type())
                while self.accept(","):
                    fs.append(self.type())
                self.expect("}")
            t = ("struct", tuple(fs), False)
        elif v[0] == "%":
            t = ("named", v)
        else:
            raise SyntaxError("type %s in %s" % (v, " ".join(self.t)[:300]))
        # function type
        if self.peek() == "(" and self.mod is not None and getattr(self.mod, "_fnty", False):
            pass
        return t

    def operand(self, ty):
        """-> ('l', name) | ('c', value) | ('g', name) | ('ce', ...)"""
        v = self.next()
        if v[0] == "%":
            return ("l", v)
        if v[0] == "@":
            return ("g", v[1:].strip('"'))
        if v == "true":
            return ("c", 1)
        if v == "false":
            return ("c", 0)
        if v in ("null", "none"):
            return ("c", 0)
        if v in ("undef", "poison"):
            return ("u", ty)
        if v == "zeroinitializer":
            return ("z", ty)
        if v in ("getelementptr",):
            self.accept("inbounds")
            self.accept("nuw")
            self.expect("(")
            self.accept("inbounds")
            bt = self.type()
            self.expect(",")
            ops = []
            while True:
                while self.peek() in ("inrange",):
                    self.next()
                    if self.peek() == "(":
                        self.skip_paren()
                t = self.type()
                ops.append((t, self.operand(t)))
                if not self.accept(","):
                    break
            self.expect(")")
            return ("gep", bt, ops)
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            t = self.type()
            o = self.operand(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", v, t, o, t2)
        if v in ("sub", "add", "mul", "xor", "and", "or", "shl"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            t2 = self.type()
            b = self.operand(t2)
            self.expect(")")
            return ("cbin", v, t, a, b)
        if v == "icmp":
            pred = self.next()
            self.expect("(")
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            t2 = self.type()
            b = self.operand(t2)
            self.expect(")")
            return ("cicmp", pred, t, a, b)
        if v in ("[", "{", "<"):
            packed = False
            if v == "<" and self.peek() == "{":
                self.next()
                v = "{"
                packed = True
            close = {"[": "]", "{": "}", "<": ">"}[v]
            xs = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    xs.append((t, self.operand(t)))
                    if not self.accept(","):
                        break
                self.expect(close)
            if packed:
                self.expect(">")
            return ("agg", ty, xs)
        if v[0] == "c" and len(v) > 1 and v[1] == '"':
            return ("str", _unescape(v[2:-1]))
        if v == "splat":
            self.expect("(")
            t = self.type()
            o = self.operand(t)
            self.expect(")")
            return ("splat", ty, o)
        if v[0] == "!" or v == "metadata":
            return ("u", ty)
        if v in ("dso_local_equivalent", "no_cfi"):
            return self.operand(ty)
        # number
        return ("c", parse_num(v, ty))


def parse_num(v, ty):
    if ty[0] in ("double", "float"):
        if v.startswith("0x"):
            return _struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
        return float(v)
    if ty[0] == "x86_fp80":
        h = v[3:]
        e = int(h[:4], 16)
        m = int(h[4:], 16)
        s = -1.0 if e & 0x8000 else 1.0
        e &= 0x7fff
        if m == 0:
            return 0.0
        if e == 0x7fff:
            return s * float("inf")
        return s * m * 2.0 ** (e - 16383 - 63)
    if v.startswith("0x"):
        return int(v, 16)
    return int(v)


def _unescape(s):
    return re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode("latin1"))


class Function:
    __slots__ = ("name", "params", "ret", "lines", "mod", "_blocks", "order", "varargs", "entry", "dbg",
                 "_ipdom", "compiled")

    def __init__(self, mod, name, ret, params, lines, varargs, dbg):
        self.mod = mod
        self.name = name
        self.ret = ret
        self.params = params
        self.lines = lines
        self._blocks = None
        self.varargs = varargs
        self.dbg = dbg
        self._ipdom = None
        self.compiled = {}

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        order = []
        cur = None
        n_unnamed = len([1 for _, nm in self.params if re.fullmatch(r"%\d+", nm or "")])
        lines = self.lines
        i = 0
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
            if m:
                cur = "%" + m.group(1)
                blocks[cur] = []
                order.append(cur)
                first = False
                continue
            if first:
                cur = "%" + str(n_unnamed)
                blocks[cur] = []
                order.append(cur)
                first = False
            # continuation lines
            while True:
                if s.startswith("switch") or " switch " in s[:40]:
                    if "]" not in s:
                        s += " " + lines[i].strip()
                        i += 1
                        continue
                elif i < len(lines) and re.match(r"^\s+(to label|cleanup|catch |filter )", lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
                    continue
                break
            blocks[cur].append(s)
        self.order = order
        self._blocks = blocks
        self.entry = order[0]

    def instrs(self, b):
        r = self.compiled.get(b)
        if r is None:
            r = self.compiled[b] = [parse_instr(s, self.mod) for s in self.blocks[b]]
        return r

    def succs(self, b):
        ins = self.instrs(b)
        last = ins[-1]
        op = last[0]
        if op == "br":
            return [last[2]] if len(last) == 3 else [last[3], last[4]]
        if op == "switch":
            return [last[3]] + [x for _, x in last[4]]
        if op == "invoke":
            return [last[2]["normal"]]
        return []

    def ipdom(self):
        """immediate post-dominators (exceptional edges ignored; noreturn blocks are no exits)"""
        if self._ipdom is None:
            import collections
            blocks = []
            seen = set()
            st = [self.entry]
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                blocks.append(b)
                st.extend(self.succs(b))
            succ = {b: self.succs(b) for b in blocks}
            EXIT = "<exit>"
            # blocks that can reach a return
            for b in blocks:
                if self.instrs(b)[-1][0] == "ret":
                    succ[b] = [EXIT]
            pred = collections.defaultdict(list)
            for b in blocks:
                for s in succ[b]:
                    pred[s].append(b)
            live = set()
            st = [EXIT]
            while st:
                b = st.pop()
                for p in pred[b]:
                    if p not in live:
                        live.add(p)
                        st.append(p)
            succ = {b: [s for s in succ[b] if s == EXIT or s in live] for b in live}
            # reverse postorder on reversed graph
            order = []
            seen = set()

            def dfs(root):
                stack = [(root, iter([p for p in pred[root] if p in live]))]
                seen.add(root)
                while stack:
                    n, it = stack[-1]
                    for p in it:
                        if p not in seen:
                            seen.add(p)
                            stack.append((p, iter([q for q in pred[p] if q in live])))
                            break
                    else:
                        order.append(n)
                        stack.pop()
            dfs(EXIT)
            order.reverse()
            num = {b: i for i, b in enumerate(order)}
            idom = {EXIT: EXIT}
            changed = True
            while changed:
                changed = False
                for b in order[1:]:
                    new = None
                    for s in succ[b]:
                        if s in idom:
                            if new is None:
                                new = s
                            else:
                                x, y = s, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        changed = True
            self._ipdom = (idom, live)
        return self._ipdom


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or",
          "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp",
         "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "nneg", "disjoint", "inbounds", "volatile", "atomic", "tail", "musttail", "notail"}
_DBG = re.compile(r", !dbg !(\d+)")


def parse_instr(s, mod):
    m = _DBG.search(s)
    dbg = int(m.group(1)) if m else None
    toks = [x.group() for x in TOK.finditer(s)]
    # cut trailing metadata
    depth = 0
    for k, t in enumerate(toks):
        if t in "([{":
            depth += 1
        elif t in ")]}":
            depth -= 1
        elif t == "," and depth == 0 and k + 1 < len(toks) and toks[k + 1].startswith("!"):
            toks = toks[:k]
            break
    p = P(toks, mod)
    dest = None
    if len(toks) > 1 and toks[1] == "=":
        dest = toks[0]
        p.i = 2
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    while op != "call" and p.peek() in FLAGS:
        p.next()
    if op == "load":
        t = p.type()
        p.expect(",")
        p.type()
        return ("load", dest, t, p.operand(("ptr",)), dbg)
    if op == "store":
        t = p.type()
        v = p.operand(t)
        p.expect(",")
        p.type()
        return ("store", None, t, v, p.operand(("ptr",)), dbg)
    if op == "getelementptr":
        bt = p.type()
        ops = []
        while p.accept(","):
            t = p.type()
            ops.append((t, p.operand(t)))
        return ("gep", dest, bt, ops, dbg)
    if op in BINOPS:
        t = p.type()
        a = p.operand(t)
        p.expect(",")
        b = p.operand(t)
        return ("bin", dest, op, t, a, b, dbg)
    if op == "fneg":
        t = p.type()
        return ("fneg", dest, t, p.operand(t), dbg)
    if op in ("icmp", "fcmp"):
        pred = p.next()
        while pred in FLAGS:
            pred = p.next()
        t = p.type()
        a = p.operand(t)
        p.expect(",")
        b = p.operand(t)
        return (op, dest, pred, t, a, b, dbg)
    if op in CASTS:
        t = p.type()
        a = p.operand(t)
        p.expect("to")
        return ("cast", dest, op, t, a, p.type(), dbg)
    if op == "br":
        if p.peek() == "label":
            p.next()
            return ("br", None, p.next())
        t = p.type()
        c = p.operand(t)
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        return ("br", None, c, a, p.next(), dbg)
    if op == "switch":
        t = p.type()
        c = p.operand(t)
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cs = []
        while not p.accept("]"):
            t2 = p.type()
            k = p.operand(t2)
            p.expect(",")
            p.expect("label")
            cs.append((k[1], p.next()))
        return ("switch", None, (t, c), d, cs, dbg)
    if op == "ret":
        t = p.type()
        return ("ret", None, t, None if t[0] == "void" else p.operand(t), dbg)
    if op == "phi":
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.operand(t)
            p.expect(",")
            b = p.next()
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        return ("phi", dest, t, dict((b, v) for v, b in inc), dbg)
    if op == "select":
        ct = p.type()
        c = p.operand(ct)
        p.expect(",")
        t = p.type()
        a = p.operand(t)
        p.expect(",")
        p.type()
        b = p.operand(t)
        return ("select", dest, t, c, a, b, dbg, ct)
    if op in ("call", "invoke"):
        while p.peek() in FLAGS:
            p.next()
        p.attrs()
        t = p.type()
        # optional full function type
        if p.peek() == "(":
            # function type: (types...) then callee
            p.skip_paren()
        p.attrs()
        if p.peek() == "asm":
            return ("asm", dest, " ".join(toks), dbg)
        callee = p.operand(("ptr",))
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                if p.peek() == "metadata":
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        v = p.next()
                        if v == "(":
                            d += 1
                        elif v == ")":
                            d -= 1
                    args.append((("metadata",), ("u", ("metadata",)), None))
                else:
                    at = p.type()
                    byval = None
                    j = p.i
                    p.attrs()
                    if "byval" in p.t[j:p.i]:
                        q = P(p.t[j:p.i], mod)
                        q.i = q.t.index("byval") + 2
                        byval = q.type()
                    args.append((at, p.operand(at), byval))
                if not p.accept(","):
                    break
            p.expect(")")
        info = {"callee": callee, "args": args, "ret": t, "dbg": dbg}
        if op == "invoke":
            k = p.t.index("to", p.i)
            info["normal"] = p.t[k + 2]
            info["unwind"] = p.t[-1]
        return (op, dest, info, dbg)
    if op == "extractvalue":
        t = p.type()
        v = p.operand(t)
        ix = []
        while p.accept(","):
            ix.append(int(p.next()))
        return ("extractvalue", dest, t, v, ix, dbg)
    if op == "insertvalue":
        t = p.type()
        v = p.operand(t)
        p.expect(",")
        t2 = p.type()
        x = p.operand(t2)
        ix = []
        while p.accept(","):
            ix.append(int(p.next()))
        return ("insertvalue", dest, t, v, x, ix, dbg)
    if op == "extractelement":
        t = p.type()
        v = p.operand(t)
        p.expect(",")
        t2 = p.type()
        return ("extractelement", dest, t, v, p.operand(t2), dbg)
    if op == "insertelement":
        t = p.type()
        v = p.operand(t)
        p.expect(",")
        t2 = p.type()
        x = p.operand(t2)
        p.expect(",")
        t3 = p.type()
        return ("insertelement", dest, t, v, x, p.operand(t3), dbg)
    if op == "shufflevector":
        t = p.type()
        a = p.operand(t)
        p.expect(",")
        p.type()
        b = p.operand(t)
        p.expect(",")
        t3 = p.type()
        return ("shuffle", dest, t, a, b, t3, p.operand(t3), dbg)
    if op == "alloca":
        p.accept("inalloca")
        t = p.type()
        n = None
        if p.accept(","):
            if p.peek() not in ("align", "addrspace"):
                t2 = p.type()
                n = p.operand(t2)
        return ("alloca", dest, t, n, dbg)
    if op == "freeze":
        t = p.type()
        return ("freeze", dest, t, p.operand(t), dbg)
    if op == "atomicrmw":
        while p.peek() in FLAGS:
            p.next()
        k = p.next()
        p.type()
        a = p.operand(("ptr",))
        p.expect(",")
        t = p.type()
        return ("atomicrmw", dest, k, t, a, p.operand(t), dbg)
    if op == "cmpxchg":
        while p.peek() in FLAGS | {"weak"}:
            p.next()
        p.type()
        a = p.operand(("ptr",))
        p.expect(",")
        t = p.type()
        c = p.operand(t)
        p.expect(",")
        p.type()
        return ("cmpxchg", dest, t, a, c, p.operand(t), dbg)
    if op in ("unreachable", "resume", "landingpad", "fence"):
        return (op, dest, dbg)
    raise SyntaxError("unknown instruction: " + s[:200])


class Module:
    def __init__(self, path):
        self.types = Types()
        self.functions = {}
        self.decls = set()
        self.globals = {}
        self.aliases = {}
        self._dbg = {}
        self._dem = {}
        self._load(path)

    def _load(self, path):
        with open(path, encoding="latin1") as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        md = self._dbg
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == "%":
                k = ln.index(" = type ")
                nm = ln[:k]
                body = ln[k + 8:]
                if body.startswith("opaque"):
                    self.types.named[nm] = ("struct", (), False)
                else:
                    self.types.named[nm] = P([m.group() for m in TOK.finditer(body)], None).type()
            elif c == "@":
                self._global(ln)
            elif c == "d" and ln.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                self._func(ln, lines[i:j])
                i = j + 1
            elif c == "d" and ln.startswith("declare"):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
            elif c == "!":
                m = re.match(r"!(\d+) = (?:distinct )?(!DI\w+\(.*|!\{.*)", ln)
                if m:
                    md[int(m.group(1))] = m.group(2)

    def _global(self, ln):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', ln)
        name = m.group(1).strip('"')
        rest = m.group(2)
        toks = [x.group() for x in TOK.finditer(rest)]
        if "alias" in toks[:8]:
            k = toks.index("alias")
            p = P(toks, self)
            p.i = k + 1
            try:
                p.type()
                if p.peek() == "(":
                    p.skip_paren()
                p.expect(",")
                p.type()
                self.aliases[name] = p.operand(("ptr",))
            except Exception:
                pass
            return
        k = 0
        while k < len(toks) and toks[k] not in ("global", "constant"):
            k += 1
        self.globals[name] = (toks, k, "external" in toks[:k] or "extern_weak" in toks[:k])

    def global_init(self, name):
        """-> (type, operand or None, constant?)"""
        toks, k, ext = self.globals[name]
        const = toks[k] == "constant"
        p = P(toks, self)
        p.i = k + 1
        t = p.type()
        if ext:
            return t, None, const
        return t, p.operand(t), const

    def _func(self, header, lines):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', header)
        name = m.group(1).strip('"')
        pre = [x.group() for x in TOK.finditer(header[6:m.start()])]
        p = P(pre, self)
        p.attrs()
        while p.i < len(pre):
            try:
                j = p.i
                ret = p.type()
                break
            except SyntaxError:
                p.i = j + 1
                p.attrs()
        toks = [x.group() for x in TOK.finditer(header[m.end() - 1:])]
        p = P(toks, self)
        p.expect("(")
        params = []
        va = False
        k = 0
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    va = True
                else:
                    t = p.type()
                    p.attrs()
                    nm = None
                    if p.peek() and p.peek()[0] == "%":
                        nm = p.next()
                    else:
                        nm = "%%%d" % k
                    if re.fullmatch(r"%\d+", nm):
                        k += 1
                    params.append((t, nm))
                if not p.accept(","):
                    break
        dm = re.search(r"!dbg !(\d+)", header)
        self.functions[name] = Function(self, name, ret, params, lines, va, int(dm.group(1)) if dm else None)

    # ---------------------------------------------------------------- debug info
    def _field(self, s, key):
        m = re.search(r"\b%s: (?:\"((?:[^\"\\]|\\.)*)\"|!?(\w+))" % key, s)
        return (m.group(1) if m.group(1) is not None else m.group(2)) if m else None

    def loc(self, dbg):
        """-> list of (file, line, function) innermost first, through the inlining chain"""
        out = []
        guard = 0
        while dbg is not None and guard < 60:
            guard += 1
            s = self._dbg.get(dbg)
            if not s or not s.startswith("!DILocation"):
                break
            line = int(self._field(s, "line") or 0)
            scope = self._field(s, "scope")
            f, fn = self._scope(int(scope)) if scope else ("?", "?")
            out.append((f, line, fn))
            ia = self._field(s, "inlinedAt")
            dbg = int(ia) if ia else None
        return out

    def _scope(self, n):
        fn = None
        file = None
        for _ in range(60):
            s = self._dbg.get(n, "")
            if file is None:
                fl = self._field(s, "file")
                if fl:
                    fs = self._dbg.get(int(fl), "")
                    file = self._field(fs, "filename")
                    d = self._field(fs, "directory")
                    if file and not file.startswith("/") and d:
                        file = d + "/" + file
            if s.startswith("!DISubprogram") or s.startswith("distinct !DISubprogram"):
                fn = self._field(s, "name")
                break
            sc = self._field(s, "scope")
            if not sc:
                break
            n = int(sc)
        return file or "?", fn or "?"

    def repo_loc(self, dbg, root="/repo/"):
        """innermost location that lies in the repository"""
        ls = self.loc(dbg)
        for f, l, fn in ls:
            if f.startswith(root):
                return "%s:%d (%s)" % (f[len(root):], l, fn)
        if ls:
            return "%s:%d (%s)" % ls[0]
        return "?"

    def demangle(self, names):
        miss = [n for n in names if n not in self._dem]
        if miss:
            r = subprocess.run(["c++filt"], input="\n".join(miss), capture_output=True, text=True)
            for a, b in zip(miss, r.stdout.split("\n")):
                self._dem[a] = b
        return [self._dem[n] for n in names]

    def dem(self, n):
        return self.demangle([n])[0]
