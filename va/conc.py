"""Concurrency model for the OpenMP runtime calls in the IR.

A parallel region is interpreted once per abstract thread.  Every access is recorded as (object, byte mask) under the
unit of execution it belongs to (replicated code of a thread, the k-th single construct, a task) with the locks held and
the barrier phase.  Two accesses of units that may run at the same time, of which one writes, must not overlap unless
both hold one lock: then every interleaving is equivalent to the interpreted one.  Which thread executes a `single nowait`
is left open by a selector variable s (s on one thread, 1-s on the other), so values hold for every distribution."""
from . import dom, externs
from .absint import DEAD, Cond, Finding, Fn, Interp, Ptr, SInt, Top, UNDEF, gamma
from .dom import Poly, Undecided

I32 = ("i", 32)


class Unit:
    __slots__ = ("thread", "phase", "kind", "num", "locks", "r", "w", "seg", "epoch", "site", "born")

    def __init__(self, thread, phase, kind, num, locks, seg, epoch, born=0):
        self.thread, self.phase, self.kind, self.num = thread, phase, kind, num
        self.locks, self.seg, self.epoch, self.born = locks, seg, epoch, born
        self.r, self.w, self.site = {}, {}, {}

    def name(self):
        return {"rep": "code executed by every thread", "single": "single construct %s" % self.num, "task": "task %s" % self.num}[self.kind]


class ConcInterp(Interp):
    """nthreads: threads per region; order: order in which they are interpreted; owner: thread that executes singles with a barrier"""

    def __init__(self, *a, nthreads=2, order=None, owner=0, **k):
        Interp.__init__(self, *a, **k)
        self.nt = nthreads
        self.order = list(order or range(nthreads))
        self.owner = owner
        self.fp = None
        self.units = []
        self.thread = 0
        self.races = []
        self.regions = 0
        self.nsel = 0
        self.counts = dict(singles=0, tasks=0, accesses=0, criticals=0, objects=0)
        self.selectors = {}
        self.guards = 0
        self.nowait = {}
        h = self.hooks
        for n in ("__kmpc_fork_call", "__kmpc_single", "__kmpc_end_single", "__kmpc_barrier", "__kmpc_critical", "__kmpc_end_critical", "__kmpc_omp_task_alloc",
                  "__kmpc_omp_task", "__kmpc_omp_taskwait", "__kmpc_global_thread_num", "__kmpc_push_num_threads", "__kmpc_for_static_init_4", "__kmpc_for_static_init_8",
                  "__kmpc_for_static_init_4u", "__kmpc_for_static_init_8u", "__kmpc_for_static_fini", "__kmpc_master", "__kmpc_end_master", "__kmpc_masked",
                  "__kmpc_end_masked", "__kmpc_reduce", "__kmpc_reduce_nowait", "__kmpc_end_reduce", "__kmpc_end_reduce_nowait", "__kmpc_flush",
                  "__kmpc_critical_with_hint", "omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads", "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel",
                  "__kmpc_copyprivate", "__kmpc_taskgroup", "__kmpc_end_taskgroup"):
            h[n] = getattr(self, n.replace("__kmpc_", "k_").replace("omp_get", "k_get"))
        for n in ("free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t"):
            if n in externs.EXT:
                h[n] = lambda it, a, info, f=externs.EXT[n]: self.k_free(f, a, info)
        h["__cxa_guard_acquire"] = self.k_guard
        h["__cxa_guard_release"] = self.k_guard_end

    # ------------------------------------------------------------ recording
    def touch(self, p, n, write):
        u = self.fp
        if self.guards or not isinstance(p, Ptr):
            return
        o, off = p.obj, p.off
        if o.ro:
            return
        if not isinstance(off, int):
            off, n = 0, max(64, o.size or 4096)
        self.counts["accesses"] += 1
        m = ((1 << n) - 1) << off if off >= 0 else 1
        d = u.w if write else u.r
        d[o.id] = d.get(o.id, 0) | m
        if write or o.id not in u.site:
            u.site[o.id] = self.stack[-1][:] if self.stack else None

    def unit(self, kind, num, locks=None):
        c = self.fp
        u = Unit(self.thread, c.phase if c else 0, kind, num, c.locks if locks is None else locks, c.seg if c else 0, c.epoch if c else 0)
        self.units.append(u)
        return u

    def load(self, ptr, t):
        if self.fp is not None and isinstance(ptr, Ptr) and t[0] not in ("struct", "named", "arr", "vec"):
            self.touch(ptr, self.T.size(t), False)
        return Interp.load(self, ptr, t)

    def store(self, ptr, val, t):
        if self.fp is not None and isinstance(ptr, Ptr) and t[0] not in ("struct", "named", "arr", "vec"):
            self.touch(ptr, self.T.size(t), True)
        return Interp.store(self, ptr, val, t)

    def memcpy(self, d, s, n):
        if self.fp is not None and isinstance(n, int) and n:
            self.touch(s, n, False)
            self.touch(d, n, True)
        return Interp.memcpy(self, d, s, n)

    def memset(self, d, b, n):
        if self.fp is not None and isinstance(n, int) and n:
            self.touch(d, n, True)
        return Interp.memset(self, d, b, n)

    def leave(self, allocas):
        if self.fp is not None:
            for o in allocas:
                self.touch(Ptr(o, 0), max(1, o.size or 1), True)
        Interp.leave(self, allocas)

    def lifetime_end(self, p):
        if self.fp is not None and isinstance(p, Ptr):
            self.touch(p, max(1, p.obj.size or 1), True)

    def k_free(self, f, a, info):
        if self.fp is not None and isinstance(a[0], Ptr):
            self.touch(Ptr(a[0].obj, 0), max(1, a[0].obj.size or 1), True)
        return f(self, a, info)

    def k_guard(self, it, a, info):
        fp, self.fp = self.fp, None
        v = self.load(a[0], ("i", 8))
        self.fp = fp
        if v == 0:
            self.guards += 1
            return 1
        return 0

    def k_guard_end(self, it, a, info):
        self.guards -= 1
        fp, self.fp = self.fp, None
        self.store(a[0], 1, ("i", 8))
        self.fp = fp

    # ------------------------------------------------------------ regions
    def k_fork_call(self, it, a, info):
        fn, args = a[2], a[3:]
        if self.fp is not None:                      # nested region: one thread
            g = self.new_obj("gtid", 4, "zero")
            self.call(fn.name, [Ptr(g, 0), Ptr(g, 0)] + args)
            return None
        if self.arms:
            raise Undecided("parallel region under an undecided condition")
        self.regions += 1
        self.units = []
        base = len(self.objs)
        self.base = base
        self.sel = {}
        dead = False
        for t in self.order:
            self.thread = t
            self.seq = 0
            self.ntask = 0
            g = self.new_obj("gtid", 4, "undef")
            self.store(Ptr(g, 0), t, I32)
            self.fp = Unit(t, 0, "rep", 0, frozenset(), 0, 0)
            self.units.append(self.fp)
            r = self.call(fn.name, [Ptr(g, 0), Ptr(g, 0)] + args)
            self.fp = None
            dead = dead or r is DEAD
        self.thread = 0
        self.conflicts(self.mod.dem(fn.name) if hasattr(self.mod, "dem") else fn.name)
        return DEAD if dead else None

    def k_push_num_threads(self, it, a, info):
        return None

    def k_serialized_parallel(self, it, a, info):
        raise Undecided("conditional parallel region")
    k_end_serialized_parallel = k_copyprivate = k_serialized_parallel

    def k_global_thread_num(self, it, a, info):
        return self.thread if self.fp is not None else 0

    def k_get_thread_num(self, it, a, info):
        return self.thread if self.fp is not None else 0

    def k_get_num_threads(self, it, a, info):
        return self.nt if self.fp is not None else 1

    def k_get_max_threads(self, it, a, info):
        return self.nt

    def k_flush(self, it, a, info):
        return None

    # ------------------------------------------------------------ single, barrier
    def is_nowait(self, info):
        """does control reach a barrier right behind the construct?"""
        k = id(info)
        if k not in self.nowait:
            f = self.mod.functions[self.stack[-1][0]]
            for b in f.blocks:
                for I in f.instrs(b):
                    if I[0] in ("call", "invoke") and I[2] is info:
                        idom, _ = f.ipdom()
                        j = idom.get(b)
                        self.nowait[k] = not (j in f.blocks and any(
                            x[0] in ("call", "invoke") and x[2]["callee"][1].lstrip("@") == "__kmpc_barrier" for x in f.instrs(j)))
        return self.nowait[k]

    def k_single(self, it, a, info):
        if self.fp is None:
            return 1
        self.seq += 1
        self.counts["singles"] += 1
        if not self.is_nowait(info):
            if self.thread == self.owner:
                self.fp = self.unit("single", self.seq)
                return 1
            return 0
        n = self.seq
        if self.nt == 1:
            self.fp = self.unit("single", n)
            return 1
        if n not in self.sel:
            self.sel[n] = [dom.var("sel%d_%d" % (self.nsel, t)) for t in range(self.nt - 1)]
            rest = 1.0
            for x in self.sel[n]:
                rest = dom.sub(rest, x)
            self.sel[n].append(rest)
            self.nsel += 1
        c = Cond(dom._intern_cond("sel", "%d/%d/%d" % (self.regions, n, self.thread)), False)
        self.selectors[c.id] = self.sel[n][self.thread]
        self.saved = self.fp
        self.pending = n
        return SInt0(c)

    def k_end_single(self, it, a, info):
        if self.fp is not None and self.fp.kind == "single":
            self.fp = self.unit("rep", 0)

    def fork(self, f, env, fr, b, c, *rest, **kw):
        if self.fp is not None and isinstance(c, Cond) and c.id in self.selectors:
            keep = self.fp
            one = self.unit("single", self.pending)
            mk1, mk2 = rest[0], rest[1]

            def enter():
                self.fp = one
                return (mk2 if c.neg else mk1)()

            def skip():
                self.fp = keep
                return (mk1 if c.neg else mk2)()
            r = Interp.fork(self, f, env, fr, b, c, skip if c.neg else enter, enter if c.neg else skip, *rest[2:], **kw)
            self.fp = self.unit("rep", 0, keep.locks)
            return r
        return Interp.fork(self, f, env, fr, b, c, *rest, **kw)

    def mergeval(self, c, a, b):
        if isinstance(c, Cond) and c.id in self.selectors and (isinstance(a, (float, Poly)) or isinstance(b, (float, Poly))) and not (
                a is UNDEF or b is UNDEF or isinstance(a, Top) or isinstance(b, Top)):
            fa = a if isinstance(a, (float, Poly)) else self.retype(a, ("double",))
            fb = b if isinstance(b, (float, Poly)) else self.retype(b, ("double",))
            if fa == fb:
                return fa
            s = self.selectors[c.id]
            if c.neg:
                fa, fb = fb, fa
            return dom.add(fb, dom.mul(s, dom.sub(fa, fb)))
        return Interp.mergeval(self, c, a, b)

    def k_barrier(self, it, a, info):
        if self.fp is None:
            return None
        u = self.unit("rep", 0)
        u.phase += 1
        u.epoch += 1
        self.fp = u

    def k_master(self, it, a, info):
        return int(self.thread == 0)
    k_masked = k_master

    def k_end_master(self, it, a, info):
        return None
    k_end_masked = k_end_master

    # ------------------------------------------------------------ critical, reductions
    def k_critical(self, it, a, info):
        if self.fp is None:
            return None
        self.counts["criticals"] += 1
        p = a[2]
        self.outer = getattr(self, "outer", [])
        self.outer.append(self.fp)
        self.fp = self.unit(self.fp.kind, self.fp.num, self.fp.locks | {p.obj.id if isinstance(p, Ptr) else 0})
    k_critical_with_hint = k_critical

    def k_end_critical(self, it, a, info):
        if self.fp is None:
            return None
        o = self.outer.pop()
        self.fp = self.unit(o.kind, o.num, o.locks)

    def k_reduce(self, it, a, info):
        self.k_critical(it, [0, 0, a[-1]], info)
        return 1
    k_reduce_nowait = k_reduce

    def k_end_reduce(self, it, a, info):
        self.k_end_critical(it, a, info)
    k_end_reduce_nowait = k_end_reduce

    # ------------------------------------------------------------ worksharing loops
    def static_init(self, a, t):
        # loc gtid sched plast plower pupper pstride incr chunk
        lo, hi = self.load(a[4], t), self.load(a[5], t)
        if not isinstance(lo, int) or not isinstance(hi, int):
            raise Undecided("worksharing loop with unknown bounds")
        n = hi - lo + 1
        inc = a[7] if isinstance(a[7], int) else 1
        if n < 0 or n > 1 << 40 or inc != 1:
            raise Undecided("worksharing loop form")
        k = self.nt
        size = (n + k - 1) // k
        b = lo + self.thread * size
        e = min(hi, b + size - 1)
        self.store(a[4], b, t)
        self.store(a[5], e, t)
        self.store(a[3], int(e == hi), I32)

    def k_for_static_init_4(self, it, a, info):
        self.static_init(a, ("i", 32))
    k_for_static_init_4u = k_for_static_init_4

    def k_for_static_init_8(self, it, a, info):
        self.static_init(a, ("i", 64))
    k_for_static_init_8u = k_for_static_init_8

    def k_for_static_fini(self, it, a, info):
        return None

    # ------------------------------------------------------------ tasks
    def k_omp_task_alloc(self, it, a, info):
        o = self.new_obj("task", a[3], "undef")
        o.heap = "malloc"
        o.meta = (a[5], a[2])
        if a[4]:
            s = self.new_obj("task shareds", a[4], "undef")
            s.heap = "malloc"
            self.store(Ptr(o, 0), Ptr(s, 0), ("ptr",))
        return Ptr(o, 0)

    def k_omp_task(self, it, a, info):
        task = a[2]
        fn, flags = task.obj.meta
        self.counts["tasks"] += 1
        if self.fp is None:
            self.call(fn.name, [0, task])
            return 0
        gen = self.fp
        self.ntask += 1
        u = Unit(gen.thread, gen.phase, "task", self.ntask, frozenset(), gen.seg, gen.epoch, len(self.objs))
        self.units.append(u)
        self.fp = u
        self.call(fn.name, [self.thread, task])
        if isinstance(flags, int) and flags & 8:
            d = self.load(self.padd(task, 24), ("ptr",))
            if isinstance(d, Fn):
                self.call(d.name, [self.thread, task])
        self.prune(u)
        self.fp = Unit(gen.thread, gen.phase, gen.kind, gen.num, gen.locks, gen.seg + 1, gen.epoch)
        self.units.append(self.fp)
        return 0

    def prune(self, u):
        """forget what lived and died inside the task"""
        for d in (u.r, u.w, u.site):
            for o in [o for o in d if o >= u.born and not self.objs[o].alive]:
                del d[o]

    def k_omp_taskwait(self, it, a, info):
        if self.fp is not None:
            g = self.fp
            self.fp = Unit(g.thread, g.phase, g.kind, g.num, g.locks, g.seg, g.epoch + 1)
            self.units.append(self.fp)

    def k_taskgroup(self, it, a, info):
        raise Undecided("taskgroup")
    k_end_taskgroup = k_taskgroup

    # ------------------------------------------------------------ verdict
    def concurrent(self, a, b):
        if a.phase != b.phase or a.locks & b.locks:
            return False
        if a.kind == "task" or b.kind == "task":
            if a.kind != "task":
                a, b = b, a
            if b.kind == "task":
                return a is not b and (a.thread != b.thread or a.epoch == b.epoch)
            # task against code of a thread
            if a.thread == b.thread:
                return b.epoch == a.epoch and b.seg > a.seg
            return True
        if a.thread == b.thread:
            return False
        return not (a.kind == b.kind == "single" and a.num == b.num)

    def conflicts(self, region):
        byobj = {}
        for u in self.units:
            for o in set(u.r) | set(u.w):
                byobj.setdefault(o, []).append(u)
        for o, us in byobj.items():
            if len(us) < 2:
                continue
            ths = {u.thread for u in us}
            tasks = [u for u in us if u.kind == "task"]
            if len(ths) < 2 and not tasks:
                continue
            if not any(u.w.get(o) for u in us):
                continue
            self.counts["objects"] += 1
            # merge units that behave alike
            keys = {}
            for u in us:
                if u.kind == "task":
                    keys[id(u)] = u
                    continue
                k = (u.thread, u.phase, u.kind, u.num, u.locks, u.seg if tasks else 0, u.epoch if tasks else 0)
                v = keys.get(k)
                if v is None:
                    v = keys[k] = Unit(*((u.thread, u.phase, u.kind, u.num, u.locks, u.seg, u.epoch)))
                v.r[o] = v.r.get(o, 0) | u.r.get(o, 0)
                v.w[o] = v.w.get(o, 0) | u.w.get(o, 0)
                if o in u.site and (o not in v.site or u.w.get(o)):
                    v.site[o] = u.site[o]
            L = list(keys.values())
            for i, a in enumerate(L):
                ra, wa = a.r.get(o, 0), a.w.get(o, 0)
                for b in L[:i]:
                    wb = b.w.get(o, 0)
                    if not (wa & (b.r.get(o, 0) | wb) or ra & wb):
                        continue
                    if self.concurrent(a, b):
                        w, q = (a, b) if wa else (b, a)
                        self.races.append((region, self.objs[o].name, w, q, w.site.get(o), q.site.get(o)))
                        break
                    if a.phase != b.phase and a.thread != b.thread:
                        e, l = (a, b) if a.phase < b.phase else (b, a)
                        if self.order.index(l.thread) < self.order.index(e.thread) and e.w.get(o, 0) & (l.r.get(o, 0) | l.w.get(o, 0)):
                            raise Undecided("values exchanged across a barrier inside a parallel region")
                else:
                    continue
                break
        self.units = []


def SInt0(c):
    """0/1 integer equal to the condition"""
    from .absint import mkint
    return mkint(gamma(c, 1.0, 0.0), 32)
