"""U01: the division of a range into jobs and the calls made for it, for every range and number of workers.

A task given to a worker is run where it is given, on a copy of its closure and with the caller's frame unreadable: what it does cannot
depend on when the worker runs it."""
from .groups import *
from .mpn import _args, ret
from .sumproof import *
from .msmproof import between, constant, div8
from .x86 import RET

INT = 1 << 31


class IGhost:
    """A function from integers to integers with known values at two places."""
    def __init__(self, ctx, name, hi, lo, top): self.ctx, self.name, self.hi, self.lo, self.top, self.c = ctx, name, hi, lo, top, {}

    def at(self, s, e):
        for b, v in (self.lo, self.top):
            c = c_eq(e, b)
            t = c.truth()
            if t or t is None and self.ctx.implies(s.path, c): return v
        k = e.p.key()
        if k not in self.c:
            for x, v in list(self.c.values()):
                if izero(s, x.p - e.p): return v
            self.c[k] = e, self.ctx.aword(self.ctx.atom("%s(%d)" % (self.name, len(self.c)), 0, self.hi.hi, "ghost"))
        w = self.c[k][1]
        c = c_ge(self.hi, w)
        if ckey(c) not in [ckey(x) for x in s.path if x.op == "ge"]: s.assume(c)
        return w


def bounds(pr, k):
    """What the counter is compared with on the way into the body: counter < bound."""
    i0 = position(pr.E.m.ctx, getc(pr.E, k), k[2])
    out = []
    for a in pr.arrivals[:1]:
        for c in a.path[len(pr.E.path):][:2]:
            if c.op == "ge": out.append(Word(c.p + i0.p + 1, -INT, 1 << 62))
    return out


class Fill:
    """n numbers v; those with an index from lo to hi - 1 are one more."""
    def __init__(self, n, v, lo, hi): self.n, self.v, self.lo, self.hi = n, v, lo, hi

    def index(self, off, size):
        if size != 4: raise Unsupported("a partial access to a number")
        return div8(off, 4)

    def load(self, s, off, size):
        e = self.index(off, size)
        if between(s, self.lo, e, self.hi): return s.m.ctx.add(self.v, wconst(1))
        if s.m.ctx.unsat(s.path + [c_ge(e, self.lo), c_ge(s.m.ctx.sub(self.hi, wconst(1)), e)]): return self.v
        raise Unsupported("which job this is is not known")

    def store(self, s, off, size, v):
        e = self.index(off, size)
        d = s.m.ctx.sview(v, 32).p - self.load(s, off, size).p
        if izero(s, d): return self
        one = izero(s, d - 1) and not between(s, self.lo, e, self.hi)
        if one and izero(s, self.lo.p - self.hi.p): return Fill(self.n, self.v, e, s.m.ctx.add(e, wconst(1)))
        if one and izero(s, e.p - self.hi.p): return Fill(self.n, self.v, self.lo, s.m.ctx.add(self.hi, wconst(1)))
        if one and izero(s, e.p + 1 - self.lo.p): return Fill(self.n, self.v, e, self.hi)
        raise Unsupported("sizes of jobs set in a way that is not understood")


class Jobs:
    """The sizes of the jobs: differences of their partial sums."""
    def __init__(self, case, n): self.c, self.n = case, n

    def load(self, s, off, size):
        c, ctx = self.c, s.m.ctx
        if size != 4: raise Unsupported("a partial access to a number")
        e = div8(off, 4)
        a, b = c.S.at(s, e), c.S.at(s, ctx.add(e, wconst(1)))
        return c.size(s, a, b)

    def store(self, s, off, size, v): raise Unsupported("sizes of jobs changed")


class WorkCase(LoopCase):
    def __init__(self, im, name):
        super().__init__(im, name)
        m = self.m
        self.extra = []
        for d, a in im.dem.items():
            if d.startswith("std::vector<int, std::allocator<int> >::vector(unsigned long, int const&"): m.contracts[a] = self.filled
            elif d.startswith("std::vector<int, std::allocator<int> >::vector(std::vector<int, std::allocator<int> > const&)"): m.contracts[a] = self.copied
            elif d == "std::vector<int, std::allocator<int> >::~vector()": m.contracts[a] = self.dropped
            elif d in ("std::mutex::lock()", "std::mutex::unlock()", "std::condition_variable::notify_one()", "std::condition_variable::notify_all()"): m.contracts[a] = lambda s: ret(m, s, None)

    # ---- vectors of numbers
    def vector(self, s, at, content, n):
        # the name of a vector that is gone is used again: an iteration leaves what it found
        ids = self.__dict__.setdefault("names", {})
        i = ids.setdefault(n.p.key(), len(ids))
        R = next(r for r in ("heap_v%d_%d" % (i, j) for j in range(1000)) if r in s.freed or "arr:" + r not in s.aux)
        if R not in self.m.regions: self.m.add_region(R, self.ctx.scale(n, 4), arr=Arr(R))
        s.freed.discard(R)
        s.aux["arr:" + R] = content
        end = Ptr(R, 4 * n.p.const()) if n.is_const() else SPtr(R, self.ctx.scale(n, 4))
        for i, v in enumerate((Ptr(R, 0), end, end)): s.store(Ptr(at.r, at.o + 8 * i), 8, v)

    def filled(self, s):
        at, n, v = _args(self.m, s, 3)
        n = self.ctx.uview(n, 64)
        if not between(s, wconst(0), n, wconst(INT)): raise Fault("a vector of an impossible length")
        x = self.ctx.sview(s.load(v, 4), 32)
        self.vector(s, at, Fill(n, x, wconst(0), wconst(0)), n)
        ret(self.m, s, None)

    def copied(self, s):
        at, o = _args(self.m, s, 2)
        p = s.load(o, 8)
        if not isinstance(p, Ptr) or p.o or p.r not in self.m.regions: raise Unsupported("copy of an unknown vector")
        if p.r in s.freed: raise Fault("use of freed memory")
        c = s.aux.get("arr:" + p.r)
        if not isinstance(c, (Fill, Jobs)): raise Unsupported("copy of an unknown vector")
        self.vector(s, at, c, c.n)
        ret(self.m, s, None)

    def dropped(self, s):
        p = s.load(_args(self.m, s, 1)[0], 8)
        if isinstance(p, Ptr):
            if p.o or p.r in s.freed: raise Fault("a vector destroyed twice")
            s.freed.add(p.r)
            s.aux.pop("arr:" + p.r, None)
        elif not (isinstance(p, Word) and p.is_const() and p.p.const() == 0): raise Unsupported("an unknown vector destroyed")
        ret(self.m, s, None)

    def functions(self): return [a for d, a in self.im.dem.items() if "ThreadPool::" in d and "std::" not in d.split("ThreadPool::")[0] and a in self.m.ins]


class Divide(WorkCase):
    """divideWork(n, t), n >= 1, t >= 1."""
    def __init__(self, im): super().__init__(im, "divideWork")

    def prove(self):
        self.n, self.t = self.ctx.input("n", 1, INT - 1), self.ctx.input("t", 1, INT - 1)
        self.m.add_region("r", 24)
        st = self.boot([Ptr("r", 0), self.n, self.t])
        self.allowed |= {"r"}
        f = self.im.find("ThreadPool::divideWork(int, int)")
        return self.run(st, f, [self.spec], [f] + self.functions()) + self.extra

    def spec(self, L, pr):
        E = pr.E
        arrs = [k for k in pr.M if k[0] == "aux" and isinstance(E.aux.get(k[1]), Fill)]
        for k in counters(pr, 1):
            for a in arrs:
                for hi in bounds(pr, k) + [E.aux[a[1]].n]: yield More(self, E, k, a, hi)

    def post(self, s):
        ctx = self.ctx
        b, e = s.load(Ptr("r", 0), 8), s.load(Ptr("r", 8), 8)
        if not isinstance(b, Ptr) or b.o or not isinstance(e, (Ptr, SPtr)) or e.r != b.r: return [("the result is a vector", False, "")]
        c = s.aux.get("arr:" + b.r)
        if b.r in s.freed or not isinstance(c, Fill): raise Unsupported("sizes of jobs that are not understood")
        z = position(ctx, e, 8)
        more = ctx.sub(c.hi, c.lo)
        ok = lambda q: q.truth() is True or ctx.implies(s.path, q)
        return [("the vector has its length", izero(s, z.p - c.n.p * 4), ""),
                ("from 1 to t jobs", ok(c_ge(c.n, wconst(1))) and ok(c_ge(self.t, c.n)), ""),
                ("no job is negative", ok(c_ge(c.v, wconst(0))), ""),
                ("the larger jobs are among them", izero(s, more.p) or ok(c_ge(c.lo, wconst(0))) and ok(c_ge(more, wconst(0))) and ok(c_ge(c.n, c.hi)), ""),
                ("the sizes add up to n", izero(s, c.n.p * c.v.p + more.p - self.n.p), "")]


class More(Binding):
    """The jobs before the counter are one larger."""
    name = "jobs made one larger so far"

    def __init__(self, case, E, k, a, hi):
        self.c, self.a, self.k = case, a, k
        self.E = E.aux[a[1]]
        i0 = position(case.ctx, getc(E, k), k[2])
        self.cnt = Counted(k, 1, i0, hi, E)
        self.id = (k, a, hi.p.key())

    def general(self, g):
        s = g.copy()
        i = self.cnt.fresh_counter(s)
        self.cnt.set_counter(s, i)
        s.aux[self.a[1]] = Fill(self.E.n, self.E.v, self.cnt.lo, i)
        return [s]

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None: return out
        f = s.aux.get(self.a[1])
        if not isinstance(f, Fill): return out + [("jobs are numbers", False, "")]
        return out + [("the jobs before the counter are one larger", izero(s, f.v.p - self.E.v.p) and (izero(s, f.hi.p - f.lo.p) and izero(s, i.p - self.cnt.lo.p) or izero(s, f.lo.p - self.cnt.lo.p) and izero(s, f.hi.p - i.p)), "")]


class PoolCase(WorkCase):
    """A pool of T >= 1 threads: T - 1 workers that are idle at the start."""
    def __init__(self, im, name):
        super().__init__(im, name)
        m, ctx = self.m, self.ctx
        self.T = ctx.input("T", 1, 1 << 20)
        self.wsize = constant(im, "o_worker")
        m.add_region("pool", constant(im, "o_total"))
        m.add_region("workers", ctx.scale(ctx.sub(self.T, wconst(1)), self.wsize), arr=Arr("workers"))
        n = 0
        for d, a in im.dem.items():
            g = d.split(" std::function<void ()>::operator=<")
            if len(g) == 2:
                lam = im.dem.get(g[1][:g[1].rindex(">(")].rstrip("&") + "::operator()() const")
                if lam is None: continue
                m.contracts[a] = lambda s, lam=lam: self.assign(s, lam)
                n += 1
            elif d.startswith("void std::condition_variable::wait<"): m.contracts[a] = self.wait
        if not n: raise Unsupported("tasks are not given as closures")
        self.calls0 = None

    def pool(self, st):
        T1 = self.ctx.scale(self.ctx.sub(self.T, wconst(1)), self.wsize)
        st.store(Ptr("pool", constant(self.im, "o_count")), 4, self.T)
        at = constant(self.im, "o_workers")
        for i, v in enumerate((Ptr("workers", 0), SPtr("workers", T1), SPtr("workers", T1))): st.store(Ptr("pool", at + 8 * i), 8, v)
        st.aux["arr:workers"] = Plain()
        st.written = {}

    # ---- workers
    def worker(self, s, p, at):
        if not isinstance(p, (Ptr, SPtr)) or p.r != "workers": raise Unsupported("not a worker of the pool")
        w = div8(self.ctx.sub(p.w if isinstance(p, SPtr) else wconst(p.o), wconst(constant(self.im, at))), self.wsize)
        if not between(s, wconst(0), w, self.ctx.sub(self.T, wconst(1))): raise Fault("a worker that does not exist")
        return w

    def assign(self, s, lam):
        m, ctx = self.m, self.ctx
        f, c = _args(m, s, 2)
        w = self.worker(s, f, "o_task")
        b = s.aux.get("ghost:busy")
        w1 = ctx.add(w, wconst(1))
        if b is None or izero(s, b[1].p - b[0].p): nb = (w, w1)
        elif izero(s, w.p - b[1].p): nb = (b[0], w1)
        elif izero(s, w1.p - b[0].p): nb = (w, b[1])
        elif between(s, b[0], w, b[1]): raise Fault("a worker is given a task before its last one is waited for")
        else: raise Unsupported("tasks are not given to the workers in order")
        if not isinstance(c, Ptr): raise Unsupported("a closure at an unknown place")
        R = "task%d" % len(m.regions)
        m.add_region(R, 256)
        q = s.copy()
        for o, (sz, v) in list(s._cells(c.r).items()):
            if c.o <= o and o + sz <= c.o + 256: q._cells(R)[o - c.o] = (sz, v)
        top = s.regs["rsp"].o
        for o, (sz, v) in list(q._cells("stack").items()):
            if o >= top: q._cells("stack")[o] = (sz, Stale("a variable of the caller read by a worker"))
        for r in q.regs:
            if r != "rsp": q.regs[r] = ctx.aword(ctx.atom("hv_" + r, 0, MASK[64], "undef"))
        q._cells("stack")[top] = (8, wconst(RET))
        q.regs["rsp"] = Ptr("stack", top)
        q.regs["rdi"] = Ptr(R, 0)
        q.written = {}
        q.aux["loops"], q.aux["at"] = [], None
        nxt = s._cells("stack")[top][1].p.const()
        states, done = [], []
        for x, fault in m.run(q, lam):
            if fault:
                if not ctx.unsat(x.path): done.append((x, fault))
                continue
            y = s.copy()
            y.path, y.dec = list(x.path), dict(x.dec)
            if [r for r in x.written if r not in ("stack", R)]: raise Unsupported("a task that writes")
            y.aux["ghost:calls"] = x.aux.get("ghost:calls")
            y.aux["ghost:busy"] = nb
            y.regs["rax"] = f
            y.regs["rsp"] = Ptr("stack", top + 8)
            y.pc = nxt
            states.append(y)
        raise Replace(states, done)

    def wait(self, s):
        ctx = self.ctx
        w = self.worker(s, _args(self.m, s, 1)[0], "o_finished")
        b = s.aux.get("ghost:busy")
        w1 = ctx.add(w, wconst(1))
        if b is not None:
            if izero(s, w.p - b[0].p) and not izero(s, b[1].p - b[0].p): s.aux["ghost:busy"] = (w1, b[1])
            elif izero(s, w1.p - b[1].p): s.aux["ghost:busy"] = (b[0], w)
            elif not ctx.unsat(s.path + [c_ge(w, b[0]), c_ge(ctx.sub(b[1], wconst(1)), w)]): raise Unsupported("workers are not waited for in order")
        ret(self.m, s, None)

    # ---- calls
    def call(self, s, k, a=None, b=None):
        """Another call: its number and, if any, its range follow on from the others."""
        ctx = self.ctx
        c = s.aux.get("ghost:calls")
        k1 = ctx.add(k, wconst(1))
        if a is not None:
            z = ctx.sub(b, a)
            if between(s, wconst(0), k, self.z): self.size(s, self.S.at(s, k), self.S.at(s, k1))
            if not (ctx.implies(s.path, c_ge(z, self.V)) and ctx.implies(s.path, c_ge(ctx.add(self.V, wconst(1)), z))): raise Fault("a call of another size")
        if c is None: n = (k, k1, a, b)
        elif izero(s, k.p - c[1].p) and (a is None or izero(s, a.p - c[3].p)): n = (c[0], k1, c[2], b)
        elif izero(s, k1.p - c[0].p) and (a is None or izero(s, b.p - c[2].p)): n = (k, c[1], a, c[3])
        else: raise Fault("a call that does not follow on from the others")
        s.aux["ghost:calls"] = n

    def spec(self, L, pr):
        for step in (1, -1):
            for k in counters(pr, step): yield Share(self, pr, k, step)

    def idle(self, s):
        b = s.aux.get("ghost:busy")
        return b is None or izero(s, b[1].p - b[0].p)


class Share(Binding):
    """What calls were made and what workers are busy, after a number of iterations."""
    name = "calls made so far"

    def __init__(self, case, pr, k, step):
        self.c, self.k = case, k
        ctx, E = case.ctx, pr.E
        self.E = E
        self.i0 = i0 = position(ctx, getc(E, k), k[2])
        self.id = (k,)
        self.step = step
        self.cnt = Counted(k, step, *((i0, case.top(E)) if step > 0 else (wconst(0), i0)), E)
        self.others = {x: d for x, d in pr.deltas().items() if x != k}
        self.ghosts = {}
        for nm in ("ghost:calls", "ghost:busy"):
            if ("aux", nm, 0) not in pr.M or not pr.arrivals: continue
            a, e = pr.arrivals[0].aux.get(nm), E.aux.get(nm)
            if a is None: continue
            if e is None: e = (a[0], a[0]) + ((a[2], a[2]) if len(a) > 2 else ())
            ds = []
            for x, y in zip(e, a):
                if x is None: ds.append(None); continue
                d = isubst(pr.arrivals[0], y.p - x.p)
                ds.append(d.const() if d.is_const() else "S")
            self.ghosts[nm] = (e, ds)
        self.acc = []
        if case.S is not None:
            for x in pr.M:
                if x[0] == "aux" or x == k or x in self.others or x[2] not in (4, 8): continue
                p = position(ctx, getc(E, x), x[2])
                if p is not None and izero(E, p.p - case.sum(E, i0).p): self.acc.append(x)

    def turns(self, i): return self.c.ctx.sub(i, self.i0) if self.step > 0 else self.c.ctx.sub(self.i0, i)

    def state(self, s, nm, i):
        ctx = self.c.ctx
        e, ds = self.ghosts[nm]
        n = self.turns(i)
        return tuple(None if d is None else self.c.sum(s, i) if d == "S" else ctx.add(x, ctx.scale(n, d)) for x, d in zip(e, ds))

    def general(self, g):
        s, ctx = g.copy(), self.c.ctx
        i = self.cnt.fresh_counter(s)
        self.cnt.set_counter(s, i)
        n = self.turns(i)
        for x, d in self.others.items():
            v = getc(self.E, x)
            put(s, x, ctx.uview(ctx.add(v, ctx.scale(n, d)), 8 * x[2]))
        for x in self.acc:
            v = self.c.sum(s, i)
            put(s, x, ctx.uview(v, 8 * x[2]) if x[0] != "reg" else v)
        for nm in self.ghosts: s.aux[nm] = self.state(s, nm, i)
        return [s]

    def check(self, s, g):
        ctx = self.c.ctx
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None: return out
        n = self.turns(i)
        for x, d in self.others.items():
            v, e = getc(s, x), getc(self.E, x)
            out.append(("a cell that moves with the counter", isinstance(v, Word) and izero(s, ctx.uview(v, 8 * x[2]).p - ctx.uview(ctx.add(e, ctx.scale(n, d)), 8 * x[2]).p), ""))
        for x in self.acc:
            p = position(ctx, getc(s, x), x[2])
            out.append(("start of the next range", p is not None and izero(s, p.p - self.c.sum(s, i).p), ""))
        for nm in ("ghost:calls", "ghost:busy"):
            if nm not in self.ghosts: continue
            v, w = s.aux.get(nm), self.state(s, nm, i)
            if v is None: ok = izero(s, w[1].p - w[0].p) and (len(w) < 4 or w[2] is None or izero(s, w[3].p - w[2].p))
            else: ok = len(v) == len(w) and all(x is y or x is not None and y is not None and izero(s, x.p - y.p) for x, y in zip(v, w))
            out.append(("calls made so far" if nm == "ghost:calls" else "busy workers so far", ok, ""))
        return out


class ParallelFor(PoolCase):
    def __init__(self, im, named):
        super().__init__(im, "parallelFor" + (", named job" if named else ""))
        ctx = self.ctx
        self.named = named
        self.begin = ctx.input("begin", -INT, INT - 1)
        self.n = ctx.input("count", -INT, INT - 1)
        self.V, self.z, self.S = None, None, None
        self.m.contracts[im.find("ThreadPool::divideWork(int, int)")] = self.divide
        self.m.contracts[im.find("Job::operator()(int, int, int) const")] = self.job

    def divide(self, s):
        ctx = self.ctx
        at, n, t = _args(self.m, s, 3)
        n, t = ctx.sview(n, 32), ctx.sview(t, 32)
        if not (ctx.implies(s.path, c_ge(n, wconst(1))) and ctx.implies(s.path, c_ge(t, wconst(1)))): raise Fault("division of no work, or among no threads")
        if not izero(s, n.p - self.n.p) or not izero(s, t.p - self.T.p): raise Unsupported("a division of another range")
        if self.S is not None: raise Unsupported("divided twice")
        self.V, self.z = ctx.aword(ctx.atom("V", 0, INT - 2, "fresh")), ctx.aword(ctx.atom("jobs", 1, INT - 1, "fresh"))
        s.assume(c_ge(self.T, self.z))
        self.S = IGhost(ctx, "S", self.n, (wconst(0), wconst(0)), (self.z, self.n))
        self.vector(s, at, Jobs(self, self.z), self.z)
        ret(self.m, s, at)

    def sum(self, s, i): return self.ctx.add(self.begin, self.S.at(s, i))

    def size(self, s, a, b):
        """The size of a job, from the sums of those before it and up to it."""
        j = Word(b.p - a.p, 0, INT - 1)
        if not j.p.is_const():
            for q in (c_ge(j, self.V), c_ge(self.ctx.add(self.V, wconst(1)), j)):
                if ckey(q) not in [ckey(x) for x in s.path]: s.assume(q)
        return j

    def top(self, E): return self.ctx.sub(self.z, wconst(1)) if self.z is not None else wconst(0)

    def job(self, s):
        _, a, b, k = _args(self.m, s, 4)
        if self.S is None: raise Unsupported("sizes of the jobs are not known")
        self.call(s, *[self.ctx.sview(x, 32) for x in (k, a, b)])
        ret(self.m, s, None)

    def prove(self):
        ctx = self.ctx
        end = Word(self.begin.p + self.n.p, -INT, INT - 1)
        self.end = end
        st = self.boot([Ptr("pool", 0), self.begin, end, Ptr("functor", 0)])
        self.m.add_region("functor", 8)
        self.pool(st)
        for c in (c_ge(ctx.add(self.begin, self.n), wconst(-INT)), c_ge(wconst(INT - 1), ctx.add(self.begin, self.n))): st.assume(c)
        f = [a for d, a in self.im.dem.items() if d.startswith("void ThreadPool::parallelFor<Job%s>(int" % ("&" if self.named else ""))]
        if len(f) != 1: raise Unsupported("no parallelFor")
        return self.run(st, f[0], [self.spec], f + self.functions()) + self.extra

    def post(self, s):
        ctx = self.ctx
        c = s.aux.get("ghost:calls")
        ok = lambda q: q.truth() is True or ctx.implies(s.path, q)
        out = [("every worker is waited for", self.idle(s), "")]
        if c is None: return out + [("no call: the range is empty", ok(c_ge(wconst(0), self.n)), "")]
        return out + [("calls are numbered from 0, below the number of threads", izero(s, c[0].p) and ok(c_ge(self.T, c[1])), ""),
                      ("the calls make up the range", izero(s, c[2].p - self.begin.p) and izero(s, c[3].p - self.end.p), ""),
                      ("an empty range makes no call", ok(c_ge(self.n, wconst(1))), "")]


class ParallelBlock(PoolCase):
    S = None

    def __init__(self, im):
        super().__init__(im, "parallelBlock")
        self.m.contracts[im.find("Block::operator()(int, int) const")] = self.block

    def top(self, E): return self.ctx.sub(self.T, wconst(1))

    def block(self, s):
        _, k, n = _args(self.m, s, 3)
        if not izero(s, self.ctx.sview(n, 32).p - self.T.p): raise Fault("a call with another number of threads")
        self.call(s, self.ctx.sview(k, 32))
        ret(self.m, s, None)

    def prove(self):
        st = self.boot([Ptr("pool", 0), Ptr("functor", 0)])
        self.m.add_region("functor", 8)
        self.pool(st)
        f = [a for d, a in self.im.dem.items() if d.startswith("void ThreadPool::parallelBlock<Block>(")]
        if len(f) != 1: raise Unsupported("no parallelBlock")
        return self.run(st, f[0], [self.spec], f + self.functions()) + self.extra

    def post(self, s):
        c = s.aux.get("ghost:calls")
        return [("every worker is waited for", self.idle(s), ""), ("one call per thread number", c is not None and izero(s, c[0].p) and izero(s, c[1].p - self.T.p), "")]
