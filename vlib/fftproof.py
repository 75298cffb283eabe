"""C07: the transforms of every size up to 2^30, over an abstract field.

A parallel loop is verified for one worker with any part of the range; each index does exactly its own exchange, butterfly or scaling."""
import re
from .groups import *
from .mpn import _args, ret
from .sumproof import *
from .msmproof import between, constant, div8

DMAX = 30
TMAX = 1 << 20


def bits_reversed(ctx, b, d): return Poly({m: 1 << (d - 1 - i) for i, m in b.items() if i < d})


class Reversal(LoopCase):
    """BR(x, d) reverses the d bits of every x < 2^d."""
    def __init__(self, im, d):
        super().__init__(im, "bit reversal, %d bits" % d)
        self.d = d

    def prove(self):
        ctx = self.ctx
        x = wconst(0)
        self.b = {}
        for i in range(self.d):
            t = ctx.atom("b%d" % i, 0, 1, "input")
            w = ctx.aword(t)
            self.b[i] = next(iter(w.p.d))
            x = ctx.add(x, ctx.scale(w, 1 << i))
        st = self.boot([x, wconst(self.d)])
        f = [a for k, a in self.im.dem.items() if re.match(r"BR\(unsigned long, unsigned long\)$", k)]
        if len(f) != 1: raise Unsupported("the bit reversal is not a function of its own")
        return self.run(st, f[0], [])

    def post(self, s):
        v = s.regs["rax"]
        return [("result = the bits in reverse order", isinstance(v, Word) and izero(s, v.p - bits_reversed(self.ctx, self.b, self.d)), "")]


class Cells:
    """The vector while one index (or the caller) works on it: what it was and the elements changed since."""
    def __init__(self, case, log=()): self.c, self.log = case, log

    def where(self, s, off, size):
        if size != 8: raise Unsupported("a partial access to an element")
        i = div8(off, 8)
        if not between(s, wconst(0), i, wconst(self.c.n)): raise Fault("an element outside the vector")
        for n, (j, v) in enumerate(self.log):
            if izero(s, i.p - j.p): return i, n
            if not s.m.ctx.unsat(s.path, Cond("eq", i.p - j.p)): raise Unsupported("two elements that may be one")
        return i, None

    def load(self, s, off, size):
        i, n = self.where(s, off, size)
        return GVal(self.c.X(s, i)) if n is None else self.log[n][1]

    def store(self, s, off, size, v):
        i, n = self.where(s, off, size)
        if not isinstance(v, GVal): raise Fault("something that is not an element is written into the vector")
        l = list(self.log)
        if n is None: l.append((i, v))
        else: l[n] = (i, v)
        return Cells(self.c, tuple(l))

    def holds(self, s, want):
        """exactly these elements are changed, to these values"""
        if len(self.log) != len(want): return False
        for i, v in want:
            m = [x for j, x in self.log if izero(s, i.p - j.p)]
            if len(m) != 1 or not gzero(s, m[0].p - v): return False
        return True


class Fixed:
    """A table that is only read."""
    def __init__(self, f): self.f = f

    def load(self, s, off, size):
        if size != 8: raise Unsupported("a partial access to an element")
        return self.f(s, div8(off, 8))

    def store(self, s, off, size, v): raise Fault("a write into the table of the roots")


class EachIndex(Binding):
    """One worker's loop: every index from the beginning of its part to its end does its own work, once."""
    def __init__(self, case, E, k, hi, side):
        self.c, self.side = case, side
        self.name = "each index: %s" % case.kind_name(E.aux["kind"])
        self.cnt = Counted(k, 1, position(case.ctx, getc(E, k), k[2]), hi, E)
        self.id = (k, side, hi.p.key())

    def general(self, g):
        s = g.copy()
        i = self.cnt.fresh_counter(s)
        self.cnt.set_counter(s, i)
        s.aux["arr:a"] = Cells(self.c)
        s.aux["ghost:done"] = (self.cnt.lo, i)
        s.aux["ghost:i"] = i
        return [s]

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None: return out
        log = s.aux["arr:a"]
        if g is None:
            if log.log: raise Unsupported("work before the loop over the indices")
            return out
        ig = self.cnt.val(g)
        out.append(("one index after the other", izero(s, i.p - ig.p - 1), ""))
        return out + [(n, ok, "") for n, ok in self.c.work(s, ig, log, self.side)]


class Transform(LoopCase):
    def __init__(self, im, d, S, inverse):
        super().__init__(im, "%s, size 2^%d, domain 2^%d" % ("inverse transform" if inverse else "transform", d, S))
        ctx, m = self.ctx, self.m
        m.prune_ints = True
        self.d, self.S, self.n, self.inverse = d, S, 1 << d, inverse
        self.Xs, self.ws, self.Rs = {}, {}, {}
        self.plan = ["inv"] if inverse else ["rev"] + list(range(1, d + 1))
        self.extra = []
        m.add_region("obj", constant(im, "o_total"), init=lambda s, o, k: None)
        m.add_region("a", 8 * self.n, arr=Arr("a"))
        m.add_region("roots", 8 << S, arr=Arr("roots"))
        m.add_region("pow", 8 * (S + 1), arr=Arr("pow"))
        m.add_region("pool", 64)
        self.allowed |= {"a"}
        self.bodies = {}
        for dn, a in im.dem.items():
            g = re.match(r"^(?:void )?ThreadPool::parallelFor<(.*)>\(int, int, (.*)&&?\)$", dn)
            if g:
                x = g.group(1).replace("&", "")
                m.contracts[a] = lambda s, x=x: self.parallel(s, x)
                c = [b for k, b in im.dem.items() if k.replace("&", "").startswith(x + "::operator()(int, int, int)")]
                self.bodies[x] = c
            if re.match(r"BR\(unsigned long, unsigned long\)$", dn): m.contracts[a] = self.reversal
            g = re.match(r"AF::(\w+)\((.*)\)$", dn)
            if g:
                h = dict(copy=lambda a: a, add=lambda a, b: a + b, sub=lambda a, b: a - b, neg=lambda a: -a, mul=lambda a, b: a * b, square=lambda a: a * a).get(g.group(1))
                m.contracts[a] = self.op(h) if h else self.unknown
            if inverse and re.match(r"FFT<AF>::fft\(AF::Element\*, unsigned long\)$", dn): m.contracts[a] = self.forward

    def kind_name(self, k): return {"rev": "exchange", "inv": "scaling"}.get(k, "butterfly of stage %s" % k)

    # ---- contracts
    def unknown(self, s): raise Unsupported("a field operation that is not under contract")

    def op(self, f):
        k = f.__code__.co_argcount
        def h(s):
            a = [ptrof(s, p) for p in _args(self.m, s, k + 2)[1:]]
            gstore(s, a[0], 8, f(*[gload(s, p, 8) for p in a[1:]]))
            ret(self.m, s, None)
        return h

    def X(self, s, i):
        st = s.aux.get("stage", 0)
        i = wconst(i.p.const()) if i.p.is_const() else i
        for j, v in self.Xs.get(st, ()):
            if izero(s, i.p - j.p): return v
        v = gatom(self.ctx, "x(%d)" % len(self.Xs.get(st, ())))
        self.Xs.setdefault(st, []).append((i, v))
        return v

    def table(self, nm, hi):
        def f(s, i):
            if not between(s, wconst(0), i, wconst(hi)): raise Fault("an entry outside the table of %s" % nm)
            return GVal(self.entry(s, nm, i))
        return Fixed(f)

    def entry(self, s, nm, i):
        if i.p.is_const() and i.p.const() == 0: return pconst(1)
        for j, v in self.ws.get(nm, ()):
            if izero(s, i.p - j.p): return v
        v = self.ctx.apoly(self.ctx.atom("%s(%d)" % (nm, len(self.ws.get(nm, ()))), None, None, "ghost"))
        self.ws.setdefault(nm, []).append((i, v))
        return v

    def reversal(self, s):
        ctx = self.ctx
        x, d = _args(self.m, s, 2)
        x, d = ctx.uview(x, 64), ctx.uview(d, 64)
        if not (d.is_const() and d.p.const() == self.d) or not between(s, wconst(0), x, wconst(self.n)): raise Unsupported("a bit reversal of another width")
        ret(self.m, s, self.R(s, x))

    def R(self, s, x):
        if self.d < 2: return x
        for j, r in self.Rs.get("r", ()):
            if izero(s, x.p - j.p): return r
        r = self.ctx.aword(self.ctx.atom("reversed(%d)" % len(self.Rs.get("r", ())), 0, self.n - 1, "fresh"))
        self.Rs.setdefault("r", []).append((x, r))
        return r

    def forward(self, s):
        o, a, n = _args(self.m, s, 3)
        n = self.ctx.uview(n, 64)
        ok = o == Ptr("obj", 0) and a == Ptr("a", 0) and n.is_const() and n.p.const() == self.n and not s.aux["arr:a"].log and not s.aux.get("transformed") and not s.aux.get("done")
        self.extra.append(("the vector is transformed once, first", ok, "", s.copy()))
        s.aux["transformed"] = True
        ret(self.m, s, None)

    # ---- the parallel loops
    def parallel(self, s, x):
        m, ctx = self.m, self.ctx
        if len(self.bodies[x]) != 1: raise Unsupported("no code of a parallel loop")
        pool, b, e, f = _args(m, s, 4)
        b, e = ctx.sview(b, 32), ctx.sview(e, 32)
        done = s.aux.get("done", ())
        if not b.is_const() or not e.is_const(): raise Unsupported("a part of the vector that is not known")
        if b.p.const() >= e.p.const(): return ret(m, s, None)
        if len(done) >= len(self.plan): raise Unsupported("more parallel loops than stages")
        if s.aux["arr:a"].log and not self.inverse: raise Unsupported("work outside the parallel loops")
        kind = self.plan[len(done)]
        s2 = s.copy()
        B, Eb, t = (ctx.aword(ctx.atom(nm, 0, hi, "fresh")) for nm, hi in (("begin", e.hi), ("end", e.hi), ("worker", TMAX)))
        for c in (c_ge(B, b), c_ge(Eb, B), c_ge(e, Eb)): s2.assume(c)
        sp = s.regs["rsp"].o - 4096
        sp -= sp % 16
        s2.regs["rsp"] = Ptr("stack", sp - 8)
        from .x86 import RET, CALLEE_SAVED
        s2._cells("stack")[sp - 8] = (8, wconst(RET))
        for r, v in zip(("rdi", "rsi", "rdx", "rcx"), (f, B, Eb, t)): s2.regs[r] = v
        s2.aux.update(range=(B, Eb), kind=kind, loops=[], at=None)
        s2.aux["arr:a"] = Cells(self)
        s2.aux.pop("ghost:done", None)
        s2.written = {}
        keep = dict(s2.regs)
        fin = m.run(s2, self.bodies[x][0])
        if not fin: raise Unsupported("no path through the parallel loop reaches its end")
        for q, fault in fin:
            if fault:
                self.extra.append(("safe", ctx.unsat(q.path), fault, q)); continue
            bad = [r for r in CALLEE_SAVED if not same(q.regs[r], keep[r]) and q.regs[r] != keep[r]]
            self.extra.append(("calling convention", not bad and q.regs["rsp"] == Ptr("stack", sp), "", q))
            dn = q.aux.get("ghost:done")
            if dn is None: raise Unsupported("the loop over a worker's indices is not read")
            if q.aux["arr:a"].log: raise Unsupported("work after the loop over the indices")
            self.extra.append(("all indices of the part are done", izero(q, dn[0].p - B.p) and izero(q, dn[1].p - Eb.p), "", q))
            w = [r for r in q.written if r not in ("stack", "a")] + ["shared variables" for o, n in q.written.get("stack", ()) if o >= sp]
            self.extra.append(("a worker writes only the vector", not w, "writes %s" % w[:4], q))
        lo, hi = {"rev": (0, self.n), "inv": (1, self.n // 2)}.get(kind, (0, self.n // 2))
        self.extra.append(("the range is that of the stage", b.p.const() == lo and e.p.const() == hi, "from %d to %d in %s" % (b.p.const(), e.p.const(), self.kind_name(kind)), s.copy()))
        if not self.inverse: s.aux["stage"] = len(done) + 1
        elif any(i.p.const() not in (0, self.n // 2) for i, v in s.aux["arr:a"].log): raise Unsupported("elements changed before the parallel loop")
        s.aux["done"] = done + (kind,)
        ret(m, s, None)

    def work(self, s, i, log, side):
        """what index i must have done"""
        ctx, kind = self.ctx, s.aux["kind"]
        if len(log.log) not in (0, 2): raise Unsupported("work that is not understood")
        if kind == "rev":
            r = self.R(s, i)
            up = c_ge(i, r) if side else c_ge(r, i)          # i is on the side that exchanges, or its own mirror image
            if not log.log: return [("an element of the other side is left where it is", ctx.implies(s.path, c_ge(r, i) if side else c_ge(i, r)))]
            return [("the two elements change places", ctx.implies(s.path, up) and ctx.unsat(s.path, Cond("eq", i.p - r.p)) and log.holds(s, [(i, self.X(s, r)), (r, self.X(s, i))]))]
        if kind == "inv":
            c = self.entry(s, "pow", wconst(self.d))
            q = ctx.sub(wconst(self.n), i)
            return [("both elements are exchanged and scaled", log.holds(s, [(i, self.X(s, q) * c), (q, self.X(s, i) * c)]))]
        h, l = ctx.split(i, kind - 1)
        p = ctx.add(ctx.scale(h, 1 << kind), l)
        q = ctx.add(p, wconst(1 << (kind - 1)))
        w = self.entry(s, "root", ctx.scale(l, 1 << (self.S - kind)))
        t = w * self.X(s, q)
        return [("butterfly: (x, y) becomes (x + w y, x - w y) with the root of its place", log.holds(s, [(p, self.X(s, p) + t), (q, self.X(s, p) - t)]))]

    def spec(self, L, pr):
        E = pr.E
        if "range" not in E.aux or "ghost:done" in E.aux: return
        for k in counters(pr, 1):
            for side in ((True, False) if E.aux["kind"] == "rev" else (True,)): yield EachIndex(self, E, k, E.aux["range"][1], side)

    def run(self, *a):
        try: return super().run(*a)
        finally: self.loops.declined = [d for d in self.loops.declined if d[1] != "no specification"]      # such a loop is run through, turn by turn

    def prove(self):
        im, ctx = self.im, self.ctx
        st = self.boot([Ptr("obj", 0), Ptr("a", 0), wconst(self.n)])
        cells = st._cells("obj")
        cells[constant(im, "o_s")] = (4, wconst(self.S))
        for k, v in (("o_roots", "roots"), ("o_pow", "pow"), ("o_pool", "pool")): cells[constant(im, k)] = (8, Ptr(v, 0))
        st.aux["arr:a"] = Cells(self)
        st.aux["arr:roots"] = self.table("root", 1 << self.S)
        st.aux["arr:pow"] = self.table("pow", self.S + 1)
        f = im.sym["v_ifft" if self.inverse else "v_fft"]
        fs = [f] + [a for d, a in im.dem.items() if re.match(r"FFT<AF>::\w+\(", d)] + [a for c in self.bodies.values() for a in c]
        o = self.run(st, f, [self.spec], fs)
        return o + self.extra

    def post(self, s):
        done, log = s.aux.get("done", ()), s.aux["arr:a"]
        if not self.inverse:
            return [("all stages are done in order", list(done) == self.plan or self.d == 0, "done %s" % (done,)), ("nothing else is changed", not log.log, "")]
        c = self.entry(s, "pow", wconst(self.d))
        ends = [(wconst(0), self.X(s, wconst(0)) * c)] + ([(wconst(self.n // 2), self.X(s, wconst(self.n // 2)) * c)] if self.d else [])
        return [("the vector is transformed", bool(s.aux.get("transformed")), ""), ("all pairs are exchanged and scaled", list(done) == self.plan or self.d < 2, ""),
                ("first and middle element are scaled", log.holds(s, ends), "")]
