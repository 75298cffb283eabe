"""C05: the bucket multi-exponentiation, its methods verified one by one, for every number of points, scalar length and number of threads.

The content of the bucket array is followed through what its cells weigh: sum over all cells of column * cell."""
from .groups import *
from .mpn import _args, ret
from .sumproof import *
from .msmproof import Any, Cells1, Doubled, GGhost, Horner, Table, Window, between, constant, div8, field, floordiv, geq, SIZEMAX
from .x86 import RET, CALLEE_SAVED, quotient

NMAX = 1 << 40


def memo(ctx, d, k, name):
    if k not in d: d[k] = gatom(ctx, "%s(%d)" % (name, len(d)))
    return d[k]


def val(v):
    if isinstance(v, (GVal, Word)): return as_group(v)
    raise Unsupported("a cell that does not hold an element")


# ---------------------------------------------------------------- contents of the bucket array
class Zero:
    """All cells are zero."""
    def __init__(self, case): self.c = case

    def load(self, s, off, size):
        self.c.cell(s, off, size)
        return GVal(Poly())

    def store(self, s, off, size, v): return Sum(self.c, Poly()).store(s, off, size, v)


class Unset:
    """Cells below a bound are zero, nothing is known about the others."""
    def __init__(self, case, upto): self.c, self.upto = case, upto

    def load(self, s, off, size): raise Unsupported("buckets are read before they are set")

    def store(self, s, off, size, v):
        i = div8(off, 8)
        if size == 8 and val(v).is_zero() and izero(s, i.p - self.upto.p): return Unset(self.c, s.m.ctx.add(self.upto, wconst(1)))
        return Plain()


class Sum:
    """The cells weigh ws."""
    def __init__(self, case, ws): self.c, self.ws, self.m = case, ws, {}

    def load(self, s, off, size):
        t, b = self.c.cell(s, off, size)
        return GVal(memo(s.m.ctx, self.m, (t.p.key(), b.p.key()), "cell"))

    def store(self, s, off, size, v):
        t, b = self.c.cell(s, off, size)
        old = memo(s.m.ctx, self.m, (t.p.key(), b.p.key()), "cell")
        return Sum(self.c, self.ws + (val(v) - old) * b.p)


class Column:
    """Column i while it is packed: rows below j are done, row 0 holds cur."""
    def __init__(self, case, S, i, j, cur, cleared=False): self.c, self.S, self.i, self.j, self.cur, self.cleared = case, S, i, j, cur, cleared

    def row(self, s, off, size):
        if size != 8: raise Unsupported("a partial access to an element")
        ctx = s.m.ctx
        w = ctx.sub(div8(off, 8), self.i)
        for t in [self.j, wconst(0)]:
            if izero(s, w.p - t.p * self.c.B): return t
        raise Unsupported("a cell of another column or row")

    def old(self, s): return self.S.at(s, s.m.ctx.add(self.j, wconst(1))) - self.S.at(s, self.j)

    def load(self, s, off, size):
        t = self.row(s, off, size)
        if t.is_const() and t.p.const() == 0: return GVal(self.cur)
        return GVal(Poly() if self.cleared else self.old(s))

    def store(self, s, off, size, v):
        t = self.row(s, off, size)
        if t.is_const() and t.p.const() == 0: return Column(self.c, self.S, self.i, self.j, val(v), self.cleared)
        if not gzero(s, val(v)): return Plain()
        return Column(self.c, self.S, self.i, self.j, self.cur, True)

    def done(self, s): return self.cleared or gzero(s, self.old(s))


class Row:
    """Row 0, all other rows zero: cells 1 .. h - 1 weigh lo, cell h holds mid, cells h + 1 .. 2 h - 1 weigh hi and are zero below h + done."""
    def __init__(self, case, h, lo, mid, hi, done, own=None, m=None): self.c, self.h, self.lo, self.mid, self.hi, self.done, self.own, self.m = case, h, lo, mid, hi, done, own, m if m is not None else {}

    def but(self, **k):
        r = Row(self.c, self.h, self.lo, self.mid, self.hi, self.done, self.own)
        r.__dict__.update(self.__dict__)
        r.__dict__.update(k)
        return r

    def cell(self, s, off, size):
        if size != 8: raise Unsupported("a partial access to an element")
        b = div8(off, 8)
        h = wconst(self.h)
        x = s.m.ctx.sub(b, h)
        if izero(s, x.p): kind = "mid"
        elif between(s, wconst(1), b, h): kind = "lo"
        elif between(s, wconst(1), x, h): kind = "hi"
        else: raise Unsupported("a cell outside the part that is reduced")
        if self.own is not None and not izero(s, self.own.p - self.h) and (kind == "mid" or not izero(s, (b if kind == "lo" else x).p - self.own.p)): raise Unsupported("a cell of another iteration")
        return kind, b, x

    def get(self, s, kind, b, x):
        if kind == "mid": return self.mid
        if kind == "hi" and between(s, wconst(1), x, self.done): return Poly()
        return memo(s.m.ctx, self.m, b.p.key(), "cell")

    def load(self, s, off, size): return GVal(self.get(s, *self.cell(s, off, size)))

    def store(self, s, off, size, v):
        kind, b, x = self.cell(s, off, size)
        d = (val(v) - self.get(s, kind, b, x)) * b.p
        m = {k: w for k, w in self.m.items() if k != b.p.key()}
        # a cell that was just read and the one that is written are different cells, or have the same name
        if kind == "mid": return self.but(mid=val(v), m=self.m)
        m = {}
        other = {k: w for k, w in self.m.items() if k in self.named(s, kind, b)}
        if kind == "lo": return self.but(lo=self.lo + d, m=other)
        z = gzero(s, val(v))
        if not z and between(s, wconst(1), x, self.done): return Plain()
        return self.but(hi=self.hi + d, m=other, done=s.m.ctx.add(self.done, wconst(1)) if z and izero(s, x.p - self.done.p) else self.done)

    def named(self, s, kind, b):
        """keys of remembered cells that are certainly not the one being written: those of the other half"""
        out = set()
        for k in self.m:
            p = Poly(dict(k)) if not isinstance(k, Poly) else k
            w = s.m.ctx.sub(b, Word(p, -(1 << 62), 1 << 62))
            if between(s, wconst(1), w, wconst(1 << 61)) or between(s, wconst(-(1 << 61)), w, wconst(0)): out.add(k)
        return out

    def advance(self, s):
        """the last few cells, when a path through straight-line code found them zero"""
        while self.done.is_const() and 0 < self.h - self.done.p.const() <= 4:
            d = self.done.p.const()
            if not gzero(s, self.get(s, "hi", wconst(self.h + d), self.done)): break
            self.done = wconst(d + 1)

    def zero_high(self, s):
        """all high cells zero: they weigh nothing"""
        self.advance(s)
        c = c_ge(self.done, wconst(self.h))
        if c.truth() is True or c.truth() is None and s.m.ctx.implies(s.path, c):
            if not self.hi.is_zero() and not gzero(s, self.hi): geq(s, self.hi)
            return True
        return False


class Totals:
    """One element per thread; their sum."""
    def __init__(self, case, total, m=None): self.c, self.total, self.m = case, total, m if m is not None else {}

    def load(self, s, off, size):
        t = self.c.thread(s, div8(off, 8), size)
        return GVal(memo(s.m.ctx, self.m, t.p.key(), "total"))

    def store(self, s, off, size, v):
        t = self.c.thread(s, div8(off, 8), size)
        return Totals(self.c, self.total + val(v) - memo(s.m.ctx, self.m, t.p.key(), "total"))


class Results:
    """Results of the windows below a bound; at most one written beyond."""
    def __init__(self, case, upto, pend=None): self.c, self.upto, self.pend = case, upto, pend

    def load(self, s, off, size):
        j = div8(off, 8)
        if size != 8 or not between(s, wconst(0), j, self.upto): raise Unsupported("a result that is not there yet")
        return GVal(self.c.window_sum(s, j))

    def store(self, s, off, size, v):
        j = div8(off, 8)
        if size != 8 or not izero(s, j.p - self.upto.p) or self.pend is not None: return Plain()
        return Results(self.c, self.upto, val(v))


# ---------------------------------------------------------------- readings
class Up(Binding):
    """A counter from its first value to hi; subclasses say what holds at i."""
    def __init__(self, case, E, k, hi, bottom=False):
        self.c, self.bottom = case, bottom
        # a loop that is tested at its end never reaches its head with the last value
        self.cnt = Counted(k, 1, position(case.ctx, getc(E, k), k[2]), case.ctx.sub(hi, wconst(1)) if bottom else hi, E)
        self.id = (k, hi.p.key(), bottom)
        self.first(E)

    def first(self, E): pass

    def general(self, g):
        s = g.copy()
        i = self.cnt.fresh_counter(s)
        self.cnt.set_counter(s, i)
        s.aux["ix"] = s.aux.get("ix", ()) + (i,)
        self.setup(s, i)
        if self.bottom: s.aux["ghost:pending"] = (self, i)
        return [s]

    def finish(self, s, i):
        """the loop has ended after index i: what holds now, then the state as the reading says it"""
        i1 = s.m.ctx.add(i, wconst(1))
        hi = s.m.ctx.add(self.cnt.hi, wconst(1))
        out = [("the last index is reached", izero(s, i1.p - hi.p))] + self.holds(s, i1, i)
        if all(ok for _, ok in out): self.setup(s, hi)
        return out

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None: return out
        ig = self.cnt.val(g) if g is not None else None
        if g is not None: out.append(("one index after the other", izero(s, i.p - ig.p - 1), ""))
        return out + [(n, ok, "") for n, ok in self.holds(s, i, ig)]


class Clear(Up):
    name = "buckets set to zero"

    def setup(self, s, i): s.aux["arr:accs"] = Unset(self.c, i)

    def holds(self, s, i, ig):
        a = s.aux["arr:accs"]
        if ig is None: return [("starts at the first cell", i.is_const() and i.p.const() == 0)]
        return [("one more cell is zero", isinstance(a, Unset) and izero(s, a.upto.p - i.p))]


class Points(Up):
    name = "buckets weigh the partial sum"

    def setup(self, s, i): s.aux["arr:accs"] = Sum(self.c, self.c.PS.at(s, i))

    def holds(self, s, i, ig):
        a = s.aux["arr:accs"]
        ws = Poly() if isinstance(a, Zero) else a.ws if isinstance(a, Sum) else None
        if ws is None: return [("buckets hold elements", False)]
        if ig is None: return [("starts at the first point", i.is_const() and i.p.const() == 0 and gzero(s, ws))]
        return [("buckets weigh the partial sum", gzero(s, ws - self.c.PS.at(s, ig) - self.c.term(s, ig)))]


class Columns(Up):
    name = "each column packed"

    def setup(self, s, i):
        s.aux["ghost:row"] = i
        s.aux["arr:accs"] = Column(self.c, self.c.S, i, wconst(1), self.c.S.at(s, wconst(1)))

    def holds(self, s, i, ig):
        a = s.aux["arr:accs"]
        if ig is None: return [("starts at the first column", i.is_const() and i.p.const() in (0, 1))]
        self.c.S.settle(s)
        return [("the column is packed", isinstance(a, Column) and izero(s, a.i.p - ig.p) and not a.cleared and izero(s, a.j.p - self.c.T.p) and gzero(s, a.cur - self.c.S.at(s, self.c.T)))]


class Rows(Up):
    name = "rows of a column packed"

    def setup(self, s, j):
        a = s.aux["arr:accs"]
        s.aux["arr:accs"] = Column(self.c, a.S, a.i, j, a.S.at(s, j))

    def holds(self, s, j, jg):
        a = s.aux["arr:accs"]
        if not isinstance(a, Column): return [("the column holds elements", False)]
        if jg is None: return [("row 0 holds the first rows", not a.cleared and izero(s, a.j.p - j.p) and gzero(s, a.cur - a.S.at(s, j)))]
        ok = izero(s, a.j.p - jg.p) and a.done(s)
        ok = ok and gzero(s, a.cur - a.S.at(s, j))
        if ok and not self.c.rewound(s): s.aux["arr:accs"] = Column(self.c, a.S, a.i, j, a.cur)
        return [("one more row is packed and cleared", ok)]


class Fold(Up):
    """Upper half added to the lower half and to the threads' totals; what the cells and the totals weigh stays."""
    name = "upper half folded"

    def first(self, E):
        a = E.aux["arr:accs"]
        self.mid, self.ws = a.mid, a.lo + a.mid * a.h + a.hi

    def setup(self, s, i):
        a, ctx = s.aux["arr:accs"], s.m.ctx
        lo, tot = gatom(ctx, "lo"), gatom(ctx, "total")
        s.aux["arr:accs"] = a.but(lo=lo, hi=self.ws - lo - (self.mid + tot) * a.h, done=i, own=i, m={})
        s.aux["arr:sall"] = Totals(self.c, tot)

    def holds(self, s, i, ig):
        a, t = s.aux["arr:accs"], s.aux.get("arr:sall")
        if not isinstance(a, Row) or not isinstance(t, Totals): return [("cells hold elements", False)]
        out = [("cells and totals weigh the same as before", gzero(s, a.lo + (a.mid + t.total) * a.h + a.hi - self.ws)), ("middle cell unchanged", gzero(s, a.mid - self.mid)), ("one more cell is zero", izero(s, a.done.p - i.p) or ig is not None and izero(s, a.done.p - ig.p) and gzero(s, a.get(s, "hi", s.m.ctx.add(ig, wconst(a.h)), ig)))]
        return out

class Gather(Up):
    name = "totals of the threads added"

    def first(self, E):
        a, t = E.aux["arr:accs"].but(), E.aux["arr:sall"]
        a.advance(E)
        E.aux["arr:accs"] = a
        self.mid = a.mid
        self.G = GGhost(self.c.ctx, "G", (wconst(0), Poly()), (self.c.T, t.total))
        self.c.ghosts.append(self.G)

    def setup(self, s, i):
        s.aux["arr:accs"] = s.aux["arr:accs"].but(mid=self.mid + self.G.at(s, i), m={}, own=None)
        s.aux["arr:sall"] = Table(self.one, 8)

    def one(self, s, off):
        t = div8(off, 8)
        if not between(s, wconst(0), t, self.c.T): raise Fault("the total of a thread that does not exist")
        return GVal(self.G.at(s, s.m.ctx.add(t, wconst(1))) - self.G.at(s, t))

    def holds(self, s, i, ig):
        a = s.aux["arr:accs"]
        if not isinstance(a, Row): return [("cells hold elements", False)]
        if ig is None: return [("starts at the first thread", i.is_const() and i.p.const() == 0)]
        self.G.settle(s)
        return [("middle cell holds the totals so far", gzero(s, a.mid - self.mid - self.G.at(s, i)))]


class Doublings(Binding):
    """The middle cell doubled a fixed number of times."""
    name = "repeated doubling of the middle cell"

    def __init__(self, case, E, k, hi):
        self.c, self.mid = case, E.aux["arr:accs"].mid
        self.cnt = Counted(k, 1, position(case.ctx, getc(E, k), k[2]), hi, E)
        self.id = (k, hi.p.key())

    def general(self, g):
        out = []
        for n in range(self.cnt.span() + 1):
            s = g.copy()
            self.cnt.set_counter(s, wconst(self.cnt.lo.p.const() + n))
            s.aux["arr:accs"] = s.aux["arr:accs"].but(mid=self.mid * (1 << n))
            out.append(s)
        return out

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None or not i.is_const(): return out + [("a known number of doublings", False, "")]
        n, a = i.p.const() - self.cnt.lo.p.const(), s.aux["arr:accs"]
        out.append(("middle cell = 2^n * its first value", 0 <= n <= 64 and isinstance(a, Row) and gzero(s, a.mid - self.mid * (1 << n)), ""))
        return out


class Windows(Up):
    name = "results of the windows so far"

    def setup(self, s, i):
        s.aux["arr:chunks"] = Results(self.c, i)
        s.aux["arr:accs"] = Zero(self.c)

    def holds(self, s, i, ig):
        a, r = s.aux.get("arr:accs"), s.aux.get("arr:chunks")
        out = [("all buckets are zero", isinstance(a, Zero))]
        if ig is None: return out + [("starts at the first window", i.is_const() and i.p.const() == 0)]
        return out + [("one more result, the window's sum", isinstance(r, Results) and r.pend is not None and izero(s, r.upto.p - ig.p) and gzero(s, r.pend - self.c.window_sum(s, ig)))]


# ---------------------------------------------------------------- cases
class Bucket(LoopCase):
    """Common part: the object, the operands, the group, the threads."""
    def __init__(self, im, name, k, omp):
        super().__init__(im, name)
        ctx, m = self.ctx, self.m
        self.k, self.B, self.omp = k, 1 << k, omp
        self.size = ctx.input("size", 8, SIZEMAX)
        self.N = ctx.input("n", 2, NMAX)
        self.T = ctx.input("threads", 1, 1 << 16) if omp or not isinstance(self, Multiexp) else wconst(1)
        self.nC = ctx.add(floordiv(ctx, ctx.sub(ctx.scale(self.size, 8), wconst(1)), k), wconst(1))
        self.ops = install_group(m, im.dem, "AG", {"Point": 8, "PointAffine": 8})
        m.add_region("obj", constant(im, "o_total"), init=lambda s, o, k: None)
        m.add_region("r", 8)
        m.add_region("bases", None, arr=Arr("bases"))
        m.add_region("scal", None, arr=Arr("scal"))
        m.add_region("lens", None, arr=Arr("lens"))
        m.add_region("heap_accs", ctx.scale(self.T, 8 * self.B), arr=Arr("accs"))
        self.bases, self.digits, self.lens = {}, {}, {}
        self.extra, self.ghosts = [], []
        m.lenient = self.lenient
        m.heap_all = True
        for nm, f in (("GOMP_parallel", self.team), ("omp_get_thread_num", self.thread_num), ("omp_get_num_threads", self.num_threads), ("memset", self.memset)):
            if nm in im.sym: m.contracts[im.sym[nm]] = f
        self.fs = [a for d, a in im.dem.items() if re.match(r"^(?:void )?ParallelMultiexp<AG>::\w+\(", d)]

    def method(self, name):
        a = [a for d, a in self.im.dem.items() if d.startswith("ParallelMultiexp<AG>::%s(" % name) and "_omp_fn" not in d]
        if len(a) != 1: raise Unsupported("no method %s" % name)
        return a[0]

    def fill(self, st):
        for nm, v in (("o_scalars", Ptr("scal", 0)), ("o_size", self.size), ("o_bits", wconst(self.k)), ("o_bases", Ptr("bases", 0)), ("o_n", self.N), ("o_threads", self.T), ("o_cells", wconst(self.B)), ("o_chunks", self.nC), ("o_accs", Ptr("heap_accs", 0)), ("o_g", Ptr("obj", 0))):
            field(st, self.im, nm, v)
        for nm, c in (("bases", Table(self.load_base, 8)), ("scal", Plain()), ("lens", Table(self.load_len, 8))): st.aux["arr:" + nm] = c

    # ---- a first look at a nested loop
    def looking(self, s): return "team" in s.aux and "ghost:row" not in s.aux and self.nested

    nested = False

    def lenient(self, s):
        if not self.looking(s): return False
        s.aux["ghost:look"] = True
        return True

    def rewound(self, s): return False

    # ---- threads
    def team(self, s):
        """A team executes fn: the range computation is run for a team of one (OpenMP: the ranges of a team partition the iterations); inside the loop the thread is any of the team's."""
        m, ctx = self.m, self.ctx
        fn, data, num, flags = _args(m, s, 4)
        if not isinstance(fn, Word) or not fn.is_const() or fn.p.const() not in m.ins: raise Unsupported("code of a parallel loop is not known")
        if "team" in s.aux: raise Unsupported("nested parallel loops")
        top = s.regs["rsp"].o
        nxt = s._cells("stack")[top][1]
        q = s.copy()
        q._cells("stack")[top] = (8, wconst(RET))
        q.regs["rdi"] = data
        q.aux["team"] = len(q.aux.get("loops", ()))
        q.written = {}
        keep = dict(q.regs)
        states, done = [], []
        fin = m.run(q, fn.p.const())
        if fn.p.const() not in self.seen_fns: self.seen_fns.append(fn.p.const())
        for f, fault in fin:
            if fault:
                if not ctx.unsat(f.path): done.append((f, fault))
                continue
            if f.aux.get("ghost:look"): raise Unsupported("work outside the loop over the indices")
            w = ["shared variables" for o, n in f.written.get("stack", ()) if o > top] + [r for r in f.written if r not in ("stack", "heap_accs", "heap_sall")]
            self.extra.append(("a worker writes only its own data", not w, "writes %s" % sorted(set(w))[:4], f.copy()))
            bad = [r for r in CALLEE_SAVED if f.regs[r] != keep[r] and not same(f.regs[r], keep[r])]
            self.extra.append(("calling convention", not bad, "", f.copy()))
            f.aux.pop("team")
            pend = f.aux.pop("ghost:pending", None)
            if pend:
                for n, ok in pend[0].finish(f, pend[1]): self.extra.append((pend[0].name + ": at its end: " + n, ok, "", f.copy()))
            f.aux.pop("ghost:row", None)
            f.aux["loops"] = list(s.aux.get("loops", []))
            f.aux["at"] = s.aux.get("at")
            wr = dict(s.written)
            for r, l in f.written.items(): wr[r] = (wr.get(r) or type(l)()) + l if not isinstance(l, set) else set(wr.get(r) or ()) | l
            f.written = wr
            f.regs["rsp"] = Ptr("stack", top + 8)
            f.pc = nxt.p.const()
            states.append(f)
        raise Replace(states, done)

    seen_fns = []

    def thread_num(self, s):
        ctx = self.ctx
        if "team" not in s.aux: raise Unsupported("thread number outside a parallel loop")
        if len(s.aux.get("loops", ())) <= s.aux["team"]: return ret(self.m, s, wconst(0))
        t = ctx.aword(ctx.atom("thread", 0, self.T.hi - 1, "fresh"))
        s.assume(c_ge(ctx.sub(self.T, wconst(1)), t))
        s.aux["threads"] = s.aux.get("threads", ()) + (t,)
        ret(self.m, s, t)

    def num_threads(self, s):
        if "team" not in s.aux or len(s.aux.get("loops", ())) > s.aux["team"]: raise Unsupported("size of the team used by the code")
        ret(self.m, s, wconst(1))

    # ---- arrays
    def cell(self, s, off, size):
        """(thread, column) of an access to the buckets"""
        if size != 8: raise Unsupported("a partial access to an element")
        ctx, w = self.ctx, div8(off, 8)
        for t in list(reversed(s.aux.get("threads", ()))) if self.omp else [wconst(0)]:
            b = ctx.sub(w, ctx.scale(t, self.B))
            if b.p.is_const(): b = wconst(b.p.const())
            if between(s, wconst(0), b, wconst(self.B)): return t, b
        raise Unsupported("a bucket that is not understood")

    def thread(self, s, w, size):
        if size != 8: raise Unsupported("a partial access to an element")
        if "team" not in s.aux: return w
        for t in reversed(s.aux.get("threads", ())):
            if izero(s, t.p - w.p): return t
        raise Unsupported("an element that is not the thread's own")

    def load_base(self, s, off):
        i = div8(off, 8)
        if not between(s, wconst(0), i, self.N): raise Fault("a point that does not exist")
        return GVal(self.base(i))

    def base(self, i): return memo(self.ctx, self.bases, i.p.key(), "P")

    def load_len(self, s, off):
        i = div8(off, 8)
        if not between(s, wconst(0), i, self.nx): raise Fault("a length that does not exist")
        return self.length(i)

    def length(self, i):
        k = i.p.key()
        if k not in self.lens: self.lens[k] = self.ctx.aword(self.ctx.atom("len(%d)" % len(self.lens), 0, MASK[64], "fresh"))
        return self.lens[k]

    def digit(self, i):
        k = i.p.key()
        if k not in self.digits: self.digits[k] = self.ctx.aword(self.ctx.atom("d(%d)" % len(self.digits), 0, self.B - 1, "fresh"))
        return self.digits[k]

    def memset(self, s):
        p, v, n = _args(self.m, s, 3)
        if not (isinstance(p, Ptr) and p.r == "heap_sall" and p.o == 0 and v.is_const() and v.p.const() == 0 and izero(s, self.ctx.uview(n, 64).p - self.T.p * 8)): raise Unsupported("memset")
        s.aux["arr:sall"] = Totals(self, Poly())
        s.written.setdefault("heap_sall", set())
        ret(self.m, s, p)

    def heap_array(self, s, size):
        if izero(s, size.p - self.T.p * 8):
            R = "heap_sall"
            if R not in self.m.regions: self.m.add_region(R, self.ctx.scale(self.T, 8), arr=Arr("sall"))
            if "arr:sall" in s.aux: raise Unsupported("two arrays of one element per thread")
            s.aux["arr:sall"] = Plain()
            return Ptr(R, 0)
        raise Unsupported("an array of another size")

    def both(self, B, E, k, hi):
        for b in ([False, True] if "team" not in E.aux else [True, False]): yield B(self, E, k, hi, b)

    within = False

    def inside(self, E):
        """a loop inside another: these readings are for single loops, what they say then means nothing"""
        if len(E.aux.get("loops", ())) > E.aux.get("team", 0): self.within = True

    def go(self, st, entry):
        self.seen_fns = [a for d, a in self.im.dem.items() if "_omp_fn" in d]
        try: return self.run(st, entry, [self.spec], [entry] + self.fs + self.seen_fns) + self.extra
        finally:
            if self.within: raise Unsupported("a loop inside the loop over the indices")


class InitAccs(Bucket):
    def __init__(self, im, k, omp): super().__init__(im, "initAccs, width %d" % k, k, omp)

    def prove(self):
        st = self.boot([Ptr("obj", 0)])
        self.fill(st)
        st.aux["arr:accs"] = Plain()
        self.allowed |= {"heap_accs"}
        return self.go(st, self.method("initAccs"))

    def spec(self, L, pr):
        self.inside(pr.E)
        for k in counters(pr, 1): yield from self.both(Clear, pr.E, k, self.ctx.scale(self.T, self.B))

    def post(self, s):
        a = s.aux["arr:accs"]
        return [("all buckets are zero", isinstance(a, Unset) and izero(s, a.upto.p - self.T.p * self.B), "")]


class ProcessChunk(Bucket):
    def __init__(self, im, k, omp, sized):
        super().__init__(im, "processChunk%s, width %d" % (" with lengths" if sized else "", k), k, omp)
        self.sized = sized
        self.nx = self.ctx.input("nx", 1, 1 << 31) if sized else None
        self.PS = GGhost(self.ctx, "PS", (wconst(0), Poly()), (self.N, gatom(self.ctx, "C")))

    def term(self, s, i):
        """digit * base of point i, when it counts"""
        if self.sized:
            q, r = quotient(self.ctx, i, self.nx)
            c = c_ge(self.ctx.sub(self.length(r), wconst(1)), q)
            if self.ctx.implies(s.path, c.negate()): return Poly()
            if not self.ctx.implies(s.path, c): raise Unsupported("whether the term counts is not decided")
        return self.base(i) * self.digit(i).p

    def chunk(self, s):
        o, i, j = _args(self.m, s, 3)
        i = self.ctx.uview(i, 64)
        if o != Ptr("obj", 0) or not between(s, wconst(0), i, self.N) or not izero(s, self.ctx.uview(j, 64).p - self.j.p): raise Fault("a digit of a scalar or window that does not exist")
        ret(self.m, s, self.digit(i))

    def prove(self):
        self.m.contracts[self.method("getChunk")] = self.chunk
        self.j = self.ctx.input("j", 0, SIZEMAX * 8)
        st = self.boot([Ptr("obj", 0), self.j] + ([self.nx, Ptr("lens", 0)] if self.sized else []))
        self.fill(st)
        st.assume(c_ge(self.ctx.sub(self.nC, wconst(1)), self.j))
        st.aux["arr:accs"] = Zero(self)
        self.allowed |= {"heap_accs"}
        a = [x for d, x in self.im.dem.items() if d == "ParallelMultiexp<AG>::processChunk(unsigned long%s)" % (", unsigned long, unsigned long*" if self.sized else "")]
        if len(a) != 1: raise Unsupported("no processChunk")
        return self.go(st, a[0])

    def spec(self, L, pr):
        self.inside(pr.E)
        for k in counters(pr, 1): yield from self.both(Points, pr.E, k, self.N)

    def post(self, s):
        a = s.aux["arr:accs"]
        self.PS.settle(s)
        return [("buckets weigh the sum over all points of digit * point", isinstance(a, Sum) and gzero(s, a.ws - self.PS.hi[1]), "")]


class PackThreads(Bucket):
    nested = True

    def __init__(self, im, k, omp):
        super().__init__(im, "packThreads, width %d" % k, k, omp)
        self.S = GGhost(self.ctx, "S", None, (self.T, gatom(self.ctx, "ST")))

    def prove(self):
        st = self.boot([Ptr("obj", 0)])
        self.fill(st)
        st.aux["arr:accs"] = Look(self)
        self.allowed |= {"heap_accs"}
        return self.go(st, self.method("packThreads"))

    def spec(self, L, pr):
        E = pr.E
        up = counters(pr, 1)
        if "team" in E.aux and "ghost:row" not in E.aux or not self.omp and "ghost:row" not in E.aux:
            inner = len(E.aux.get("loops", ())) > E.aux.get("team", 0)
            for k in up:
                if inner: yield Any(k)
                else: yield from self.both(Columns, E, k, wconst(self.B))
        elif "ghost:row" in E.aux:
            for k in up: yield Rows(self, E, k, self.T)

    def looking(self, s): return "ghost:row" not in s.aux

    def post(self, s):
        a = s.aux["arr:accs"]
        return [("all columns are packed", isinstance(a, Column) and not a.cleared and izero(s, a.i.p - self.B), "")]


class Look:
    """Buckets at the first look at a nested loop."""
    def __init__(self, case): self.c, self.m = case, {}

    def load(self, s, off, size):
        s.aux["ghost:look"] = True
        return GVal(memo(s.m.ctx, self.m, off.p.key(), "any"))      # an instruction that forks is executed again

    def store(self, s, off, size, v):
        s.aux["ghost:look"] = True
        return self


class Reduce(Bucket):
    def __init__(self, im, k, omp, bits):
        super().__init__(im, "reduce, %d bits" % bits, k, omp)
        self.bits, self.h = bits, 1 << (bits - 1)
        ctx = self.ctx
        self.lo, self.mid, self.hi = (gatom(ctx, n) if bits > 1 or n == "mid" else Poly() for n in ("lo", "mid", "hi"))

    def prove(self):
        m = self.m
        f = self.method("reduce")
        m.contracts[f] = self.rec
        st = self.boot([Ptr("obj", 0), Ptr("r", 0), wconst(self.bits)])
        self.fill(st)
        st.aux["arr:accs"] = Row(self, self.h, self.lo, self.mid, self.hi, wconst(1))
        self.allowed |= {"heap_accs", "heap_sall", "r"}
        return self.go(st, f)

    def rec(self, s):
        o, r, b = _args(self.m, s, 3)
        a = s.aux["arr:accs"]
        if o != Ptr("obj", 0) or self.bits < 2 or not b.is_const() or b.p.const() != self.bits - 1 or not isinstance(a, Row) or a.own is not None: raise Unsupported("a recursive call that is not understood")
        gstore(s, ptrof(s, r), 8, a.lo)
        s.aux["arr:accs"] = a.but(lo=Poly(), lozero=True, m={})
        self.extra.append(("the low half is reduced once", not getattr(a, "lozero", False), "", s.copy()))
        ret(self.m, s, None)

    def spec(self, L, pr):
        E = pr.E
        a = E.aux.get("arr:accs")
        for k in counters(pr, 1):
            if "team" in E.aux or not self.omp and isinstance(a, Row): yield from self.both(Fold, E, k, wconst(self.h))
            if isinstance(a, Row) and isinstance(E.aux.get("arr:sall"), Totals): yield Gather(self, E, k, self.T)
            p = position(self.ctx, getc(E, k), k[2])
            if isinstance(a, Row) and p is not None and p.is_const(): yield Doublings(self, E, k, wconst(p.p.const() + self.bits - 1))

    def post(self, s):
        a = s.aux["arr:accs"]
        if not isinstance(a, Row): return [("cells hold elements", False, "")]
        ws = self.lo + self.mid * self.h + self.hi
        for G in self.ghosts: G.settle(s)
        high = self.bits == 1 or a.zero_high(s)
        v = gload(s, Ptr("r", 0), 8)
        return [("upper half is cleared", high, ""), ("middle cell is cleared", gzero(s, a.mid), ""), ("low half is reduced and cleared", self.bits == 1 or getattr(a, "lozero", False) and gzero(s, a.lo), ""),
                ("result = what the cells weigh", gzero(s, v - ws), "")]


class Multiexp(Bucket):
    """The whole: log2 returns v; the other methods by contract. zero: thread count 0 is asked for."""
    def __init__(self, im, v, omp, sized, points, zero=False):
        k = min(16, max(2, v))
        super().__init__(im, "multiexp%s, log2 = %d, %s%s" % (" with lengths" if sized else "", v, "n >= 2" if points is None else "n = %d" % points, ", default threads" if zero else ""), k, omp)
        ctx, m = self.ctx, self.m
        if points is not None: self.N = wconst(points)
        self.v, self.sized, self.zero, self.points = v, sized, zero, points
        self.nx = ctx.input("nx", 1, 1 << 31) if sized else None
        self.goal = gatom(ctx, "sum")
        self.Tg = GGhost(ctx, "T", (wconst(0), self.goal), (self.nC, Poly()))
        self.C = self
        n = 0
        for d, a in im.dem.items():
            g = re.match(r"^ParallelMultiexp<AG>::(\w+)\(", d)
            if d.startswith("log2(unsigned int)"): m.contracts[a] = lambda s: ret(m, s, wconst(self.v)); n += 1
            if not g: continue
            h = dict(initAccs=self.k_init, processChunk=self.k_process, packThreads=self.k_pack, reduce=self.k_reduce).get(g.group(1))
            if h and "_omp_fn" not in d:
                n += 1
                m.contracts[a] = lambda s, h=h, z="long*" in d: h(s, z)
            if d.startswith("AG::mulByScalar(AG::Point&, AG::PointAffine const&"): pass
        if n != 6: raise Unsupported("the methods are not the ones under contract")
        for d, a in im.dem.items():
            if d.startswith("AG::mulByScalar(AG::Point&, AG::PointAffine const&"): m.contracts[a] = self.single
        for nm, f in (("omp_get_max_threads", self.max_threads), ("omp_set_num_threads", self.set_threads)):
            if nm in im.sym: m.contracts[im.sym[nm]] = f

    T_ = property(lambda self: self.T)

    def window_sum(self, s, j): return self.Tg.at(s, j) - self.Tg.at(s, self.ctx.add(j, wconst(1))) * self.B

    def single(self, s):
        g, r, b, sc, n = _args(self.m, s, 5)
        ok = b == Ptr("bases", 0) and sc == Ptr("scal", 0) and self.points == 1 and izero(s, self.ctx.uview(n, 32).p - self.size.p)
        self.extra.append(("the only product is scalar 0 times point 0", ok, "", s.copy()))
        gstore(s, ptrof(s, r), 8, self.goal)
        ret(self.m, s, None)

    def max_threads(self, s):
        ctx = self.ctx
        if self.zero and "maxt" not in s.aux: s.aux["maxt"] = True; return ret(self.m, s, self.T)
        ret(self.m, s, ctx.aword(ctx.atom("max", 1, 1 << 16, "fresh")))

    def set_threads(self, s):
        s.aux["ghost:team"] = _args(self.m, s, 1)[0]
        ret(self.m, s, None)

    def heap_array(self, s, size):
        for R, nm, n in (("heap_accs", "accs", self.T.p * (8 * self.B)), ("heap_chunks", "chunks", self.nC.p * 8)):
            if izero(s, size.p - n):
                if "arr:" + nm in s.aux: raise Unsupported("two arrays of the same size")
                if R not in self.m.regions: self.m.add_region(R, self.ctx.scale(self.nC, 8), arr=Arr(nm))
                s.aux["arr:" + nm] = Unset(self, wconst(0)) if nm == "accs" else Results(self, wconst(0))
                return Ptr(R, 0)
        for nm, v in (("o_n", self.N), ("o_bits", wconst(self.k)), ("o_chunks", self.nC), ("o_cells", wconst(self.B))):
            o = constant(self.im, nm)
            if o in s._cells("obj"):
                x = s.load(Ptr("obj", o), 8)
                if isinstance(x, Word) and not izero(s, x.p - v.p): raise Fault("%s is not set" % nm)
        raise Unsupported("an array of another size")

    def ready(self, s, o):
        """the object is in the state the contracts of the methods ask for"""
        if o != Ptr("obj", 0): raise Unsupported("a method of another object")
        at = lambda nm: s.load(Ptr("obj", constant(self.im, nm)), 8)
        for nm, v in (("o_scalars", Ptr("scal", 0)), ("o_bases", Ptr("bases", 0)), ("o_accs", Ptr("heap_accs", 0))):
            if at(nm) != v: raise Fault("%s is not set" % nm)
        for nm, v in (("o_size", self.size), ("o_bits", wconst(self.k)), ("o_n", self.N), ("o_threads", self.T), ("o_cells", wconst(self.B)), ("o_chunks", self.nC)):
            x = at(nm)
            if not isinstance(x, Word) or not izero(s, x.p - v.p): raise Fault("%s is not set" % nm)
        if self.omp:
            t = s.aux.get("ghost:team")
            if t is None or not izero(s, self.ctx.uview(t, 32).p - self.T.p): raise Fault("the team is not limited to the number of threads")
        if "heap_accs" in s.freed: raise Fault("use of freed memory")

    def k_init(self, s, z):
        self.ready(s, _args(self.m, s, 1)[0])
        s.aux["arr:accs"] = Zero(self)
        ret(self.m, s, None)

    def k_process(self, s, z):
        o, j, nx, x = _args(self.m, s, 4)
        self.ready(s, o)
        j = self.ctx.uview(j, 64)
        if z != self.sized or z and (x != Ptr("lens", 0) or not izero(s, self.ctx.uview(nx, 64).p - self.nx.p)): raise Fault("the lengths are not passed on")
        if not between(s, wconst(0), j, self.nC): raise Fault("a window that does not exist")
        if not isinstance(s.aux.get("arr:accs"), Zero): raise Fault("buckets are not zero at the start of a window")
        s.aux["arr:accs"] = Sum(self, self.window_sum(s, j))
        ret(self.m, s, None)

    def k_pack(self, s, z):
        self.ready(s, _args(self.m, s, 1)[0])
        a = s.aux.get("arr:accs")
        if isinstance(a, Sum): s.aux["arr:accs"] = Packed(self, a.ws)
        elif not isinstance(a, (Zero, Packed)): raise Fault("buckets are not set")
        ret(self.m, s, None)

    def k_reduce(self, s, z):
        o, r, b = _args(self.m, s, 3)
        self.ready(s, o)
        a = s.aux.get("arr:accs")
        if not izero(s, self.ctx.uview(b, 64).p - self.k): raise Fault("reduces another number of bits")
        if not isinstance(a, (Zero, Packed)): raise Fault("buckets are reduced before they are packed")
        gstore(s, ptrof(s, r), 8, a.ws if isinstance(a, Packed) else Poly())
        s.aux["arr:accs"] = Zero(self)
        ret(self.m, s, None)

    def prove(self):
        st = self.boot([Ptr("obj", 0), Ptr("r", 0), Ptr("bases", 0), Ptr("scal", 0), self.size, self.N])
        self.fill(st)
        for nm in ("o_scalars", "o_size", "o_bits", "o_bases", "o_n", "o_threads", "o_cells", "o_chunks", "o_accs"): st._cells("obj").pop(constant(self.im, nm))
        rest = ([self.nx, Ptr("lens", 0)] if self.sized else []) + [wconst(0) if self.zero else self.T]
        top = st.regs["rsp"].o
        for n, v in enumerate(rest): st._cells("stack")[top + 8 + 8 * n] = (8, v)
        self.allowed |= {"obj", "r"}
        a = [x for d, x in self.im.dem.items() if re.match(r"^ParallelMultiexp<AG>::multiexp\(.*long%s, unsigned long\)$" % r", unsigned long, unsigned long\*" if self.sized else r"^ParallelMultiexp<AG>::multiexp\(AG::Point&, AG::PointAffine\*, unsigned char\*, unsigned long, unsigned long, unsigned long\)$", d)]
        if len(a) != 1: raise Unsupported("no multiexp")
        return self.go(st, a[0])

    def spec(self, L, pr):
        ctx, E = self.ctx, pr.E
        up, down = counters(pr, 1), counters(pr, -1)
        for k in up: yield Windows(self, E, k, self.nC)
        for a in pr.groups():
            v = getc(E, a)
            for k in down:
                for off in (1, 0): yield Horner(Shim(self), E, k, a, off)
            for k in up + down:
                p = position(ctx, getc(E, k), k[2])
                if isinstance(v, GVal) and p is not None and p.is_const():
                    st = 1 if k in up else -1
                    yield Doubled(self, E, k, st, p if st > 0 else wconst(p.p.const() - self.k), wconst(p.p.const() + self.k) if st > 0 else p, a)

    def post(self, s):
        v = gload(s, Ptr("r", 0), 8)
        goal = self.goal if self.points is None else Poly() if self.points == 0 else self.goal
        if self.sized and self.points == 1:
            z = c_eq(self.length(wconst(0)), wconst(0))
            if self.ctx.implies(s.path, z): goal = Poly()
            elif not self.ctx.implies(s.path, z.negate()): return [("whether the term counts is decided", False, "")]
        self.Tg.settle(s)
        return [("result = sum of scalar * point", gzero(s, v - goal), "")]


class Packed:
    """All weight in row 0."""
    def __init__(self, case, ws): self.c, self.ws = case, ws

    def load(self, s, off, size): raise Unsupported("packed buckets used outside reduce")

    def store(self, s, off, size, v): return Plain()


class Shim:
    """What Horner needs of its case."""
    def __init__(self, case): self.ctx, self.T = case.ctx, case.Tg
