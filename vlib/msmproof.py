"""C05, C06: the multi-exponentiations, for every number of points, every scalar length and any number of threads.

The functions are verified one by one against contracts; sums over the points and over the buckets are ghosts."""
from .groups import *
from .mpn import _args, ret
from .sumproof import *

SIZEMAX = 1 << 20
WMIN, WMAX = 2, 16


def constant(im, name):
    a = im.sym[name]
    s = im.elf.section_at(a)
    return int.from_bytes(s["data"][a - s["addr"]:a - s["addr"] + 8], "little")


def field(st, im, name, v):
    st._cells("obj")[constant(im, name)] = (8, v)


class ScalarBytes(Bytes):
    """Scalar i occupies bytes [i size, (i + 1) size): accesses are shown to be inside it."""
    def __init__(self, ctx, name, i, size):
        super().__init__(ctx, name)
        self.i, self.size = i, size

    def load(self, s, off, size):
        c = self.ctx
        loc = c.sub(off, c.mul(self.i, self.size))
        if not c.unsat(s.path, c_ge(wconst(-1), loc)) or not c.unsat(s.path, c_ge(c.add(loc, wconst(size - 1)), self.size)): raise Fault("a read outside the scalar")
        if loc.p.is_const(): loc = wconst(loc.p.const())
        r = self.byte(loc)
        for k in range(1, size): r = c.add(r, c.scale(self.byte(c.add(loc, wconst(k))), 1 << (8 * k)))
        return r


class Window(LoopCase):
    """The digit function of window width k: the k bits of scalar i from bit k j on (fewer at its end), for every i, j, scalar length.

    Cases: j mod 8 (so the position inside a byte is known), and how far the window starts from the end of the scalar."""
    def __init__(self, im, name, k, extra, imax=(1 << 31) - 2):
        super().__init__(im, "%s, width %d" % (name, k))
        self.k, self.extra, self.imax = k, extra, imax
        self.obls, self.fins = [], 0

    def setup(self, c, at):
        """j = 8 e + c;  at = None: 8 bytes or more follow; 0: the window starts at the end; m = 1..7: in byte size - 8 + m"""
        ctx, m, k = self.ctx, self.m, self.k
        e = ctx.input("e", 0, SIZEMAX)
        j = ctx.add(ctx.scale(e, 8), wconst(c))
        p = ctx.add(ctx.scale(e, k), wconst(k * c >> 3))
        r = k * c & 7
        path = []
        if at is None:
            size = ctx.input("size", 8, SIZEMAX)
            path.append(c_ge(ctx.sub(size, wconst(8)), p))
        else:
            size = ctx.add(p, wconst(8 - at))
            path += [c_ge(size, wconst(8)), c_ge(wconst(SIZEMAX), size)]
            size = Word(size.p, max(size.lo, 8), min(size.hi, SIZEMAX))
        # j < number of windows = (8 size - 1) / k + 1, or 8 size / k + 1
        path.append(c_ge(ctx.sub(ctx.scale(size, 8), wconst(0 if self.extra else 1)), ctx.scale(j, k)))
        i = ctx.input("i", 0, self.imax)
        self.allowed = {"stack"}
        return i, j, p, r, size, path

    def one(self, c, at):
        im, m, k = self.im, self.m, self.k
        ctx = self.ctx = m.ctx = Ctx(None, 0)
        m.undefs, m.inside = {}, {}
        i, j, p, r, size, path = self.setup(c, at)
        if ctx.unsat(path): return
        m.add_region("obj", constant(im, "o_total"))
        m.add_region("scal", None, arr=Arr("scal"))
        st = self.boot([Ptr("obj", 0), i, j])
        B = ScalarBytes(ctx, "scalar", i, size)
        st.aux["arr:scal"] = B
        field(st, im, "o_scalars", Ptr("scal", 0)); field(st, im, "o_size", size); field(st, im, "o_bits", wconst(k))
        for q in path: st.assume(q)
        fin = m.explore(st, im.sym["v_chunk"])
        if not fin: raise Unsupported("no path reaches the end")
        self.fins += len(fin)
        tag = "j = %d mod 8, %s" % (c, "inside" if at is None else "%d bytes left" % (8 - at))
        # the digit: the bits of bytes p .. p + 2 of the scalar
        left = None if at is None else 8 * (8 - at) - r      # bits left
        n = k if left is None else max(0, min(k, left))
        want, pos, q = Poly(), 0, 0
        while pos < n:
            b = B.byte(ctx.add(p, wconst(q)))
            lo = r if q == 0 else 0
            take = min(8 - lo, n - pos)
            w = ctx.split(ctx.split(b, lo)[0], take)[1] if take < 8 - lo else ctx.split(b, lo)[0]
            want = want + w.p * (1 << pos)
            pos += take; q += 1
        for s, fault in fin:
            if fault:
                self.obls.append(("safe: " + tag, ctx.unsat(s.path), fault, s)); continue
            bad = m.abi_ok(s)
            self.obls.append(("calling convention", bad is None, bad or "", s))
            w = [x for x in s.written if x not in self.allowed]
            self.obls.append(("frame", not w, "writes %s" % w, s))
            self.obls.append(("the window's bits: " + tag, izero(s, ctx.uview(s.regs["rax"], 64).p - want) if isinstance(s.regs["rax"], Word) else False, "", s))

    def prove(self):
        self.loops = Loops(self.m, [self.im.sym["v_chunk"]], [])
        for c in range(8):
            for at in [None] + list(range(9)): self.one(c, at)
        self.finals = [None] * self.fins
        return self.obls


# ---------------------------------------------------------------- ghosts of the group
def geq(s, p):
    """Add the equation p = 0 between group ghosts (a definition)."""
    p = gsubst(s, p)
    if p.is_zero(): return
    ctx = s.m.ctx
    best = None
    for m, c in p.d.items():
        if len(m) == 1 and abs(c) == 1 and ctx.atoms[m[0]].kind == "group" and not any(m[0] in n for n in p.d if n != m):
            if best is None or m[0] > best[0]: best = (m[0], c)
    if best is None: raise Unsupported("an equation between elements that cannot be solved")
    a, c = best
    s.aux["geq"] = s.aux.get("geq", []) + [(a, Poly({k: v for k, v in p.d.items() if k != (a,)}) * (-c))]


class GGhost:
    """A function from integers to the group, with known values where its argument is shown to be lo / at least hi."""
    def __init__(self, ctx, name, lo=None, hi=None):
        self.ctx, self.name, self.c, self.lo, self.hi = ctx, name, {}, lo, hi      # lo, hi: (Word, value)

    def raw(self, e):
        k = e.p.key()
        if k not in self.c: self.c[k] = (e, gatom(self.ctx, "%s(%d)" % (self.name, len(self.c))))
        return self.c[k][1]

    def end(self, s, e):
        for b, at in ((self.lo, lambda w: c_eq(e, w)), (self.hi, lambda w: c_ge(e, w))):
            if b is None: continue
            c = at(b[0])
            t = c.truth()
            if t is None: t = self.ctx.implies(s.path, c)
            if t: return b[1]
        return None

    def at(self, s, e):
        v = self.end(s, e)
        return self.raw(e) if v is None else v

    def settle(self, s):
        for e, g in list(self.c.values()):
            v = self.end(s, e)
            if v is not None: geq(s, g - v)


def floordiv(ctx, t, k):
    from .x86 import quotient
    return ctx.split(t, k.bit_length() - 1)[0] if k & (k - 1) == 0 else quotient(ctx, t, wconst(k))[0]


def div8(off, n):
    """off / n as a word, when every coefficient is a multiple"""
    if any(c % n for c in off.p.d.values()): raise Unsupported("an offset that is not a multiple of the element size")
    return Word(Poly({m: c // n for m, c in off.p.d.items()}), -(-off.lo // n), off.hi // n)


def between(s, lo, x, hi):
    """lo <= x < hi shown on the path"""
    ctx = s.m.ctx
    def never(c):
        t = c.truth()
        return t is False or t is None and ctx.unsat(s.path, c)
    return never(c_ge(ctx.sub(lo, wconst(1)), x)) and never(c_ge(x, hi))


class Cells1:
    """Content of a one-dimensional array of group elements while every index is written once."""
    def __init__(self, log=()): self.log = log

    def load(self, s, off, size): raise Unsupported("a read of results that are being written")

    def store(self, s, off, size, v):
        if size != 8 or not isinstance(v, (GVal, Word)): raise Unsupported("a partial write of an element")
        return Cells1(self.log + ((div8(off, 8), GVal(as_group(v))),))


class Table:
    """Content that is a function of the index."""
    def __init__(self, f, size): self.f, self.n = f, size

    def load(self, s, off, size):
        if size != self.n: raise Unsupported("a partial read of an element")
        return self.f(s, off)

    def store(self, s, off, size, v): return Plain()


class Any(Binding):
    """Nothing is said: for the first look at the body of an outer loop, never for an obligation."""
    name = "nothing known"

    def __init__(self, k): self.id = k

    def general(self, g):
        s = g.copy()
        put(s, self.id, s.m.ctx.aword(s.m.ctx.atom("any", 0, (1 << (8 * self.id[2])) - 1, "undef")))
        return [s]


class AnyContent:
    def __init__(self, case): self.c = case

    def load(self, s, off, size): return self.c.unknown(s, size)

    def store(self, s, off, size, v):
        s.aux["ghost:look"] = True
        return self


class Zeros:
    """The first elements of a worker's row are zero."""
    def __init__(self, rows, upto): self.rows, self.upto = rows, upto

    def full(self, s): return s.m.ctx.implies(s.path, c_ge(self.upto, self.rows.width(s)))

    def load(self, s, off, size): return self.rows.buckets(s, Poly()).load(s, off, size) if self.full(s) else Plain().load(s, off, size)

    def store(self, s, off, size, v):
        i = self.rows.index(s, off, size)
        if isinstance(v, (GVal, Word)) and as_group(v).is_zero() and izero(s, i.p - self.upto.p): return Zeros(self.rows, s.m.ctx.add(self.upto, wconst(1)))
        if self.full(s): return self.rows.buckets(s, Poly()).store(s, off, size, v)
        return Plain()


class Buckets:
    """A worker's row: A(i) = sum of the elements from i on, W(i) = sum of (b - i + 1) element(b) for b >= i, W(0) known."""
    def __init__(self, rows, A, W, ws): self.rows, self.A, self.W, self.ws = rows, A, W, ws

    def load(self, s, off, size):
        i = self.rows.index(s, off, size)
        i1 = s.m.ctx.add(i, wconst(1))
        geq(s, self.W.at(s, i) - self.W.at(s, i1) - self.A.at(s, i))
        return GVal(self.A.at(s, i) - self.A.at(s, i1))

    def store(self, s, off, size, v):
        i = self.rows.index(s, off, size)
        i1 = s.m.ctx.add(i, wconst(1))
        old = self.A.at(s, i) - self.A.at(s, i1)
        return self.rows.buckets(s, self.ws + (as_group(v) - old) * self.rows.weight(s, i))


# ---------------------------------------------------------------- readings
class PerIndex(Binding):
    """A loop over a worker's indices: each iteration does the work of its index and nothing else."""
    def __init__(self, case, E, k, hi, kind):
        self.c, self.kind = case, kind
        self.name = "each index of the range (%s)" % kind
        self.cnt = Counted(k, 1, position(case.ctx, getc(E, k), k[2]), hi, E)
        self.id = (k, kind, hi.p.key())

    def general(self, g):
        i = self.cnt.fresh_counter(g)
        out = []
        s = g.copy()
        self.cnt.set_counter(s, i)
        s.aux["ix"] = s.aux.get("ix", ()) + (i,)
        s.aux["ghost:row"] = i
        s.aux["ghost:done"] = (self.kind, self.cnt.lo, i)
        for x in [x for x in s.aux if x == "ghost:rec"]: del s.aux[x]
        self.c.fresh_row(self.kind, s)
        return [s]

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None or g is None: return out
        ig = self.cnt.val(g)
        out.append(("one index after the other", izero(s, i.p - ig.p - 1), ""))
        return out + [(n, ok, "") for n, ok in self.c.row_done(self.kind, s, ig)]


class Fill(Binding):
    """Cells 0 .. i - 1 of the worker's row are zero."""
    name = "zeroing"

    def __init__(self, case, E, k, hi, arr):
        self.c, self.arr = case, arr
        self.cnt = Counted(k, 1, position(case.ctx, getc(E, k), k[2]), hi, E)
        self.id = (k, hi.p.key())

    def general(self, g):
        s = g.copy()
        i = self.cnt.fresh_counter(s)
        self.cnt.set_counter(s, i)
        s.aux[self.arr] = Zeros(self.c.rows, i)
        return [s]

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None: return out
        z = s.aux.get(self.arr)
        if g is None: out.append(("starts at the first cell", i.is_const() and i.p.const() == 0, ""))
        else: out.append(("one more cell is zero", isinstance(z, Zeros) and izero(s, z.upto.p - i.p), ""))
        return out


class Accumulate(Binding):
    """The weighted sum of the buckets is the partial sum of digit * base over the points seen."""
    name = "partial sums of the buckets"

    def __init__(self, case, E, k, hi, arr):
        self.c, self.arr = case, arr
        self.cnt = Counted(k, 1, position(case.ctx, getc(E, k), k[2]), hi, E)
        self.id = (k, hi.p.key())

    def general(self, g):
        s = g.copy()
        i = self.cnt.fresh_counter(s)
        self.cnt.set_counter(s, i)
        s.aux["ix"] = s.aux.get("ix", ()) + (i,)
        s.aux[self.arr] = self.c.rows.buckets(s, self.c.partial(s).at(s, i))
        return [s]

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None: return out
        b = s.aux.get(self.arr)
        ws = b.ws if isinstance(b, Buckets) else Poly() if isinstance(b, Zeros) and b.full(s) else None
        if ws is None: return out + [("buckets hold elements", False, "")]
        if g is not None: self.c.unfold_point(s, self.cnt.val(g))
        out.append(("weighted sum of the buckets = partial sum", gzero(s, ws - self.c.partial(s).at(s, i)), ""))
        return out


class Running(Binding):
    """Downwards: one cell holds the sum of the buckets above, the other the weighted sum."""
    name = "running sums of the buckets"

    def __init__(self, case, E, k, a, b, arr, off=1):
        self.c, self.a, self.b, self.arr, self.off = case, a, b, arr, off
        self.cnt = Counted(k, -1, wconst(-off), position(case.ctx, getc(E, k), k[2]), E)
        self.id = (k, a, b, off)

    def general(self, g):
        B = g.aux[self.arr]
        s = g.copy()
        i = self.cnt.fresh_counter(s)
        self.cnt.set_counter(s, i)
        i1 = s.m.ctx.add(i, wconst(self.off))
        put(s, self.a, GVal(B.A.at(s, i1))); put(s, self.b, GVal(B.W.at(s, i1)))
        return [s]

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None: return out
        B = s.aux.get(self.arr)
        if not isinstance(B, Buckets) or g is not None and B is not g.aux[self.arr]: return out + [("the buckets are only read", False, "")]
        i1 = s.m.ctx.add(i, wconst(self.off))
        a, b = getc(s, self.a), getc(s, self.b)
        out.append(("sum of the buckets above", isinstance(a, GVal) and gzero(s, a.p - B.A.at(s, i1)), ""))
        out.append(("weighted sum of the buckets above", isinstance(b, GVal) and gzero(s, b.p - B.W.at(s, i1)), ""))
        return out


class Recode(Binding):
    """Signed digits of one scalar: remainder(j) = (scalar >> k j) + carry."""
    name = "signed digits of a scalar"

    def __init__(self, case, E, k, carry):
        self.c, self.carry = case, carry
        self.cnt = Counted(k, 1, position(case.ctx, getc(E, k), k[2]), case.nC, E)
        self.id = (k, carry)

    def general(self, g):
        ctx, out = g.m.ctx, []
        j = self.cnt.fresh_counter(g, "j")
        for last in (0, 1):
            s = g.copy()
            self.cnt.set_counter(s, j)
            s.assume(c_eq(j, self.c.nC) if last else c_ge(ctx.sub(self.c.nC, wconst(1)), j))
            c = wconst(0) if last else ctx.aword(ctx.atom("carry", 0, 1, "fresh"))
            put(s, self.carry, c)
            s.aux["ix"] = s.aux.get("ix", ()) + (j,)
            s.aux["arr:" + self.c.slc] = Slices(self.c)
            s.aux["ghost:rec"] = (s.aux["ghost:row"], j)
            out.append(s)
        return out

    def check(self, s, g):
        ctx = s.m.ctx
        j = self.cnt.val(s)
        out = self.cnt.in_range(s, j, g)
        if j is None: return out
        c = getc(s, self.carry)
        row = s.aux.get("ghost:row")
        if not isinstance(c, Word) or not 0 <= c.lo or not c.hi <= 1: return out + [("carry is 0 or 1", False, "")]
        log = s.aux["arr:" + self.c.slc]
        if not isinstance(log, Slices): return out + [("digits are written", False, "")]
        if g is None:
            out.append(("starts with the lowest digit and no carry", j.is_const() and j.p.const() == 0 and c.is_const() and c.p.const() == 0 and not log.log, ""))
            return out
        jg, cg = self.cnt.val(g), getc(g, self.carry)
        ok = len(log.log) == 1
        if ok:
            (i0, j0, v), = log.log
            ok = izero(s, i0.p - row.p) and izero(s, j0.p - jg.p)
        out.append(("one digit is written, at its place", ok, ""))
        if not ok: return out
        k = self.c.k
        v = ctx.sview(v, 32)
        out.append(("digit in range", between(s, wconst(-(1 << (k - 1))), v, wconst((1 << (k - 1)) + 1)), ""))
        j1 = ctx.add(jg, wconst(1))
        out.append(("one position after the other", izero(s, j.p - j1.p), ""))
        out.append(("remainder = digit + 2^k next remainder", izero(s, self.c.H(s, row, jg) + cg.p - v.p - (self.c.H(s, row, j1) + c.p) * (1 << k)), ""))
        out.append(("no carry out of the last digit", ctx.unsat(s.path + [c_ge(j, self.c.nC)], c_ge(c, wconst(1))), ""))
        return out


class Slices:
    """The matrix of digits while it is written."""
    def __init__(self, case, log=()): self.c, self.log = case, log

    def load(self, s, off, size): raise Unsupported("digits are read while they are written")

    def store(self, s, off, size, v):
        if size != 4 or not isinstance(v, Word): raise Unsupported("a digit of another width")
        i, j = self.c.place(s, off)
        return Slices(self.c, self.log + ((i, j, v),))


class Horner(Binding):
    """acc = sum of the windows from i + off on (off is 0 or 1), each weighted by its power of two."""
    name = "windows put together"

    def __init__(self, case, E, k, acc, off=1):
        self.c, self.acc, self.off = case, acc, off
        self.cnt = Counted(k, -1, wconst(-off), position(case.ctx, getc(E, k), k[2]), E)
        self.id = (k, acc, off)

    def general(self, g):
        s = g.copy()
        i = self.cnt.fresh_counter(s)
        self.cnt.set_counter(s, i)
        put(s, self.acc, GVal(self.c.T.at(s, s.m.ctx.add(i, wconst(self.off)))))
        return [s]

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None: return out
        v = getc(s, self.acc)
        self.c.T.settle(s)
        out.append(("accumulator = weighted sum of the windows above", isinstance(v, GVal) and gzero(s, v.p - self.c.T.at(s, s.m.ctx.add(i, wconst(self.off)))), ""))
        return out


class Doubled(Binding):
    """A fixed number of doublings: after n of them acc = 2^n * its first value."""
    name = "repeated doubling"

    def __init__(self, case, E, k, step, lo, hi, acc):
        self.c, self.acc, self.first = case, acc, getc(E, acc).p
        self.cnt = Counted(k, step, lo, hi, E)
        self.id = (k, step, lo.p.key(), hi.p.key(), acc)

    def general(self, g):
        out = []
        for n in range(self.cnt.span() + 1):
            s = g.copy()
            self.cnt.set_counter(s, wconst(self.cnt.lo.p.const() + n if self.cnt.step > 0 else self.cnt.hi.p.const() - n))
            put(s, self.acc, GVal(self.first * (1 << n)))
            out.append(s)
        return out

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None or not i.is_const(): return out + [("a known number of doublings", False, "")]
        n = i.p.const() - self.cnt.lo.p.const() if self.cnt.step > 0 else self.cnt.hi.p.const() - i.p.const()
        v = getc(s, self.acc)
        out.append(("accumulator = 2^n * first value", 0 <= n <= 64 and isinstance(v, GVal) and gzero(s, v.p - self.first * (1 << n)), ""))
        return out


class WithinRange(Binding):
    """A cell keeps values of a fixed range (small loops with a concrete counter)."""
    name = "value in range"

    def __init__(self, case, E, k, lo, hi, cell, vlo, vhi):
        self.c, self.cell, self.vlo, self.vhi = case, cell, vlo, vhi
        self.cnt = Counted(k, 1, lo, hi, E)
        self.id = (k, cell)

    def general(self, g):
        out = []
        for n in range(self.cnt.span() + 1):
            s = g.copy()
            self.cnt.set_counter(s, wconst(self.cnt.lo.p.const() + n))
            put(s, self.cell, s.m.ctx.aword(s.m.ctx.atom("v", self.vlo, self.vhi, "fresh")))
            out.append(s)
        return out

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        v = getc(s, self.cell)
        out.append(("value in range", isinstance(v, Word) and between(s, wconst(self.vlo), s.m.ctx.uview(v, 64), wconst(self.vhi + 1)), ""))
        return out


class BitsPerChunk(LoopCase):
    """The chosen width is one of 3 .. 16."""
    def __init__(self, im):
        super().__init__(im, "calcBitsPerChunk")
        m, ctx = self.m, self.ctx
        m.add_region("obj", constant(im, "o_total"), init=lambda s, o, k: None)
        self.n, self.size = ctx.input("n", 0, (1 << 31) - 1), ctx.input("size", 8, SIZEMAX)

    def prove(self):
        st = self.boot([Ptr("obj", 0), self.n, self.size])
        # the constructor's initialisers
        return self.run(st, self.im.sym["v_bits_new"], [self.spec], [a for k, a in self.im.dem.items() if "calcBitsPerChunk(" in k])

    def spec(self, L, pr):
        for k in counters(pr, 1):
            lo = position(self.ctx, getc(pr.E, k), k[2])
            if not lo.is_const(): continue
            for hi in range(lo.p.const(), lo.p.const() + 20):
                for c in pr.M:
                    if c[0] == "aux" or c == k: continue
                    vs = [getc(pr.E, c)] + [getc(s, c) for s in pr.arrivals]
                    if all(isinstance(v, Word) and v.is_const() and 3 <= v.p.const() <= 16 for v in vs): yield WithinRange(self, pr.E, k, lo, wconst(hi), c, 3, 16)

    def post(self, s):
        v = s.regs["rax"]
        return [("a width from 3 to 16", isinstance(v, Word) and between(s, wconst(3), self.ctx.uview(v, 64), wconst(17)), "")]


# ---------------------------------------------------------------- the windowed multi-exponentiation
class OneRow:
    """Buckets of one worker, of 2^(k-1) cells with weights 1, 2, ..."""
    def __init__(self, case): self.c, self.n = case, 0

    def width(self, s): return wconst(self.c.nB)

    def index(self, s, off, size):
        if size != 8: raise Unsupported("a partial access to an element")
        ctx = s.m.ctx
        t = s.aux.get("worker")
        if t is None: raise Unsupported("buckets used outside the parallel loop")
        i = ctx.sub(div8(off, 8), ctx.scale(t, self.c.nB))
        if i.p.is_const(): i = wconst(i.p.const())
        if not between(s, wconst(0), i, wconst(self.c.nB)): raise Fault("access to buckets of another worker")
        return i

    def weight(self, s, i): return i.p + pconst(1)

    def buckets(self, s, ws):
        self.n += 1
        n = wconst(self.c.nB)
        return Buckets(self, GGhost(self.c.ctx, "A%d" % self.n, hi=(n, Poly())), GGhost(self.c.ctx, "W%d" % self.n, (wconst(0), ws), (n, Poly())), ws)


class MsmRun(LoopCase):
    slc, mat, chk = "slices", "matrix", "chunks"

    def __init__(self, im, k, points):
        super().__init__(im, "MSM::run, width %d, %s" % (k, "n = %d" % points if points is not None else "n >= 2"))
        ctx, m = self.ctx, self.m
        self.k, self.nB = k, 1 << (k - 1)
        self.size = ctx.input("size", 8, SIZEMAX)
        self.N = wconst(points) if points is not None else ctx.input("n", 2, (1 << 31) - 2)
        self.T = ctx.input("threads", 1, 1 << 16)
        self.nC = ctx.add(floordiv(ctx, ctx.scale(self.size, 8), k), wconst(1))
        self.goal = gatom(ctx, "sum") if points is None or points else Poly()
        self.rows = OneRow(self)
        self.digits, self.bases, self.PS, self.Hs, self.cs = {}, {}, {}, {}, {}
        self.T_ = None
        self.C = {}
        self.T, self.threads = GGhost(ctx, "T", (wconst(0), self.goal), (self.nC, Poly())), self.T
        self.ops = install_group(m, im.dem, "AG", {"Point": 8, "PointAffine": 8})
        m.add_region("obj", constant(im, "o_total"), init=lambda s, o, k: None)
        self.r = m.add_region("r", 8)
        m.add_region("bases", None, arr=Arr("bases"))
        m.add_region("scal", None, arr=Arr("scal"))
        m.add_region("pool", 64)
        self.allowed |= {"r", "obj"}
        self.extra = []
        self.ops_of = {}
        m.lenient = self.lenient
        n = 0
        for d, a in im.dem.items():
            g = re.match(r"^(?:void )?ThreadPool::parallelFor<(.*)>\(int, int, (.*)&&\)$", d)
            if g and g.group(1).replace("&", "") == g.group(2).replace("&", ""):
                m.contracts[a] = lambda s, a=a, x=g.group(1).replace("&", ""): self.parallel(s, x)
                self.ops_of[g.group(1).replace("&", "")] = None
            if d.startswith("ThreadPool::defaultPool()") and "::pool" not in d: m.contracts[a] = lambda s: ret(m, s, Ptr("pool", 0))
            if d.startswith("ThreadPool::getThreadCount()"): m.contracts[a] = lambda s: ret(m, s, self.threads)
            if re.match(r"^MSM<AG, AB>::getBucketIndex\(unsigned long, unsigned long\) const$", d): m.contracts[a] = self.window; n += 1
            if re.match(r"^MSM<AG, AB>::calcBitsPerChunk\(unsigned long, unsigned long\) const$", d): m.contracts[a] = lambda s: ret(m, s, wconst(k)); n += 1
            if d.startswith("AG::mulByScalar(AG::Point&, AG::PointAffine const&"): m.contracts[a] = self.single
        if n != 2: raise Unsupported("the digit function or the choice of the width is not a function of its own")
        for x in self.ops_of:
            c = [a for d, a in im.dem.items() if d.replace("&", "").startswith(x + "::operator()(int, int, int)")]
            if len(c) != 1: raise Unsupported("no code of a parallel loop")
            self.ops_of[x] = c[0]

    # ---- a first look at a worker's code, before it is known which index it works on
    def looking(self, s): return "range" in s.aux and "ghost:row" not in s.aux

    def lenient(self, s):
        if not self.looking(s): return False
        s.aux["ghost:look"] = True
        return True

    def unknown(self, s, size):
        s.aux["ghost:look"] = True
        if size == 8: return GVal(gatom(self.ctx, "any"))
        return self.ctx.aword(self.ctx.atom("any", 0, (1 << (8 * size)) - 1, "fresh"))

    # ---- contracts
    def heap_array(self, s, size):
        ctx = self.ctx
        for nm, n in ((self.mat, ctx.scale(self.threads, 8 * self.nB)), (self.chk, ctx.scale(self.nC, 8)), (self.slc, ctx.scale(ctx.mul(self.nC, self.N), 4))):
            if izero(s, size.p - n.p):
                if "arr:" + nm in s.aux: raise Unsupported("two arrays of the same size")
                R = "heap_" + nm
                if R not in self.m.regions: self.m.add_region(R, None if nm == self.slc else n, arr=Arr(nm))
                s.aux["arr:" + nm] = Plain()
                return Ptr(R, 0)
        raise Unsupported("an array of another size")

    def single(self, s):
        g, r, b, sc, n = _args(self.m, s, 5)
        ok = b == Ptr("bases", 0) and sc == Ptr("scal", 0) and self.N.is_const() and self.N.p.const() == 1 and izero(s, self.ctx.uview(n, 32).p - self.size.p)
        self.extra.append(("the only product is scalar 0 times point 0", ok, "", s.copy()))
        gstore(s, ptrof(s, r), 8, self.goal)
        ret(self.m, s, None)

    def H(self, s, i, j):
        """scalar i >> k j, for j up to the number of windows"""
        ctx = self.ctx
        c = c_ge(j, self.nC)
        t = c.truth()
        if t is None: t = ctx.implies(s.path, c)
        if t: return Poly()
        k = (i.p.key(), j.p.key())
        if k not in self.Hs: self.Hs[k] = ctx.apoly(ctx.atom("H(%d)" % len(self.Hs), None, None, "ghost"))
        return self.Hs[k]

    def window(self, s):
        """contract of the digit function (proved by Window)"""
        m, ctx = self.m, self.ctx
        o, i, j = _args(m, s, 3)
        i, j = ctx.uview(i, 64), ctx.uview(j, 64)
        if not isinstance(o, Ptr): raise Unsupported("unknown object")
        at = lambda nm: s.load(Ptr(o.r, o.o + constant(self.im, nm)), 8)
        b, z = at("o_bits"), at("o_size")
        if self.looking(s): return ret(m, s, self.unknown(s, 4))
        if at("o_scalars") != Ptr("scal", 0) or not (isinstance(b, Word) and b.is_const() and b.p.const() == self.k) or not izero(s, z.p - self.size.p): raise Fault("the digit function is called on other data")
        if not between(s, wconst(0), i, self.N) or not between(s, wconst(0), j, self.nC): raise Fault("a digit of a scalar or window that does not exist")
        k = (i.p.key(), j.p.key())
        if k not in self.cs: self.cs[k] = ctx.aword(ctx.atom("c(%d)" % len(self.cs), 0, (1 << self.k) - 1, "fresh"))
        c = self.cs[k]
        j1 = ctx.add(j, wconst(1))
        fact(s, self.H(s, i, j) - c.p - self.H(s, i, j1) * (1 << self.k))
        s.assume(c_or(c_ge(ctx.sub(self.nC, wconst(2)), j), c_ge(wconst((1 << (self.k - 1)) - 1), c)))
        # where the next window is the one past the end, its remainder is 0
        if k not in s.aux.get("lastw", ()):
            pass
        ret(m, s, c)

    def place(self, s, off):
        """(i, j) with off = 4 (i * windows + j)"""
        ctx = self.ctx
        w = div8(off, 4)
        for i in list(reversed(s.aux.get("ix", ()))) + [wconst(0), wconst(1)]:
            j = ctx.sub(w, ctx.mul(i, self.nC))
            if between(s, wconst(0), i, self.N) and between(s, wconst(0), j, self.nC): return i, j
        raise Unsupported("a place in the matrix of digits that is not understood")

    def digit(self, s, i, j):
        k = (i.p.key(), j.p.key())
        if k not in self.digits: self.digits[k] = self.ctx.aword(self.ctx.atom("d(%d)" % len(self.digits), -(1 << (self.k - 1)), 1 << (self.k - 1), "fresh"))
        return self.digits[k]

    def base(self, i):
        k = i.p.key()
        if k not in self.bases: self.bases[k] = gatom(self.ctx, "P(%d)" % len(self.bases))
        return self.bases[k]

    def chunk(self, j):
        k = j.p.key()
        if k not in self.C: self.C[k] = gatom(self.ctx, "C(%d)" % len(self.C))
        return self.C[k]

    def partial(self, s):
        j = s.aux["ghost:row"]
        k = j.p.key()
        if k not in self.PS: self.PS[k] = GGhost(self.ctx, "PS%d" % len(self.PS), (wconst(0), Poly()), (self.N, self.chunk(j)))
        return self.PS[k]

    def unfold_point(self, s, i):
        PS = self.partial(s)
        geq(s, PS.at(s, self.ctx.add(i, wconst(1))) - PS.at(s, i) - self.base(i) * self.digit(s, i, s.aux["ghost:row"]).p)

    def load_base(self, s, off):
        if self.looking(s): return self.unknown(s, 8)
        i = div8(off, 8)
        if not between(s, wconst(0), i, self.N): raise Fault("a point that does not exist")
        return GVal(self.base(i))

    # ---- the parallel loops
    def parallel(self, s, x):
        m, ctx = self.m, self.ctx
        pool, b, e, f = _args(m, s, 4)
        b, e = ctx.sview(b, 32), ctx.sview(e, 32)
        if not (b.is_const() and b.p.const() == 0): raise Unsupported("a parallel loop that does not start at 0")
        # one worker, with any part of the range
        s2 = s.copy()
        B, Eb, t = (ctx.aword(ctx.atom(nm, 0, hi, "fresh")) for nm, hi in (("begin", e.hi), ("end", e.hi), ("worker", self.threads.hi - 1)))
        for c in (c_ge(Eb, B), c_ge(e, Eb), c_ge(ctx.sub(self.threads, wconst(1)), t)): s2.assume(c)
        sp = s.regs["rsp"].o - 4096
        sp -= sp % 16
        s2.regs["rsp"] = Ptr("stack", sp - 8)
        from .x86 import RET, CALLEE_SAVED
        s2._cells("stack")[sp - 8] = (8, wconst(RET))
        for r, v in zip(("rdi", "rsi", "rdx", "rcx"), (f, B, Eb, t)): s2.regs[r] = v
        s2.aux["worker"] = t
        s2.aux["range"] = (B, Eb)
        s2.aux["loops"] = []
        for nm in (self.mat, self.chk, self.slc):
            if not isinstance(s2.aux.get("arr:" + nm), Table): s2.aux["arr:" + nm] = AnyContent(self)
        s2.aux["at"] = None
        s2.aux.pop("ghost:done", None)
        s2.written = {}
        keep = dict(s2.regs)
        fin = m.run(s2, self.ops_of[x])
        if not fin: raise Unsupported("no path through the parallel loop reaches its end")
        kinds = set()
        rec = getattr(self.loops, "recording", True)
        for q, fault in fin:
            if fault:
                self.extra.append(("safe", ctx.unsat(q.path), fault, q)); continue
            bad = [r for r in CALLEE_SAVED if not same(q.regs[r], keep[r]) and q.regs[r] != keep[r]]
            self.extra.append(("calling convention", not bad and q.regs["rsp"] == Ptr("stack", sp), "", q))
            d = q.aux.get("ghost:done")
            if q.aux.get("ghost:look"): raise Unsupported("work outside the loop over a worker's indices")
            if d is None: raise Unsupported("the loop over a worker's indices is not read")
            kinds.add(d[0])
            self.extra.append(("all indices of the range are done", izero(q, d[1].p - B.p) and izero(q, d[2].p - Eb.p), "", q))
            mine = {"stack"} | ({"heap_" + self.slc} if d[0] == "recode" else {"heap_" + self.mat, "heap_" + self.chk})
            w = [r for r in q.written if r not in mine] + ["shared variables" for o, n in q.written.get("stack", ()) if o >= sp]
            self.extra.append(("a worker writes only its own data", not w, "writes %s" % w[:4], q))
        if len(kinds) != 1: raise Unsupported("a parallel loop with two meanings")
        k = kinds.pop()
        self.extra.append(("the range is the whole matrix", izero(s, e.p - (self.N if k == "recode" else self.nC).p), "", s.copy()))
        if k == "recode": s.aux["arr:" + self.slc] = Table(lambda q, off: self.unknown(q, 4) if self.looking(q) else self.digit(q, *self.place(q, off)), 4)
        else:
            s.aux["arr:" + self.chk] = Table(self.load_chunk, 8)
            s.aux["arr:" + self.mat] = Plain()
        ret(m, s, None)

    def load_chunk(self, s, off):
        ctx = self.ctx
        j = div8(off, 8)
        if not between(s, wconst(0), j, self.nC): raise Fault("a window that does not exist")
        return GVal(self.T.at(s, j) - self.T.at(s, ctx.add(j, wconst(1))) * (1 << self.k))

    def fresh_row(self, kind, s):
        if kind == "recode": s.aux["arr:" + self.slc] = Slices(self)
        else:
            s.aux["arr:" + self.mat] = Plain()
            s.aux["arr:" + self.chk] = Cells1()

    def row_done(self, kind, s, i):
        if kind == "recode":
            d, log = s.aux.get("ghost:rec"), s.aux["arr:" + self.slc]
            return [("all digits of the scalar are written", d is not None and isinstance(log, Slices) and not log.log and izero(s, d[0].p - i.p) and izero(s, d[1].p - self.nC.p))]
        c = s.aux["arr:" + self.chk]
        ok = isinstance(c, Cells1) and len(c.log) == 1 and izero(s, c.log[0][0].p - i.p)
        out = [("one result is written, at its place", ok)]
        if ok:
            B = s.aux["arr:" + self.mat]
            if isinstance(B, Buckets): B.A.settle(s); B.W.settle(s)
            self.partial(s).settle(s)
            out.append(("the result is the sum of digit * point over all points", gzero(s, c.log[0][1].p - self.chunk(i))))
        return out

    # ---- readings
    def spec(self, L, pr):
        ctx, E = self.ctx, pr.E
        up, down = counters(pr, 1), counters(pr, -1)
        mat = "arr:" + self.mat
        if self.looking(E) and E.aux.get("loops"):
            for k in up + down: yield Any(k)
        elif self.looking(E):
            for k in up:
                for kind in ("recode", "chunk"): yield PerIndex(self, E, k, E.aux["range"][1], kind)
        elif "ghost:row" in E.aux:
            kind = E.aux["ghost:done"][0]
            if kind == "recode":
                for k in up:
                    for f in pr.flags():
                        if f != k: yield Recode(self, E, k, f)
            else:
                for k in up:
                    if isinstance(E.aux.get(mat), (Zeros, Buckets)): yield Accumulate(self, E, k, self.N, mat)
                    yield Fill(self, E, k, wconst(self.nB), mat)
                gs = pr.groups()
                if isinstance(E.aux.get(mat), Zeros) and E.aux[mat].full(E): return
                if not isinstance(E.aux.get(mat), Buckets): return
                for k in down:
                    for a in gs:
                        for b in gs:
                            if a != b:
                                for off in (1, 0): yield Running(self, E, k, a, b, mat, off)
        else:
            for a in pr.groups():
                v = getc(E, a)
                for k in down:
                    for off in (1, 0): yield Horner(self, E, k, a, off)
                for k in up + down:
                    p = position(ctx, getc(E, k), k[2])
                    if isinstance(v, GVal) and p is not None and p.is_const():
                        st = 1 if k in up else -1
                        yield Doubled(self, E, k, st, p if st > 0 else wconst(p.p.const() - self.k), wconst(p.p.const() + self.k) if st > 0 else p, a)

    def prove(self):
        st = self.boot([Ptr("obj", 0), self.r, Ptr("bases", 0), Ptr("scal", 0), self.size, self.N])
        st.aux["arr:bases"] = Table(self.load_base, 8)
        st.aux["arr:scal"] = Plain()
        f = self.im.sym["v_run"]
        fs = [f] + [a for d, a in self.im.dem.items() if re.match(r"^MSM<AG, AB>::\w+\(", d)] + list(self.ops_of.values())
        o = self.run(st, f, [self.spec], fs)
        return o + self.extra

    def post(self, s):
        v = gload(s, self.r, 8)
        self.T.settle(s)
        return [("result = sum of scalar * point", gzero(s, v - self.goal), "")]
