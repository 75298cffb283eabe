"""C04: the signed-digit recoding and the loops that use it, for every scalar length."""
import os, re
from . import build, mpz, mpn
from .core import *
from .machine import *
from .loops import *
from .groups import *
from .elf import Elf
from .mpn import _args, ret
from .x86 import X86, decode

H = os.path.join(build.VERIF, "harness")
NMAX = 1 << 26


class Image:
    """Object code of sources of the repository (g++ -O0) linked for the engine."""
    def __init__(self, name, srcs, flags=(), inc=()):
        d = build.scratch()
        objs = []
        for i, f in enumerate(srcs):
            o = os.path.join(d, "%s_%d.o0.o" % (name, i))
            build.run(build.CXX0 + list(flags) + ["-DNDEBUG"] + ["-I" + x for x in inc] + ["-I" + os.path.join(build.REPO, "c"), "-I" + H, "-c", f, "-o", o])
            objs.append(o)
        path = build.link(objs, os.path.join(d, name + ".img"))
        self.elf = Elf(path)
        self.ins = decode(path)
        self.sym = dict(self.elf.symbols)
        self.dem = demangled(self.elf.symbols)
        self.by = {}
        for k, a in self.dem.items(): self.by.setdefault(re.sub(r"\(.*", "", k).split(" ")[-1], a)
        ia = [s for s in self.elf.sections if s["name"] == ".init_array"]
        self.inits = [int.from_bytes(s["data"][i:i + 8], "little") for s in ia for i in range(0, s["size"], 8)]

    def find(self, prefix):
        c = [(k, a) for k, a in self.dem.items() if k.startswith(prefix) and "{lambda" not in k[len(prefix):]]
        if len(c) != 1: raise Unsupported("%d functions match %s" % (len(c), prefix))
        return c[0][1]


class LoopCase:
    """One function with loops: a machine, its operands, the obligations of its loops and its postcondition."""
    def __init__(self, im, name):
        self.im, self.name = im, name
        self.ctx = Ctx(None, 0)
        m = self.m = X86(self.ctx, im.elf, im.ins)
        m.prune = True
        m.max_steps = 4000000
        mpn.install(m, im.sym)
        mpz.install(m, im.sym)
        for k, a in im.sym.items():
            if k.startswith("_ZNSt8ios_base4Init"): m.contracts[a] = lambda s: ret(m, s, None)
        m.heap_array = self.heap_array
        self.allowed = {"stack"}

    def heap_array(self, s, size):
        s.heap += 1
        n = "heap%d_a%d" % (s.heap, len(self.m.regions))
        return self.m.add_region(n, size, arr=Arr(n))

    def boot(self, args, run=()):
        m = self.m
        st = m.start([])
        for f in run:
            s0 = m.start([])
            s0.mem.update({k: v for k, v in st.mem.items() if k != "stack"})
            s0.aux, s0.heap = st.aux, st.heap
            fin = m.explore(s0, f)
            if len(fin) != 1 or fin[0][1]: raise Unsupported("static initialiser: %s" % (fin and fin[0][1] or "%d paths" % len(fin)))
            st = fin[0][0]
        s1 = m.start(args)
        s1.mem.update({k: v for k, v in st.mem.items() if k != "stack"})
        s1.aux, s1.heap = st.aux, st.heap
        s1.written = {}
        return s1

    def run(self, st, entry, specs, functions=None):
        """-> obligations [(name, ok, why, state)]"""
        self.loops = Loops(self.m, functions or [entry], specs)
        self.loops.verbose = getattr(self, "verbose", False)
        self.finals = self.m.explore(st, entry)
        obls = []
        if not self.finals and not any(not o[1] for o in self.loops.obls): raise Unsupported("no path reaches the end")
        for pi, (s, fault) in enumerate(self.finals):
            if fault:
                obls.append(("safe", self.ctx.unsat(s.path), fault, s)); continue
            bad = self.m.abi_ok(s)
            obls.append(("calling convention", bad is None, bad or "", s))
            w = [r for r in s.written if r not in self.allowed and not r.startswith("heap")]
            obls.append(("frame", not w, "writes %s" % w, s))
            for n, ok, why in self.post(s): obls.append((n, ok, why, s))
        return self.loops.obls + obls

    def post(self, s): return []


# ---------------------------------------------------------------- counters
def position(ctx, v, size):
    """A counter's value: a signed number, or the offset of a pointer into an array."""
    if isinstance(v, SPtr): return v.w
    if isinstance(v, Ptr): return wconst(v.o)
    return ctx.sview(v, 8 * size) if isinstance(v, Word) else None


def counters(pr, step, sizes=(4, 8)):
    """Cells changed by the same constant in every iteration."""
    ctx = pr.E.m.ctx
    out = []
    for k in sorted(pr.M, key=str):
        if k[0] == "aux" or k[2] not in sizes: continue
        a = getc(pr.E, k)
        p = position(ctx, a, k[2])
        if p is None: continue
        ok = bool(pr.arrivals)
        for s in pr.arrivals:
            b = getc(s, k)
            q = position(ctx, b, k[2])
            if q is None or isinstance(a, Word) != isinstance(b, Word) or not isinstance(a, Word) and a.r != b.r: ok = False; break
            d = q.p - p.p
            if not (d.is_const() and d.const() == step): ok = False; break
        if ok: out.append(k)
    return out


class Counted(Binding):
    """A loop with a counter that moves by a constant between two bounds (so it ends)."""
    def __init__(self, k, step, lo, hi, E=None):
        self.k, self.step, self.lo, self.hi = k, step, lo, hi       # Words
        v = getc(E, k) if E is not None else None
        self.region = v.r if isinstance(v, (Ptr, SPtr)) else None

    def val(self, s):
        v = getc(s, self.k)
        if (v.r if isinstance(v, (Ptr, SPtr)) else None) != self.region: return None
        return position(s.m.ctx, v, self.k[2])

    def span(self):
        d = self.hi.p - self.lo.p
        return d.const() if d.is_const() else None

    def set_counter(self, g, i):
        if self.region is not None: put(g, self.k, Ptr(self.region, i.p.const()) if i.is_const() else SPtr(self.region, i))
        else: put(g, self.k, g.m.ctx.uview(i, 8 * self.k[2]) if self.k[0] != "reg" else i)
        for c in (c_ge(i, self.lo), c_ge(self.hi, i)):
            if c.truth() is not True: g.assume(c)

    def fresh_counter(self, g, name="i"):
        return g.m.ctx.aword(g.m.ctx.atom(name, self.lo.lo, self.hi.hi, "fresh"))

    def in_range(self, s, i, g=None):
        ctx = s.m.ctx
        if i is None: return [("the counter is a number", False, "")]
        return [("counter stays in range", shown(s, g, c_ge(wconst(-1), ctx.sub(i, self.lo))) and shown(s, g, c_ge(wconst(-1), ctx.sub(self.hi, i))), "")]


# ---------------------------------------------------------------- buildNaf
class Rows:
    def __init__(self, log=()): self.log = log

    def load(self, s, off, size): raise Unsupported("the recoding is read while it is written")

    def store(self, s, off, size, v): return Rows(self.log + ((off, size, v),))


class NafRows(Binding):
    """rows 0..i-1 are written, and W(i) = last + 2 carry + (scalar >> 8i) - its lowest bit is left to write"""
    name = "recoding"

    def __init__(self, case, E, k, last, carry):
        c = case.ctx
        self.c, self.last, self.carry = case, last, carry
        self.id = (k, last, carry)
        self.cnt = Counted(k, 1, position(c, getc(E, k), k[2]), c.add(case.n, wconst(2)), E)

    def inside(self, s, i):
        """Is position i inside the scalar?  (decided by the path, remembered)"""
        ctx = s.m.ctx
        pos = s.aux.setdefault("pos", {})
        k = i.p.key()
        if k not in pos:
            if ctx.implies(s.path, c_ge(i, self.c.n)): pos[k] = False
            elif ctx.implies(s.path, c_ge(ctx.sub(self.c.n, i), wconst(1))): pos[k] = True
            else: raise Unsupported("position of the scalar not decided")
        return pos[k]

    def b0(self, s, i):
        ctx = s.m.ctx
        if not self.inside(s, i): return wconst(0)
        return ctx.split(self.c.scalar.byte(i), 1)[1]

    def high(self, s, i):
        """scalar >> 8i"""
        ctx, n = s.m.ctx, self.c.n
        if not self.inside(s, i): return Poly()
        if i.is_const() and i.p.const() == 0: h = self.c.V
        else: h = self.c.Hh.at(i.p)
        return h

    def unfold(self, s, i):
        ctx = s.m.ctx
        if not self.inside(s, i): return
        i1 = ctx.add(i, wconst(1))
        fact(s, self.high(s, i) - self.c.scalar.byte(i).p - self.high(s, i1) * 256)

    def W(self, s, i):
        l, c = getc(s, self.last), getc(s, self.carry)
        return l.p + c.p * 2 + self.high(s, i) - self.b0(s, i).p

    def general(self, g):
        ctx = g.m.ctx
        i = self.cnt.fresh_counter(g)
        out = []
        n = self.c.n
        for cases in ([c_ge(ctx.sub(n, i), wconst(2))], [c_eq(i, ctx.sub(n, wconst(1)))], [c_ge(i, n)]):
            s = g.copy()
            self.cnt.set_counter(s, i)
            for c in cases: s.assume(c)
            if ctx.unsat(s.path): continue
            l, c = (ctx.aword(ctx.atom(x, 0, 1, "fresh")) for x in ("last", "carry"))
            put(s, self.last, l); put(s, self.carry, c)
            s.assume(c_ge(wconst(1), ctx.add(l, c)))
            s.assume(c_or(c_ge(n, i), c_eq(ctx.add(l, c), wconst(0))))
            s.aux["arr:naf"] = Rows()
            s.aux["ghost:naf"] = (i, l.p + c.p * 2)
            self.unfold(s, i)
            s.assume(c_ge(self.b0(s, i), c))
            self.inside(s, ctx.add(i, wconst(1)))
            out.append(s)
        return out

    def check(self, s, g):
        ctx = s.m.ctx
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        l, c = getc(s, self.last), getc(s, self.carry)
        if not (isinstance(l, Word) and isinstance(c, Word) and 0 <= l.lo and l.hi <= 1 and 0 <= c.lo and c.hi <= 1): return [("flags are 0 or 1", False, "")]
        out.append(("at most one of carry and last", shown(s, g, c_ge(ctx.add(l, c), wconst(2))), ""))
        out.append(("a carry only after a bit that is set", shown(s, g, c_ge(c, ctx.add(self.b0(s, i), wconst(1)))), ""))
        out.append(("nothing left beyond the scalar", ctx.unsat(s.path + [c_ge(ctx.sub(i, self.c.n), wconst(1))], c_ge(ctx.add(l, c), wconst(1))), ""))
        if g is None:
            before = s.aux.get("ghost:naf")
            if before is None: ok = i.is_const() and i.p.const() == 0 and izero(s, self.W(s, i) - self.c.V)
            else: ok = not s.aux["arr:naf"].log and izero(s, i.p - before[0].p) and izero(s, l.p + c.p * 2 - before[1])
            out.append(("the remainder is what is left of the scalar", ok, ""))
            return out
        ig = self.cnt.val(g)
        row = s.aux["arr:naf"].log
        d = self.digits(s, row, ig)
        if d is None: return out + [("one row of digits 0, 1, 2 is written at its place", False, "")]
        delta = sum((x - 3 if x == 2 else x) << j for j, x in enumerate(d))
        out.append(("W(i) = row + 256 W(i+1)", izero(s, self.W(g_on(s, g), ig) - delta - self.W(s, i) * 256), ""))
        nz = [x != 0 for x in d]
        out.append(("no two adjacent digits in a row", not any(a and b for a, b in zip(nz, nz[1:])), ""))
        lg = getc(g, self.last)
        out.append(("a row starts with a digit only when 'last' says so", not nz[0] or ctx.unsat(s.path, c_eq(lg, wconst(0))), ""))
        out.append(("a row that ends with a digit does not set 'last'", not nz[7] or (l.is_const() and l.p.const() == 0), ""))
        out.append(("no digit above bit 8 size", not any(nz[1:]) or self.inside(s, ig), ""))
        out.append(("no digit in the last row", not any(nz) or ctx.unsat(s.path, c_ge(ig, ctx.add(self.c.n, wconst(1)))), ""))
        return out

    def digits(self, s, row, ig):
        d = [None] * 8
        for off, size, v in row:
            r = s.m.ctx.sub(off, s.m.ctx.scale(ig, 8)).p
            if not r.is_const() or not isinstance(v, Word): return None
            if not v.is_const(): return None
            v = v.p.const()
            for j in range(size):
                p = r.const() + j
                if not 0 <= p < 8: return None
                d[p] = (v >> (8 * j)) & 255
        if None in d or max(d) > 2: return None
        return d


def g_on(s, g):
    """the head state g with the path of s"""
    x = g.copy()
    x.path, x.dec = s.path, s.dec
    return x


class BuildNaf(LoopCase):
    def __init__(self, im):
        super().__init__(im, "buildNaf")
        ctx, m = self.ctx, self.m
        m.enum_limit = 1100
        self.n = ctx.input("size", 1, NMAX)
        self.scalar = Bytes(ctx, "scalar")
        self.Hh = Ghost(ctx, "H")
        self.V = ctx.apoly(ctx.atom("V", None, None, "ghost"))
        m.add_region("naf", ctx.add(ctx.scale(self.n, 8), wconst(16)), arr=Arr("naf"))
        m.add_region("scalar", self.n, arr=Arr("scalar"))
        self.allowed |= {"naf"}

    def prove(self):
        st = self.boot([Ptr("naf", 0), Ptr("scalar", 0), self.n], self.im.inits)
        st.aux["arr:scalar"] = self.scalar
        return self.run(st, self.im.by["buildNaf"], [self.spec])

    def spec(self, L, pr):
        fl = pr.flags()
        for k in counters(pr, 1):
            for a in fl:
                for b in fl:
                    if a != b and k not in (a, b): yield NafRows(self, pr.E, k, a, b)

    def post(self, s):
        g = s.aux.get("ghost:naf")
        if g is None: return [("the rows are written", False, "no loop writes the recoding")]
        i, left = g
        return [("all size + 2 rows are written", izero(s, i.p - self.n.p - 2), ""), ("nothing is left", izero(s, left), "")]


# ---------------------------------------------------------------- users of a recoding or of the bits of a scalar
class Digits:
    """Content of a recoding: digits 0, 1, 2 with S(e) = 2 S(e+1) + digit(e), S(0) = the scalar, S(e) = 0 above 8 size."""
    def __init__(self, ctx, V, n):
        self.ctx, self.V, self.n = ctx, V, n
        self.S, self.d, self.args = Ghost(ctx, "S"), {}, {}

    def at(self, s, e):
        ctx = s.m.ctx
        if e.is_const() and e.p.const() == 0: return self.V
        memo = s.aux.setdefault("pos", {})
        k = ("S", e.p.key())
        if k not in memo:
            memo[k] = 0 if ctx.implies(s.path, c_ge(e, ctx.add(ctx.scale(self.n, 8), wconst(1)))) else 1 if ctx.implies(s.path, c_eq(e, wconst(0))) else None
        if memo[k] == 0: return Poly()
        if memo[k] == 1: return self.V
        del memo[k]
        self.args[e.p.key()] = e
        return self.S.at(e.p)

    def settle(self, s):
        """The values of S at the ends, for the arguments used so far."""
        for e in list(self.args.values()):
            v = self.at(s, e)
            fact(s, self.S.at(e.p) - v)

    def load(self, s, off, size):
        if size != 1: raise Unsupported("a digit read in another width")
        k = off.p.key()
        a = self.d.get(k)
        if a is None: a = self.d[k] = self.ctx.atom("digit", 0, 2, "fresh")
        v = s.concretize(self.ctx.aword(a))
        fact(s, self.at(s, off) - self.at(s, self.ctx.add(off, wconst(1))) * 2 - (v - 3 if v == 2 else v))
        return wconst(v)

    def store(self, s, off, size, v): raise Unsupported("the recoding is changed after it was made")

    def known(self, s): return [(e, self.S.at(e.p)) for e in list(self.args.values())]


class Bits:
    """The bits of a scalar of n bytes: S(e) = 2 S(e+1) + bit(e), S(0) = the scalar, S(8n) = 0."""
    def __init__(self, ctx, scalar, V, n):
        self.ctx, self.scalar, self.V, self.n = ctx, scalar, V, n
        self.S, self.args = Ghost(ctx, "S"), {}

    def at(self, s, e):
        ctx = s.m.ctx
        if e.is_const() and e.p.const() == 0: return self.V
        if ctx.implies(s.path, c_ge(e, ctx.scale(self.n, 8))): return Poly()
        if ctx.implies(s.path, c_eq(e, wconst(0))): return self.V
        self.args[e.p.key()] = e
        return self.S.at(e.p)

    settle, known = Digits.settle, Digits.known

    def splits(self, b, g):
        ctx = g.m.ctx
        if b.scale != 1 or b.base is not None: return None
        out = []
        for c in range(8):
            e = ctx.aword(ctx.atom("e", -((c - b.cnt.lo.lo - 1) // 8), b.cnt.hi.hi // 8, "fresh"))      # above the lower bound
            out.append((ctx.add(ctx.scale(e, 8), wconst(c)), []))
        return out

    def unfold(self, b, s, i):
        """S at the position below the one the head stands for"""
        if b.scale != 1: return
        ctx = s.m.ctx
        j = ctx.sub(b.pos(s, i), wconst(1))
        if not ctx.implies(s.path, c_ge(j, wconst(0))) or not ctx.implies(s.path, c_ge(ctx.sub(ctx.scale(self.n, 8), j), wconst(1))): return
        e, c = ctx.split(j, 3)
        if not c.is_const(): return
        bit = ctx.split(ctx.split(self.scalar.byte(e), c.p.const())[0], 1)[1]
        fact(s, self.at(s, j) - self.at(s, ctx.add(j, wconst(1))) * 2 - bit.p)


class Power(Binding):
    """From the top: acc = S(pos) * base, pos = scale * counter + k (+ base); while the flag is off, S(pos) = 0 and there is no
    accumulator yet (or it still has its first value)."""
    name = "partial sums"

    def __init__(self, case, seq, cnt, scale, k, acc, fl=None, on=None, keep=None, base=None):
        self.c, self.seq, self.cnt, self.scale, self.k, self.acc, self.fl, self.on, self.keep, self.base = case, seq, cnt, scale, k, acc, fl, on, keep, base
        self.id = (cnt.k, scale, k, acc, fl, on, keep is not None, base is not None)

    def pos(self, s, i):
        ctx = s.m.ctx
        p = ctx.add(ctx.scale(i, self.scale) if self.scale != 1 else i, wconst(self.k))
        return p if self.base is None else ctx.add(p, self.base)

    def S(self, s, i): return self.seq.at(s, self.pos(s, i))

    def heads(self, g):
        n = self.cnt.span()
        if n is not None and n <= 16: return [(g.m.ctx.add(self.cnt.lo, wconst(x)), []) for x in range(n + 1)]
        r = self.seq.splits(self, g) if hasattr(self.seq, "splits") else None
        lo = self.cnt.lo
        if lo.is_const(): return [(lo, [])] + (r or [(g.m.ctx.aword(g.m.ctx.atom("i", lo.lo + 1, self.cnt.hi.hi, "fresh")), [])])
        return r or [(self.cnt.fresh_counter(g), [])]

    def general(self, g):
        ctx = g.m.ctx
        out = []
        for i, conds in self.heads(g):
            for f in ([None] if self.fl is None else [0, 1]):
                s = g.copy()
                self.cnt.set_counter(s, i)
                for c in conds: s.assume(c)
                if f is not None: put(s, self.fl, wconst(f))
                S = self.S(s, i)
                if self.acc is None or (f is not None and f != self.on):
                    fact(s, S)
                    if self.keep is not None: put(s, self.acc, self.keep)
                else: put(s, self.acc, GVal(S * self.c.base))
                out.append(s)
        return out

    def check(self, s, g):
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None: return out
        S = self.S(s, i)
        if hasattr(self.seq, "unfold") and g is not None: self.seq.unfold(self, s, self.cnt.val(g))
        f = None
        if self.fl is not None:
            f = getc(s, self.fl)
            if not isinstance(f, Word) or not f.is_const(): return out + [("flag is decided", False, "")]
            f = f.p.const()
        if self.acc is None or (f is not None and f != self.on):
            out.append(("nothing above this digit", izero(s, S), ""))
            if self.keep is not None: out.append(("the accumulator has its first value", same(getc(s, self.acc), self.keep), ""))
        else:
            v = getc(s, self.acc)
            out.append(("accumulator = S(%d i + %d) * base" % (self.scale, self.k), isinstance(v, GVal) and gzero(s, v.p - S * self.c.base), ""))
        return out


def power_spec(case, seq):
    def spec(L, pr):
        fl = [k for k in pr.flags()]
        ctx = pr.E.m.ctx
        for k in counters(pr, -1):
            e = position(ctx, getc(pr.E, k), k[2])
            for lo in (0, -1):
                cnt = Counted(k, -1, wconst(lo), e, pr.E)
                for a in pr.groups() or [None]:
                    v = getc(pr.E, a) if a is not None else None
                    # an accumulator that is S(p) * base for a position of an enclosing loop
                    for p, S in seq.known(pr.E):
                        if isinstance(v, GVal) and gzero(pr.E, v.p - S * case.base): yield Power(case, seq, cnt, 1, 0, a, base=ctx.sub(p, e))
                    for scale, ds in ((1, (1, 0, 2)), (8, (8, 0, 16))):
                        if scale != 1 and not hasattr(seq, "unfold"): continue
                        for d in ds:
                            yield Power(case, seq, cnt, scale, d, a)
                            for f in fl:
                                if f == k: continue
                                for on in (1, 0):
                                    if isinstance(v, GVal): yield Power(case, seq, cnt, scale, d, a, f, on, v)
                                    yield Power(case, seq, cnt, scale, d, a, f, on)
    return spec


class NafMul(LoopCase):
    def __init__(self, im, kind, alias):
        super().__init__(im, "mulByScalar(Point, %s)%s" % ("Point" if kind == "point" else "PointAffine", " in place" if alias else ""))
        ctx, m = self.ctx, self.m
        self.kind, self.alias = kind, alias
        self.n = ctx.input("size", 1, NMAX)
        self.V = ctx.apoly(ctx.atom("V", None, None, "ghost"))
        self.base = gatom(ctx, "base")
        self.bsize = 32 if kind == "point" else 16
        self.ops = install_group(m, im.dem, "Curve<AF>", {"Point": 32, "PointAffine": 16})
        m.contracts[im.by["buildNaf"]] = self.naf
        m.add_region("curve", None, init=lambda s, o, k: None)
        self.r = m.add_region("r", 32)
        self.b = self.r if alias else m.add_region("base", self.bsize)
        self.scal = m.add_region("scalar", self.n, arr=Arr("scalar"))
        self.allowed |= {"r"}

    def naf(self, s):
        m, ctx = self.m, self.ctx
        out, sc, n = _args(m, s, 3)
        R = m.regions.get(out.r) if isinstance(out, Ptr) and out.o == 0 else None
        if R is None or R.arr is None or out.r in s.freed: raise Unsupported("recoding into something else than an allocated array")
        n = ctx.uview(n, 32)
        need = ctx.add(ctx.scale(n, 8), wconst(16))
        if not ctx.unsat(s.path, c_ge(ctx.sub(need, wconst(1)), R.size if isinstance(R.size, Word) else wconst(R.size))): raise Fault("the buffer of the recoding may be too short")
        if not ctx.unsat(s.path, c_eq(n, wconst(0))): raise Fault("recoding of an empty scalar")
        V = self.V if sc == self.scal and n.p.key() == self.n.p.key() else ctx.apoly(ctx.atom("V_other", None, None, "ghost"))
        D = s.aux["arr:" + out.r] = Digits(ctx, V, n)
        s.aux["digits"] = D
        ret(m, s, None)

    def prove(self):
        st = self.boot([Ptr("curve", 0), self.r, self.b, self.scal, self.n])
        st.aux["arr:scalar"] = Plain()
        st._cells(self.b.r)[0] = (self.bsize, GVal(self.base))
        f = self.im.sym["v_mul_" + self.kind]
        fs = [f] + [a for k, a in self.im.dem.items() if "ByScalar" in k]
        return self.run(st, f, [self.spec], fs)

    def spec(self, L, pr):
        D = pr.E.aux.get("digits")
        return power_spec(self, D)(L, pr) if D is not None else []

    def post(self, s):
        v = gload(s, self.r, 32)
        D = s.aux.get("digits")
        if D is not None: D.settle(s)
        out = [("result = scalar * base", gzero(s, v - self.base * self.V), "")]
        if not self.alias:
            b = s.load(self.b, self.bsize)
            out.append(("base unchanged", isinstance(b, GVal) and (b.p - self.base).is_zero(), ""))
        return out


class FieldExp(LoopCase):
    """exp of a field class: the multiplicative group, written additively."""
    size = 16

    def __init__(self, im, name, cls, f, names=MULTIPLICATIVE, size=16):
        super().__init__(im, name)
        ctx, m = self.ctx, self.m
        self.f, self.size = f, size
        self.n = ctx.input("size", 1, NMAX)
        self.V = ctx.apoly(ctx.atom("V", None, None, "ghost"))
        self.base = gatom(ctx, "base")
        self.scalar = Bytes(ctx, "scalar")
        self.ops = install_group(m, im.dem, cls, {"Element": size}, names)
        m.add_region("this", None, init=lambda s, o, k: None)
        self.r, self.b = m.add_region("r", size), m.add_region("base", size)
        self.scal = m.add_region("scalar", self.n, arr=Arr("scalar"))
        self.allowed |= {"r"}
        self.seq = Bits(ctx, self.scalar, self.V, self.n)

    def prove(self):
        st = self.boot([Ptr("this", 0), self.r, self.b, self.scal, self.n])
        st.aux["arr:scalar"] = self.scalar
        st._cells("base")[0] = (self.size, GVal(self.base))
        return self.run(st, self.f, [power_spec(self, self.seq)])

    def post(self, s):
        v = gload(s, self.r, self.size)
        self.seq.settle(s)
        b = s.load(self.b, self.size)
        return [("result = base ^ scalar", gzero(s, v - self.base * self.V), ""), ("base unchanged", isinstance(b, GVal) and (b.p - self.base).is_zero(), "")]


from . import classproof


class RawExp(classproof.Base):
    """RawFr::exp, every scalar of every length; the raw routines enter as operations of the multiplicative group (F01 / F02)."""
    def __init__(self, be, alias=False):
        self.setup(be, "exp")
        self.name = "%s/RawFr::exp%s" % (be.kind, " in place" if alias else "")
        self.alias = alias
        m, ctx = self.m, self.ctx
        m.prune = True
        self.n = ctx.input("size", 1, NMAX)
        self.V = ctx.apoly(ctx.atom("V", None, None, "ghost"))
        self.base = gatom(ctx, "base")
        self.scalar = Bytes(ctx, "scalar")
        self.esize = 8 * be.F.n
        r = m.add_region("r", self.esize)
        b = r if alias else m.add_region("base", self.esize)
        sc = m.add_region("scalar", self.n, arr=Arr("scalar"))
        self.seq = Bits(ctx, self.scalar, self.V, self.n)
        st = self.boot([r, b, sc, self.n])
        st.aux["arr:scalar"] = self.scalar
        st._cells(b.r)[0] = (self.esize, GVal(self.base))
        st.written = {}
        for op, ar, f in (("rawMMul", 2, lambda a, b: a + b), ("rawMSquare", 1, lambda a: a * 2), ("rawCopy", 1, lambda a: a)):
            e = be.sym.get("Fr_" + op)
            if e is not None: m.contracts[e] = self.gop(ar, f)

    def gop(self, ar, f):
        def h(s):
            a = [ptrof(s, p) for p in _args(self.m, s, ar + 1)]
            v = f(*[self.value(s, p) for p in a[1:]])
            gstore(s, a[0], self.esize, v)
            ret(self.m, s, None)
        return h

    def value(self, s, p):
        c = s.mem.get(p.r, {}).get(p.o)
        if c is not None and isinstance(c[1], Word):
            x = 0
            for i in range(self.be.F.n):
                w = s.load(Ptr(p.r, p.o + 8 * i), 8)
                if not isinstance(w, Word) or not w.is_const(): raise Unsupported("a field element that is not an operand")
                x |= (w.p.const() & MASK[64]) << (64 * i)
            if x != self.be.F.R % self.be.F.q: raise Unsupported("a constant other than one")
            return Poly()
        return gload(s, p, self.esize)

    def prove(self):
        e = self.be.entry("k_exp")
        fs = [e] + [a for k, a in self.be.sym.items() if "RawFr" in k and "exp" in k]
        self.loops = Loops(self.m, fs, [power_spec(self, self.seq)])
        self.loops.verbose = getattr(self, "verbose", False)
        obls = []
        self.finals = self.m.explore(self.st, e)
        if not self.finals and not any(not o[1] for o in self.loops.obls): raise Unsupported("no path reaches the end")
        for s, fault in self.finals:
            if fault:
                obls.append(("safe", self.ctx.unsat(s.path), fault, s)); continue
            bad = self.m.abi_ok(s)
            obls.append(("calling convention", bad is None, bad or "", s))
            w = [r for r in s.written if r not in ("stack", "r")]
            obls.append(("frame", not w, "writes %s" % w, s))
            self.seq.settle(s)
            v = self.value(s, Ptr("r", 0))
            obls.append(("result = base ^ scalar", gzero(s, v - self.base * self.V), "", s))
        return self.loops.obls + obls
