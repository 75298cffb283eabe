"""Symbolic machine state shared by the x86-64 and AArch64 front ends: regions of memory, paths, forks, calls."""
from math import gcd
from .core import *


class ForkOn(Exception):
    def __init__(self, cond):
        self.cond = cond


class ForkVals(Exception):
    """Fork on the value of a word: one path per value in vals."""
    def __init__(self, word, vals):
        self.word, self.vals = word, vals


class Replace(Exception):
    """The path goes on as several states (a loop left in several ways)."""
    def __init__(self, states, done):
        self.states, self.done = states, done


class Fault(Exception):
    """The code does something the contract forbids on this path (memory outside its objects, abort, ...)."""


def ckey(c):
    if c.op == "const": return ("const", c.p)
    if c.sub is not None: return (c.op,) + tuple(ckey(x) for x in c.sub)
    return (c.op, c.p.key())


class Region:
    def __init__(self, name, size, kind="object", init=None, arr=None):
        self.name, self.size, self.kind, self.init, self.arr = name, size, kind, init, arr


class State:
    def __init__(self, mach):
        self.m = mach
        self.regs, self.flags = {}, None
        self.mem = {}          # region -> {off: (size, val)}
        self.written = {}      # region -> set of (off, size)
        self.path = []         # conditions
        self.dec = {}
        self.pc = None
        self.steps = 0
        self.nfresh = 0
        self.events = []
        self.heap = 0
        self.freed = set()
        self.aux = {}

    def copy(self):
        s = State.__new__(State)
        s.m, s.regs, s.flags = self.m, dict(self.regs), self.flags
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.written = {k: set(v) for k, v in self.written.items()}
        s.path, s.dec = list(self.path), dict(self.dec)
        s.pc, s.steps, s.nfresh, s.events, s.heap = self.pc, self.steps, self.nfresh, list(self.events), self.heap
        s.freed = set(self.freed)
        s.aux = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in self.aux.items()}
        return s

    # ---- conditions
    def assume(self, c):
        self.path.append(c)
        self.dec[ckey(c)] = True
        self.dec[ckey(c.negate())] = False
        if c.op == "and":
            for x in c.sub:
                self.dec[ckey(x)] = True
                self.dec[ckey(x.negate())] = False

    def known(self, c):
        t = c.truth()
        if t is not None: return t
        return self.dec.get(ckey(c))

    def decide(self, c):
        t = self.known(c)
        if t is None: raise ForkOn(c)
        return t

    def concretize(self, w, limit=None):
        """A constant for the word, forking over its possible values."""
        limit = limit or self.m.enum_limit
        if not isinstance(w, Word): raise Unsupported("pointer used as number")
        if w.is_const(): return w.p.const()
        k = ("val", w.p.key())
        if k in self.dec: return self.dec[k]
        g = 0
        for m, c in w.p.d.items():
            if m: g = gcd(g, c)
        lo = w.lo + (w.p.d.get((), 0) - w.lo) % g
        if (w.hi - lo) // g > limit: raise Unsupported("cannot enumerate a word")
        raise ForkVals(w, range(lo, w.hi + 1, g))

    # ---- memory
    def region(self, name):
        return self.m.regions[name]

    def _cells(self, r):
        c = self.mem.get(r)
        if c is None: c = self.mem[r] = {}
        return c

    def check(self, p, size, write):
        R = self.m.regions.get(p.r)
        if R is None: raise Unsupported("unknown region %s" % p.r)
        if p.r in self.freed: raise Fault("use of freed memory")
        if R.size is not None and not (0 <= p.o and p.o + size <= R.size):
            raise Fault("%s of %d bytes at offset %d of the %d-byte object %s" % ("write" if write else "read", size, p.o, R.size, p.r))
        if R.kind == "stack" and p.o + size > 0 and write and p.o < 8 and self.m.stack_guard:
            raise Fault("write above the stack frame at %+d" % p.o)

    def load(self, p, size):
        ctx = self.m.ctx
        if isinstance(p, Word):
            if not p.is_const(): raise Unsupported("load through a symbolic address")
            p = self.m.static_ptr(p.p.const())
        R = self.m.regions.get(p.r)
        if R is not None and R.arr is not None: return R.arr.load(self, self.arr_off(R, p, size, False), size)
        self.check(p, size, False)
        cells = self._cells(p.r)
        c = cells.get(p.o)
        if c is not None and c[0] == size: return c[1]
        # collect pieces
        res, pos, end = None, p.o, p.o + size
        while pos < end:
            cov = None
            for back in range(0, 16):
                c = cells.get(pos - back)
                if c is not None and c[0] > back:
                    cov = (pos - back, c); break
            if cov is None:
                # materialize an initial cell
                lim = min((o for o in cells if o > pos), default=end)
                self._materialize(p.r, pos, min(end, max(lim, pos + 1)) - pos)
                continue
            o, (sz, v) = cov
            if o == p.o and sz == size: return v
            take = min(end, o + sz) - pos
            if isinstance(v, Ptr): raise Unsupported("partial pointer load")
            if isinstance(v, GVal) and take == size: return GPart(v, sz, pos - o, size)
            if isinstance(v, GPart) and take == size: return GPart(v.v, v.n, v.o + pos - o, size)
            if isinstance(v, (GVal, GPart)): return self._assemble(p, size)
            if not isinstance(v, Word): raise Unsupported("partial load of an abstract value")
            w = ctx.uview(v, 8 * sz)
            if pos > o: w = ctx.split(w, 8 * (pos - o))[0]
            if take < o + sz - pos: w = ctx.split(w, 8 * take)[1]
            w = ctx.scale(w, 1 << (8 * (pos - p.o)))
            res = w if res is None else ctx.add(res, w)
            pos += take
        return res

    def _assemble(self, p, size):
        """A whole abstract value from the parts it was copied in."""
        cells, pos, v = self._cells(p.r), p.o, None
        while pos < p.o + size:
            c = cells.get(pos)
            if c is None or not isinstance(c[1], GPart): raise Unsupported("mixed parts of abstract values")
            x = c[1]
            if x.o != pos - p.o or x.n != size or (v is not None and v.p.key() != x.v.p.key()): raise Unsupported("mixed parts of abstract values")
            v = x.v
            pos += c[0]
        return v

    def arr_off(self, R, p, size, write):
        """The byte offset of an access to an array region, shown to be inside it."""
        w = p.w if isinstance(p, SPtr) else wconst(p.o)
        if R.name in self.freed: raise Fault("use of freed memory")
        ctx = self.m.ctx
        n = R.size if isinstance(R.size, Word) else wconst(R.size) if R.size is not None else None
        k = (R.name, w.p.key(), size, len(self.path))
        ok = self.m.inside.get(k)
        if ok is None:
            ok = self.m.inside[k] = ctx.unsat(self.path, c_ge(wconst(-1), w)) and (n is None or ctx.unsat(self.path, c_ge(ctx.add(w, wconst(size - 1)), n)))
        if not ok and self.m.lenient and self.m.lenient(self): return w
        if not ok: raise Fault("%s of %d bytes not shown to be inside the array %s" % ("write" if write else "read", size, R.name))
        return w

    def _materialize(self, r, off, size):
        R = self.m.regions[r]
        cells = self._cells(r)
        if R.init is not None:
            v = R.init(self, off, size)
            if v is not None:
                for o, s, x in v: cells[o] = (s, x)
                return
        # uninitialized memory: an unknown value per location
        w = self.m.undef(r, off, size)
        cells[off] = (size, w)

    def store(self, p, size, v):
        ctx = self.m.ctx
        if isinstance(p, Word):
            if not p.is_const(): raise Unsupported("store through a symbolic address")
            p = self.m.static_ptr(p.p.const())
        R = self.m.regions.get(p.r)
        if R is not None and R.arr is not None:
            R.arr.store(self, self.arr_off(R, p, size, True), size, v)
            self.written.setdefault(p.r, set()).add((None, size))
            return
        self.check(p, size, True)
        if isinstance(v, Word): v = ctx.uview(v, 8 * size)
        cells = self._cells(p.r)
        # initial contents that this store covers partially must be kept
        end = p.o + size
        for o in list(range(p.o - 15, end)):
            c = cells.get(o)
            if c is None or o + c[0] <= p.o: continue
            sz, old = c
            if o >= p.o and o + sz <= end:
                del cells[o]; continue
            if isinstance(old, Ptr): old = ctx.aword(ctx.atom("ptrbits", 0, (1 << (8 * sz)) - 1, "undef"))   # the rest of an overwritten address: any bytes
            if isinstance(old, (GVal, GPart)):
                del cells[o]
                for a, b in ((o, p.o), (end, o + sz)):
                    for x in range(a, b, 8): cells[x] = (min(8, b - x), GPart(old, sz, x - o, min(8, b - x)) if isinstance(old, GVal) else GPart(old.v, old.n, old.o + x - o, min(8, b - x)))
                continue
            if not isinstance(old, Word): raise Unsupported("partial overwrite of a non-integer")
            del cells[o]
            w = ctx.uview(old, 8 * sz)
            if o < p.o: cells[o] = (p.o - o, ctx.split(w, 8 * (p.o - o))[1])
            if o + sz > end: cells[end] = (o + sz - end, ctx.split(w, 8 * (end - o))[0])
        cells[p.o] = (size, v)
        self.written.setdefault(p.r, set()).add((p.o, size))

    def fresh(self, name, lo, hi):
        a = self.m.ctx.atom(name, lo, hi, "fresh")
        return self.m.ctx.aword(a)


class Machine:
    stack_guard = True
    lenient = None          # accesses of a first look at a loop, whose states are never kept
    enum_limit = 80
    prune_ints = False      # paths are given up only on a proof over the rationals (cheap)

    def __init__(self, ctx, image):
        self.ctx, self.image = ctx, image
        self.regions = {}
        self.contracts = {}        # address -> handler(state) -> None (performs effect); the machine then returns to the caller
        self.max_steps = 400000
        self.max_paths = 6000
        self.prune = False
        self.undefs = {}
        self.inside = {}
        self.cuts = None
        self.add_region("stack", None, "stack")
        self.static = {}

    def add_region(self, name, size, kind="object", init=None, arr=None):
        self.regions[name] = Region(name, size, kind, init, arr)
        return Ptr(name, 0)

    def undef(self, r, off, size):
        k = (r, off, size)
        w = self.undefs.get(k)
        if w is None:
            a = self.ctx.atom("undef_%s_%d" % (r, off), 0, (1 << (8 * size)) - 1, "undef")
            w = self.undefs[k] = self.ctx.aword(a)
        return w

    def static_ptr(self, addr):
        s = self.image.section_at(addr & MASK[64])
        if s is None: raise Fault("access to address %#x outside every object" % (addr & MASK[64]))
        name = "static:" + s["name"]
        if name not in self.regions:
            data, base = s["data"], s["addr"]

            def init(st, off, size, data=data):
                return [(off, size, wconst(int.from_bytes(data[off:off + size], "little")))]
            self.add_region(name, s["size"], "static", init)
        return Ptr(name, (addr & MASK[64]) - s["addr"])

    # ---- running
    def run(self, st, entry):
        """Execute from entry until the outermost return; returns the list of (final state, None | fault message)."""
        if entry is not None: st.pc = entry
        out, work = [], [st]
        while work:
            s = work.pop()
            try:
                while True:
                    s.steps += 1
                    if s.steps > self.max_steps: raise Unsupported("step limit")
                    try:
                        if self.cuts is not None: self.cuts.tick(s)
                        done = self.step(s)
                    except ForkOn as f:
                        c = f.cond
                        keep = []
                        for cc in (c, c.negate()):
                            if self.prune and len(s.path) >= 1 and self.ctx.unsat(s.path, cc, ints=self.prune_ints): continue
                            keep.append(cc)
                        if not keep: raise Dead()
                        if len(keep) == 2:
                            s2 = s.copy()
                            s2.assume(keep[1])
                            work.append(s2)
                        s.assume(keep[0])
                        if len(work) + len(out) > self.max_paths: raise Unsupported("too many paths")
                        continue
                    except ForkVals as f:
                        first = True
                        alts = []
                        for v in f.vals:
                            cc = Cond("eq", f.word.p - v, f.word.lo - v, f.word.hi - v)
                            if self.prune and self.ctx.unsat(s.path, cc, ints=self.prune_ints): continue
                            alts.append((v, cc))
                        if not alts: raise Dead()
                        for v, cc in alts[1:]:
                            s2 = s.copy()
                            s2.assume(cc); s2.dec[("val", f.word.p.key())] = v
                            work.append(s2)
                        v, cc = alts[0]
                        s.assume(cc); s.dec[("val", f.word.p.key())] = v
                        continue
                    if done: break
                out.append((s, None))
            except Dead:
                pass
            except Replace as r:
                work += r.states
                out += r.done
            except Fault as e:
                out.append((s, str(e)))
        return out


class Dead(Exception):
    """An infeasible path."""
