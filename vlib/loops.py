"""Loops with symbolic trip counts: cut at their heads by invariants.

A loop specification never names variables or stack slots: it binds its roles (counter, accumulator, flags) to the cells that the
body modifies, by what happens to them.  For each binding the invariant is established at the entry, assumed in an arbitrary state
(all modified cells forgotten) and shown to be preserved at every back edge; the exits go on from the arbitrary state."""
from .core import *
from .machine import *


# ---------------------------------------------------------------- group elements as linear forms
def gatom(ctx, name):
    return ctx.apoly(ctx.atom(name, None, None, "group"))


def gconst(p): return GVal(p)


def as_group(v):
    if isinstance(v, GVal): return v.p
    if isinstance(v, Word) and v.is_const() and v.p.const() == 0: return Poly()
    raise Fault("a group operation on something that is not an element (uninitialised?)")


def gsubst(s, p):
    """Apply the equations 'group atom = linear form' found on the path."""
    eqs = s.aux.get("geq")
    if not eqs: return p
    for a, e in eqs:
        rest, co = {}, {}
        for m, c in p.d.items():
            if a in m: co[tuple(x for x in m if x != a)] = c
            else: rest[m] = c
        if co: p = Poly(rest) + Poly(co) * e
    return p


def coefficients(ctx, p):
    out = {}
    for m, c in p.d.items():
        g = [i for i in m if ctx.atoms[i].kind == "group"]
        if len(g) != 1: raise Unsupported("not a linear form")
        out.setdefault(g[0], {})[tuple(i for i in m if i != g[0])] = c
    return {g: Poly(d) for g, d in out.items()}


def gzero(s, p):
    """Is the group element p zero on this path (as a form in independent elements)?"""
    ctx = s.m.ctx
    p = gsubst(s, p)
    for g, c in coefficients(ctx, p).items():
        if c.is_const(): return ctx.unsat(s.path)
        if not izero(s, c): return False
    return True


def izero(s, p):
    """Is the integer polynomial zero on this path?"""
    ctx = s.m.ctx
    if p.is_zero(): return True
    p = isubst(s, p)
    if p.is_zero(): return True
    return ctx.unsat(s.path, Cond("ne", p))


def shown(s, g, bad):
    """Is the condition bad impossible in s?  Tried first under the first conditions after the head state g, and remembered: most
    paths through a body share them."""
    ctx = s.m.ctx
    if bad.truth(ctx) is False: return True
    memo = ctx.__dict__.setdefault("shown_memo", {})
    n = len(g.path) if g is not None else len(s.path)
    for k in (n, n + 1, n + 2):
        if k >= len(s.path): break
        key = (ckey(bad), tuple(ckey(c) for c in s.path[:k]))
        r = memo.get(key)
        if r is None: r = memo[key] = ctx.unsat(s.path[:k], bad, ints=False)
        if r: return True
    return ctx.unsat(s.path, bad)


def isubst(s, p):
    """Eliminate atoms that the path equates with a polynomial (coefficient one)."""
    for c in s.path:
        if c.op != "eq": continue
        p = elim(p, c.p)
    return p


def elim(p, e):
    best = None
    for m, c in e.d.items():
        if len(m) == 1 and abs(c) == 1 and not any(m[0] in n for n in e.d if n != m):
            if best is None or m[0] > best[0]: best = (m[0], c)
    if best is None: return p
    a, c = best
    if not any(a in m for m in p.d): return p
    rhs = (Poly({k: v for k, v in e.d.items() if k != (a,)})) * (-c)
    for _ in range(4):
        rest, co = {}, {}
        for m, v in p.d.items():
            if a in m:
                l = list(m); l.remove(a)
                co[tuple(l)] = v
            else: rest[m] = v
        if not co: return p
        p = Poly(rest) + Poly(co) * rhs
    return p


# ---------------------------------------------------------------- cells and loops
def same(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, (Word, GVal)): return a.p.key() == b.p.key()
    return a == b


CALLEE = ("rbx", "rbp", "r12", "r13", "r14", "r15")


def cells(s, floor):
    """Everything a loop body may change, except the stack below its frame."""
    out = {}
    for r, c in s.mem.items():
        for o, (sz, v) in c.items():
            if r == "stack" and o < floor: continue
            out[(r, o, sz)] = v
    for r in CALLEE: out[("reg", r, 8)] = s.regs[r]
    for k, v in s.aux.items():
        if isinstance(k, str) and k.startswith(("arr:", "ghost:")): out[("aux", k, 0)] = v
    return out


def changed(a, b, floor):
    ca, cb = cells(a, floor), cells(b, floor)
    out = set()
    for k in ca.keys() | cb.keys():
        if k not in ca and k[0] != "aux":
            # a cell that was never read before: written in the body, or only materialised
            if (k[1], k[2]) in b.written.get(k[0], ()) or k[0] in b.written: out.add(k)
            continue
        if k not in ca or k not in cb or not same(ca[k], cb[k]): out.add(k)
    return out


def put(s, k, v):
    r, o, sz = k
    if r == "reg": s.regs[o] = v
    elif r == "aux":
        if v is None: s.aux.pop(o, None)
        else: s.aux[o] = v
    else:
        c = s._cells(r)
        for x in [x for x in c if x < o + sz and x + c[x][0] > o]: del c[x]
        c[o] = (sz, v)


def getc(s, k):
    r, o, sz = k
    if r == "reg": return s.regs[o]
    if r == "aux": return s.aux.get(o)
    c = s.mem.get(r, {}).get(o)
    if c is not None and c[0] == sz: return c[1]
    return s.load(Ptr(r, o), sz)


class Probe:
    """What one run of the body from the entry state shows."""
    def __init__(self, E, arrivals, exits, M, floor):
        self.E, self.arrivals, self.exits, self.M, self.floor = E, arrivals, exits, M, floor

    def deltas(self):
        """cell -> constant change per iteration, for words changed by the same non-zero constant on every path"""
        out = {}
        for k in self.M:
            if k[0] == "aux": continue
            a = getc(self.E, k)
            if not isinstance(a, Word): continue
            d = set()
            for s in self.arrivals:
                b = getc(s, k)
                if not isinstance(b, Word): d.add(None); break
                x = b.p - a.p
                d.add(x.const() if x.is_const() else None)
            if len(d) == 1 and None not in d and 0 not in d: out[k] = d.pop()
        return out

    def flags(self):
        """cells that hold 0 or 1 (never anything else) at the entry and after an iteration"""
        out = []
        for k in self.M:
            if k[0] == "aux": continue
            vs = [getc(self.E, k)] + [getc(s, k) for s in self.arrivals]
            if all(isinstance(v, Word) and 0 <= v.lo and v.hi <= 1 for v in vs): out.append(k)
        return out

    def groups(self):
        out = []
        for k in self.M:
            if k[0] in ("aux", "reg"): continue
            vs = [getc(self.E, k)] + [getc(s, k) for s in self.arrivals]
            if any(isinstance(v, GVal) for v in vs): out.append(k)
        return out


class Obls(list):
    pass


class Binding:
    """One way to read a loop: general(s) sets up an arbitrary state of the invariant, check(s, entry) -> [(name, ok, why)]."""
    name = "loop"
    id = None

    def general(self, s): pass

    def check(self, s, entry): return []


UNROLL = 20000


class Loops:
    def __init__(self, m, functions, specs, sym=None):
        """functions: entry addresses whose loops are to be found; specs: callables(loops, probe) -> iterable of Bindings"""
        self.m, self.specs = m, specs
        self.heads, self.body = set(), {}
        self.obls = []
        self.declined = []
        self.used = []
        self.stack = []
        self.grown = set()
        self.unrolled = 0
        self.recording = True
        self.verbose = False
        m.cuts = self
        for f in functions: self.find(f)

    # ---- control-flow graph
    def succ(self, a):
        I = self.m.ins.get(a)
        if I is None: return []
        mn, ops, pre, nxt = I
        if mn in ("ret", "ud2", "hlt"): return []
        if mn == "jmp": return [ops[0][1]] if ops[0][0] == "i" else []
        if mn[0] == "j" and ops and ops[0][0] == "i": return [nxt, ops[0][1]]
        return [nxt]

    def find(self, f):
        seen, onpath, back = set(), set(), []
        pred = {}
        st = [(f, iter(self.succ(f)))]
        seen.add(f); onpath.add(f)
        while st:
            a, it = st[-1]
            b = next(it, None)
            if b is None:
                onpath.discard(a); st.pop(); continue
            pred.setdefault(b, set()).add(a)
            if b in onpath: back.append((a, b))
            elif b not in seen:
                seen.add(b); onpath.add(b)
                st.append((b, iter(self.succ(b))))
        for a, h in back:
            body = self.body.setdefault(h, {h})
            work = [a]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x); work += pred.get(x, ())
            self.heads.add(h)

    # ---- called before every instruction
    def tick(self, s):
        at = s.aux.get("at")
        if at is not None and s.pc != at: s.aux["at"] = None
        ls = s.aux.get("loops")
        if ls:
            while ls:
                h, lv, i = ls[-1]
                if s.pc in self.body[h]: break
                sp = s.regs["rsp"]
                if sp.o < lv: break                    # in a callee
                ls = s.aux["loops"] = ls[:-1]          # (states share the list)
                s.aux["skip"] = {k: v for k, v in s.aux.get("skip", {}).items() if k[1] < lv}
                if i is not None and self.stack and self.stack[-1]["id"] == i:
                    self.stack[-1]["exits"].append(s.copy())
                    raise Dead()
        if s.pc in self.heads and s.aux.get("at") != s.pc: self.arrive(s)

    def arrive(self, s):
        lv = s.regs["rsp"].o
        key = (s.pc, lv)
        for h, l, i in s.aux.get("loops", ()):
            if (h, l) == key:
                s.aux["at"] = s.pc
                if i is None:                          # unrolled
                    self.unrolled += 1
                    if self.unrolled > getattr(self.m, "unroll", UNROLL): raise Unsupported("a loop that is not read, and that runs too long to be unrolled")
                    return
                if self.stack and self.stack[-1]["id"] == i:
                    self.stack[-1]["arrivals"].append(s.copy())
                raise Dead()
        s.aux["at"] = s.pc
        self.enter(s, key)

    def bodyrun(self, s0, key):
        """Run the body once from a state at the head -> (arrivals, exits, finished)."""
        s = s0.copy()
        self.nid = getattr(self, "nid", 0) + 1
        fr = dict(id=self.nid, arrivals=[], exits=[])
        s.aux["loops"] = list(s.aux.get("loops", [])) + [(key[0], key[1], self.nid)]
        s.aux["at"] = key[0]
        self.stack.append(fr)
        try: done = self.m.run(s, None)
        finally: self.stack.pop()
        return fr["arrivals"], fr["exits"], done

    def enter(self, s, key):
        outer = self.grown
        try: return self.enter_(s, key)
        finally: self.grown = outer

    def enter_(self, s, key):
        floor = key[1]
        rec, self.recording = self.recording, False
        nobl, ndec = len(self.obls), len(self.declined)
        try:
            arr, exits, done = self.bodyrun(s, key)
        except Unsupported as e:
            return self.decline(s, key, "body from the entry: %s" % e)
        finally:
            self.recording = rec
            del self.obls[nobl:], self.declined[ndec:]
        M = set()
        for a in arr: M |= changed(s, a, floor)
        pr = Probe(s, arr, exits, M, floor)
        if not arr:
            arr, exits, done = self.bodyrun(s, key)
            raise Replace([strip(e, key) for e in exits], done)
        good = self.__dict__.setdefault("good", {})
        for rnd in range(3):
            best = None
            self.grown = set()
            for spec in self.specs:
                bs = list(spec(self, pr))
                bs.sort(key=lambda b: (key[0], b.name, b.id) not in good)
                for b in bs:
                    r = self.attempt(s, key, b, set(M), floor, rnd < 2)
                    if not self.grown <= M: best = None; break
                    if r is None: continue
                    obls, states, done = r
                    bad = [o for o in obls if not o[1]]
                    dec = getattr(obls, "declined", None)
                    if dec and not bad: bad = [("inner loop not read", False, "", None)]
                    if self.verbose: print("%sloop %#x: %s %s: %d obligations, %d paths, %d failed %s" % ("  " * len(self.stack), key[0], b.name, b.id, len(obls), len(states), len(bad), [x[0] + " " + x[2] for x in bad[:3]]))
                    if not bad: best = (0, b, r); good[(key[0], b.name, b.id)] = True; break
                    est = any(o[0].startswith("entry") for o in bad)
                    rank = (2 if est else 1, len(bad))
                    if best is None or (best[0] != 0 and rank < best[3]): best = (rank[0], b, r, rank)
                if best is not None and best[0] == 0 or not self.grown <= M: break
            # cells that change only in later iterations: read the loop again with them
            if best is not None and best[0] == 0 or self.grown <= M: break
            M |= self.grown
            pr = Probe(s, arr, exits, M, floor)
        if best is None: return self.decline(s, key, "no specification")
        if best[0] == 2: return self.decline(s, key, "no reading of the loop holds at its entry (%s)" % best[1].name)
        obls, states, done = best[2]
        self.used.append((key[0], best[1].name))
        if self.recording:
            for n, ok, why, st in obls: self.obls.append(((best[1].name + ": " if not n.startswith("inner ") else "") + n, ok, why, st))
            self.declined += getattr(obls, "declined", [])
        if self.verbose: print("%s-> %s %s rec %s, obls %d" % ("  " * len(self.stack), best[0], best[1].id, self.recording, len(self.obls)))
        raise Replace(states, done)

    def decline(self, s, key, why):
        if self.verbose: print("loop %#x declined: %s" % (key[0], why))
        self.declined.append((key[0], why))
        s.aux["loops"] = list(s.aux.get("loops", [])) + [(key[0], key[1], None)]

    def attempt(self, s, key, b, M, floor, regrow=False):
        """-> (obligations, states that leave the loop, finished states) or None when the reading does not apply"""
        ctx = self.m.ctx
        obls = []
        rec = self.recording
        nobl0, ndec0 = len(self.obls), len(self.declined)
        try:
            for n, ok, why in b.check(s, None):
                obls.append(("entry: " + n, ok, why, s))
            if not all(o[1] for o in obls): return obls, [], []
            for rnd in range(5):
                del self.obls[nobl0:], self.declined[ndec0:]
                g = s.copy()
                for k in M: self.forget(g, k, rnd)
                for r in ("rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11"): g.regs[r] = ctx.aword(ctx.atom("hv_" + r, 0, MASK[64], "undef"))
                g.flags = None
                for o in [o for o in g._cells("stack") if o < floor]: del g.mem["stack"][o]
                g.dec = {k: v for k, v in g.dec.items()}
                heads = b.general(g) or [g]
                new, arr, exits, done = set(), [], [], []
                for h in heads:
                    a1, e1, d1 = self.bodyrun(h, key)
                    for a in a1: new |= changed(h, a, floor)
                    arr += [(a, h) for a in a1]; exits += e1; done += d1
                if new <= M: break
                M |= new
                self.grown |= new
                if regrow: return None
            else: return None
            # what the loops inside found
            inner, dec = self.obls[nobl0:], self.declined[ndec0:]
            out = Obls(list(obls) + [("inner " + n if not n.startswith("inner ") else n, ok, why, st) for n, ok, why, st in inner])
            out.declined = dec
            if not arr and not exits and not done: raise Unsupported("the body of the loop leads nowhere")
            nbad = 0
            for a, h in arr:
                for n, ok, why in b.check(a, h):
                    out.append(("kept: " + n, ok, why, a))
                    nbad += not ok
                if nbad >= 4: break
            for st, fault in done:      # a reading under which the body can go wrong is too weak
                if fault and not ctx.unsat(st.path): out.append(("safe", False, fault, st))
            return out, [strip(e, key) for e in exits], done
        except Unsupported as e:
            if self.verbose: print("   %s: unsupported %s" % (b.name, e))
            return None
        finally: del self.obls[nobl0:], self.declined[ndec0:]

    def forget(self, s, k, rnd):
        ctx = self.m.ctx
        r, o, sz = k
        if r == "aux": return
        old = getc(s, k)
        if isinstance(old, GVal): v = GVal(gatom(ctx, "hv_%s_%s" % (r, o)))
        elif isinstance(old, (Ptr, SPtr)): v = Stale("a pointer changed by the loop")
        else: v = ctx.aword(ctx.atom("hv_%s_%s" % (r, o), 0, (1 << (8 * sz)) - 1, "undef"))
        put(s, k, v)


class Stale:
    """The content of a cell the invariant says nothing about and that is not a number."""
    def __init__(self, why): self.why = why


def strip(s, key):
    s.aux["loops"] = [x for x in s.aux.get("loops", []) if (x[0], x[1]) != key]
    return s
