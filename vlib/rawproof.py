"""Obligations of the raw field routines of one back end and one prime."""
import random, time, subprocess
from .core import *
from .machine import *
from .prove import *
from .fieldspec import *
from . import mpn, build
from .x86 import X86, decode
from .elf import Elf
from .fieldref import Field


def demangle(symbols):
    names = list(symbols)
    out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    r = {}
    for n, d in zip(names, out):
        d = d.split("(")[0]
        r.setdefault(d, symbols[n])
        r[n] = symbols[n]
    return r


class Backend:
    """One compiled back end: 'asm' (x86-64), 'gen' (portable C++ compiled), 'arm' (AArch64)."""

    def __init__(self, kind, d, q):
        self.kind, self.d, self.F = kind, d, FieldParams(q)
        if kind == "arm":
            from .arm import decode_arm
            path = build.arm_object(d)
            self.elf = Elf(path)
            self.ins = decode_arm(path, self.elf)
        else:
            path = build.asm_image(d) if kind == "asm" else build.generic_image(d)
            self.elf = Elf(path)
            self.ins = decode(path)
        self.sym = demangle(self.elf.symbols)
        self.summaries = {}

    def machine(self, ctx):
        if self.kind == "arm":
            from .arm import Arm
            m = Arm(ctx, self.elf, self.ins)
        else:
            m = X86(ctx, self.elf, self.ins)
            mpn.install(m, self.sym)
            if self.kind == "asm": m.symbolic_copy = True
        return m

    def entry(self, op):
        for n in ("Fr_" + op, "_Fr_" + op):
            if n in self.sym: return self.sym[n]
        return None


def unchanged(m, st, region, init_cells):
    """Is the final content of a region what it was at entry?"""
    for o, (sz, v) in init_cells.items():
        c = st.mem.get(region, {}).get(o)
        if c is None or c[0] != sz:
            w = st.load(Ptr(region, o), sz)
        else: w = c[1]
        if isinstance(v, Word) and isinstance(w, Word):
            if v.p.key() != w.p.key(): return False
        elif v != w: return False
    return True


def check_facts(ctx, ev, name):
    out = []
    for a in ctx.atoms:
        v = ev.atom(a.id)
        if not a.lo <= v <= a.hi:
            out.append("%s: atom %s outside its interval" % (name, a.name)); break
        for p, lo, hi in a.facts:
            x = ev(p)
            if (lo is not None and x < lo) or (hi is not None and x > hi):
                out.append("%s: fact of %s is false" % (name, a.name)); break
    for p, lo, hi in ctx.extra:
        if not lo <= ev(p) <= hi: out.append("%s: lemma is false" % name)
    return out


class RawCase:
    def __init__(self, be, op, alias, shift=None, wide=False):
        self.be, self.op, self.alias, self.spec = be, op, alias, RAWSPECS.get(op) or BITSPECS[op]
        self.shift = shift
        F = self.F = be.F
        ctx = self.ctx = Ctx(F.q, F.n)
        m = self.m = be.machine(ctx)
        spec = self.spec
        self.inputs = {}
        self.cells = {}
        size = 8 * F.n
        ptr = {}
        A = Bv = None
        self.S = None
        if "a" in spec.args:
            A, ids = canonical_input(ctx, F, "a", F.R if wide else None); self.inputs["a"] = ids
            ptr["a"] = m.add_region("a", size)
        if "b" in spec.args:
            if alias in ("ab", "rab"): Bv, ptr["b"] = A, ptr["a"]
            else:
                Bv, ids = canonical_input(ctx, F, "b"); self.inputs["b"] = ids
                ptr["b"] = m.add_region("b", size)
        self.A, self.B = A, Bv
        if "r" in spec.args:
            if alias in ("ra", "rab"): ptr["r"] = ptr["a"]
            elif alias == "rb": ptr["r"] = ptr["b"]
            else:
                ptr["r"] = m.add_region("r", size)
                if spec.swap:
                    self.Rin, ids = canonical_input(ctx, F, "r"); self.inputs["r"] = ids
        if shift is not None: self.S = wconst(shift)
        elif "s" in spec.args:
            lo, hi = spec.srange or (None, None)
            if op == "rawCopyS2L": a = ctx.atom("s", -(1 << 63), MASK[64] >> 1)
            else: a = ctx.atom("s", lo or 0, MASK[64])
            # short operands are 32-bit values in the callers; the routine itself must be right for every word below the prime
            if op in ("rawAddLS", "rawSubLS", "rawSubSL", "rawNegLS"):
                a.hi = min(a.hi, F.q - 1)
            if op == "rawCopyS2L":
                a.lo, a.hi = max(a.lo, -(F.q - 1)), min(a.hi, F.q - 1)
            self.inputs["s"] = [a.id]
            self.S = ctx.aword(a)
        self.ptr = ptr
        args = [ptr[k] if k in ptr else self.S for k in spec.args]
        st = self.st = m.start(args)
        for k, L in (("a", A), ("b", Bv)):
            if L is not None:
                for i, w in enumerate(L): st._cells(ptr[k].r)[8 * i] = (8, w)
        if spec.swap and "r" in self.inputs:
            for i, w in enumerate(self.Rin): st._cells("r")[8 * i] = (8, w)
        self.init = {r: dict(c) for r, c in st.mem.items()}

    def limbs(self, st, p):
        return [self.ctx.uview(st.load(Ptr(p.r, p.o + 8 * i), 8)) for i in range(self.F.n)]

    def run(self):
        """-> list of Obl"""
        be, op = self.be, self.op
        ctx, m, F, spec = self.ctx, self.m, self.F, self.spec
        cname = "%s/%s%s" % (be.kind, op, "[%s]" % self.alias if self.alias else "")
        obls = []
        e = be.entry(op)
        if e is None: return None
        self.finals = fin = m.explore(self.st, e)
        if spec.result: self.lemmas(fin)
        for pi, (st, fault) in enumerate(fin):
            P = "%s path %d" % (cname, pi)
            def ob(name, ok, why=""):
                obls.append(Obl(name, "ok" if ok else "failed", why, P, st))
            if fault:
                ob("safe", ctx.unsat(st.path), fault)
                continue
            bad = m.abi_ok(st)
            ob("calling convention", bad is None or ctx.unsat(st.path), bad or "")
            dest = {self.ptr["r"].r} if spec.dest and "r" in self.ptr else set()
            if spec.swap: dest.add("a")
            okf = True
            for r in list(st.written):
                if r in dest or r == "stack": continue
                if r.startswith("static:"):
                    okf = okf and self.static_unchanged(st, r)
                elif not unchanged(m, st, r, self.init.get(r, {})): okf = False
            ob("frame", okf or ctx.unsat(st.path), "writes an object other than the destination")
            A = comp(self.A) if self.A else None
            Bp = comp(self.B) if self.B else None
            if spec.swap:
                ra, rr = self.limbs(st, self.ptr["a"]), self.limbs(st, self.ptr["r"])
                wa = self.Rin if "r" in self.inputs else self.A
                ok = all((x.p - y.p).is_zero() for x, y in zip(ra, wa)) and all((x.p - y.p).is_zero() for x, y in zip(rr, self.A))
                ob("both operands exchanged", ok)
                continue
            if spec.ret:
                v = ctx.sview(m.retval(st), 32)
                if spec.ret == "eq": t = Cond("eq", A - Bp)
                elif spec.ret == "zero": t = Cond("eq", A)
                if spec.ret == "cmp":
                    goal = c_or(c_and(c_eq(v, wconst(0)), Cond("eq", A - Bp)), c_and(c_ge(v, wconst(1)), Cond("ge", A - Bp - 1)), c_and(c_ge(wconst(-1), v), Cond("ge", Bp - A - 1)))
                else:
                    z = c_eq(v, wconst(0))
                    goal = c_or(c_and(z.negate(), t), c_and(z, t.negate()))
                ob("answer", prove(ctx, st.path, goal))
                continue
            L = self.limbs(st, self.ptr["r"])
            Rv = comp(L)
            if spec.wide:
                W = comp(spec.wide(ctx, F, self.A, self.B, self.shift))
                known = []
                ob("result congruent to the masked integer", prove_congruent_zero(ctx, st.path, Rv - W, known=known))
                ob("result canonical", all(prove(ctx, known + st.path, Cond("ge", x)) for x in ((F.q - 1) - Rv, Rv)))
                continue
            if spec.exact:
                D = Rv - spec.exact(F, A, Bp)
                ob("result", prove_congruent_zero(ctx, st.path, D, modulus=F.R))
                continue
            D = Rv - spec.result(F, A, Bp, self.S.p if self.S else None)
            known = []
            ob("result congruent", prove_congruent_zero(ctx, st.path, D, known=known))
            ob("result canonical", all(prove(ctx, known + st.path, Cond("ge", x)) for x in ((F.q - 1) - Rv, Rv)))
        return obls

    def lemmas(self, fin):
        """Bounds 0 <= T < 2q of the value before the last conditional subtraction, proved once for all paths."""
        ctx, F, seen = self.ctx, self.F, set()
        A = comp(self.A) if self.A else None
        Bp = comp(self.B) if self.B else None
        want = self.spec.result(F, A, Bp, self.S.p if self.S else None)
        if len(fin) < 2: return
        for st, fault in fin:
            if fault: continue
            V = comp(self.limbs(st, self.ptr["r"]))
            small = {}
            for x in st.path:
                if x.p is not None:
                    lo, hi = ctx.bounds(x.p)
                    if x.lo is not None: lo = max(lo, x.lo)
                    if x.hi is not None: hi = min(hi, x.hi)
                    if -4 <= lo and hi <= 4: small[x.p.key()] = (x.p, -lo)
            for c in [V] + [V + (x + o) * F.R for x, o in small.values()] + [V - (x - o) * F.R for x, o in small.values()]:
                if c.key() in seen: continue
                seen.add(c.key())
                if len(seen) > 40: return
                if ctx.gf(c - want).is_zero() and not (ctx.bounds(c)[0] >= 0 and ctx.bounds(c)[1] < 2 * F.q):
                    if ctx.lemma(c, 0, 2 * F.q - 1): return

    def static_unchanged(self, st, r):
        base = self.m.regions[r]
        for o, (sz, v) in st.mem.get(r, {}).items():
            init = base.init(st, o, sz)[0][2]
            if not isinstance(v, Word) or v.p.key() != init.p.key(): return False
        return True

    # ---- self check: evaluate the terms on concrete inputs
    def selfcheck(self, rng, f, k=6, deadline=None):
        """-> (engine problems, value problems [(inputs, message)])"""
        F, ctx, spec = self.F, self.ctx, self.spec
        probs, vals = [], []
        self.checked = 0
        for _ in range(k):
            if deadline and time.time() > deadline: break
            env, conc = {}, {}
            for nm, ids in self.inputs.items():
                if nm == "s":
                    a = ctx.atoms[ids[0]]
                    v = rng.choice([a.lo, a.hi, rng.randrange(a.lo, a.hi + 1), min(a.hi, max(a.lo, 5))])
                    env[ids[0]] = v; conc["s"] = v
                else:
                    v = f.rand_value(rng)
                    if nm == "b" and self.op == "rawMMul" and conc.get("a") and rng.random() < .5:
                        v = f.rand_value(rng) * F.R * pow(conc["a"], -1, F.q) % F.q     # aim at a chosen product
                    conc[nm] = v
                    for i, x in enumerate(ids): env[x] = (v >> (64 * i)) & MASK[64]
            for a in ctx.atoms:
                if a.kind in ("undef", "fresh"): env[a.id] = rng.randrange(a.lo, a.hi + 1)
            ev = ctx.evaluator(env)
            sat = [(st, x) for st, x in self.finals if all(c.eval(ev) for c in st.path)]
            if len(sat) != 1:
                probs.append("%s: %d paths for one input" % (self.op, len(sat))); continue
            probs += check_facts(ctx, ev, self.op)
            self.checked += 1
            st, fault = sat[0]
            if fault: vals.append((conc, "fault: " + fault)); break
            out = []
            self.compare(ev, st, conc, out)
            if out: vals.append((conc, out[0])); break
        return probs, vals

    def compare(self, ev, st, conc, probs):
        """The terms evaluated on one input against the reference semantics."""
        spec, F, op = self.spec, self.F, self.op
        f = Field(F.q)
        a, s = conc.get("a"), conc.get("s", self.shift)
        b = conc.get("b", a)
        get = lambda p: sum(ev(w.p) << (64 * i) for i, w in enumerate(self.limbs(st, self.ptr[p])))
        tag = "VALUE %s%s" % (op, "[%s]" % self.alias if self.alias else "")
        if spec.swap:
            r = conc.get("r", a)
            if (get("r"), get("a")) != (a, r): probs.append("%s %r got %d, %d" % (tag, conc, get("r"), get("a")))
            return
        if spec.ret:
            v = ev(self.m.retval(st).p) & 0xffffffff
            v -= (v >> 31) << 32
            if spec.ret == "cmp": good = (v > 0) == (a > b) and (v < 0) == (a < b)
            else: good = (v != 0) == (a == b if spec.ret == "eq" else a == 0)
            if not good: probs.append("%s %r returned %d" % (tag, conc, v))
            return
        got = get("r")
        want = f.raw(op, a, b, s & MASK[64] if s is not None else None) if op != "rawSubSL" else (s - a) % F.q
        if got != want: probs.append("%s %r shift %r got %d want %d" % (tag, conc, self.shift, got, want))
