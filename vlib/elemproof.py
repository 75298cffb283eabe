"""Obligations of the tagged element operations of one back end and one prime.

One case per operation, representation of each operand and sign of each short value; inside a case every value is symbolic.
The multiplicative and additive raw routines are entered through their contracts (which F01 / F02 discharge); everything else the
operation calls is executed."""
import time
from .core import *
from .machine import *
from .prove import *
from .fieldspec import *
from .rawproof import RawCase, check_facts, unchanged
from .fieldref import Field, SHORT, SMONT, LONG, LMONT, TNAME
from .x86 import R64

# representation codes: short / short Montgomery with the sign of the value, long, long Montgomery
REPS = ("s+", "s-", "m+", "m-", "L", "M")
TYPE = {"s+": SHORT, "s-": SHORT, "m+": SMONT, "m-": SMONT, "L": LONG, "M": LMONT}
CUT = ("rawAdd", "rawSub", "rawNeg", "rawMMul", "rawMSquare", "rawMMul1", "rawToMontgomery", "rawFromMontgomery")
ARITH = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "neg": lambda a, b: -a, "square": lambda a, b: a * a}
CONV = ("copy", "toNormal", "toLongNormal", "toMontgomery")
COMPARE = ("eq", "neq", "lt", "gt", "leq", "geq", "land", "lor", "lnot")
BITS = {"band": "rawAnd", "bor": "rawOr", "bxor": "rawXor", "bnot": "rawNot"}
TWO = {"add", "sub", "mul", "eq", "neq", "lt", "gt", "leq", "geq", "land", "lor", "band", "bor", "bxor", "shl", "shr"}
FORM = {"toNormal": (SHORT, SMONT, LONG), "toLongNormal": (LONG,), "toMontgomery": (SMONT, LMONT)}


def preserved(be, op):
    """Registers the current code of a raw routine leaves as they were (inferred by executing it for all inputs)."""
    k = ("keep", op)
    if k not in be.summaries:
        c = RawCase(be, op, "", None)
        fin = c.m.explore(c.st, be.entry(op))
        keep = set(R64) - {"rsp"}
        for st, fault in fin:
            if fault: continue
            keep = {r for r in keep if same(st.regs[r], c.m.init_regs[r])}
        be.summaries[k] = keep
    return be.summaries[k]


def same(a, b):
    if isinstance(a, Word) and isinstance(b, Word): return a.p.key() == b.p.key()
    return isinstance(a, Ptr) and a == b


def raw_contract(case, op):
    """Enter a raw routine through its contract."""
    be, F, ctx = case.be, case.F, case.ctx
    spec = RAWSPECS[op]
    size = 8 * F.n
    keep = preserved(be, op) if be.kind == "asm" else set()

    def handler(s):
        m = s.m
        regs = [s.regs[r] for r in ("rdi", "rsi", "rdx", "rcx")[:len(spec.args)]]
        arg = dict(zip(spec.args, regs))
        ptrs = {}
        for k, v in arg.items():
            if k == "s": continue
            if isinstance(v, Word):
                if not v.is_const(): raise Unsupported("symbolic pointer to %s" % op)
                v = m.static_ptr(v.p.const())
            ptrs[k] = v
        for x in ptrs.values():
            if x.r != ptrs["r"].r: continue
            if x.o != ptrs["r"].o and abs(x.o - ptrs["r"].o) < size: s.events.append(("pre", "%s: operands overlap in part" % op))
        val = {}
        for k, p in ptrs.items():
            if k == "r": continue
            L = [ctx.uview(s.load(Ptr(p.r, p.o + 8 * i), 8)) for i in range(F.n)]
            c = comp(L)
            if not (op in WIDE and k == "a" and F.n == 1 and wide_ok(be, op)) and not case.is_canonical(c, s.path): s.events.append(("pre", "operand %s of %s is not shown to be below the prime" % (k, op)))
            val[k] = c
        S = ctx.uview(arg["s"]).p if "s" in arg else None
        res = ctx.canon(spec.result(F, val.get("a"), val.get("b"), S))
        r = ptrs["r"]
        for i, w in enumerate(res): s.store(Ptr(r.r, r.o + 8 * i), 8, w)
        m.clobber(s, keep)
        for x in ("rbx", "rbp", "r12", "r13", "r14", "r15"):
            if be.kind == "asm" and x not in keep: s.regs[x] = ctx.aword(ctx.atom("clob_" + x, 0, MASK[64], "undef"))
    return handler


WIDE = ("rawToMontgomery",)


def wide_ok(be, op):
    """With one limb: the routine is right for every word, below the prime or not (RawFr::fromUI relies on it)."""
    k = ("wide", op)
    if k not in be.summaries:
        try:
            sp = RAWSPECS[op]
            o = [x for al in sp.aliases for x in RawCase(be, op, al, None, True).run()]
            be.summaries[k] = bool(o) and all(x.status == "ok" for x in o)
        except Unsupported: be.summaries[k] = False
    return be.summaries[k]


def shift_min(be, op):
    """The smallest amount the raw shift is right for (0 where the routine itself handles it)."""
    k = ("min", op)
    if k not in be.summaries:
        try:
            o = RawCase(be, op, "", 0).run()
            be.summaries[k] = 0 if o and all(x.status == "ok" for x in o) else 1
        except Unsupported: be.summaries[k] = 1
    return be.summaries[k]


def shift_contract(case, op):
    """Enter a raw shift routine through its contract: amount from shift_min to bits - 1, destination distinct from the operand."""
    be, F, ctx = case.be, case.F, case.ctx
    size = 8 * F.n
    keep = preserved_shift(be, op) if be.kind == "asm" else set()
    f = Field(F.q)

    def limb(j):
        def fn(S, *limbs):
            a = sum(l << (64 * i) for i, l in enumerate(limbs))
            S &= MASK[64]
            v = (f.fold(a << S) if op == "rawShl" else a >> S) if S < F.bits else 0
            return (v >> (64 * j)) & MASK[64]
        return fn

    def handler(s):
        m = s.m
        r, a, n = s.regs["rdi"], s.regs["rsi"], s.regs["rdx"]
        if isinstance(n, Ptr): raise Unsupported("pointer as shift amount")
        r, a = (x if isinstance(x, Ptr) else m.static_ptr(x.p.const()) for x in (r, a))
        if r.r == a.r and abs(r.o - a.o) < size: s.events.append(("pre", "%s in place" % op))
        S = ctx.uview(n)
        lo = shift_min(be, op)
        if not (prove(ctx, s.path, Cond("ge", (F.bits - 1) - S.p)) and (lo == 0 or prove(ctx, s.path, Cond("ge", S.p - lo)))):
            s.events.append(("pre", "the amount of %s is not shown to be from %d to %d" % (op, lo, F.bits - 1)))
        L = [ctx.uview(s.load(Ptr(a.r, a.o + 8 * i), 8)) for i in range(F.n)]
        if not case.is_canonical(comp(L), s.path): s.events.append(("pre", "operand of %s is not shown to be below the prime" % op))
        key = (op, S.p.key(), tuple(l.p.key() for l in L))
        res = case.shift_cache.get(key)
        if res is None:
            top = (F.q - 1) >> (64 * (F.n - 1))
            ats = [ctx.atom("%s%d_%d" % (op, len(case.shift_cache), i), 0, MASK[64] if i < F.n - 1 else top, "fn", (limb(i), S.p) + tuple(l.p for l in L)) for i in range(F.n)]
            res = case.shift_cache[key] = [ctx.aword(x) for x in ats]
            c = comp(res)
            for x in ats: x.facts.append((c, 0, F.q - 1))
            ctx.composites.append((c, 0, F.q - 1))
            case.canonical.add(c.key())
            case.shifts[c.key()] = (op, S, L)
        for i, w in enumerate(res): s.store(Ptr(r.r, r.o + 8 * i), 8, w)
        m.clobber(s, keep)
        for x in ("rbx", "rbp", "r12", "r13", "r14", "r15"):
            if be.kind == "asm" and x not in keep: s.regs[x] = ctx.aword(ctx.atom("clob_" + x, 0, MASK[64], "undef"))
    return handler


def preserved_shift(be, op):
    """Registers left as they were by a raw shift, for every amount."""
    k = ("keep", op)
    if k not in be.summaries:
        keep = set(R64) - {"rsp"}
        for sh in range(be.F.bits):
            c = RawCase(be, op, "", sh)
            for st, fault in c.m.explore(c.st, be.entry(op)):
                if not fault: keep = {r for r in keep if same(st.regs[r], c.m.init_regs[r])}
        be.summaries[k] = keep
    return be.summaries[k]


class ElemCase:
    def __init__(self, be, op, ra, rb=None, alias=""):
        self.be, self.op, self.ra, self.rb, self.alias = be, op, ra, rb, alias
        F = self.F = be.F
        ctx = self.ctx = Ctx(F.q, F.n)
        m = self.m = be.machine(ctx)
        self.inputs, self.canonical = {}, set()
        self.size = 8 + 8 * F.n
        for o in CUT:
            e = be.entry(o)
            if e is not None: m.contracts[e] = raw_contract(self, o)
        self.shift_cache, self.shifts = {}, {}
        if op in ("shl", "shr"):
            for o in ("rawShl", "rawShr"):
                e = be.entry(o)
                if e is not None: m.contracts[e] = shift_contract(self, o)
        self.el = {}
        st0 = {}
        self.el["a"] = self.operand("a", ra, st0)
        if rb is not None: self.el["b"] = self.el["a"] if alias == "ab" else self.operand("b", rb, st0)
        pa = m.add_region("a", self.size)
        pb = (pa if alias == "ab" else m.add_region("b", self.size)) if rb is not None else None
        pr = m.add_region("r", self.size) if op not in ("isTrue", "toInt") else None
        args = [p for p in (pr, pa, pb) if p is not None]
        st = self.st = m.start(args)
        for k, cells in st0.items(): st._cells(k).update(cells)
        self.init = {r: dict(c) for r, c in st.mem.items()}

    def operand(self, nm, rep, st0):
        """(short value poly | None, limbs | None, value poly modulo q)"""
        ctx, F = self.ctx, self.F
        cells = st0[nm] = {}
        t = TYPE[rep]
        cells[4] = (4, wconst(t))
        if t & LONG:
            h = ctx.atom(nm + "_unused", 0, MASK[32])
            cells[0] = (4, ctx.aword(h))
            L, ids = canonical_input(ctx, F, nm)
            self.inputs[nm] = ("L", ids, h.id)
            for i, w in enumerate(L): cells[8 + 8 * i] = (8, w)
            c = comp(L)
            self.canonical.add(c.key())
            nl = L if t == LONG else ctx.canon(c * F.Ri)
            return dict(rep=rep, type=t, short=None, limbs=L, value=c if t == LONG else c * F.Ri, normal=nl)
        lo, hi = (0, (1 << 31) - 1) if rep[1] == "+" else (-(1 << 31), -1)
        a = ctx.atom(nm + "_short", lo, hi)
        s = ctx.aword(a)
        self.inputs[nm] = ("s", a.id)
        cells[0] = (4, ctx.uview(s, 32))
        L = None
        if t == SMONT:
            L = ctx.canon(s.p * F.R)
            for i, w in enumerate(L): cells[8 + 8 * i] = (8, w)
        # the normal-form integer: s or q + s, cut into limbs
        w = s if lo >= 0 else Word(s.p + F.q, s.lo + F.q, s.hi + F.q)
        nl = []
        for i in range(F.n):
            h, l = ctx.split(w, 64)
            nl.append(l); w = h
        self.canonical.add(comp(nl).key())
        return dict(rep=rep, type=t, short=s, limbs=L, value=s.p, normal=nl)

    def is_canonical(self, c, path):
        if c.is_const(): return 0 <= c.const() < self.F.q
        if c.key() in self.canonical: return True
        for p, lo, hi in self.ctx.composites:
            if p.key() == c.key() and 0 <= lo and hi < self.F.q: return True
        return prove(self.ctx, path, Cond("ge", (self.F.q - 1) - c)) and prove(self.ctx, path, Cond("ge", c))

    # ---------- running
    def run(self):
        be, op, ctx, m, F = self.be, self.op, self.ctx, self.m, self.F
        e = be.entry(op)
        if e is None: return None
        self.name = "%s/%s(%s%s)%s" % (be.kind, op, self.ra, "," + self.rb if self.rb else "", "[same object]" if self.alias else "")
        self.finals = m.explore(self.st, e)
        obls = []
        for pi, (st, fault) in enumerate(self.finals):
            P = "%s path %d" % (self.name, pi)
            def ob(name, ok, why=""):
                obls.append(Obl(name, "ok" if ok else "failed", why, P, st))
            if fault and self.op == "toInt" and "abort" in fault:
                ob("aborts only on values that do not fit", self.never_fits(st), fault); continue
            if fault:
                ob("safe", ctx.unsat(st.path), fault); continue
            bad = m.abi_ok(st)
            ob("calling convention", bad is None or ctx.unsat(st.path), bad or "")
            okf = all(r in ("r", "stack") or (self.static_ok(st, r) if r.startswith("static:") else unchanged(m, st, r, self.init.get(r, {}))) for r in st.written)
            ob("operands and other objects unchanged", okf or ctx.unsat(st.path), "writes an object other than the destination")
            pre = [x[1] for x in st.events if x[0] == "pre"]
            ob("preconditions of the called routines", not pre or ctx.unsat(st.path), "; ".join(pre[:2]))
            for x in st.events:
                if x[0] == "copy": raise Unsupported("copy of symbolic length")
            self.judge(st, ob)
        return obls

    def static_ok(self, st, r):
        base = self.m.regions[r]
        for o, (sz, v) in st.mem.get(r, {}).items():
            init = base.init(st, o, sz)[0][2]
            if not isinstance(v, Word) or v.p.key() != init.p.key(): return False
        return True

    def result(self, st):
        """(type constant, short Word, limbs) of the destination."""
        ctx = self.ctx
        t = st.load(Ptr("r", 4), 4)
        if not isinstance(t, Word): return None, None, None
        if not t.is_const():
            v = next((c for c in (SHORT, LONG, LMONT, SMONT) if t.lo <= c <= t.hi and prove(ctx, st.path, Cond("eq", t.p - c))), None)
            if v is None: return None, None, None
            t = wconst(v)
        s = st.load(Ptr("r", 0), 4)
        L = [ctx.uview(st.load(Ptr("r", 8 + 8 * i), 8)) for i in range(self.F.n)]
        return t.p.const(), s, L

    def wellformed(self, st, ob):
        """-> (type, value polynomial modulo q, canonical integer polynomial or None)"""
        ctx, F = self.ctx, self.F
        t, s, L = self.result(st)
        ob("destination has one of the four types", t in (SHORT, SMONT, LONG, LMONT) or ctx.unsat(st.path), "type is %s" % (hex(t) if t is not None else "not determined"))
        if t not in (SHORT, SMONT, LONG, LMONT): return None, None
        if t & LONG:
            c = comp(L)
            self.lastlong = c
            return t, (c if t == LONG else c * F.Ri)
        sv = ctx.sview(s, 32)
        if t == SMONT:
            c = comp(L)
            ob("long part of a short Montgomery element is its Montgomery form", prove_congruent_zero(ctx, st.path, c - sv.p * F.R) and self.is_canonical(c, st.path))
        self.lastshort = sv
        return t, sv.p

    def judge(self, st, ob):
        op, ctx, F = self.op, self.ctx, self.F
        A = self.el["a"]
        B = self.el.get("b")
        if op in ARITH or op in CONV:
            t, v = self.wellformed(st, ob)
            if t is None: return
            want = ARITH[op](A["value"], B["value"] if B else None) if op in ARITH else A["value"]
            known = []
            ob("value congruent", prove_congruent_zero(ctx, st.path, v - want, known=known))
            if t & LONG: ob("long part canonical", self.is_canonical(self.lastlong, known + st.path) or ctx.unsat(st.path))
            if op in FORM: ob("promised form", t in FORM[op] or ctx.unsat(st.path), "type %s" % TNAME[t])
            if op == "copy":
                same_ = t == A["type"] or ctx.unsat(st.path)
                ob("same representation", same_)
            return
        if op in COMPARE:
            t, v = self.wellformed(st, ob)
            if t is None: return
            ob("short result", t == SHORT or ctx.unsat(st.path))
            if t != SHORT: return
            goal = self.relation(op)
            sv = self.lastshort
            one, nil = c_eq(sv, wconst(1)), c_eq(sv, wconst(0))
            ok = False
            for g in goal:
                ok = prove(ctx, st.path, c_or(c_and(one, g), c_and(nil, g.negate())))
                if ok: break
            ob("answer", ok)
            return
        if op == "isTrue":
            v = ctx.sview(self.m.retval(st), 32)
            g = self.nonzero("a")
            ob("truth is 'not zero'", prove(ctx, st.path, c_or(c_and(c_eq(v, wconst(1)), g), c_and(c_eq(v, wconst(0)), g.negate()))))
            return
        if op == "toInt":
            v = ctx.sview(self.m.retval(st), 32)
            N = self.integer("a")
            # for a value that fits (|v| <= 2^31 - 1 when read as signed) the answer is that value
            small = c_and(Cond("ge", ((1 << 31) - 1) - N))
            neg = c_and(Cond("ge", N - (F.q - (1 << 31) + 1)))
            ok = prove(ctx, st.path, c_or(small.negate(), Cond("eq", v.p - N))) and prove(ctx, st.path, c_or(neg.negate(), Cond("eq", v.p - (N - F.q))))
            ob("reads the value", ok)
            ob("values outside the 32-bit range do not return", prove(ctx, st.path, c_or(Cond("ge", ((1 << 31) - 1) - N), Cond("ge", N - (F.q - (1 << 31))))))
            return
        if op in BITS:
            t, v = self.wellformed(st, ob)
            if t is None: return
            W = comp(BITSPECS[BITS[op]].wide(ctx, F, A["normal"], B["normal"] if B else None, None))
            known = []
            ob("value is the masked integer reduced", prove_congruent_zero(ctx, st.path, v - W, known=known))
            if t & LONG: ob("long part canonical", self.is_canonical(self.lastlong, known + st.path) or ctx.unsat(st.path))
            return
        if op in ("shl", "shr"): return self.judge_shift(st, ob)
        raise Unsupported("no specification for %s" % op)

    def judge_shift(self, st, ob):
        ctx, F, op = self.ctx, self.F, self.op
        if ctx.unsat(st.path, ints=False): return      # an impossible path
        t, v = self.wellformed(st, ob)
        if t is None: return
        A, N = self.el["a"], self.integer("b")
        nl = A["normal"]
        bits = F.bits
        straight = Cond("ge", (bits - 1) - N)                       # amount below the bit length: this direction
        back = Cond("ge", N - (F.q - bits + 1))                    # prime minus an amount below it: the other direction
        other = "shr" if op == "shl" else "shl"
        if t == LONG and self.lastlong.key() in self.shifts:
            o, S, L = self.shifts[self.lastlong.key()]
            okA = all(x.p.key() == y.p.key() for x, y in zip(L, nl)) or prove(ctx, st.path, Cond("eq", comp(L) - comp(nl)))
            want = c_and(straight, Cond("eq", S.p - N)) if o[3:].lower() == op else c_and(back, Cond("eq", S.p - (F.q - N)))
            ob("shifts the normal-form integer", okA)
            ob("shift direction and amount", prove(ctx, st.path, want))
            return
        # an amount fixed by the path
        ks = sorted({x for k, x in st.dec.items() if isinstance(k, tuple) and k and k[0] == "val" and isinstance(x, int) and 0 <= x < bits} | {0})
        for k in ks:
            for d, amount in ((op, N), (other, F.q - N)):
                if not prove(ctx, st.path, Cond("eq", amount - k)): continue
                W = comp(BITSPECS["raw" + d.capitalize()].wide(ctx, F, nl, None, k))
                known = []
                ob("value is the shifted, masked and reduced integer", prove_congruent_zero(ctx, st.path, v - W, known=known))
                if t & LONG: ob("long part canonical", self.is_canonical(self.lastlong, known + st.path) or ctx.unsat(st.path))
                return
        # nothing left
        a = self.integer("a")
        right = c_and(straight, Cond("ge", N - 31)) if op == "shr" else c_and(back, Cond("ge", (F.q - 31) - N))
        nothing = c_or(self.nonzero("a").negate(), c_and(straight.negate(), back.negate()), c_and(right, Cond("ge", ((1 << 31) - 1) - a)))
        ob("zero when nothing is left", prove_congruent_zero(ctx, st.path, v) and prove(ctx, st.path, nothing))

    def integer(self, k):
        """The normal-form integer, as an integer polynomial."""
        e = self.el[k]
        if e["short"] is not None: return e["short"].p + (self.F.q if e["short"].lo < 0 else 0)
        return comp(e["normal"])

    def never_fits(self, st):
        N, F = self.integer("a"), self.F
        return prove(self.ctx, st.path, Cond("ge", N - (1 << 31))) and prove(self.ctx, st.path, Cond("ge", (F.q - (1 << 31)) - N))

    def nonzero(self, k):
        """value is not zero: equivalent conditions, the Montgomery form of zero being zero"""
        e = self.el[k]
        if e["short"] is not None: return Cond("ne", e["short"].p)
        return Cond("ne", comp(e["limbs"]))

    def relation(self, op):
        """Equivalent conditions for 'the operation is true' (each is tried)."""
        F, ctx = self.F, self.ctx
        if op in ("land", "lor", "lnot"):
            a = self.nonzero("a")
            if op == "lnot": return [a.negate()]
            b = self.nonzero("b")
            return [c_and(a, b) if op == "land" else c_or(a, b)]
        x, y = self.integer("a"), self.integer("b")
        if op in ("eq", "neq"):
            if self.alias: return [TRUE if op == "eq" else FALSE]
            out = [Cond("eq", x - y)]
            mont = [comp(e["limbs"]) if e["rep"] == "M" or e["rep"][0] == "m" else comp(ctx.canon(e["value"] * F.R)) for e in (self.el["a"], self.el["b"])]
            # canonical residues are equal exactly when their Montgomery forms are: R is invertible
            out.append(Cond("eq", mont[0] - mont[1]))
            return out if op == "eq" else [c.negate() for c in out]
        if self.alias: return [TRUE if op in ("leq", "geq") else FALSE]

        def lt(x, y, ex, ey):
            nx, ny = self.negative(ex, x), self.negative(ey, y)
            less = Cond("ge", y - x - 1)
            return c_or(c_and(nx, ny.negate()), c_and(nx, ny, less), c_and(nx.negate(), ny.negate(), less))
        a, b = self.el["a"], self.el["b"]
        if op == "lt": return [lt(x, y, a, b)]
        if op == "gt": return [lt(y, x, b, a)]
        if op == "geq": return [lt(x, y, a, b).negate()]
        return [lt(y, x, b, a).negate()]

    def negative(self, e, x):
        if e["short"] is not None: return TRUE if e["short"].lo < 0 else FALSE
        return Cond("ge", x - (self.F.half + 1))

    # ---------- self check
    def selfcheck(self, rng, f, k=4, deadline=None):
        ctx, F = self.ctx, self.F
        probs, vals = [], []
        self.checked = 0
        for _ in range(k):
            if deadline and time.time() > deadline: break
            env, conc = {}, {}
            for nm, d in self.inputs.items():
                if d[0] == "L":
                    v = f.rand_value(rng)
                    if nm == "b" and rng.random() < .3 and self.inputs["a"][0] == "L": v = conc["a"][2]
                    for i, x in enumerate(d[1]): env[x] = (v >> (64 * i)) & MASK[64]
                    h = rng.choice([0, 1, MASK[32], rng.randrange(1 << 32)])
                    env[d[2]] = h
                    conc[nm] = (h - ((h >> 31) << 32), self.el[nm]["type"], v)
                else:
                    a = ctx.atoms[d[1]]
                    s = rng.choice([a.lo, a.hi, max(a.lo, min(a.hi, rng.choice(f.SHORTS))), rng.randrange(a.lo, a.hi + 1)])
                    env[d[1]] = s
                    t = self.el[nm]["type"]
                    conc[nm] = (s, t, (s % F.q) * F.R % F.q if t == SMONT else None)
            for a in ctx.atoms:
                if a.kind in ("undef", "fresh"): env[a.id] = rng.randrange(a.lo, a.hi + 1)
            ev = ctx.evaluator(env)
            sat = [(st, x) for st, x in self.finals if all(c.eval(ev) for c in st.path)]
            if len(sat) != 1:
                probs.append("%s: %d paths for one input" % (self.op, len(sat))); continue
            probs += check_facts(ctx, ev, self.op)
            self.checked += 1
            st, fault = sat[0]
            a, b = (f.value(conc[x]) if x in conc else None for x in "ab")
            if self.alias: b = a
            if fault:
                if self.op == "toInt" and "abort" in fault and not -2**31 < f.signed(a) < 2**31: continue
                vals.append((conc, "fault: " + fault)); break
            bad = self.concrete(ev, st, f, a, b)
            if bad: vals.append((conc, bad)); break
        return probs, vals

    def concrete(self, ev, st, f, a, b):
        op = self.op
        if op in ("isTrue", "toInt"):
            v = ev(self.m.retval(st).p) & MASK[32]
            v -= (v >> 31) << 32
            if op == "isTrue": return None if v == int(a != 0) else "returned %d" % v
            sv = f.signed(a)
            return None if v == sv or sv == -2**31 else "returned %d for %d" % (v, sv)
        t = ev(st.load(Ptr("r", 4), 4).p) & MASK[32]
        s = ev(st.load(Ptr("r", 0), 4).p) & MASK[32]
        s -= (s >> 31) << 32
        L = sum((ev(st.load(Ptr("r", 8 + 8 * i), 8).p) & MASK[64]) << (64 * i) for i in range(self.F.n))
        if t not in TNAME: return "type %#x" % t
        if t & LONG and L >= f.q: return "long part not below the prime: %d" % L
        got, want = f.value((s, t, L)), f.tag(op, a, b)
        return None if got == want else "got %s element of value %d, specified %d" % (TNAME[t], got, want)


class CopynCase:
    """Block copy of a symbolic number of elements."""

    def __init__(self, be):
        self.be = be
        F = self.F = be.F
        ctx = self.ctx = Ctx(F.q, F.n)
        m = self.m = be.machine(ctx)
        self.n = ctx.atom("n", 0, (1 << 31) - 1)
        junk = ctx.atom("upper", 0, MASK[32], "undef")      # the upper half of an int argument register is undefined
        r, a = m.add_region("r", None), m.add_region("a", None)
        self.st = m.start([r, a, Word(ctx.apoly(self.n) + ctx.apoly(junk) * (1 << 32), 0, MASK[64])])

    def run(self):
        be, ctx, m, F = self.be, self.ctx, self.m, self.F
        e = be.entry("copyn")
        if e is None: return None
        self.name = "%s/copyn" % be.kind
        self.finals = m.explore(self.st, e)
        obls = []
        for pi, (st, fault) in enumerate(self.finals):
            def ob(name, ok, why=""): obls.append(Obl(name, "ok" if ok else "failed", why, "%s path %d" % (self.name, pi), st))
            if fault: ob("safe", ctx.unsat(st.path), fault); continue
            if ctx.unsat(st.path): continue
            bad = m.abi_ok(st)
            ob("calling convention", bad is None, bad or "")
            ob("no other object written", set(st.written) <= {"stack"}, "writes %s" % sorted(st.written))
            cp = [x for x in st.events if x[0] == "copy"]
            n = ctx.apoly(self.n)
            if not cp:
                ob("copies n elements", prove(ctx, st.path, Cond("eq", n)), "nothing is copied")
                continue
            ob("one copy from source to destination", len(cp) == 1 and cp[0][1] == Ptr("r", 0) and cp[0][2] == Ptr("a", 0), str(cp[0][1:3]))
            ob("copies n elements", prove(ctx, st.path, Cond("eq", ctx.uview(cp[0][3]).p - n * (8 + 8 * F.n))))
        return obls

    def selfcheck(self, rng, f, k=4, deadline=None):
        ctx = self.ctx
        probs, vals = [], []
        self.checked = 0
        for n in (0, 1, 5, rng.randrange(1 << 20)):
            env = {a.id: rng.randrange(a.lo, a.hi + 1) for a in ctx.atoms if a.kind in ("undef", "fresh")}
            env[self.n.id] = n
            ev = ctx.evaluator(env)
            sat = [(st, x) for st, x in self.finals if all(c.eval(ev) for c in st.path)]
            if len(sat) != 1: probs.append("copyn: %d paths for one input" % len(sat)); continue
            self.checked += 1
            st, fault = sat[0]
            tot = sum(ev(x[3].p) & MASK[64] for x in st.events if x[0] == "copy")
            if fault or tot != n * (8 + 8 * self.F.n): vals.append(({"n": n}, fault or "copies %d bytes for n = %d" % (tot, n))); break
        return probs, vals
