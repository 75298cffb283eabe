"""Obligations of fr.cpp: the GMP-based element operations and the field class RawFr, on its g++ -O0 object code.

The raw routines are entered by contract (F01 / F02), GMP and the C++ library by the assumed contracts of mpz.py; everything else
(Fr_toNormal, Fr_mul, the class's own functions, the static initialisers) is executed."""
import os, time, random
from . import build, mpz, mpn
from .core import *
from .machine import *
from .prove import *
from .fieldspec import *
from .elf import Elf
from .x86 import X86, decode
from .rawproof import Backend, demangle, check_facts, unchanged
from .elemproof import ElemCase, raw_contract, CUT, REPS, TYPE, same
from .fieldref import Field, SHORT, SMONT, LONG, LMONT, TNAME


class ClassBackend(Backend):
    def __init__(self, kind, d, q):
        self.kind, self.d, self.F = kind, d, FieldParams(q)
        fl = ["-DUSE_ASM", "-DARCH_X86_64"] if kind == "asm" else []
        objs = []
        for src, nm in (("fr.cpp", "frc"), (os.path.join(build.VERIF, "harness", "class_shim.cpp"), "ks")):
            o = os.path.join(d, "%s_%s.o0.o" % (nm, kind))
            build.run(build.CXX0 + fl + ["-c", src, "-o", o, "-I."], cwd=d)
            objs.append(o)
        if kind == "asm":
            build.asm_image(d); objs.append(os.path.join(d, "fr_asm.o"))
        else:
            build.generic_image(d); objs += [os.path.join(d, "fr_generic.o0.o"), os.path.join(d, "fr_raw_generic.o0.o")]
        path = build.link(objs, os.path.join(d, "class_%s.img" % kind))
        self.elf = Elf(path)
        self.ins = decode(path)
        self.sym = dict(self.elf.symbols)
        for k, v in demangle(self.elf.symbols).items(): self.sym.setdefault(k, v)
        self.summaries = {}
        ia = [s for s in self.elf.sections if s["name"] == ".init_array"]
        self.inits = [int.from_bytes(s["data"][i:i + 8], "little") for s in ia for i in range(0, s["size"], 8)]

    def machine(self, ctx):
        m = X86(ctx, self.elf, self.ins)
        mpn.install(m, self.sym)
        mpz.install(m, self.sym)
        m.symbolic_copy = False
        return m

    def entry(self, op):
        return self.sym.get(op) or super().entry(op)

    def preserved_from(self, raw_backend):
        """register summaries of the raw routines, proved on the raw image"""
        self.summaries.update({k: v for k, v in raw_backend.summaries.items() if k[0] == "keep"})


class Base(ElemCase):
    """Shared parts: a machine whose static initialisers have run, operands in regions."""

    def setup(self, be, op):
        self.be, self.op, self.alias = be, op, ""
        F = self.F = be.F
        ctx = self.ctx = Ctx(F.q, F.n)
        m = self.m = be.machine(ctx)
        m.max_paths = 2000
        self.inputs, self.canonical = {}, set()
        self.size = 8 + 8 * F.n
        for o in CUT:
            for nm in ("Fr_" + o,):
                e = be.sym.get(nm)
                if e is not None: m.contracts[e] = raw_contract(self, o)
        self.shift_cache, self.shifts = {}, {}
        self.el, self.pre = {}, []

    def boot(self, args, cells=None, stack=()):
        """Run the static initialisers and return the state in which the operation starts."""
        m = self.m
        st = m.start([])
        for f in self.be.inits:
            s0 = m.start([])
            s0.mem.update({k: v for k, v in st.mem.items() if k != "stack"})
            s0.aux, s0.heap = st.aux, st.heap
            fin = m.explore(s0, f)
            if len(fin) != 1 or fin[0][1]: raise Unsupported("static initialiser: %s" % (fin and fin[0][1] or "%d paths" % len(fin)))
            st = fin[0][0]
            st.events = []
        s1 = m.start(args)
        s1.mem.update({k: v for k, v in st.mem.items() if k != "stack"})
        s1.aux, s1.heap = st.aux, st.heap
        for k, c in (cells or {}).items(): s1._cells(k).update(c)
        for c in self.pre: s1.assume(c)
        self.st = s1
        self.init = {r: dict(c) for r, c in s1.mem.items()}
        self.mpz0 = dict(s1.aux.get("mpz", {}))
        return s1

    def frame(self, st, ob, allowed):
        m = self.m
        for r in st.written:
            if r in ("stack", "mpz:stack") or r in allowed or r.startswith(("heap", "chars:")): continue
            if r.startswith("mpz:"):
                cur = {k: v for k, v in st.aux.get("mpz", {}).items() if k[0] == r[4:]}
                old = {k: v for k, v in self.mpz0.items() if k[0] == r[4:]}
                ok = set(cur) == set(old) and all(cur[k].p.key() == old[k].p.key() for k in old)
            elif r in self.init: ok = cells_same(m, st, r, self.init[r])
            else: ok = self.static_ok(st, r)
            if not ok:
                ob("operands and other objects unchanged", self.ctx.unsat(st.path), "writes %s" % r)
                return
        ob("operands and other objects unchanged", True)

    def run(self):
        ctx, m = self.ctx, self.m
        e = self.be.entry(self.sym)
        if e is None: return None
        self.finals = m.explore(self.st, e)
        obls = []
        for pi, (st, fault) in enumerate(self.finals):
            def ob(name, ok, why=""): obls.append(Obl(name, "ok" if ok else "failed", why, "%s path %d" % (self.name, pi), st))
            if fault: ob("safe", ctx.unsat(st.path), fault); continue
            bad = m.abi_ok(st)
            ob("calling convention", bad is None or ctx.unsat(st.path), bad or "")
            pre = [x[1] for x in st.events if x[0] == "pre"]
            ob("preconditions of the called routines", not pre or ctx.unsat(st.path), "; ".join(pre[:2]))
            if any(x[0] == "copy" for x in st.events): raise Unsupported("copy of symbolic length")
            self.frame(st, ob, self.writes)
            self.judge(st, ob)
        return obls


def cells_same(m, st, r, init):
    for o, (sz, v) in init.items():
        w = st.load(Ptr(r, o), sz)
        if isinstance(v, Word) and isinstance(w, Word):
            if v.p.key() != w.p.key(): return False
        elif isinstance(v, mpz.Opaque) and isinstance(w, mpz.Opaque): continue
        elif v != w: return False
    return True


class GmpElemCase(Base):
    """inv, div, idiv, mod, pow on tagged elements; str2element, element2str."""

    def __init__(self, be, op, ra, rb=None, alias=""):
        self.setup(be, op)
        self.ra, self.rb, self.alias = ra, rb, alias
        m, ctx, F = self.m, self.ctx, self.F
        self.name = "%s/%s(%s%s)%s" % (be.kind, op, ra, "," + rb if rb else "", "[same object]" if alias else "")
        self.sym = "Fr_" + op
        cells = {}
        pr = m.add_region("r", self.size) if op != "element2str" else None
        self.writes = {"r"}
        args = [pr] if pr is not None else []
        if op == "str2element":
            self.T = ctx.atom("text", -mpz.HUGE, mpz.HUGE)
            t = m.add_region("t", None)
            args.append(t)
        else:
            self.el["a"] = self.operand("a", ra, cells)
            args.append(m.add_region("a", self.size))
            if rb is not None:
                self.el["b"] = self.el["a"] if alias == "ab" else self.operand("b", rb, cells)
                args.append(args[-1] if alias == "ab" else m.add_region("b", self.size))
        # excluded: inverse of zero, division by zero
        k = {"inv": "a", "div": "b", "idiv": "b", "mod": "b"}.get(op)
        if k: self.pre += [self.nonzero(k), Cond("ne", comp(self.el[k]["normal"]))]     # the second: x R^-1 mod q = 0 exactly when x = 0
        self.boot(args, cells)
        if op == "str2element": self.st.aux["text"] = {("t", 0): (ctx.aword(self.T), wconst(10))}
        for e in self.el.values():
            c = comp(e["normal"])
            ctx.register_canon(c, e["normal"])
            ctx.register_canon(e["value"], e["normal"])

    def word(self, k):
        e = self.el[k]
        if e["short"] is not None:
            s = e["short"]
            return s if s.lo >= 0 else Word(s.p + self.F.q, s.lo + self.F.q, s.hi + self.F.q)
        return Word(comp(e["normal"]), 0, self.F.q - 1)

    def judge(self, st, ob):
        ctx, F, op = self.ctx, self.F, self.op
        if op == "element2str":
            p = self.m.retval(st)
            x = st.aux.get("text", {}).get((p.r, p.o)) if isinstance(p, Ptr) else None
            ob("returns a text", x is not None or ctx.unsat(st.path), "returns %r" % (p,))
            if x is None: return
            ob("decimal", x[1].p.key() == pconst(10).key())
            ob("denotes the value", prove(ctx, st.path, Cond("eq", x[0].p - self.word("a").p)))
            ob("text is live memory", p.r.startswith("heap") and p.r not in st.freed)
            return
        t, v = self.wellformed(st, ob)
        if t is None: return
        if op == "str2element": want = ctx.apoly(self.T)
        elif op == "inv": want = mpz.inverse(ctx, self.el["a"]["value"])
        elif op == "div": want = self.el["a"]["value"] * mpz.inverse(ctx, self.el["b"]["value"])
        elif op == "pow": want = mpz.power(ctx, self.el["a"]["value"], self.word("b")).p
        else: want = mpz.quotient(ctx, "q" if op == "idiv" else "r", self.word("a"), self.word("b")).p
        known = []
        ob("value", prove_congruent_zero(ctx, st.path, v - want, known=known))
        if t & LONG: ob("long part canonical", self.is_canonical(self.lastlong, known + st.path) or ctx.unsat(st.path))

    def env_fix(self, rng, env):
        if self.op == "str2element":
            q = self.F.q
            env[self.T.id] = rng.choice([0, 1, -1, q, -q, q - 1, 2**31, -2**31, 2**31 - 1, rng.randrange(-q * q, q * q), rng.randrange(q)])

    def selfcheck(self, rng, f, k=4, deadline=None):
        return selfcheck(self, rng, f, k, deadline)

    def expected(self, f, conc, env):
        a, b = (f.value(conc[x]) if x in conc else None for x in "ab")
        if self.alias: b = a
        if self.op == "str2element": return env[self.T.id] % f.q
        if self.op == "element2str": return a
        return f.tag(self.op, a, b)

    def observed(self, ev, st, f):
        if self.op == "element2str":
            p = self.m.retval(st)
            x = st.aux.get("text", {}).get((p.r, p.o)) if isinstance(p, Ptr) else None
            return ev(x[0].p) if x else None
        t = ev(st.load(Ptr("r", 4), 4).p) & MASK[32]
        s = ev(st.load(Ptr("r", 0), 4).p) & MASK[32]
        s -= (s >> 31) << 32
        L = sum((ev(st.load(Ptr("r", 8 + 8 * i), 8).p) & MASK[64]) << (64 * i) for i in range(self.F.n))
        if t not in TNAME: return "type %#x" % t
        if t & LONG and L >= f.q: return "long part not below the prime: %d" % L
        return f.value((s, t, L))


def draw(case, rng, f):
    """Concrete values for the inputs of a case -> (env, conc)"""
    ctx, F = case.ctx, case.F
    env, conc = {}, {}
    for nm, d in case.inputs.items():
        if d[0] in ("L", "R"):
            v = f.rand_value(rng)
            for i, x in enumerate(d[1]): env[x] = (v >> (64 * i)) & MASK[64]
            if d[0] == "R": conc[nm] = v; continue
            h = rng.choice([0, 1, MASK[32], rng.randrange(1 << 32)])
            env[d[2]] = h
            conc[nm] = (h - ((h >> 31) << 32), case.el[nm]["type"], v)
        elif d[0] == "s":
            a = ctx.atoms[d[1]]
            s = rng.choice([a.lo, a.hi, max(a.lo, min(a.hi, rng.choice(f.SHORTS))), rng.randrange(a.lo, a.hi + 1)])
            env[d[1]] = s
            t = case.el[nm]["type"]
            conc[nm] = (s, t, (s % F.q) * F.R % F.q if t == SMONT else None)
        else:
            env[d[1]] = conc[nm] = d[2](rng)
    for a in ctx.atoms:
        if a.kind in ("undef", "fresh") and a.id not in env: env[a.id] = rng.randrange(a.lo, a.hi + 1)
    case.env_fix(rng, env)
    ctx.default = lambda a: rng.randrange(a.lo, a.hi + 1)      # memory whose content nobody defined, met only now
    return env, conc


def selfcheck(case, rng, f, k, deadline):
    ctx = case.ctx
    probs, vals = [], []
    case.checked = 0
    for _ in range(k * 3):
        if case.checked >= k or deadline and time.time() > deadline: break
        env, conc = draw(case, rng, f)
        ev = ctx.evaluator(env)
        if not all(c.eval(ev) for c in case.pre): continue
        sat = [(st, x) for st, x in case.finals if all(c.eval(ev) for c in st.path)]
        if len(sat) != 1: probs.append("%s: %d paths for one input" % (case.op, len(sat))); continue
        probs += check_facts(ctx, ev, case.op)
        case.checked += 1
        st, fault = sat[0]
        show = {n: str(v) for n, v in conc.items()}
        if fault: vals.append((show, "fault: " + fault)); break
        want, got = case.expected(f, conc, env), case.observed(ev, st, f)
        if want is not None and got != want: vals.append((show, "got %s, specified %s" % (got, want))); break
    return probs, vals


# ---------- the field class: operands are Montgomery forms A, B; the value of an operand is A / R
def _z(*a): return pconst(0)


CLASS = {
    # symbol: (arguments, residue that the result must hold, as a Montgomery form)
    "k_copy": ("ra", lambda c: c.A), "k_add": ("rab", lambda c: c.A + c.B), "k_sub": ("rab", lambda c: c.A - c.B), "k_mul": ("rab", lambda c: c.A * c.B * c.F.Ri),
    "k_add_v": ("rab", lambda c: c.A + c.B), "k_sub_v": ("rab", lambda c: c.A - c.B), "k_mul_v": ("rab", lambda c: c.A * c.B * c.F.Ri),
    "k_neg_v": ("ra", lambda c: -c.A), "k_square_v": ("ra", lambda c: c.A * c.A * c.F.Ri), "k_neg": ("ra", lambda c: -c.A), "k_square": ("ra", lambda c: c.A * c.A * c.F.Ri),
    "k_add_ie": ("ria", lambda c: c.I * c.F.R + c.A), "k_sub_ie": ("ria", lambda c: c.I * c.F.R - c.A), "k_mul_ie": ("ria", lambda c: c.I * c.A),
    "k_add_ei": ("rai", lambda c: c.A + c.I * c.F.R), "k_sub_ei": ("rai", lambda c: c.A - c.I * c.F.R), "k_mul_ei": ("rai", lambda c: c.A * c.I),
    "k_mul1": ("rau", lambda c: c.A * c.U * c.F.Ri), "k_toMontgomery": ("ra", lambda c: c.A * c.F.R), "k_fromMontgomery": ("ra", lambda c: c.A * c.F.Ri),
    "k_zero": ("r", lambda c: pconst(0)), "k_one": ("r", lambda c: pconst(c.F.R)), "k_negOne": ("r", lambda c: pconst(-c.F.R)),
    "k_set": ("ri", lambda c: c.I * c.F.R), "k_set_v": ("ri", lambda c: c.I * c.F.R), "k_fromUI": ("ru", lambda c: c.U * c.F.R),
    "k_inv": ("ra", lambda c: mpz.inverse(c.ctx, c.A * c.F.Ri) * c.F.R), "k_div": ("rab", lambda c: c.A * mpz.inverse(c.ctx, c.B * c.F.Ri)),
    "k_fromString": ("rsx", lambda c: c.T * c.F.R), "k_fromMpz": ("rz", lambda c: c.Z * c.F.R),
    "k_swap": ("ra", None), "k_eq": ("ab", None), "k_isZero": ("a", None), "k_toString": ("oax", None), "k_toMpz": ("ya", None), "k_toRprBE": ("adn", None), "k_fromRprBE": ("rdn", None),
}
ALIASES = {"k_swap": ("", "ra"), "k_eq": ("", "ab"), "k_inv": ("", "ra"), "k_copy": ("", "ra")}


def aliases(sym):
    if sym in ALIASES: return ALIASES[sym]
    a = CLASS[sym][0]
    if "rab" == a: return ("", "ra", "rb", "ab", "rab")
    if "r" in a and "a" in a: return ("", "ra")
    return ("",)


class ClassCase(Base):
    def __init__(self, be, sym, alias=""):
        self.setup(be, sym)
        self.sym, self.alias = sym, alias
        m, ctx, F = self.m, self.ctx, self.F
        self.name = "%s/RawFr::%s%s" % (be.kind, sym[2:], "[%s]" % alias if alias else "")
        self.spec = CLASS[sym][1]
        args, cells = [], {}
        size = 8 * F.n
        regs, strings, mz, texts = {}, {}, {}, {}

        def element(nm):
            L, ids = canonical_input(ctx, F, nm)
            self.inputs[nm] = ("R", ids)
            cells[nm] = {8 * i: (8, w) for i, w in enumerate(L)}
            self.canonical.add(comp(L).key())
            ctx.register_canon(comp(L), L)
            regs[nm] = m.add_region(nm, size)
            return L

        def number(nm, lo, hi, cand):
            a = ctx.atom(nm, lo, hi)
            self.inputs[nm] = ("n", a.id, lambda rng: rng.choice([lo, hi] + [x for x in cand if lo <= x <= hi] + [rng.randrange(lo, hi + 1)]))
            return ctx.aword(a)
        small = [0, 1, -1, 2, 5, 63, 64, 2**31 - 1, -2**31, 2**32, 2**63, 2**64 - 1]
        order = sorted(CLASS[sym][0], key=lambda x: x == "r")      # the destination may be an operand
        for x in order:
            if x == "a": self.AL = element("a"); self.A = comp(self.AL)
            elif x == "b":
                if alias in ("ab", "rab"): regs["b"], self.B = regs["a"], self.A
                else: self.BL = element("b"); self.B = comp(self.BL)
            elif x == "r":
                if alias in ("ra", "rab"): regs["r"] = regs["a"]
                elif alias == "rb": regs["r"] = regs["b"]
                elif sym == "k_swap": self.RL = element("r")
                else: regs["r"] = m.add_region("r", size)
            elif x == "i": w = number("i", -(1 << 31), (1 << 31) - 1, small); self.I = w.p; regs["i"] = low32(ctx, w)
            elif x == "u": w = number("u", 0, MASK[64], small); self.U = w.p; regs["u"] = w
            elif x == "x": w = number("radix", 2, 36, [2, 8, 10, 16]); self.X = w; regs["x"] = w
            elif x == "n": w = number("bytes", 0, (1 << 31) - 1, [0, size - 1, size, size + 1]); self.N = w; regs["n"] = w
            elif x == "s":
                regs["s"] = m.add_region("s", 32)
                self.Tw = number("text", -mpz.HUGE, mpz.HUGE, [0, 1, -1, F.q, -F.q, F.q - 1, F.q * F.q + 5, 2**64])
                self.T = self.Tw.p
                self.inputs["text"] = ("n", self.inputs["text"][1], lambda rng: rng.choice([0, 1, -1, F.q, -F.q, F.q - 1, rng.randrange(-F.q**2, F.q**2)]))
            elif x == "o": regs["o"] = m.add_region("o", 32)
            elif x == "z":
                regs["z"] = m.add_region("z", 16)
                self.ZL, ids = canonical_input(ctx, F, "zz"); self.inputs["z"] = ("R", ids)
                self.Z = comp(self.ZL)
                ctx.register_canon(self.Z, self.ZL); self.canonical.add(self.Z.key())
            elif x == "y": regs["y"] = m.add_region("y", 16)
            elif x == "d":
                regs["d"] = m.add_region("d", size)
                if sym == "k_fromRprBE":      # big-endian bytes of a canonical value
                    self.DL, ids = canonical_input(ctx, F, "dv"); self.inputs["d"] = ("R", ids)
                    self.canonical.add(comp(self.DL).key())
                    ctx.register_canon(comp(self.DL), self.DL)
                    bs = [b for L in self.DL for b in mpz.bytes_of(ctx, L, 8)]
                    cells["d"] = {size - 1 - i: (1, b) for i, b in enumerate(bs)}
        self.regs = regs
        # x R^-1 mod q = 0 exactly when x = 0
        if sym == "k_inv": self.pre += [Cond("ne", self.A), Cond("ne", comp(ctx.canon(self.A * F.Ri)))]
        if sym == "k_div": self.pre += [Cond("ne", self.B), Cond("ne", comp(ctx.canon(self.B * F.Ri)))]
        w = {"k_swap": {"r", "a"}, "k_toMpz": {"y", "mpz:y"}, "k_toRprBE": {"d"}, "k_toString": {"o"}}.get(sym, {"r"})
        self.writes = {regs[x].r if x in regs else x for x in w}
        if "r" not in CLASS[sym][0]: self.writes.discard("r")
        st = self.boot([regs[x] for x in CLASS[sym][0]], cells)
        if "s" in regs: st.aux["string"] = {("s", 0): (self.Tw, self.X)}
        if "z" in regs: st.aux["mpz"][("z", 0)] = Word(self.Z, 0, F.q - 1); self.mpz0[("z", 0)] = st.aux["mpz"][("z", 0)]
        if "y" in regs: st.aux["mpz"][("y", 0)] = ctx.aword(ctx.atom("old", 0, mpz.HUGE, "undef"))

    def env_fix(self, rng, env): pass

    def limbs(self, st, r):
        return [self.ctx.uview(st.load(Ptr(r, 8 * i), 8)) for i in range(self.F.n)]

    def judge(self, st, ob):
        ctx, F, sym = self.ctx, self.F, self.sym
        size = 8 * F.n
        if self.spec is not None:
            if sym == "k_fromRprBE": pass
            r = self.regs["r"].r
            self.holds(st, ob, r, self.spec(self))
            return
        if sym == "k_swap":
            if self.alias: return self.holds(st, ob, "a", self.A)
            ob("contents exchanged", all(x.p.key() == y.p.key() for x, y in zip(self.limbs(st, "r") + self.limbs(st, "a"), self.AL + self.RL)) or ctx.unsat(st.path))
            return
        if sym in ("k_eq", "k_isZero"):
            v = ctx.sview(self.m.retval(st), 32)
            z = Cond("eq", self.A - self.B) if sym == "k_eq" else Cond("eq", self.A)
            if self.alias: z = TRUE
            ob("answer", prove(ctx, st.path, c_or(c_and(c_eq(v, wconst(0)).negate(), z), c_and(c_eq(v, wconst(0)), z.negate()))))
            return
        nrm = comp(ctx.canon(self.A * F.Ri)) if hasattr(self, "A") else None
        if sym == "k_toString":
            x = st.aux.get("string", {}).get(("o", 0))
            ob("returns a string", x is not None or ctx.unsat(st.path))
            if x is None: return
            ob("in the radix asked for", x[1].p.key() == self.X.p.key() or prove(ctx, st.path, Cond("eq", x[1].p - self.X.p)))
            ob("denotes the value", prove(ctx, st.path, Cond("eq", x[0].p - nrm)))
            return
        if sym == "k_toMpz":
            x = st.aux["mpz"].get(("y", 0))
            ob("integer is the value", x is not None and prove(ctx, st.path, Cond("eq", x.p - nrm)))
            return
        ret = ctx.sview(self.m.retval(st), 32)
        big = Cond("ge", self.N.p - size)
        if sym == "k_toRprBE":
            touched = any(o[0] < size for o in st.written.get("d", ()))
            ob("returns the number of bytes, or its negative when the buffer is too small",
               prove(ctx, st.path, c_or(c_and(big, Cond("eq", ret.p - size)), c_and(big.negate(), Cond("eq", ret.p + size)))))
            if not touched:
                ob("writes the value", prove(ctx, st.path, big.negate()), "the buffer is not written")
                return
            ob("stays inside the buffer", prove(ctx, st.path, big))
            v = Poly()
            for i in range(size): v = v + ctx.uview(st.load(Ptr("d", size - 1 - i), 1), 8).p * (1 << (8 * i))
            ob("bytes are the value, most significant first", prove(ctx, st.path, Cond("eq", v - nrm)))
            return
        if sym == "k_fromRprBE":
            ob("returns the number of bytes, or its negative when the buffer is too small",
               prove(ctx, st.path, c_or(c_and(big, Cond("eq", ret.p - size)), c_and(big.negate(), Cond("eq", ret.p + size)))))
            if not st.written.get("r"):
                ob("reads the value", prove(ctx, st.path, big.negate()), "the element is not written")
                return
            ob("stays inside the buffer", prove(ctx, st.path, big))
            self.holds(st, ob, "r", comp(self.DL) * F.R)

    def holds(self, st, ob, r, want):
        ctx = self.ctx
        c = comp(self.limbs(st, r))
        known = []
        ob("result", prove_congruent_zero(ctx, st.path, c - want, known=known))
        ob("result canonical", self.is_canonical(c, known + st.path) or ctx.unsat(st.path))

    def selfcheck(self, rng, f, k=4, deadline=None):
        return selfcheck(self, rng, f, k, deadline)

    def expected(self, f, conc, env):
        F, q, sym = self.F, self.F.q, self.sym
        A, B = conc.get("a"), conc.get("b")
        if self.alias in ("ab", "rab"): B = A
        i, u, t = conc.get("i"), conc.get("u"), conc.get("text")
        inv = lambda x: pow(x, -1, q)
        if sym == "k_toRprBE" or sym == "k_fromRprBE":
            if conc["bytes"] < 8 * F.n: return None
            return A * F.Ri % q if sym == "k_toRprBE" else conc["d"] * F.R % q
        T = {"k_copy": lambda: A, "k_add": lambda: A + B, "k_sub": lambda: A - B, "k_mul": lambda: A * B * F.Ri, "k_neg": lambda: -A, "k_square": lambda: A * A * F.Ri,
             "k_add_ie": lambda: i * F.R + A, "k_sub_ie": lambda: i * F.R - A, "k_mul_ie": lambda: i * A, "k_add_ei": lambda: A + i * F.R, "k_sub_ei": lambda: A - i * F.R, "k_mul_ei": lambda: A * i,
             "k_mul1": lambda: A * u * F.Ri, "k_toMontgomery": lambda: A * F.R, "k_fromMontgomery": lambda: A * F.Ri, "k_zero": lambda: 0, "k_one": lambda: F.R, "k_negOne": lambda: -F.R,
             "k_set": lambda: i * F.R, "k_fromUI": lambda: u * F.R, "k_inv": lambda: inv(A) * F.R * F.R, "k_div": lambda: A * inv(B) * F.R, "k_fromString": lambda: t * F.R, "k_fromMpz": lambda: conc["z"] * F.R,
             "k_swap": lambda: A, "k_eq": lambda: int(A == B), "k_isZero": lambda: int(A == 0), "k_toString": lambda: A * F.Ri % q, "k_toMpz": lambda: A * F.Ri % q}
        v = T[sym[:-2] if sym.endswith("_v") else sym]()
        return v if sym in ("k_eq", "k_isZero") else v % q

    def observed(self, ev, st, f):
        sym = self.sym
        if sym in ("k_eq", "k_isZero"): return int(ev(self.m.retval(st).p) & MASK[32] != 0)
        if sym == "k_toString":
            x = st.aux.get("string", {}).get(("o", 0))
            return ev(x[0].p) if x and ev(x[1].p) == ev(self.X.p) else None
        if sym == "k_toMpz": return ev(st.aux["mpz"][("y", 0)].p)
        if sym == "k_toRprBE": return sum((ev(st.load(Ptr("d", 8 * self.F.n - 1 - i), 1).p) & 255) << (8 * i) for i in range(8 * self.F.n))
        return sum((ev(w.p) & MASK[64]) << (64 * i) for i, w in enumerate(self.limbs(st, self.regs["r"].r)))


def low32(ctx, w):
    """An int argument: its register's upper half is undefined."""
    return Word(ctx.uview(w, 32).p + ctx.apoly(ctx.atom("upper", 0, MASK[32], "undef")) * (1 << 32), 0, MASK[64])


TAGGED = ("inv", "div", "idiv", "mod", "pow")
