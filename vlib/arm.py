"""AArch64 front end: decodes llvm-objdump output of an assembled object and executes it symbolically."""
import re, subprocess
from .core import *
from .machine import *

RET = 0x7fff00000000
CALLEE_SAVED = tuple("x%d" % i for i in range(19, 30))


def parse(t):
    t = t.strip()
    m = re.match(r"([xw])(\d+|zr)$", t)
    if m: return ("r", "x" + m.group(2), 64 if m.group(1) == "x" else 32)
    if t in ("sp",): return ("r", "sp", 64)
    m = re.match(r"#(-?(?:0x)?[0-9a-f]+)$", t)
    if m: return ("i", int(m.group(1), 0))
    m = re.match(r"\[(\w+)(?:,\s*#(-?(?:0x)?[0-9a-f]+))?\](!?)$", t)
    if m: return ("m", m.group(1), int(m.group(2) or "0", 0), None, 0, bool(m.group(3)))
    m = re.match(r"\[(\w+),\s*(x\d+)(?:,\s*lsl #(\d+|0x[0-9a-f]+))?\]$", t)
    if m: return ("m", m.group(1), 0, m.group(2), int(m.group(3) or "0", 0), False)
    m = re.match(r"(lsl|lsr|asr) #((?:0x)?[0-9a-f]+)$", t)
    if m: return ("s", m.group(1), int(m.group(2), 0))
    m = re.match(r"0x([0-9a-f]+)(?: <.*>)?$", t)
    if m: return ("a", int(m.group(1), 16))
    if re.match(r"[a-z]{2}$", t): return ("c", t)
    return ("?", t)


def decode_arm(path, elf):
    txt = subprocess.run(["llvm-objdump", "-d", "--no-show-raw-insn", path], capture_output=True, text=True, check=True).stdout
    base = [s for s in elf.sections if s["name"] == ".text"][0]["addr"]
    ins, order = {}, []
    for l in txt.split("\n"):
        m = re.match(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*?)\s*$", l)
        if not m: continue
        a = int(m.group(1), 16) + base
        rest = m.group(3).split("//")[0]
        ops = [parse(x) for x in re.split(r",(?![^\[]*\])", rest)] if rest else []
        ops = [("a", o[1] + base) if o[0] == "a" else o for o in ops]
        ins[a] = [m.group(2), ops, None]
        order.append(a)
    for x, y in zip(order, order[1:]): ins[x][2] = y
    return ins


class Arm(Machine):
    def __init__(self, ctx, image, ins):
        super().__init__(ctx, image)
        self.ins = ins

    def start(self, args=()):
        s = State(self)
        for i in range(31): s.regs["x%d" % i] = self.ctx.aword(self.ctx.atom("in_x%d" % i, 0, MASK[64], "undef"))
        s.regs["sp"] = Ptr("stack", 0)
        s.regs["x30"] = wconst(RET)
        for i, v in enumerate(args): s.regs["x%d" % i] = v
        self.init_regs = dict(s.regs)
        return s

    def abi_ok(self, s):
        if s.regs["sp"] != Ptr("stack", 0): return "stack pointer not restored"
        for r in CALLEE_SAVED:
            a, b = s.regs[r], self.init_regs[r]
            if isinstance(a, Word) and isinstance(b, Word) and a.p.key() == b.p.key(): continue
            return "callee-saved register %s not restored" % r
        return None

    def retval(self, s): return s.regs["x0"]

    def explore(self, s, entry):
        self.entry = None
        return self.run(s, entry)

    def rd(self, s, o):
        if o[0] == "i": return wconst(o[1])
        if o[0] != "r": raise Unsupported("operand %s" % (o,))
        if o[1] == "xzr": return wconst(0)
        v = s.regs[o[1]]
        if o[2] == 32: return self.ctx.uview(self.num(v), 32)
        return v

    def num(self, v):
        """A pointer used as a number: the unknown address of its region plus the offset."""
        if not isinstance(v, Ptr): return v
        d = self.__dict__.setdefault("bases", {})
        if v.r not in d: d[v.r] = self.ctx.aword(self.ctx.atom("addr_" + v.r, 0, MASK[64], "undef"))
        return self.ctx.uview(self.ctx.add(d[v.r], wconst(v.o)), 64)

    def wr(self, s, o, v):
        if o[1] == "xzr": return
        if isinstance(v, Word): v = self.ctx.uview(v, 32) if o[2] == 32 else self.ctx.norm(v)
        s.regs[o[1]] = v

    def shifted(self, s, ops):
        """The last operand with its optional shift."""
        if ops[-1][0] == "s":
            v = self.num(self.rd(s, ops[-2]))
            k = ops[-1][2]
            c = self.ctx
            return {"lsl": c.shl, "lsr": c.shr, "asr": c.sar}[ops[-1][1]](v, k, ops[-2][2])
        return self.rd(s, ops[-1])

    def setf(self, s, t_u, t_s, res, w, sub):
        """Flags of an addition or subtraction: unsigned sum t_u, signed sum t_s (integers)."""
        c = self.ctx
        s.flags = dict(
            cw=(lambda: c.add(c.split(t_u, w)[0], wconst(1))) if sub else (lambda: c.split(t_u, w)[0]),
            cc=(lambda: c_ge(t_u, wconst(0))) if sub else (lambda: c_ge(c.split(t_u, w)[0], wconst(1))),
            z=lambda: c.is_zero(c.uview(res, w)),
            n=lambda: c_ge(wconst(-1), c.sview(res, w)),
            lt=lambda: c_ge(wconst(-1), t_s), t=t_u, sub=sub)
        if sub and t_u.lo > -(1 << w) and t_u.hi < 1 << w:
            s.flags["z"] = lambda: c.is_zero(t_u)

    def cw(self, s):
        if s.flags is None: raise Unsupported("flags undefined")
        return s.flags["cw"]()

    def cond(self, s, cc):
        f = s.flags
        if f is None: raise Unsupported("flags undefined")
        neg = {"ne": "eq", "lo": "hs", "cc": "hs", "lt": "ge", "pl": "mi", "ls": "hi", "le": "gt"}
        inv = cc in neg
        cc = neg.get(cc, cc)
        if cc == "eq": v = s.decide(f["z"]())
        elif cc in ("hs", "cs"): v = s.decide(f["cc"]())
        elif cc == "mi": v = s.decide(f["n"]())
        elif cc == "ge":
            if not f.get("lt"): raise Unsupported("condition ge")
            v = not s.decide(f["lt"]())
        elif cc == "gt": v = (not s.decide(f["lt"]())) and not s.decide(f["z"]())
        elif cc == "hi": v = s.decide(f["cc"]()) and not s.decide(f["z"]())
        else: raise Unsupported("condition " + cc)
        return v != inv

    def mem(self, s, o):
        _, b, off, idx, sh, pre = o
        v = s.regs[b]
        c = self.ctx
        if idx is not None:
            i = s.concretize(c.uview(self.num(s.regs[idx]), 64))
            off += i << sh
        if isinstance(v, Ptr):
            p = Ptr(v.r, v.o + off)
        else:
            if not v.is_const(): raise Unsupported("symbolic address")
            p = wconst((v.p.const() + off) & MASK[64])
        if pre: s.regs[b] = p
        return p

    def post(self, s, o, ops):
        if len(ops) and ops[-1][0] == "i":
            v = s.regs[o[1]]
            s.regs[o[1]] = Ptr(v.r, v.o + ops[-1][1]) if isinstance(v, Ptr) else self.ctx.add(v, wconst(ops[-1][1]))

    def at(self, p, k):
        return Ptr(p.r, p.o + k) if isinstance(p, Ptr) else wconst(p.p.const() + k)

    def goto(self, s, a):
        if a not in self.ins: raise Fault("jump to %#x, not an instruction" % a)
        s.pc = a
        return False

    def step(self, s):
        I = self.ins.get(s.pc)
        if I is None: raise Unsupported("no instruction at %#x" % s.pc)
        mn, ops, nxt = I
        c = self.ctx
        w = ops[0][2] if ops and ops[0][0] == "r" else 64
        rd = lambda i: self.num(self.rd(s, ops[i]))
        if mn in ("add", "adds", "sub", "subs", "cmp", "cmn", "neg", "negs"):
            if mn in ("cmp", "cmn"): a, rest, dst = rd(0), ops[1:], None
            elif mn in ("neg", "negs"): a, rest, dst = wconst(0), ops[1:], ops[0]
            else: a, rest, dst = self.rd(s, ops[1]), ops[2:], ops[0]
            b = self.num(self.shifted(s, rest))
            sub = mn in ("sub", "subs", "cmp", "neg", "negs")
            if isinstance(a, Ptr) and (dst is None or mn[-1] == "s" and mn != "subs" or not b.is_const()): a = self.num(a)
            if isinstance(a, Ptr):
                k = b.p.const()
                s.regs[dst[1]] = Ptr(a.r, a.o + (-k if sub else k))
            else:
                self.arith(s, dst, a, b, None, w, sub, mn in ("adds", "subs", "cmp", "cmn", "negs"))
        elif mn in ("adc", "adcs", "sbc", "sbcs", "ngc", "ngcs"):
            if mn.startswith("ngc"): a, b = wconst(0), rd(1)
            else: a, b = rd(1), rd(2)
            self.arith(s, ops[0], a, b, self.cw(s), w, mn[0] != "a", mn[-1] == "s")
        elif mn == "mul":
            self.wr(s, ops[0], c.split(c.mul(c.uview(rd(1), w), c.uview(rd(2), w)), w)[1])
        elif mn == "umulh":
            self.wr(s, ops[0], c.split(c.mul(c.uview(rd(1), 64), c.uview(rd(2), 64)), 64)[0])
        elif mn in ("madd", "msub"):
            p = c.mul(c.uview(rd(1), w), c.uview(rd(2), w))
            self.wr(s, ops[0], c.split(c.add(rd(3), p) if mn == "madd" else c.sub(rd(3), p), w)[1])
        elif mn in ("mov", "movz"):
            v = self.rd(s, ops[1])
            if len(ops) > 2: v = c.scale(v, 1 << ops[2][2])
            self.wr(s, ops[0], v)
        elif mn == "movk":
            sh = ops[2][2] if len(ops) > 2 else 0
            self.wr(s, ops[0], c.bor(c.band(rd(0), wconst(MASK[64] ^ (0xffff << sh))), wconst(ops[1][1] << sh)))
        elif mn in ("and", "orr", "eor", "ands", "bic", "orn", "tst"):
            if mn == "tst": a, b = rd(0), self.shifted(s, ops[1:])
            else: a, b = rd(1), self.shifted(s, ops[2:])
            if b.is_const(): b = wconst(b.p.const() & MASK[w])
            if mn in ("bic", "orn"): b = c.bnot(b, w)
            r = {"and": c.band, "ands": c.band, "tst": c.band, "bic": c.band, "orr": c.bor, "orn": c.bor, "eor": c.bxor}[mn](a, b, w)
            if mn != "tst": self.wr(s, ops[0], r)
            if mn in ("ands", "tst"):
                s.flags = dict(cw=lambda: wconst(0), cc=lambda: FALSE, z=lambda: c.is_zero(r), n=lambda: c_ge(wconst(-1), c.sview(r, w)), lt=lambda: c_ge(wconst(-1), c.sview(r, w)))
        elif mn == "mvn": self.wr(s, ops[0], c.bnot(self.shifted(s, ops[1:]), w))
        elif mn in ("lsl", "lsr", "asr"):
            k = ops[2][1] if ops[2][0] == "i" else s.concretize(c.uview(rd(2), w)) % w
            self.wr(s, ops[0], {"lsl": c.shl, "lsr": c.shr, "asr": c.sar}[mn](rd(1), k, w))
        elif mn == "sxtw": self.wr(s, ops[0], c.sview(s.regs[ops[1][1]], 32))
        elif mn in ("cset", "csetm"):
            cc = ops[1][1]
            if cc in ("hs", "cs") and mn == "cset": self.wr(s, ops[0], self.cw(s))
            elif cc in ("lo", "cc") and mn == "cset": self.wr(s, ops[0], c.sub(wconst(1), self.cw(s)))
            else: self.wr(s, ops[0], wconst((1 if mn == "cset" else MASK[w]) if self.cond(s, cc) else 0))
        elif mn == "csel": self.wr(s, ops[0], self.rd(s, ops[1] if self.cond(s, ops[3][1]) else ops[2]))
        elif mn in ("csinc", "csinv", "csneg"):
            if self.cond(s, ops[3][1]): v = rd(1)
            else:
                v = rd(2)
                v = c.uview(c.add(v, wconst(1)), w) if mn == "csinc" else c.bnot(v, w) if mn == "csinv" else c.uview(c.neg(v), w)
            self.wr(s, ops[0], v)
        elif mn == "cinc":
            v = rd(1)
            self.wr(s, ops[0], c.uview(c.add(v, wconst(1)), w) if self.cond(s, ops[2][1]) else v)
        elif mn == "cneg":
            v = rd(1)
            self.wr(s, ops[0], (c.neg(v) if w == 64 else c.uview(c.neg(v), w)) if self.cond(s, ops[2][1]) else v)
        elif mn == "adr": self.wr(s, ops[0], wconst(ops[1][1]))
        elif mn in ("ldp", "stp"):
            p = self.mem(s, ops[2])
            k = 8 if ops[0][2] == 64 else 4
            if mn == "ldp":
                a, b = s.load(p, k), s.load(self.at(p, k), k)
                self.wr(s, ops[0], a); self.wr(s, ops[1], b)
            else:
                a, b = self.rd(s, ops[0]), self.rd(s, ops[1])
                s.store(p, k, a); s.store(self.at(p, k), k, b)
            self.post(s, ops[2], ops[3:])
        elif mn in ("ldr", "str", "ldur", "stur"):
            p = self.mem(s, ops[1])
            k = 8 if ops[0][2] == 64 else 4
            if mn[0] == "l": self.wr(s, ops[0], s.load(p, k))
            else: s.store(p, k, self.rd(s, ops[0]))
            self.post(s, ops[1], ops[2:])
        elif mn == "b": return self.goto(s, ops[0][1])
        elif mn.startswith("b."):
            if self.cond(s, mn[2:]): return self.goto(s, ops[0][1])
        elif mn in ("cbz", "cbnz"):
            v = s.decide(c.is_zero(c.uview(rd(0), w)))
            if v == (mn == "cbz"): return self.goto(s, ops[1][1])
        elif mn == "br":
            v = rd(0)
            if not v.is_const(): raise Unsupported("indirect jump")
            return self.goto(s, v.p.const())
        elif mn == "ret":
            v = s.regs["x30"]
            if not isinstance(v, Word) or not v.is_const(): raise Fault("return to a corrupted address")
            if v.p.const() == RET: return True
            return self.goto(s, v.p.const())
        elif mn == "bl":
            s.regs["x30"] = wconst(nxt)
            return self.goto(s, ops[0][1])
        elif mn == "nop": pass
        else: raise Unsupported("instruction %s" % mn)
        s.pc = nxt
        return False

    def arith(self, s, dst, a, b, cin, w, sub, flags):
        c = self.ctx
        ua, ub = c.uview(a, w), c.uview(b, w)
        if sub:
            t, r = c.sub(ua, ub), c.sub(a, b)
            if cin is not None:
                k = c.sub(wconst(1), cin)
                t, r = c.sub(t, k), c.sub(r, k)
        else:
            t, r = c.add(ua, ub), c.add(a, b)
            if cin is not None: t, r = c.add(t, cin), c.add(r, cin)
        half = 1 << (w - 1)
        res = r if -half <= r.lo and r.hi < half else t
        if flags:
            sa, sb = c.sview(a, w), c.sview(b, w)
            ts = c.sub(sa, sb) if sub else c.add(sa, sb)
            if cin is not None: ts = c.sub(ts, c.sub(wconst(1), cin)) if sub else c.add(ts, cin)
            self.setf(s, t, ts, res, w, sub)
        if dst is not None: self.wr(s, dst, res)
