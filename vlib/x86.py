"""x86-64 front end: decodes objdump output of a linked image and executes it symbolically."""
import re, subprocess
from .core import *
from .machine import *
from .elf import Elf

R64 = "rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15".split()
REG = {}
for r in R64:
    REG[r] = (r, 64, 0)
for r in "ax bx cx dx".split():
    REG["e" + r] = ("r" + r, 32, 0); REG[r] = ("r" + r, 16, 0); REG[r[0] + "l"] = ("r" + r, 8, 0); REG[r[0] + "h"] = ("r" + r, 8, 8)
for r in "si di bp sp".split():
    REG["e" + r] = ("r" + r, 32, 0); REG[r] = ("r" + r, 16, 0); REG[r + "l"] = ("r" + r, 8, 0)
for i in range(8, 16):
    REG["r%dd" % i] = ("r%d" % i, 32, 0); REG["r%dw" % i] = ("r%d" % i, 16, 0); REG["r%db" % i] = ("r%d" % i, 8, 0)
SZ = {"BYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8, "XMMWORD": 16}
CALLEE_SAVED = ("rbx", "rbp", "r12", "r13", "r14", "r15")
MEMRE = re.compile(r"(?:(\w+) PTR )?(?:([a-z]s):)?(?:\[([^\]]*)\]|(0x[0-9a-f]+))$")


def parse_operand(t):
    t = t.strip()
    if t in REG: return ("r",) + REG[t]
    m = MEMRE.match(t)
    if m and (m.group(3) is not None or m.group(1)):
        size = SZ.get(m.group(1)) if m.group(1) else None
        if m.group(4): return ("m", size, None, None, 1, int(m.group(4), 16))
        base = idx = None
        scale, disp = 1, 0
        for sign, term in re.findall(r"([+-]?)([^+-]+)", m.group(3)):
            if "*" in term:
                i, sc = term.split("*")
                if i in ("riz",): continue
                idx, scale = i, int(sc, 0)
            elif term in REG or term == "rip":
                if base is None: base = term
                else: idx = term
            else:
                v = int(term, 16)
                disp += -v if sign == "-" else v
        return ("m", size, base, idx, scale, disp)
    if re.match(r"-?0x[0-9a-f]+$", t) or re.match(r"-?\d+$", t): return ("i", int(t, 0))
    m = re.match(r"([0-9a-f]+)(?: <.*>)?$", t)
    if m: return ("i", int(m.group(1), 16))
    m = re.match(r"(xmm|ymm)\d+$", t)
    return ("?", t)


def decode(path):
    txt = subprocess.run(["objdump", "-d", "-M", "intel", "--no-show-raw-insn", "-w", path], capture_output=True, text=True, check=True).stdout
    ins, order = {}, []
    for l in txt.split("\n"):
        m = re.match(r"\s*([0-9a-f]+):\s+(.*?)\s*$", l)
        if not m: continue
        a = int(m.group(1), 16)
        body = m.group(2)
        rip = None
        if "#" in body:
            body, c = body.split("#", 1)
            rip = int(c.strip().split()[0], 16)
        body = body.strip()
        pre = []
        parts = body.split(None, 1)
        while parts and parts[0] in ("rep", "repz", "repe", "repnz", "bnd", "notrack", "cs", "data16", "lock", "ds"):
            pre.append(parts[0])
            parts = parts[1].split(None, 1) if len(parts) > 1 else []
        if not parts: parts = ["nop"]
        mn = parts[0]
        ops = []
        if len(parts) > 1 and mn not in ("nop", "nopw", "nopl"):
            ops = [parse_operand(x) for x in re.split(r",(?![^\[]*\])", parts[1])]
            ops = [("m", o[1], None, None, 1, rip) if o[0] == "m" and o[2] == "rip" else o for o in ops]
        ins[a] = [mn, ops, pre, None]
        order.append(a)
    for x, y in zip(order, order[1:]): ins[x][3] = y
    return ins


class Flags:
    """Lazily evaluated flags: each entry is a function of the state giving a Cond (or, for the carries, a Word)."""
    __slots__ = ("cfw", "ofw", "cfc", "ofc", "zf", "sf", "cmp")

    def __init__(self):
        self.cfw = self.ofw = self.cfc = self.ofc = self.zf = self.sf = self.cmp = None

    def copy(self):
        f = Flags()
        for k in Flags.__slots__: setattr(f, k, getattr(self, k))
        return f


RET = 0x7fff00000000  # sentinel return address


class X86(Machine):
    def __init__(self, ctx, image, ins):
        super().__init__(ctx, image)
        self.ins = ins

    # ---- operands
    def addr(self, s, o):
        _, size, base, idx, scale, disp = o
        a = wconst(disp)
        p = None
        if base is not None:
            v = s.regs[REG[base][0]]
            if isinstance(v, (Ptr, SPtr)): p = v
            else: a = self.ctx.add(a, v)
        if idx is not None:
            v = s.regs[REG[idx][0]]
            if isinstance(v, (Ptr, SPtr)):
                if p is not None or scale != 1: raise Unsupported("two pointers in an address")
                p = v
            else: a = self.ctx.add(a, self.ctx.scale(v, scale))
        return p, a

    def resolve(self, s, o):
        p, a = self.addr(s, o)
        if p is not None: return padd(self, s, p, a)
        return wconst(s.concretize(a) & MASK[64])

    def low(self, v):
        """the lower half of an address: that of where its region is, which is anywhere, and the distance from there"""
        if not hasattr(self, "bases"): self.bases = {}
        if v.r not in self.bases: self.bases[v.r] = self.ctx.aword(self.ctx.atom("base(%s)" % v.r, 0, MASK[32], "ghost"))
        return self.ctx.uview(self.ctx.add(self.bases[v.r], v.w if isinstance(v, SPtr) else wconst(v.o)), 32)

    def rd(self, s, o, w=None):
        k = o[0]
        if k == "r":
            v = s.regs[o[1]]
            bits, sh = o[2], o[3]
            if bits == 64: return v
            if isinstance(v, (Ptr, SPtr)) and bits == 32 and not sh: return self.low(v)
            if not isinstance(v, Word): raise Unsupported("part of a pointer or abstract value")
            v = self.ctx.uview(v, 64)
            if sh: v = self.ctx.split(v, sh)[0]
            return self.ctx.split(v, bits)[1]
        if k == "i":
            return wconst(o[1])
        if k == "m":
            size = o[1] or w // 8
            return s.load(self.resolve(s, o), size)
        raise Unsupported("operand %s" % (o,))

    def width(self, ops):
        for o in ops:
            if o[0] == "r": return o[2]
            if o[0] == "m" and o[1]: return o[1] * 8
        return 64

    def wr(self, s, o, v, w):
        if o[0] == "r":
            r, bits, sh = o[1], o[2], o[3]
            if bits == 64: s.regs[r] = self.ctx.norm(v) if isinstance(v, Word) else v
            elif bits == 32:
                s.regs[r] = self.ctx.uview(v, 32)
            else:
                old = s.regs[r]
                c = self.ctx
                if not isinstance(old, Word): old = c.aword(c.atom("undef_" + r, 0, MASK[64], "undef"))      # nothing is known of what is left of a pointer
                old = c.uview(old, 64)
                v = c.uview(v, bits)
                if sh:
                    lowp = c.split(old, sh)[1]
                    high = c.split(old, sh + bits)[0]
                    s.regs[r] = c.add(c.add(c.scale(high, 1 << (sh + bits)), c.scale(v, 1 << sh)), lowp)
                else:
                    high = c.split(old, bits)[0]
                    s.regs[r] = c.add(c.scale(high, 1 << bits), v)
        elif o[0] == "m":
            s.store(self.resolve(s, o), o[1] or w // 8, v)
        else: raise Unsupported("destination")

    # ---- flags
    def fl(self, s):
        s.flags = s.flags.copy() if s.flags else Flags()
        return s.flags

    def set_add(self, s, a, b, cin, w, keep_cf=False):
        c = self.ctx
        ua, ub = c.uview(a, w), c.uview(b, w)
        t = c.add(ua, ub)
        if cin is not None: t = c.add(t, cin)
        f = Flags()
        old = s.flags
        if keep_cf and old: f.cfw, f.cfc = old.cfw, old.cfc
        else: f.cfw = lambda: c.split(t, w)[0]

        def of():
            x = c.add(c.sview(a, w), c.sview(b, w))
            if cin is not None: x = c.add(x, cin)
            return c_or(c_ge(x, wconst(1 << (w - 1))), c_ge(wconst(-(1 << (w - 1)) - 1), x))
        f.ofc = of
        res = t
        self.zs(f, res, w)
        s.flags = f
        # a representative as close to the operands as possible
        r = c.add(a, b)
        if cin is not None: r = c.add(r, cin)
        return r if -(1 << (w - 1)) <= r.lo and r.hi < 1 << w else t

    def zs(self, f, res, w):
        c = self.ctx
        f.zf = lambda: c.is_zero(c.sview(res, w) if res.lo < 0 else c.uview(res, w))
        f.sf = lambda: c_ge(wconst(-1), c.sview(res, w)) if res.lo < 0 or res.hi < 1 << (w - 1) else c_ge(c.uview(res, w), wconst(1 << (w - 1)))

    def set_sub(self, s, a, b, cin, w, keep_cf=False):
        c = self.ctx
        f = Flags()
        old = s.flags
        if isinstance(a, (Ptr, SPtr)) or isinstance(b, (Ptr, SPtr)):
            if cin is None and isinstance(a, (Ptr, SPtr)) and isinstance(b, (Ptr, SPtr)):
                if a.r == b.r: a, b = (x.w if isinstance(x, SPtr) else wconst(x.o) for x in (a, b))
                else:
                    f.zf = lambda: FALSE
                    s.flags = f
                    return None
            else:      # a valid object address against a number: not null
                n = b if isinstance(a, (Ptr, SPtr)) else a
                if n.is_const() and n.p.const() == 0:
                    f.zf = lambda: FALSE
                    s.flags = f
                    return None
                raise Unsupported("pointer compared with a number")
        ua, ub = c.uview(a, w), c.uview(b, w)
        t = c.sub(ua, ub)
        if cin is not None: t = c.sub(t, cin)
        if keep_cf and old: f.cfw, f.cfc = old.cfw, old.cfc
        else:
            f.cfw = lambda: c.neg(c.split(t, w)[0])
            f.cfc = lambda: c_ge(wconst(-1), t)

        def of():
            x = c.sub(c.sview(a, w), c.sview(b, w))
            if cin is not None: x = c.sub(x, cin)
            return c_or(c_ge(x, wconst(1 << (w - 1))), c_ge(wconst(-(1 << (w - 1)) - 1), x))
        f.ofc = of
        if cin is None:
            half = 1 << (w - 1)
            f.zf = lambda: (c_eq(a, b) if a.lo >= -half and b.lo >= -half and a.hi < half and b.hi < half else c_eq(ua, ub))
            f.cmp = (a, b, ua, ub, w)
            f.sf = lambda: (c_ge(wconst(-1), c.sview(t, w)))
        else: self.zs(f, t, w)
        s.flags = f
        r = c.sub(a, b)
        if cin is not None: r = c.sub(r, cin)
        return r if -(1 << (w - 1)) <= r.lo and r.hi < 1 << w else t

    def set_logic(self, s, res, w):
        f = Flags()
        f.cfw = f.ofw = lambda: wconst(0)
        f.cfc = f.ofc = lambda: FALSE
        self.zs(f, res, w)
        s.flags = f

    def cf_word(self, s):
        f = s.flags
        if f is None: raise Unsupported("flags undefined")
        if f.cfw is not None: return f.cfw()
        if f.cfc is None: raise Unsupported("carry flag undefined")
        return wconst(1) if s.decide(f.cfc()) else wconst(0)

    def of_word(self, s):
        f = s.flags
        if f.ofw is not None: return f.ofw()
        if f.ofc is None: raise Unsupported("overflow flag undefined")
        return wconst(1) if s.decide(f.ofc()) else wconst(0)

    def cf_cond(self, s):
        f = s.flags
        if f is None: raise Unsupported("flags undefined")
        if f.cfc is not None: return f.cfc()
        if f.cfw is None: raise Unsupported("carry flag undefined")
        return c_ge(f.cfw(), wconst(1))

    def cond(self, s, cc):
        """Decide a condition code (forking)."""
        neg = cc in NEGCC
        cc = NEGCC.get(cc, cc)
        f = s.flags
        if f is None: raise Unsupported("flags undefined")
        c = self.ctx
        if cc == "b": v = s.decide(self.cf_cond(s))
        elif cc == "e":
            if f.zf is None: raise Unsupported("zero flag undefined")
            v = s.decide(f.zf())
        elif cc == "s": v = s.decide(f.sf())
        elif cc == "o":
            v = s.decide(f.ofc() if f.ofc else c_ge(f.ofw(), wconst(1)))
        elif cc == "be":
            if f.cmp: v = s.decide(c_ge(f.cmp[3], f.cmp[2]))
            else: v = s.decide(self.cf_cond(s)) or s.decide(f.zf())
        elif cc == "l":
            if f.cmp:
                a, b, _, _, w = f.cmp
                v = s.decide(c_ge(c.sub(c.sview(b, w), wconst(1)), c.sview(a, w)))
            else: v = s.decide(f.sf()) != s.decide(f.ofc() if f.ofc else c_ge(f.ofw(), wconst(1)))
        elif cc == "le":
            if f.cmp:
                a, b, _, _, w = f.cmp
                v = s.decide(c_ge(c.sview(b, w), c.sview(a, w)))
            else: v = s.decide(f.zf()) or (s.decide(f.sf()) != s.decide(f.ofc() if f.ofc else c_ge(f.ofw(), wconst(1))))
        else: raise Unsupported("condition " + cc)
        return v != neg

    # ---- stack and calls
    def push(self, s, v):
        sp = s.regs["rsp"]
        sp = Ptr(sp.r, sp.o - 8)
        s.store(sp, 8, v)
        s.regs["rsp"] = sp

    def do_ret(self, s):
        sp = s.regs["rsp"]
        if not isinstance(sp, Ptr) or sp.r != "stack": raise Fault("return with a stack pointer outside the stack")
        v = s.load(sp, 8)
        s.regs["rsp"] = Ptr(sp.r, sp.o + 8)
        if not isinstance(v, Word) or not v.is_const(): raise Fault("return to a corrupted address")
        v = v.p.const()
        if v == RET: return True
        if v not in self.ins: raise Fault("return to a corrupted address")
        s.pc = v
        return False

    def jump(self, s, t):
        h = self.contracts.get(t)
        if h is not None and not (t == self.entry):
            h(s)
            return self.do_ret(s)
        if t not in self.ins: raise Unsupported("jump to %#x" % t)
        s.pc = t
        return False

    def start(self, args=()):
        s = State(self)
        for r in R64:
            a = self.ctx.atom("in_" + r, 0, MASK[64], "undef")
            s.regs[r] = self.ctx.aword(a)
        s.regs["rsp"] = Ptr("stack", 0)
        s._cells("stack")[0] = (8, wconst(RET))
        for r, v in zip(("rdi", "rsi", "rdx", "rcx", "r8", "r9"), args): s.regs[r] = v
        self.init_regs = dict(s.regs)
        return s

    def abi_ok(self, s):
        """The calling convention: None, or what is broken."""
        if s.regs["rsp"] != Ptr("stack", 8): return "stack pointer not restored"
        for r in CALLEE_SAVED:
            a, b = s.regs[r], self.init_regs[r]
            if isinstance(a, Word) and isinstance(b, Word) and a.p.key() == b.p.key(): continue
            if isinstance(a, Ptr) and a == b: continue
            return "callee-saved register %s not restored" % r
        return None

    def clobber(self, s, keep=()):
        for r in ("rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11"):
            if r not in keep: s.regs[r] = self.ctx.aword(self.ctx.atom("clob_" + r, 0, MASK[64], "undef"))
        s.flags = None
        # the callee may use everything below the stack pointer
        sp = s.regs["rsp"].o
        for o in [o for o in s._cells("stack") if o < sp]: del s.mem["stack"][o]

    def retval(self, s):
        return s.regs["rax"]

    def explore(self, s, entry):
        self.entry = None
        return self.run(s, entry)

    # ---- one instruction
    def step(self, s):
        pc = s.pc
        I = self.ins.get(pc)
        if I is None: raise Unsupported("no instruction at %#x" % pc)
        mn, ops, pre, nxt = I
        h = HANDLERS.get(mn)
        if h is None:
            if mn[0] == "j" and mn[1:] in CCS: h = i_jcc
            elif mn.startswith("set") and mn[3:] in CCS: h = i_setcc
            elif mn.startswith("cmov") and mn[4:] in CCS: h = i_cmov
            else: raise Unsupported("instruction %s" % mn)
        r = h(self, s, mn, ops, pre, nxt)
        if r is None:
            s.pc = nxt
            return False
        return r


NEGCC = {"ae": "b", "ne": "e", "ns": "s", "no": "o", "a": "be", "ge": "l", "g": "le", "nb": "b", "nc": "b", "nz": "e", "nl": "l"}
CCS = {"b", "ae", "e", "ne", "s", "ns", "o", "no", "be", "a", "l", "ge", "le", "g", "nb", "nc", "nz", "nl"}


def sx(v, w):
    """immediates are sign-extended"""
    return v


def i_mov(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    m.wr(s, ops[0], m.rd(s, ops[1], w), w)


def i_movzx(m, s, mn, ops, pre, nxt):
    sw = m.width(ops[1:])
    m.wr(s, ops[0], m.ctx.uview(m.rd(s, ops[1], sw), sw), m.width(ops))


def i_bsr(m, s, mn, ops, pre, nxt):
    v = m.rd(s, ops[1], m.width(ops))
    if not isinstance(v, Word) or not v.is_const() or v.p.const() == 0: raise Unsupported("the highest bit of an unknown number")
    s.flags = None
    m.wr(s, ops[0], wconst(v.p.const().bit_length() - 1), m.width(ops))


def i_movsx(m, s, mn, ops, pre, nxt):
    sw = m.width(ops[1:])
    v = m.rd(s, ops[1], sw)
    if ops[1][0] == "r" and ops[1][2] == 32:
        raw = s.regs[ops[1][1]]
        if isinstance(raw, Word): v = raw
    m.wr(s, ops[0], m.ctx.sview(v, sw), m.width(ops))


def i_lea(m, s, mn, ops, pre, nxt):
    p, a = m.addr(s, ops[1])
    w = ops[0][2]
    if p is not None: m.wr(s, ops[0], padd(m, s, p, a), w)
    else: m.wr(s, ops[0], a, w)


def padd(m, s, a, x):
    """pointer + number of bytes"""
    R = m.regions.get(a.r)
    if R is not None and R.arr is not None and (isinstance(a, SPtr) or not x.is_const()):
        c = m.ctx
        w = c.add(a.w if isinstance(a, SPtr) else wconst(a.o), c.sview(x, 64))
        return Ptr(a.r, w.p.const()) if w.is_const() else SPtr(a.r, w)
    c = s.concretize(x) & MASK[64]
    if c >> 63: c -= 1 << 64
    return Ptr(a.r, a.o + c)


def i_add(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    a, b = m.rd(s, ops[0], w), m.rd(s, ops[1], w)
    if isinstance(b, (Ptr, SPtr)): a, b = b, a
    if isinstance(a, (Ptr, SPtr)):
        m.wr(s, ops[0], padd(m, s, a, b), w); s.flags = None
        return
    cin = m.cf_word(s) if mn == "adc" else None
    m.wr(s, ops[0], m.set_add(s, a, b, cin, w), w)


def i_adx(m, s, mn, ops, pre, nxt):
    a, b = m.rd(s, ops[0], 64), m.rd(s, ops[1], 64)
    c = m.ctx
    cin = m.cf_word(s) if mn == "adcx" else m.of_word(s)
    t = c.add(c.add(c.uview(a), c.uview(b)), cin)
    f = m.fl(s)
    f.cmp = None
    if mn == "adcx": f.cfw, f.cfc = (lambda: c.split(t, 64)[0]), None
    else: f.ofw, f.ofc = (lambda: c.split(t, 64)[0]), None
    m.wr(s, ops[0], t, 64)


def i_sub(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    a, b = m.rd(s, ops[0], w), m.rd(s, ops[1], w)
    if mn == "sub" and isinstance(a, (Ptr, SPtr)) and isinstance(b, Word):
        m.wr(s, ops[0], padd(m, s, a, m.ctx.neg(m.ctx.sview(b, 64))), w); s.flags = None
        return
    if mn == "sub" and isinstance(a, (Ptr, SPtr)) and isinstance(b, (Ptr, SPtr)) and a.r == b.r:
        x, y = (p.w if isinstance(p, SPtr) else wconst(p.o) for p in (a, b))
        m.set_sub(s, x, y, None, w)
        m.wr(s, ops[0], m.ctx.sub(x, y), w)
        return
    if ops[0] == ops[1] and mn == "sub":
        m.set_logic(s, wconst(0), w); m.wr(s, ops[0], wconst(0), w)
        return
    cin = m.cf_word(s) if mn == "sbb" else None
    if mn == "sbb" and ops[0] == ops[1]: a = b = wconst(0)
    r = m.set_sub(s, a, b, cin, w)
    if mn != "cmp":
        if r is None: raise Unsupported("pointer difference")
        m.wr(s, ops[0], r, w)


def i_logic(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    c = m.ctx
    if mn == "xor" and ops[0] == ops[1]:
        m.set_logic(s, wconst(0), w); m.wr(s, ops[0], wconst(0), w)
        return
    a, b = m.rd(s, ops[0], w), m.rd(s, ops[1], w)
    if isinstance(a, (Ptr, SPtr)) or isinstance(b, (Ptr, SPtr)):
        if mn == "test" and a == b:       # an object address is not null
            f = Flags(); f.zf = lambda: FALSE; f.cfc = f.ofc = lambda: FALSE
            s.flags = f
            return
        if mn == "and" and isinstance(a, Ptr) and a.r == "stack" and isinstance(b, Word) and b.is_const():
            k = b.p.const() & MASK[64]     # aligning the stack pointer: the entry stack pointer is 8 modulo 16
            al = (1 << 64) - k
            if al & (al - 1) == 0 and al <= 16:
                m.wr(s, ops[0], Ptr("stack", ((a.o + 8) // al) * al - 8), w); s.flags = None
                return
        raise Unsupported("logic on a pointer")
    if mn in ("and", "test"): r = a if (mn == "test" and ops[0] == ops[1]) else c.band(a, b, w)
    elif mn == "or": r = c.bor(a, b, w) if ops[0] != ops[1] else c.uview(a, w)
    else: r = c.bxor(a, b, w)
    m.set_logic(s, r, w)
    if mn != "test": m.wr(s, ops[0], r, w)


def i_not(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    m.wr(s, ops[0], m.ctx.bnot(m.rd(s, ops[0], w), w), w)


def i_neg(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    m.wr(s, ops[0], m.set_sub(s, wconst(0), m.rd(s, ops[0], w), None, w), w)


def i_inc(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    a = m.rd(s, ops[0], w)
    if isinstance(a, (Ptr, SPtr)): m.wr(s, ops[0], padd(m, s, a, wconst(1 if mn == "inc" else -1)), w); return
    g = m.set_add if mn == "inc" else m.set_sub
    m.wr(s, ops[0], g(s, a, wconst(1), None, w, keep_cf=True), w)


def i_shift(m, s, mn, ops, pre, nxt):
    w = m.width(ops[:1])
    a = m.rd(s, ops[0], w)
    k = 1 if len(ops) == 1 else s.concretize(m.ctx.band(m.rd(s, ops[1], 8), wconst(63 if w == 64 else 31), 8))
    k &= 63 if w == 64 else 31
    if k == 0:
        if w == 32: m.wr(s, ops[0], a, w)
        return
    c = m.ctx
    f = Flags()
    if mn in ("shl", "sal"):
        if isinstance(a, Ptr): raise Unsupported("shift of a pointer")
        r = c.shl(a, k, w); last = lambda: c.split(c.split(c.uview(a, w), w - k)[0], 1)[1]
    elif mn == "shr": r = c.shr(a, k, w); last = lambda: c.split(c.split(c.uview(a, w), k - 1)[0], 1)[1]
    else: r = c.sar(a, k, w); last = lambda: c.split(c.split(c.sview(a, w), k - 1)[0], 1)[1]
    f.cfw = last
    m.zs(f, r, w)
    s.flags = f
    m.wr(s, ops[0], r, w)


def i_shd(m, s, mn, ops, pre, nxt):
    w = m.width(ops[:1])
    a, b = m.rd(s, ops[0], w), m.rd(s, ops[1], w)
    k = s.concretize(m.rd(s, ops[2], 8)) & (63 if w == 64 else 31)
    c = m.ctx
    if k == 0: return
    if mn == "shld": r = c.bor(c.shl(a, k, w), c.shr(b, w - k, w), w)
    else: r = c.bor(c.shr(a, k, w), c.shl(b, w - k, w), w)
    f = Flags(); m.zs(f, r, w); s.flags = f
    m.wr(s, ops[0], r, w)


def i_rot(m, s, mn, ops, pre, nxt):
    w = m.width(ops[:1])
    a = m.rd(s, ops[0], w)
    k = (1 if len(ops) == 1 else s.concretize(m.rd(s, ops[1], 8))) % w
    if mn == "ror": k = (w - k) % w
    c = m.ctx
    f = Flags()
    s.flags = f
    if k: m.wr(s, ops[0], c.bor(c.shl(a, k, w), c.shr(a, w - k, w), w), w)


def i_mul(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    c = m.ctx
    ra = {64: "rax", 32: "eax"}[w]; rd = {64: "rdx", 32: "edx"}[w]
    a, b = m.rd(s, ("r",) + REG[ra], w), m.rd(s, ops[0], w)
    v = c.uview if mn == "mul" else c.sview
    t = c.mul(v(a, w), v(b, w))
    h, l = c.split(t, w)
    m.wr(s, ("r",) + REG[ra], l, w); m.wr(s, ("r",) + REG[rd], h, w)
    f = Flags()
    if mn == "mul": f.cfc = f.ofc = lambda: c_ge(h, wconst(1))
    else: f.cfc = f.ofc = lambda: c_or(c_ge(t, wconst(1 << (w - 1))), c_ge(wconst(-(1 << (w - 1)) - 1), t))
    s.flags = f


def i_imul(m, s, mn, ops, pre, nxt):
    if len(ops) == 1: return i_mul(m, s, mn, ops, pre, nxt)
    w = m.width(ops[:1])
    c = m.ctx
    a, b = (m.rd(s, ops[0], w), m.rd(s, ops[1], w)) if len(ops) == 2 else (m.rd(s, ops[1], w), m.rd(s, ops[2], w))
    if a.is_const() or b.is_const():
        t = c.mul(a, b)
    else: t = c.mul(c.sview(a, w), c.sview(b, w)) if a.lo < 0 or b.lo < 0 else c.mul(a, b)
    st = lambda: c.mul(c.sview(a, w), c.sview(b, w))
    f = Flags()

    def of():
        x = st()
        return c_or(c_ge(x, wconst(1 << (w - 1))), c_ge(wconst(-(1 << (w - 1)) - 1), x))
    f.ofc = f.cfc = of
    s.flags = f
    m.wr(s, ops[0], t, w)


def i_mulx(m, s, mn, ops, pre, nxt):
    w = m.width(ops[:1])
    c = m.ctx
    a, b = c.uview(m.rd(s, ("r", "rdx", w, 0), w), w), c.uview(m.rd(s, ops[2], w), w)
    h, l = c.split(c.mul(a, b), w)
    m.wr(s, ops[1], l, w); m.wr(s, ops[0], h, w)


def i_div(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    c = m.ctx
    ra = ("r", "rax", w, 0); rd = ("r", "rdx", w, 0)
    a, d, b = m.rd(s, ra, w), m.rd(s, rd, w), m.rd(s, ops[0], w)
    if not b.is_const() and w == 64 and mn == "div" or not b.is_const() and b.hi - b.lo > m.enum_limit: return symbolic_div(m, s, mn, w, ra, rd, a, d, b)
    if not b.is_const(): b = wconst(s.concretize(b))
    k = b.p.const() & MASK[w]
    if mn == "idiv":
        if k >> (w - 1): k -= 1 << w
        a, d = c.sview(a, w), c.sview(d, w)
        if a.is_const() and d.is_const():
            x = (d.p.const() << w) + (a.p.const() & MASK[w])
            q = abs(x) // abs(k) * (1 if (x < 0) == (k < 0) else -1)
            m.wr(s, ra, wconst(q), w); m.wr(s, rd, wconst(x - q * k), w); s.flags = None
            return
        if a.lo < 0 and not s.decide(c_ge(a, wconst(0))): raise Unsupported("signed division")
        if a.lo < 0: a = Word(a.p, 0, a.hi)
        d = wconst(0)
    if k == 0: raise Fault("division by zero")
    t = c.add(c.scale(c.uview(d, w), 1 << w), c.uview(a, w))
    if t.is_const():
        x = t.p.const()
        m.wr(s, ra, wconst(x // k), w); m.wr(s, rd, wconst(x % k), w)
    elif k > 0 and k & (k - 1) == 0:
        h, l = c.split(t, k.bit_length() - 1)
        m.wr(s, ra, h, w); m.wr(s, rd, l, w)
    elif k > 0 and t.lo >= 0:
        if t.hi // k > MASK[w]: raise Unsupported("a quotient that may be too big")
        Q, R = quotient(c, t, wconst(k))
        m.wr(s, ra, Q, w); m.wr(s, rd, R, w)
    else: raise Unsupported("division of a symbolic word")
    s.flags = None


def symbolic_div(m, s, mn, w, ra, rd, a, d, b):
    """Both operands unknown, neither negative; the high half of the dividend is its sign extension."""
    c = m.ctx
    a, b, d = [(c.sview if mn == "idiv" else c.uview)(x, w) for x in (a, b, d)]
    for x in (a, b):
        if x.lo < 0 and not s.decide(c_ge(x, wconst(0))): raise Unsupported("signed division")
    if not (d.is_const() and d.p.const() == 0) and not c.unsat(s.path, Cond("ne", d.p)): raise Unsupported("division of a long word")
    if s.decide(c_eq(b, wconst(0))): raise Fault("division by zero")
    Q, R = quotient(c, Word(a.p, max(a.lo, 0), a.hi), Word(b.p, max(b.lo, 1), b.hi))
    m.wr(s, ra, Q, w); m.wr(s, rd, R, w)
    s.flags = None


def exact(t, b):
    """Division of polynomials that leaves a constant smaller than the divisor."""
    lead = max((m for m in b.p.d if m), key=lambda m: (len(m), m), default=None)
    if lead is None: return None
    r, q = t.p, Poly()
    for _ in range(8):
        if r.is_const(): break
        for m, c in sorted(r.d.items(), key=lambda x: (-len(x[0]), x[0]), reverse=False):
            rest = list(m)
            try:
                for a in lead: rest.remove(a)
            except ValueError: continue
            if c % b.p.d[lead] == 0: break
        else: return None
        x = Poly({tuple(rest): c // b.p.d[lead]})
        q = q + x
        r = r - x * b.p
    if not r.is_const() or not 0 <= r.const() < b.lo: return None
    return Word(q, t.lo // b.hi, t.hi // b.lo), wconst(r.const())


def quotient(c, t, b):
    """floor(t / b) and t mod b for t >= 0, b >= 1, as new unknowns tied by their defining inequalities."""
    memo = c.__dict__.setdefault("quotients", {})
    k = (t.p.key(), b.p.key())
    if k not in memo and not b.is_const():
        x = exact(t, b)
        if x is not None: memo[k] = x
    if k not in memo:
        q = c.atom("quot", t.lo // b.hi, t.hi // b.lo, "fn", (lambda x, y: x // y if y else 0, t.p, b.p))
        Q = c.aword(q)
        r = t.p - c.mul(b, Q).p
        q.facts.append((r, 0, b.hi - 1))
        if not b.is_const(): q.facts.append((b.p - r, 1, b.hi))
        memo[k] = (Q, Word(r, 0, min(b.hi - 1, t.hi)))
    return memo[k]


def i_bt(m, s, mn, ops, pre, nxt):
    w = m.width(ops[:1])
    c = m.ctx
    a = c.uview(m.rd(s, ops[0], w), w)
    k = s.concretize(m.rd(s, ops[1], w)) % w
    h = c.split(a, k)[0]
    b = c.split(h, 1)[1]
    f = m.fl(s)
    f.cmp = None
    f.cfw, f.cfc = (lambda: b), None


def i_jcc(m, s, mn, ops, pre, nxt):
    if m.cond(s, mn[1:]): return m.jump(s, ops[0][1])


def i_setcc(m, s, mn, ops, pre, nxt):
    m.wr(s, ops[0], wconst(1 if m.cond(s, mn[3:]) else 0), 8)


def i_cmov(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    t = m.cond(s, mn[4:])
    v = m.rd(s, ops[1], w)
    if t: m.wr(s, ops[0], v, w)
    elif w == 32: m.wr(s, ops[0], m.rd(s, ops[0], 32), 32)


def target(m, s, o):
    if o[0] == "i": return o[1]
    v = m.rd(s, o, 64)
    if not isinstance(v, Word): raise Unsupported("indirect call")
    return s.concretize(v)


def i_jmp(m, s, mn, ops, pre, nxt):
    return m.jump(s, target(m, s, ops[0]))


def i_call(m, s, mn, ops, pre, nxt):
    t = target(m, s, ops[0])
    h = m.contracts.get(t)
    if h is not None:
        sp = s.regs["rsp"]
        m.push(s, wconst(nxt))       # the return slot, as the callee sees it
        try:
            h(s)
        except ForkOn:
            s.regs["rsp"] = sp
            raise
        except ForkVals:
            s.regs["rsp"] = sp
            raise
        if s.pc is None: return False
        s.regs["rsp"] = sp
        s.pc = nxt
        return False
    if t not in m.ins: raise Unsupported("call of %#x" % t)
    m.push(s, wconst(nxt))
    s.pc = t
    return False


def i_ret(m, s, mn, ops, pre, nxt):
    return m.do_ret(s)


def i_push(m, s, mn, ops, pre, nxt):
    m.push(s, m.rd(s, ops[0], 64))


def i_pop(m, s, mn, ops, pre, nxt):
    sp = s.regs["rsp"]
    v = s.load(sp, 8)
    s.regs["rsp"] = Ptr(sp.r, sp.o + 8)
    m.wr(s, ops[0], v, 64)


def i_leave(m, s, mn, ops, pre, nxt):
    s.regs["rsp"] = s.regs["rbp"]
    if not isinstance(s.regs["rsp"], Ptr): raise Fault("frame pointer lost")
    return i_pop(m, s, mn, [("r",) + REG["rbp"]], pre, nxt)


def i_nop(m, s, mn, ops, pre, nxt):
    pass


def i_cdqe(m, s, mn, ops, pre, nxt):
    if mn == "cdqe": s.regs["rax"] = m.ctx.sview(s.regs["rax"], 32)
    elif mn in ("cqo", "cdq"):
        w = 64 if mn == "cqo" else 32
        v = m.ctx.sview(s.regs["rax"], w)
        m.wr(s, ("r", "rdx", w, 0), wconst(-1) if s.decide(c_ge(wconst(-1), v)) else wconst(0), w)
    elif mn == "cwde": m.wr(s, ("r", "rax", 32, 0), m.ctx.sview(m.rd(s, ("r", "rax", 16, 0)), 16), 32)


def i_xchg(m, s, mn, ops, pre, nxt):
    w = m.width(ops)
    a, b = m.rd(s, ops[0], w), m.rd(s, ops[1], w)
    m.wr(s, ops[0], b, w); m.wr(s, ops[1], a, w)


def i_rep(m, s, mn, ops, pre, nxt):
    size = {"b": 1, "w": 2, "d": 4, "q": 8}[mn[-1]]
    n = s.regs["rcx"] if pre else wconst(1)
    d = s.regs["rdi"]
    if not n.is_const():
        if mn.startswith("movs") and m.symbolic_copy:
            s.events.append(("copy", d, s.regs["rsi"], m.ctx.scale(n, size)))
            s.regs["rcx"] = wconst(0)
            for r in ("rdi", "rsi"): s.regs[r] = m.ctx.aword(m.ctx.atom("clob_" + r, 0, MASK[64], "undef"))
            return
        n = wconst(s.concretize(n))
    n = n.p.const() & MASK[64]
    if n > 4096: raise Unsupported("long rep")
    for i in range(n):
        if mn.startswith("movs"):
            v = s.load(s.regs["rsi"], size)
            s.store(s.regs["rdi"], size, v)
            s.regs["rsi"] = Ptr(s.regs["rsi"].r, s.regs["rsi"].o + size)
        else: s.store(s.regs["rdi"], size, m.rd(s, ("r", "rax", size * 8, 0)))
        s.regs["rdi"] = Ptr(s.regs["rdi"].r, s.regs["rdi"].o + size)
    if pre: s.regs["rcx"] = wconst(0)


def i_ud2(m, s, mn, ops, pre, nxt):
    raise Fault("abort (%s)" % mn)


def i_cf(m, s, mn, ops, pre, nxt):
    f = m.fl(s)
    f.cmp = None
    v = 1 if mn == "stc" else 0
    f.cfw, f.cfc = (lambda: wconst(v)), None


X86.symbolic_copy = True
HANDLERS = dict(mov=i_mov, movabs=i_mov, movzx=i_movzx, movsx=i_movsx, movsxd=i_movsx, lea=i_lea, add=i_add, adc=i_add, adcx=i_adx, adox=i_adx,
                sub=i_sub, sbb=i_sub, cmp=i_sub, xor=i_logic, bsr=i_bsr, **{"and": i_logic, "or": i_logic, "not": i_not}, test=i_logic, neg=i_neg, inc=i_inc,
                dec=i_inc, shl=i_shift, shr=i_shift, sar=i_shift, sal=i_shift, rol=i_rot, ror=i_rot, shld=i_shd, shrd=i_shd, mul=i_mul, imul=i_imul, mulx=i_mulx, div=i_div,
                idiv=i_div, bt=i_bt, jmp=i_jmp, call=i_call, ret=i_ret, push=i_push, pop=i_pop, leave=i_leave, nop=i_nop, nopw=i_nop, nopl=i_nop,
                endbr64=i_nop, cld=i_nop, cdqe=i_cdqe, cqo=i_cdqe, cdq=i_cdqe, cwde=i_cdqe, xchg=i_xchg, movsb=i_rep, movsq=i_rep, movsd=i_rep,
                stosq=i_rep, stosd=i_rep, stosb=i_rep, movs=None, stos=None, ud2=i_ud2, hlt=i_ud2, stc=i_cf, clc=i_cf)


def i_movs(m, s, mn, ops, pre, nxt):
    size = {1: "b", 2: "w", 4: "d", 8: "q"}[m.width(ops) // 8 if ops else 8]
    return i_rep(m, s, mn + size, ops, pre, nxt)


HANDLERS["movs"] = HANDLERS["stos"] = i_movs
