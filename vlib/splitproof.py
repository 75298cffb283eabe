"""U02: the removal of enclosing parentheses and the division of a text, for every balanced text.

Strings and vectors of strings are contracts; loops and control are the compiled code of the repository."""
import re
from itertools import permutations
from .groups import *
from .mpn import _args, ret
from .binproof import BinCase
from .sumproof import *

LMAX = (1 << 31) - 2
STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"


def between_(ctx, lo, x, hi): return [c_ge(x, lo), c_ge(hi, x)]


class Chars:
    """The characters a string shows; what the string is is kept in the state."""
    def __init__(self, case, slot): self.c, self.slot = case, slot

    def load(self, s, off, size):
        if size != 1: raise Unsupported("characters read together")
        return self.c.shown(s, self.slot, off)

    def store(self, s, off, size, v): raise Unsupported("a character is changed")


class TextCase(BinCase):
    def __init__(self, im, name):
        super().__init__(im, name)
        ctx, m = self.ctx, self.m
        m.prune_ints = True
        m.unroll = 40
        self.L = ctx.input("length", 0, LMAX)
        self.chars, self.depths = [], []
        m.add_region("s", 32)
        for d, a in im.dem.items():
            t = re.sub(STR, "STR", d)
            g = re.match(r"STR::(\w+|operator\[\]|operator\+=|operator=|~basic_string)\((.*)\)( const)?$", t)
            if not g: continue
            h = {"length": self.length, "size": self.length, "operator[]": self.index, "begin": self.begin, "cbegin": self.begin, "data": self.begin, "c_str": self.begin, "end": self.end, "cend": self.end, "erase": self.erase, "substr": self.substr, "pop_back": self.pop_back, "resize": self.resize, "clear": self.clear, "push_back": self.append,
                 "operator+=": self.append, "basic_string": self.construct, "operator=": self.copy_, "empty": self.empty, "~basic_string": lambda s: ret(m, s, None)}.get(g.group(1), self.unknown)
            m.contracts[a] = lambda s, h=h, n=g.group(1), p=g.group(2): h(s, p) if h in (self.append, self.construct, self.erase, self.copy_) else h(s)
        if "isspace" in im.sym: m.contracts[im.sym["isspace"]] = self.isspace

    def unknown(self, s): raise Unsupported("a string operation that is not under contract")

    def ok(self, s, *q): return all(c.truth() is True or self.ctx.implies(s.path, c) for c in q)

    def assume(self, s, *q):
        for c in q:
            if c.truth() is not True and ckey(c) not in s.dec: s.assume(c)

    # ---- the text
    def char(self, s, e):
        for x, v in self.chars:
            if izero(s, x.p - e.p): return v
        v = self.ctx.aword(self.ctx.atom("char(%d)" % len(self.chars), 0, 255, "ghost"))
        self.chars.append((e, v))
        return v

    def depth(self, s, e):
        """open parentheses before place e, 0 <= e <= length"""
        ctx = self.ctx
        for x, v in self.depths:
            if izero(s, x.p - e.p): break
        else:
            v = ctx.aword(ctx.atom("depth(%d)" % len(self.depths), 0, LMAX, "ghost"))
            self.depths.append((e, v))
        if not self.ok(s, c_ge(e, wconst(0)), c_ge(self.L, e)): raise Unsupported("a place that is not known to be in the text")
        self.assume(s, c_ge(e, v), c_ge(ctx.sub(self.L, e), v))
        return v

    def step(self, s, e):
        """depth after the character at e"""
        ctx = self.ctx
        e1 = ctx.add(e, wconst(1))
        a, b, c = self.depth(s, e), self.depth(s, e1), self.char(s, e)
        up, down = c_eq(c, wconst(40)), c_eq(c, wconst(41))
        self.assume(s, c_or(c_and(up, c_eq(b, ctx.add(a, wconst(1)))), c_and(down, c_eq(a, ctx.add(b, wconst(1)))), c_and(up.negate(), down.negate(), c_eq(a, b))))

    def near(self, s, a, b):
        """a step changes the depth by at most one"""
        ctx = self.ctx
        x, y = self.depth(s, a), self.depth(s, b)
        n = ctx.sub(b, a)
        d = ctx.sub(y, x)
        self.assume(s, c_or(c_ge(wconst(-1), n), c_and(c_ge(n, d), c_ge(ctx.add(d, n), wconst(0)))), c_or(c_ge(n, wconst(1)), c_and(c_ge(ctx.sub(wconst(0), n), d), c_ge(d, n))))

    def space(self, c): return c_or(c_eq(c, wconst(32)), c_and(c_ge(c, wconst(9)), c_ge(wconst(13), c)))

    # ---- what a string is: ("slice", lo, hi) | ("kept", from, to, characters added) | ("rp", string)
    def len(self, s, t):
        if t and t[0] == "slice": return self.ctx.sub(t[2], t[1])
        raise Unsupported("the length of a string that is not the text")

    def shown(self, s, slot, off):
        t = s.aux.get("ghost:str", {}).get(slot)
        n = self.len(s, t)
        if s.decide(c_ge(n, self.ctx.add(off, wconst(1)))):
            return self.char(s, self.ctx.add(t[1], off))
        if not self.ok(s, c_ge(n, off)): raise Fault("read beyond the end of a string")
        return wconst(0)

    def length(self, s): ret(self.m, s, self.len(s, self.tag(s, s.regs["rdi"])))

    def empty(self, s):
        n = self.len(s, self.tag(s, s.regs["rdi"]))
        ret(self.m, s, wconst(1 if s.decide(c_ge(wconst(0), n)) else 0))

    def at(self, s, p, o):
        self.len(s, self.tag(s, p))
        R = "chars:%s+%d" % self.slot(p)
        if R not in self.m.regions: self.m.add_region(R, None, arr=Chars(self, self.slot(p)))
        return Ptr(R, o.p.const()) if o.is_const() else SPtr(R, o)

    def index(self, s):
        p, i = _args(self.m, s, 2)
        ret(self.m, s, self.at(s, p, self.ctx.uview(i, 64)))

    def begin(self, s): ret(self.m, s, self.at(s, s.regs["rdi"], wconst(0)))

    def end(self, s):
        p = s.regs["rdi"]
        ret(self.m, s, self.at(s, p, self.len(s, self.tag(s, p))))

    def erase(self, s, params):
        if params != "unsigned long, unsigned long": raise Unsupported("an erasure that is not understood")
        p, a, n = _args(self.m, s, 3)
        t = self.tag(s, p)
        ctx = self.ctx
        L, a, n = self.len(s, t), ctx.uview(a, 64), ctx.uview(n, 64)
        if not self.ok(s, c_ge(L, a)): raise Fault("an erasure beyond the end of a string")
        if self.ok(s, c_ge(ctx.add(a, n), L)): t = ("slice", t[1], ctx.add(t[1], a))
        elif izero(s, a.p) and self.ok(s, c_ge(L, n)): t = ("slice", ctx.add(t[1], n), t[2])
        elif self.ok(s, c_eq(n, wconst(0))): pass
        else: raise Unsupported("an erasure in the middle")
        self.settag(s, p, t)
        ret(self.m, s, p)

    def substr(self, s):
        r, p, a, n = _args(self.m, s, 4)
        t = self.tag(s, p)
        ctx = self.ctx
        L, a, n = self.len(s, t), ctx.uview(a, 64), ctx.uview(n, 64)
        if not self.ok(s, c_ge(L, a)): raise Fault("a part that starts beyond the end of a string")
        if t[0] != "slice": raise Unsupported("a part of a string that is not understood")
        lo = ctx.add(t[1], a)
        if self.ok(s, c_ge(n, ctx.sub(L, a))): t = ("slice", lo, t[2])
        elif self.ok(s, c_ge(L, ctx.add(a, n))): t = ("slice", lo, ctx.add(lo, n))
        else: raise Unsupported("a part of a string of a length that is not understood")
        self.settag(s, r, t)
        ret(self.m, s, r)

    def pop_back(self, s):
        p = s.regs["rdi"]
        t = self.tag(s, p)
        if not t or t[0] != "slice": raise Unsupported("a string cut at its end")
        if not self.ok(s, c_ge(self.len(s, t), wconst(1))): raise Fault("an empty string is cut at its end")
        self.settag(s, p, ("slice", t[1], self.ctx.sub(t[2], wconst(1))))
        ret(self.m, s, None)

    def resize(self, s):
        p, n = _args(self.m, s, 2)
        t = self.tag(s, p)
        n = self.ctx.uview(n, 64)
        if not t or t[0] != "slice" or not self.ok(s, c_ge(self.len(s, t), n)): raise Unsupported("a string of another length")
        self.settag(s, p, ("slice", t[1], self.ctx.add(t[1], n)))
        ret(self.m, s, None)

    def clear(self, s):
        self.settag(s, s.regs["rdi"], ("kept", None, None, ()))
        ret(self.m, s, None)

    def append(self, s, params):
        p, c = _args(self.m, s, 2)
        t = self.tag(s, p)
        if params != "char" or not t or t[0] != "kept": raise Unsupported("an addition to a string that is not understood")
        self.settag(s, p, t[:3] + (t[3] + (self.ctx.uview(c, 8),),))
        ret(self.m, s, p)

    def construct(self, s, params):
        p = s.regs["rdi"]
        q = re.sub(STR, "STR", params)
        if q == "": t = ("kept", None, None, ())
        elif q in ("STR const&", "STR&&"): t = self.tag(s, s.regs["rsi"])
        else: t = None
        self.settag(s, p, t)
        ret(self.m, s, p)

    def copy_(self, s, params):
        a, b = _args(self.m, s, 2)
        if params not in ("STR const&", "STR&&"): raise Unsupported("an assignment to a string that is not understood")
        self.settag(s, a, self.tag(s, b))
        ret(self.m, s, a)

    def isspace(self, s):
        c = self.ctx.uview(s.regs["rdi"], 8)
        ret(self.m, s, wconst(1 if s.decide(self.space(c)) else 0))

    def mine(self): return [a for d, a in self.im.dem.items() if a in self.m.ins and "std::" not in d.split("(")[0] and "__gnu" not in d]


# ---------------------------------------------------------------- removePars
class Remove(TextCase):
    """removePars of a balanced text."""
    def __init__(self, im):
        super().__init__(im, "removePars")
        self.J = self.ctx.input("place", 0, LMAX)          # any place of the text

    def prove(self):
        m, ctx = self.m, self.ctx
        st = self.boot([Ptr("s", 0)])
        st.aux["ghost:str"] = {("s", 0): ("slice", wconst(0), self.L)}
        st.assume(c_ge(self.L, self.J))
        self.allowed |= {"s"}
        f = self.im.find("removePars(")
        return self.run(st, f, [self.spec], self.mine()) + self.extra

    def spec(self, L, pr):
        E = pr.E
        for k in counters(pr, 1, (1, 2, 4, 8)):
            if "ghost:pairs" not in E.aux: yield Pairs(self, E, k)
            else:
                cells = [x for x in pr.M if x[0] == "stack" and x[2] in (1, 2, 4, 8) and x != k]
                zero = [("stack", o, n) for o, (n, v) in E._cells("stack").items() if o >= pr.floor and n in (1, 2, 4, 8) and isinstance(v, Word) and v.is_const() and v.p.const() == 0 and ("stack", o, n) not in cells + [k]]
                for a, b in [x for n in (0, 1, 2) for x in permutations(cells + zero, 2) if sum(y in zero for y in x) == n]: yield Lowest(self, E, k, a, b)

    def low(self, s, i, t):
        """no place from the pairs' end to i is less deep than pairs - t"""
        ctx, ns = self.ctx, s.aux["ghost:pairs"]
        return c_or(c_ge(ctx.sub(ns, wconst(1)), self.J), c_ge(ctx.sub(self.J, wconst(1)), i), c_ge(ctx.add(self.depth(s, self.J), t), ns))

    def post(self, s):
        ctx, L, J = self.ctx, self.L, self.J
        t = self.tag(s, Ptr("s", 0))
        if "ghost:pairs" not in s.aux: raise Unsupported("a removal that is not understood")
        ns = s.aux["ghost:pairs"]
        w = s.aux.get("ghost:lowest", ns)
        if not t or t[0] != "slice": return [("the result is a part of the text", False, "")]
        p, e = t[1], t[2]
        out = [("as many characters go at the end as at the start", self.ok(s, c_eq(ctx.add(p, e), L)), ""), ("the result is a part of the text", self.ok(s, c_ge(p, wconst(0)), c_ge(e, p)), "")]
        if not all(o[1] for o in out): return out
        le = ctx.sub(L, ns)
        for a, b in ((p, ns), (le, e), (J, ns), (le, J), (ns, J), (J, le)): self.near(s, a, b)
        for x in (p, e): self.near(s, x, J)
        dp, de, dj, dw = self.depth(s, p), self.depth(s, e), self.depth(s, J), self.depth(s, w)
        out += [("only parentheses are removed", self.ok(s, c_eq(dp, p)) and self.ok(s, c_eq(de, p)), ""),
                ("the result is balanced", self.ok(s, c_or(c_ge(ctx.sub(p, wconst(1)), J), c_ge(ctx.sub(J, wconst(1)), e), c_ge(dj, p))), "")]
        c0, c1 = self.char(s, ns), self.char(s, ctx.sub(le, wconst(1)))
        inside = c_and(c_ge(ctx.sub(w, wconst(1)), p), c_ge(ctx.sub(e, wconst(1)), w), c_eq(dw, p))
        edge = c_and(c_eq(p, ns), c_or(c_ge(p, e), c_eq(c0, wconst(40)).negate(), c_eq(c1, wconst(41)).negate()))
        return out + [("no pair encloses the result", self.ok(s, c_or(inside, edge)), "")]


class Pairs(Binding):
    """The first i characters are opening parentheses, the last i closing ones."""
    name = "pairs at both ends"

    def __init__(self, case, E, k):
        self.c, self.id = case, k
        self.cnt = Counted(k, 1, wconst(0), case.L, E)

    def general(self, g):
        c, ctx = self.c, self.c.ctx
        i = self.cnt.fresh_counter(g)
        s = g.copy()
        self.cnt.set_counter(s, i)
        c.assume(s, c_ge(c.L, ctx.scale(i, 2)))
        e = ctx.sub(c.L, i)
        c.assume(s, c_eq(c.depth(s, i), i), c_eq(c.depth(s, e), i))
        s.aux["ghost:pairs"] = i
        return [s]

    def check(self, s, g):
        c, ctx = self.c, self.c.ctx
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None or not all(o[1] for o in out): return out
        if g is not None and "ghost:pairs" in g.aux:
            o = g.aux["ghost:pairs"]
            e = ctx.sub(c.L, o)
            if not c.ok(s, c_ge(e, wconst(1)), c_ge(ctx.sub(c.L, wconst(1)), o)): return out + [("pairs are inside the text", False, "")]
            c.step(s, o); c.step(s, ctx.sub(e, wconst(1)))
        if not c.ok(s, c_ge(c.L, i)): return out + [("pairs are inside the text", False, "")]
        e = ctx.sub(c.L, i)
        return out + [("pairs at both ends", c.ok(s, c_eq(c.depth(s, i), i)) and c.ok(s, c_eq(c.depth(s, e), i)), "")]


class Lowest(Binding):
    """depth, and the least depth so far, from the pairs on; the least is reached somewhere."""
    name = "depth and lowest depth"

    def __init__(self, case, E, k, a, b):
        self.c, self.a, self.b = case, a, b
        self.id = (k, a, b)
        ns = E.aux["ghost:pairs"]
        self.ns = ns
        self.cnt = Counted(k, 1, ns, case.ctx.sub(case.L, ns), E)

    def cells(self, s):
        x, y = getc(s, self.a), getc(s, self.b)
        if not isinstance(x, Word) or not isinstance(y, Word): return None
        return self.c.ctx.sview(x, 8 * self.a[2]), self.c.ctx.sview(y, 8 * self.b[2])

    def general(self, g):
        c, ctx = self.c, self.c.ctx
        i = self.cnt.fresh_counter(g)
        s = g.copy()
        self.cnt.set_counter(s, i)
        w, t = ctx.aword(ctx.atom("w", 0, LMAX, "fresh")), ctx.aword(ctx.atom("t", 0, LMAX, "fresh"))
        c.assume(s, c_ge(w, self.ns), c_ge(i, w), c_ge(self.ns, t), c_ge(ctx.sub(c.L, self.ns), i))
        c.assume(s, c_eq(ctx.add(c.depth(s, w), t), self.ns), c_ge(ctx.add(c.depth(s, i), t), self.ns))
        s.aux["ghost:lowest"] = w
        s.aux["ghost:i"] = (i, t)
        put(s, self.a, ctx.uview(ctx.sub(c.depth(s, i), self.ns), 8 * self.a[2]))
        put(s, self.b, ctx.uview(ctx.sub(wconst(0), t), 8 * self.b[2]))
        c.assume(s, c.low(s, i, t))
        return [s]

    def check(self, s, g):
        c, ctx = self.c, self.c.ctx
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        v = self.cells(s)
        if i is None or v is None or not all(o[1] for o in out): return out + [("cells are numbers", False, "")]
        ins, low = v
        if g is not None and "ghost:i" in g.aux:
            o, t = g.aux["ghost:i"]
            w = g.aux["ghost:lowest"]
            if not c.ok(s, c_ge(o, wconst(0)), c_ge(ctx.sub(c.L, wconst(1)), o)): return out + [("the counter is inside the text", False, "")]
            c.step(s, o)
            same = izero(s, low.p + t.p)
            if not same and not izero(s, low.p - ins.p): return out + [("lowest depth", False, "")]
            ws = [w] if same else [i]
        else: ws = [self.ns, i]
        if not c.ok(s, c_ge(c.L, i), c_ge(i, wconst(0))): return out + [("the counter is inside the text", False, "")]
        D = c.depth(s, i)
        c.near(s, c.J, i)
        out.append(("depth", c.ok(s, c_eq(ctx.add(ins, self.ns), D)), ""))
        t = ctx.sub(wconst(0), low)
        out.append(("lowest depth is not above the depth", c.ok(s, c_ge(ctx.add(D, t), self.ns)), ""))
        out.append(("lowest depth is not above the start's", c.ok(s, c_ge(t, wconst(0))), ""))
        out.append(("lowest depth is reached", any(c.ok(s, c_ge(w, self.ns), c_ge(i, w)) and c.ok(s, c_eq(ctx.add(c.depth(s, w), t), self.ns)) for w in ws), ""))
        out.append(("no place so far is less deep", c.ok(s, c.low(s, i, t)), ""))
        return out


# ---------------------------------------------------------------- splitParStr
class Split(TextCase):
    """splitParStr of a balanced text; removePars by contract; a recursive call, on a shorter text, by its own."""
    def __init__(self, im):
        super().__init__(im, "splitParStr")
        m = self.m
        self.elem = 0
        m.add_region("r", 24)
        for d, a in im.dem.items():
            t = re.sub(STR, "STR", d)
            g = re.match(r"(?:.* )?std::vector<STR, std::allocator<STR ?> ?>::(~?\w+|operator\[\]|operator=)(<.*>)?\((.*)\)( const)?$", t)
            if g: m.contracts[a] = lambda s, n=g.group(1), p=g.group(3): self.vec(s, n, p)
        m.contracts[im.find("removePars(")] = self.remove
        m.contracts[im.find("splitParStr(")] = self.again
        self.eq = None

    # ---- vectors: (number of components before, components added)
    def getv(self, s, p): return s.aux.get("ghost:vec", {}).get(self.slot(p))

    def setv(self, s, p, v):
        d = dict(s.aux.get("ghost:vec", {}))
        d[self.slot(p)] = v
        s.aux["ghost:vec"] = d

    def vec(self, s, n, params):
        p = s.regs["rdi"]
        ctx, m = self.ctx, self.m
        v = self.getv(s, p)
        if n == "vector" and params == "": self.setv(s, p, (wconst(0), ())); return ret(m, s, None)
        if n == "vector" and re.match(r"std::vector<STR, std::allocator<STR ?> ?>(&&| const&)$", params): self.setv(s, p, self.getv(s, s.regs["rsi"])); return ret(m, s, None)
        if n == "~vector": return ret(m, s, None)
        if v is None or v[0] == "split": raise Unsupported("a vector that is not known")
        if n == "push_back":
            self.setv(s, p, (v[0], v[1] + (self.tag(s, s.regs["rsi"]),)))
            return ret(m, s, None)
        if n == "emplace_back" and re.match(r"STR( const)?&&?$", params):
            self.setv(s, p, (v[0], v[1] + (self.tag(s, s.regs["rsi"]),)))
            return ret(m, s, None)
        if n == "empty": return ret(m, s, wconst(1 if s.decide(c_eq(ctx.add(v[0], wconst(len(v[1]))), wconst(0))) else 0))
        if n == "size": return ret(m, s, ctx.add(v[0], wconst(len(v[1]))))
        if n in ("operator[]", "at", "front", "back"):
            i = wconst(0) if n == "front" else ctx.uview(s.regs["rsi"], 64) if n != "back" else None
            if not izero(s, v[0].p) or len(v[1]) != 1 or i is not None and not izero(s, i.p): raise Unsupported("a component in the middle")
            R = "elem:%s+%d" % self.slot(p)
            if R not in m.regions: m.add_region(R, 32)
            q = Ptr(R, 0)
            if v[1][0] != ("at", R): self.settag(s, q, v[1][0]); self.setv(s, p, (v[0], (("at", R),)))
            return ret(m, s, q)
        raise Unsupported("a vector operation that is not under contract")

    def parts(self, s, p):
        v = self.getv(s, p)
        if v is None or v[0] == "split": return v
        return v[0], tuple(self.tag(s, Ptr(x[1], 0)) if x and x[0] == "at" else x for x in v[1])

    # ---- contracts
    def balanced(self, s, t):
        if t and t[0] == "rp": return True
        if not t or t[0] != "kept" or t[3] or t[1] is None: return False
        return self.ok(s, c_eq(self.depth(s, t[1]), wconst(0))) and self.ok(s, c_eq(self.depth(s, t[2]), wconst(0)))

    def remove(self, s):
        p = s.regs["rdi"]
        t = self.tag(s, p)
        if t == ("kept", None, None, ()): pass
        elif not t or t[0] not in ("kept", "rp"): raise Unsupported("parentheses are removed from something else")
        elif not self.balanced(s, t): raise Fault("parentheses are removed from a text that need not be balanced")
        self.settag(s, p, t if t and t[0] == "rp" else ("rp", t))
        ret(self.m, s, None)

    def whole(self, s, t):
        """white space and enclosing pairs removed from the whole text"""
        return bool(t) and t[0] == "rp" and t[1][0] == "kept" and not t[1][3] and t[1][1] is not None and izero(s, t[1][1].p) and izero(s, t[1][2].p - self.L.p)

    def compare(self, s, ne):
        t = [self.tag(s, p) for p in _args(self.m, s, 2)]
        w = [x for x in t if x and x[0] == "slice" and izero(s, x[1].p) and izero(s, x[2].p - self.L.p)]
        r = [x for x in t if x and x[0] == "rp"]
        if len(w) != 1 or len(r) != 1: raise Unsupported("a comparison of strings")
        if not self.whole(s, r[0]): raise Unsupported("a comparison of strings")
        if self.eq is None: self.eq = self.ctx.aword(self.ctx.atom("nothing was removed", 0, 1, "ghost"))
        e = s.decide(c_eq(self.eq, wconst(1)))
        ret(self.m, s, wconst(1 if e != ne else 0))

    def again(self, s):
        r, p = _args(self.m, s, 2)
        t = self.tag(s, p)
        good = self.whole(s, t) and self.eq is not None and self.ok(s, c_eq(self.eq, wconst(0)))
        self.extra.append(("the text that is divided again is the whole one, and shorter", good, "", s.copy()))
        self.setv(s, r, ("split", t))
        ret(self.m, s, r)

    def prove(self):
        m, ctx = self.m, self.ctx
        st = self.boot([Ptr("r", 0), Ptr("s", 0)])
        st.aux["ghost:str"] = {("s", 0): ("slice", wconst(0), self.L)}
        self.allowed |= {"r", "s"}
        f = self.im.find("splitParStr(")
        return self.run(st, f, [self.spec], self.mine()) + self.extra

    def spec(self, L, pr):
        E = pr.E
        accs = [k for k, t in E.aux.get("ghost:str", {}).items() if t == ("kept", None, None, ())]
        vecs = [k for k, v in E.aux.get("ghost:vec", {}).items() if v[0] != "split" and not v[1]]
        for k in counters(pr, 1, (1, 2, 4, 8)):
            for d in [x for x in pr.M if x[0] != "aux" and x[2] in (1, 2, 4, 8) and x != k]:
                for a in accs:
                    for v in vecs: yield Scan(self, E, k, d, a, v)

    def post(self, s):
        v = self.parts(s, Ptr("r", 0))
        if v is None or "ghost:scan" not in s.aux: raise Unsupported("a result that is not understood")
        m, b = s.aux["ghost:scan"]
        if v[0] == "split": return [("one component: divided again", izero(s, m.p) and self.whole(s, v[1]), "")]
        n, parts = v
        if len(parts) != 1: return [("the last component is added", False, "")]
        t = parts[0]
        last = bool(t) and t[0] == "rp" and t[1][0] == "kept" and not t[1][3] and t[1][1] is not None and izero(s, t[1][1].p - b.p) and izero(s, t[1][2].p - self.L.p)
        one = self.eq is not None and self.ok(s, c_eq(self.eq, wconst(1)))
        return [("the components before are kept", izero(s, n.p - m.p), ""), ("the last component is added", last, ""),
                ("one component is returned when nothing is left to remove", one or self.ok(s, c_ge(m, wconst(1))), "")]


class Scan(Binding):
    """Before i: the components up to a comma at depth 0 are in the result, the characters after it that are no white space in the buffer."""
    name = "components so far"

    def __init__(self, case, E, k, d, a, v):
        self.c, self.k, self.d, self.a, self.v = case, k, d, a, v
        self.id = (k, d, a, v)
        self.cnt = Counted(k, 1, wconst(0), case.L, E)

    def general(self, g):
        c, ctx = self.c, self.c.ctx
        i = self.cnt.fresh_counter(g)
        out = []
        for first in (True, False):
            s = g.copy()
            self.cnt.set_counter(s, i)
            b = wconst(0) if first else ctx.aword(ctx.atom("b", 0, LMAX, "fresh"))
            m = wconst(0) if first else ctx.aword(ctx.atom("m", 1, LMAX, "fresh"))
            c.assume(s, c_ge(c.L, i), c_ge(i, b), c_ge(i, m))
            if ctx.unsat(s.path): continue
            c.assume(s, c_eq(c.depth(s, b), wconst(0)))
            put(s, self.d, ctx.uview(c.depth(s, i), 8 * self.d[2]))
            c.settag(s, Ptr(*self.a), ("kept", b, i, ()))
            c.setv(s, Ptr(*self.v), (m, ()))
            s.aux["ghost:scan"] = (m, b)
            s.aux["ghost:i"] = i
            out.append(s)
        return out

    def check(self, s, g):
        c, ctx = self.c, self.c.ctx
        i = self.cnt.val(s)
        out = self.cnt.in_range(s, i, g)
        if i is None or not all(o[1] for o in out): return out
        d = getc(s, self.d)
        if not isinstance(d, Word): return out + [("the depth is a number", False, "")]
        d = ctx.sview(d, 8 * self.d[2])
        t, v = c.tag(s, Ptr(*self.a)), c.getv(s, Ptr(*self.v))
        if not c.ok(s, c_ge(i, wconst(0)), c_ge(c.L, i)): return out + [("the counter is inside the text", False, "")]
        if g is None or "ghost:scan" not in g.aux:
            return out + [("depth", c.ok(s, c_eq(c.depth(s, i), d)), ""), ("nothing is kept yet", izero(s, i.p) and t == ("kept", None, None, ()) and v == (wconst(0), ()) or izero(s, i.p) and not t[3] and t[1] is None and izero(s, v[0].p) and not v[1], "")]
        m, b = g.aux["ghost:scan"]
        o = g.aux["ghost:i"]
        x = c.char(s, o)
        c.step(s, o)
        out.append(("depth", c.ok(s, c_eq(c.depth(s, i), d)), ""))
        comma = c_and(c_eq(x, wconst(44)), c_eq(c.depth(s, o), wconst(0)))
        sp = c.space(x)
        if not t or t[0] != "kept" or not v or v[0] == "split" or not izero(s, v[0].p - m.p): return out + [("buffer and result", False, "")]
        mine = t[1] is not None and izero(s, t[1].p - b.p) and izero(s, t[2].p - o.p)
        if not v[1] and mine and not t[3]: good = c.ok(s, sp)
        elif not v[1] and mine and len(t[3]) == 1: good = izero(s, t[3][0].p - x.p) and c.ok(s, sp.negate()) and c.ok(s, comma.negate())
        elif len(v[1]) == 1 and t[1] is None and not t[3]:
            r = v[1][0]
            good = bool(r) and r[0] == "rp" and r[1][0] == "kept" and not r[1][3] and r[1][1] is not None and izero(s, r[1][1].p - b.p) and izero(s, r[1][2].p - o.p) and c.ok(s, comma) and c.ok(s, sp.negate())
        else: good = False
        return out + [("a character is kept, white space dropped, a component ended by a comma at depth 0", good, "")]


def case(im, k): return dict(remove=lambda: Remove(im), split=lambda: Split(im))[k]()
