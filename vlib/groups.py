"""Contracts of group operations (the curve of C03, a field's multiplication) on abstract elements, and arrays with ghost contents."""
import re, subprocess
from .core import *
from .machine import *
from .loops import *
from .mpn import _args, ret


class Arr:
    """An array whose content is an immutable object kept in the state."""
    def __init__(self, name): self.k = "arr:" + name

    def load(self, s, off, size):
        c = s.aux.get(self.k)
        if c is None: raise Fault("read of an array that was never written") if self.k.startswith("arr:heap") else Unsupported("array without content")
        return c.load(s, off, size)

    def store(self, s, off, size, v):
        c = s.aux.get(self.k) or Plain()
        s.aux[self.k] = c.store(s, off, size, v)


class Plain:
    """Content nothing is known about; remembers the stores."""
    def __init__(self, log=()): self.log = log

    def load(self, s, off, size): raise Unsupported("read of an array of unknown content")

    def store(self, s, off, size, v): return Plain(self.log + ((off, size, v),))


class Bytes:
    """Read-only bytes of an input array: one unknown per offset."""
    def __init__(self, ctx, name): self.ctx, self.name, self.c = ctx, name, {}

    def byte(self, off):
        k = off.p.key()
        a = self.c.get(k)
        if a is None: a = self.c[k] = self.ctx.atom("%s[%d]" % (self.name, len(self.c)), 0, 255, "input")
        return self.ctx.aword(a)

    def load(self, s, off, size):
        c = self.ctx
        r = self.byte(off)
        for i in range(1, size): r = c.add(r, c.scale(self.byte(c.add(off, wconst(i))), 1 << (8 * i)))
        return r

    def store(self, s, off, size, v): raise Fault("write into an input array")


class Ghost:
    """A function of an integer, one unknown per argument; facts are added to paths where they are used."""
    def __init__(self, ctx, name, kind="ghost"): self.ctx, self.name, self.kind, self.c = ctx, name, kind, {}

    def at(self, e):
        k = e.key()
        a = self.c.get(k)
        if a is None: a = self.c[k] = self.ctx.atom("%s(%d)" % (self.name, len(self.c)), None, None, self.kind)
        return self.ctx.apoly(a)


def fact(s, p):
    """Add p == 0 (a definition of ghosts) to the path."""
    if p.is_zero(): return
    c = Cond("eq", p)
    if ckey(c) not in s.dec: s.assume(c)


def gload(s, p, size):
    v = s.load(p, size)
    return as_group(v)


def gstore(s, p, size, x): s.store(p, size, GVal(x))


def ptrof(s, p):
    if isinstance(p, (Ptr, SPtr)): return p
    if isinstance(p, Word) and p.is_const(): return s.m.static_ptr(p.p.const())
    raise Unsupported("symbolic pointer to an element")


SIG = re.compile(r"^(.*)::(~?\w+)\((.*)\)( const)?$")


def demangled(symbols):
    names = list(symbols)
    out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    return {d: symbols[n] for n, d in zip(names, out) if n}


ADDITIVE = dict(copy="copy", add="add", sub="sub", neg="neg", dbl="dbl", zero="zero", zeroAffine="zero", isZero="test", eq="test")
MULTIPLICATIVE = dict(copy="copy", mul="add", div="sub", inv="neg", square="dbl", one="zero", isOne="test", eq="test")


def install_group(m, dem, cls, sizes, names=ADDITIVE):
    """Contracts of the group operations of class cls; sizes: element type name -> bytes; names: method -> group operation."""
    zero = {}
    for t, n in sizes.items():
        nm = "zero:" + t
        m.add_region(nm, n, init=lambda s, off, size, n=n: [(0, n, GVal(Poly()))] if off == 0 else None)
        zero[t] = Ptr(nm, 0)
    done = []

    def op(k, types, f):
        def h(s):
            a = [ptrof(s, p) for p in _args(m, s, len(types) + 1)[1:]]
            vals = [gload(s, p, sizes[t]) for p, t in list(zip(a, types))[1:]]
            gstore(s, a[0], sizes[types[0]], f(*vals))
            ret(m, s, None)
        return h

    def zeroh(t):
        def h(s): ret(m, s, zero[t])
        return h

    def test(types):
        def h(s):
            a = [ptrof(s, p) for p in _args(m, s, len(types) + 1)[1:]]
            vals = [gload(s, p, sizes[t]) for p, t in zip(a, types)]
            d = gsubst(s, vals[0] if len(vals) == 1 else vals[0] - vals[1])
            if d.is_zero(): return ret(m, s, wconst(1))
            k = ("gz", d.key())
            v = s.dec.get(k)
            if v is None:
                lin = [mm for mm in d.d if len(mm) == 1 and abs(d.d[mm]) == 1]
                if not lin: raise Unsupported("zero test of a composite element")
                w = m.ctx.aword(m.ctx.atom("isz", 0, 1, "fresh"))
                s.dec[k] = w
                raise ForkOn(c_eq(w, wconst(1)))
            if isinstance(v, Word):
                if not s.decide(c_eq(v, wconst(1))): return ret(m, s, wconst(0))
                lin = max(mm for mm in d.d if len(mm) == 1 and abs(d.d[mm]) == 1)
                s.aux["geq"] = s.aux.get("geq", []) + [(lin[0], (Poly({x: c for x, c in d.d.items() if x != lin})) * (-d.d[lin]))]
                return ret(m, s, wconst(1))
        return h
    F = dict(copy=lambda a: a, add=lambda a, b: a + b, sub=lambda a, b: a - b, neg=lambda a: -a, dbl=lambda a: a * 2)
    for d, addr in dem.items():
        g = SIG.match(d)
        if not g or g.group(1) != cls: continue
        name, args = g.group(2), [x.strip() for x in g.group(3).split(",")] if g.group(3) else []
        types = []
        for x in args:
            x = x.replace(" const", "").rstrip("&").strip()
            types.append(x.split("::")[-1])
        if any(t not in sizes for t in types): continue
        k = names.get(name)
        if k in F and len(types) == F[k].__code__.co_argcount + 1: m.contracts[addr] = op(k, types, F[k])
        elif k == "zero" and not types: m.contracts[addr] = zeroh("PointAffine" if name == "zeroAffine" else list(sizes)[0])
        elif k == "test": m.contracts[addr] = test(types)
        else: continue
        done.append(name)
    return done
