"""Contracts of the field routines, over the term domain: raw routines and tagged element operations."""
from .core import *

CANON_A = "operand a canonical"


class RawSpec:
    """args: string over r,a,b,s,x ('x': written operand).  result(F, A, B, S) -> polynomial congruent to the result modulo q."""

    def __init__(self, args, result=None, ret=None, aliases=("",), dest="r", exact=None, swap=False, srange=None, wide=None):
        self.args, self.result, self.ret, self.aliases, self.dest, self.exact, self.swap, self.srange, self.wide = args, result, ret, aliases, dest, exact, swap, srange, wide


ALL3 = ("", "ra", "rb", "ab", "rab")
RAWSPECS = {
    "rawAdd": RawSpec("rab", lambda F, A, B, S: A + B, aliases=ALL3),
    "rawSub": RawSpec("rab", lambda F, A, B, S: A - B, aliases=ALL3),
    "rawMMul": RawSpec("rab", lambda F, A, B, S: A * B * F.Ri, aliases=ALL3),
    "rawMSquare": RawSpec("ra", lambda F, A, B, S: A * A * F.Ri, aliases=("", "ra")),
    "rawNeg": RawSpec("ra", lambda F, A, B, S: -A, aliases=("", "ra")),
    "rawMMul1": RawSpec("ras", lambda F, A, B, S: A * S * F.Ri, aliases=("", "ra")),
    "rawToMontgomery": RawSpec("ra", lambda F, A, B, S: A * F.R, aliases=("", "ra")),
    "rawFromMontgomery": RawSpec("ra", lambda F, A, B, S: A * F.Ri, aliases=("", "ra")),
    "rawCopy": RawSpec("ra", lambda F, A, B, S: A, aliases=("", "ra")),
    "rawZero": RawSpec("r", lambda F, A, B, S: pconst(0)),
    "rawSwap": RawSpec("ra", swap=True, aliases=("", "ra")),
    "rawIsEq": RawSpec("ab", ret="eq", aliases=("", "ab"), dest=None),
    "rawIsZero": RawSpec("a", ret="zero", dest=None),
    "rawCmp": RawSpec("ab", ret="cmp", aliases=("", "ab"), dest=None),
    "rawAddLS": RawSpec("ras", lambda F, A, B, S: A + S, aliases=("", "ra")),
    "rawSubLS": RawSpec("ras", lambda F, A, B, S: A - S, aliases=("", "ra")),
    "rawSubSL": RawSpec("rsa", lambda F, A, B, S: S - A, aliases=("", "ra")),
    "rawNegLS": RawSpec("ras", lambda F, A, B, S: -A - S, srange=(1, None)),
    "rawCopyS2L": RawSpec("rs", lambda F, A, B, S: S),
    "rawSubRegular": RawSpec("rab", exact=lambda F, A, B: A - B, aliases=ALL3),
}


# bitwise and shift routines: wide(ctx, F, a-limbs, b-limbs, shift) -> the limbs of the masked integer
BITSPECS = {
    "rawAnd": RawSpec("rab", aliases=ALL3, wide=lambda c, F, a, b, s: masked(c, F, [c.band(x, y) for x, y in zip(a, b)])),
    "rawOr": RawSpec("rab", aliases=ALL3, wide=lambda c, F, a, b, s: masked(c, F, [c.bor(x, y) for x, y in zip(a, b)])),
    "rawXor": RawSpec("rab", aliases=ALL3, wide=lambda c, F, a, b, s: masked(c, F, [c.bxor(x, y) for x, y in zip(a, b)])),
    "rawNot": RawSpec("ra", aliases=("", "ra"), wide=lambda c, F, a, b, s: masked(c, F, [c.bnot(x) for x in a])),
    "rawShl": RawSpec("ras", wide=lambda c, F, a, b, s: masked(c, F, shl_limbs(c, a, s))),
    "rawShr": RawSpec("ras", wide=lambda c, F, a, b, s: shr_limbs(c, a, s)),
}


def masked(c, F, limbs):
    top = F.bits - 64 * (F.n - 1)
    return limbs[:-1] + [c.split(c.uview(limbs[-1]), top)[1]]


def shl_limbs(c, a, s):
    k, t = divmod(s, 64)
    n = len(a)
    out = []
    for i in range(n):
        v = wconst(0)
        if i - k >= 0: v = c.split(c.scale(a[i - k], 1 << t), 64)[1]
        if t and i - k - 1 >= 0: v = c.add(v, c.split(a[i - k - 1], 64 - t)[0])
        out.append(v)
    return out


def shr_limbs(c, a, s):
    k, t = divmod(s, 64)
    n = len(a)
    out = []
    for i in range(n):
        v = wconst(0)
        if i + k < n: v = c.split(a[i + k], t)[0] if t else a[i + k]
        if t and i + k + 1 < n: v = c.add(v, c.scale(c.split(a[i + k + 1], t)[1], 1 << (64 - t)))
        out.append(v)
    return out


class FieldParams:
    def __init__(self, q):
        self.q = q
        self.bits = q.bit_length()
        self.n = (self.bits - 1) // 64 + 1
        self.R = 1 << (64 * self.n)
        self.Ri = pow(self.R, -1, q)
        self.half = q >> 1
        self.mask = (1 << self.bits) - 1


def comp(limbs):
    p = Poly()
    for i, w in enumerate(limbs): p = p + w.p * (1 << (64 * i))
    return p


def canonical_input(ctx, F, name, bound=None):
    """Limbs of a canonical element (or of any value below the bound) as fresh inputs."""
    bound = bound or F.q
    top = (bound - 1) >> (64 * (F.n - 1))
    ats = [ctx.atom("%s%d" % (name, i), 0, MASK[64] if i < F.n - 1 else top) for i in range(F.n)]
    ws = [ctx.aword(a) for a in ats]
    c = comp(ws)
    for a in ats: a.facts.append((c, 0, bound - 1))
    ctx.composites.append((c, 0, bound - 1))
    return ws, [a.id for a in ats]
