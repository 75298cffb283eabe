"""Reference semantics of the field library over Python integers, edge-case input generation,
and the native replay of one operation through the ctypes shim (harness/field_shim.cpp)."""
import ctypes, random

SHORT, SMONT, LONG, LMONT = 0x00000000, 0x40000000, 0x80000000, 0xC0000000
TYPES = (SHORT, SMONT, LONG, LMONT)
TNAME = {SHORT: "short", SMONT: "shortMontgomery", LONG: "long", LMONT: "longMontgomery"}
B = 1 << 64
T3 = dict(add=0, sub=1, mul=2, band=3, bor=4, bxor=5, shl=6, shr=7, eq=8, neq=9, lt=10, gt=11, leq=12, geq=13,
          land=14, lor=15, idiv=16, mod=17, pow=18, div=19)
T2 = dict(neg=32, square=33, bnot=34, lnot=35, copy=36, toNormal=37, toLongNormal=38, toMontgomery=39, inv=40)
RAW = dict(rawAdd=0, rawSub=1, rawMMul=2, rawMSquare=3, rawNeg=4, rawMMul1=5, rawToMontgomery=6, rawFromMontgomery=7,
           rawCopy=8, rawSwap=9, rawIsEq=10, rawIsZero=11, rawShl=12, rawShr=13, rawAddLS=14, rawSubLS=15, rawSubSL=16,
           rawNegLS=17, rawCopyS2L=18, rawAnd=19, rawOr=20, rawXor=21, rawNot=22, rawSubRegular=23, rawCmp=24, rawZero=25)
RAW_GEN_ONLY = {k for k, v in RAW.items() if v >= 14}


class Field:
    def __init__(self, q):
        self.q = q
        self.bits = q.bit_length()
        self.n = (self.bits - 1) // 64 + 1
        self.R = 1 << (64 * self.n)
        self.Ri = pow(self.R, -1, q)
        self.mask = (1 << self.bits) - 1
        self.half = q >> 1

    # ---- element helpers
    def limbs(self, v):
        return [(v >> (64 * i)) & (B - 1) for i in range(self.n)]

    def signed(self, v):
        return v - self.q if v > self.half else v

    def value(self, e):
        s, t, L = e
        if t in (SHORT, SMONT):
            return s % self.q
        return L % self.q if t == LONG else L * self.Ri % self.q

    def canonical(self, e):
        s, t, L = e
        return t in TYPES and (not (t & LONG) or 0 <= L < self.q)

    def fold(self, v):
        v &= self.mask
        return v - self.q if v >= self.q else v

    def shl(self, a, n):
        return self.fold(a << n)

    def tag(self, op, a, b=None):
        """Specification of the value of a tagged operation on canonical values."""
        q, s = self.q, self.signed
        if op == "add": return (a + b) % q
        if op == "sub": return (a - b) % q
        if op == "mul": return a * b % q
        if op == "neg": return -a % q
        if op == "square": return a * a % q
        if op in ("copy", "toNormal", "toLongNormal", "toMontgomery"): return a
        if op == "band": return self.fold(a & b)
        if op == "bor": return self.fold(a | b)
        if op == "bxor": return self.fold(a ^ b)
        if op == "bnot": return self.fold(~a & self.mask)
        if op in ("shl", "shr"):
            left = op == "shl"
            if b >= self.bits:
                b2 = q - b
                if b2 >= self.bits: return 0
                left, b = not left, b2
            return self.shl(a, b) if left else a >> b
        if op == "eq": return int(a == b)
        if op == "neq": return int(a != b)
        if op == "lt": return int(s(a) < s(b))
        if op == "gt": return int(s(a) > s(b))
        if op == "leq": return int(s(a) <= s(b))
        if op == "geq": return int(s(a) >= s(b))
        if op == "land": return int(a != 0 and b != 0)
        if op == "lor": return int(a != 0 or b != 0)
        if op == "lnot": return int(a == 0)
        if op == "idiv": return None if b == 0 else a // b
        if op == "mod": return None if b == 0 else a % b
        if op == "pow": return pow(a, b, q)
        if op == "inv": return None if a == 0 else pow(a, -1, q)
        if op == "div": return None if b == 0 else a * pow(b, -1, q) % q
        raise KeyError(op)

    def raw(self, op, a, b, s):
        """-> (result value or None, return value or None, second value or None)"""
        q = self.q
        if op == "rawAdd": return (a + b) % q
        if op == "rawSub": return (a - b) % q
        if op == "rawMMul": return a * b * self.Ri % q
        if op == "rawMSquare": return a * a * self.Ri % q
        if op == "rawNeg": return -a % q
        if op == "rawMMul1": return a * s * self.Ri % q
        if op == "rawToMontgomery": return a * self.R % q
        if op == "rawFromMontgomery": return a * self.Ri % q
        if op == "rawCopy": return a
        if op == "rawShl": return self.fold(a << s)
        if op == "rawShr": return a >> s
        if op == "rawAddLS": return (a + s) % q
        if op == "rawSubLS": return (a - s) % q
        if op == "rawSubSL": return (s - b) % q
        if op == "rawNegLS": return (-a - s) % q
        if op == "rawCopyS2L": return (s - B if s >> 63 else s) % q
        if op == "rawAnd": return self.fold(a & b)
        if op == "rawOr": return self.fold(a | b)
        if op == "rawXor": return self.fold(a ^ b)
        if op == "rawNot": return self.fold(~a & self.mask)
        if op == "rawSubRegular": return (a - b) % self.R
        if op == "rawZero": return 0
        raise KeyError(op)

    # ---- input generation
    def edge_values(self):
        q, R = self.q, self.R
        base = [0, 1, 2, 3, q - 1, q - 2, q - 3, q >> 1, (q >> 1) + 1, (q >> 1) - 1, 1 << 31, (1 << 31) - 1, q - (1 << 31), q - (1 << 31) - 1,
                q - (1 << 31) + 1, 1 << 32, (1 << 32) - 1, q - (1 << 32), (1 << 63), (1 << 64) - 1, 1 << 64, q - (1 << 64), q - (1 << 63),
                R % q, (R * R) % q, pow(R, 3, q), self.Ri, self.mask >> 1, 1 << (self.bits - 1), (1 << 30), 0x7fffffff00000000 % q,
                self.bits, self.bits - 1, self.bits + 1, 63, 64, 65, 127, 128, q - 63, q - 64, q - 65, q - self.bits, q - self.bits + 1, q - self.bits - 1]
        for i in range(1, self.n):
            base += [1 << (64 * i), (1 << (64 * i)) - 1, (q >> (64 * i)) << (64 * i), ((q >> (64 * i)) << (64 * i)) - 1,
                     (self.half >> (64 * i)) << (64 * i), ((self.half >> (64 * i)) << (64 * i)) - 1, q - (1 << (64 * i)), (q % (1 << 64 * i)), (self.half % (1 << 64 * i))]
        return sorted({v % q for v in base})

    def rand_value(self, rng):
        q, k = self.q, rng.randrange(8)
        if k == 0: return rng.choice(self._edges)
        if k == 1: return rng.randrange(q)
        if k == 2:
            ql, hl = self.limbs(q), self.limbs(self.half)
            v = 0
            for i in range(self.n):
                c = rng.choice([0, 1, B - 1, B - 2, ql[i], (ql[i] - 1) % B, (ql[i] + 1) % B, hl[i], (hl[i] + 1) % B, (hl[i] - 1) % B, rng.randrange(B), 1 << 63, 1 << rng.randrange(64)])
                v |= c << (64 * i)
            return v % q if rng.random() < .5 else (v if v < q else v % (1 << (self.bits - 1)))
        if k == 3: return rng.randrange(1 << rng.randrange(1, self.bits)) % q
        if k == 4: return -rng.randrange(1 << rng.randrange(1, self.bits)) % q
        if k == 5: return (rng.choice(self._edges) + rng.randrange(-3, 4)) % q
        if k == 6: return rng.choice(self._edges) * self.Ri % q
        return (rng.choice(self._edges) + rng.choice(self._edges)) % q

    @property
    def _edges(self):
        if not hasattr(self, "_ec"):
            self._ec = self.edge_values()
        return self._ec

    SHORTS = [0, 1, -1, 2, -2, 3, 5, 31, 32, 63, 64, 65, 127, 128, 253, 254, 255, 256, -63, -64, -65, -253, -254, -255, 2**31 - 1, -2**31, 2**31 - 2, -2**31 + 1, 2**16, -2**16, 65535, 46341, -46341, 0x40000000, -0x40000000]

    def rand_elem(self, rng, types=TYPES, val=None):
        t = rng.choice(types)
        if not (t & LONG):
            s = rng.choice(self.SHORTS) if rng.random() < .6 else rng.randrange(-2**31, 2**31)
            # the long part of a short element is junk, unless it is a Montgomery short: then it holds the Montgomery form
            if t == SMONT: return (s, t, (s % self.q) * self.R % self.q)
            return (s, t, rng.choice([0, rng.randrange(self.R), self.R - 1]))
        v = self.rand_value(rng) if val is None else val
        s = rng.choice([0, 0, 1, -1, rng.randrange(-2**31, 2**31)])  # unused part of a long element
        return (s, t, v if t == LONG else v * self.R % self.q if rng.random() < .5 else v)


class Native:
    """One backend loaded through ctypes."""

    def __init__(self, path, field):
        self.lib = ctypes.CDLL(path)
        self.f = field
        n = field.n

        class El(ctypes.Structure):
            _pack_ = 1
            _fields_ = [("s", ctypes.c_int32), ("t", ctypes.c_uint32), ("v", ctypes.c_uint64 * n)]
        self.El = El
        self.RawT = ctypes.c_uint64 * n
        self.lib.raw3.argtypes = [ctypes.c_int] + [ctypes.c_void_p] * 3 + [ctypes.c_uint64]
        self.lib.fld.argtypes = [ctypes.c_int] + [ctypes.c_void_p] * 3 + [ctypes.c_int64]

    def el(self, e):
        x = self.El()
        x.s, x.t = e[0], e[1]
        for i, l in enumerate(self.f.limbs(e[2])): x.v[i] = l
        return x

    def get(self, x):
        return (x.s, x.t, sum(x.v[i] << (64 * i) for i in range(self.f.n)))

    def rawbuf(self, v):
        return self.RawT(*self.f.limbs(v))

    def rawget(self, b):
        return sum(b[i] << (64 * i) for i in range(self.f.n))

    def tag(self, op, a, b=None, alias=""):
        """alias: '' | 'ra' | 'rb' | 'ab' | 'rab'; returns result element (and checks nothing)."""
        ea = self.el(a)
        eb = ea if alias in ("ab", "rab") else (self.el(b) if b is not None else None)
        if alias in ("ra", "rab"): r = ea
        elif alias == "rb": r = eb
        else: r = self.el((0x5a5a5a5a, 0x12345678, (1 << 64 * self.f.n) - 1 - 0x77))
        code = T3.get(op, T2.get(op))
        self.lib.t3(code, ctypes.byref(r), ctypes.byref(ea), ctypes.byref(eb) if eb is not None else None)
        return self.get(r), self.get(ea), (self.get(eb) if eb is not None else None)

    def rawop(self, op, a, b, s, alias=""):
        ba = self.rawbuf(a)
        bb = ba if alias in ("ab", "rab") else self.rawbuf(b)
        r = ba if alias in ("ra", "rab") else bb if alias == "rb" else self.rawbuf((1 << 64 * self.f.n) - 0x1234)
        ret = self.lib.raw3(RAW[op], r, ba, bb, s)
        return self.rawget(r), ret, self.rawget(ba), self.rawget(bb)
