"""The term domain of the deductive engine.

A machine word is an integer polynomial over atoms, meaning "the word is congruent to this polynomial modulo 2^width", with
an unconditional integer interval for the polynomial.  Atoms are integers that are functions of the inputs:
  input   an input limb, short value, ...           (free, with an interval)
  floor   floor(P / 2^k) of a polynomial P           (a carry, borrow, high half, shifted part)
  and     bitwise and of two non-negative polynomials
  canon   limb of the canonical residue (in [0, q)) of a polynomial modulo q  (result of a callee under contract)
  inv     an inverse in an abstract field
Every atom can be evaluated from concrete inputs, which the engine uses to check itself on every run.
Machine arithmetic is exact: no wrap-around is ever ignored.
"""
import z3, time

MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128)}


TRACE = False
INF = 1 << 40000      # stands for "no bound" of ghost integers


class Unsupported(Exception):
    """The engine cannot process a construct: undecided, never a violation."""


class Poly:
    __slots__ = ("d", "_k")

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const(self):
        return self.d.get((), 0)

    def __add__(self, o):
        if not isinstance(o, Poly):
            if o == 0: return self
            d = dict(self.d)
            v = d.get((), 0) + o
            if v: d[()] = v
            else: d.pop((), None)
            return Poly(d)
        a, b = self.d, o.d
        if len(a) < len(b): a, b = b, a
        d = dict(a)
        for m, c in b.items():
            v = d.get(m, 0) + c
            if v: d[m] = v
            else: del d[m]
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if o == 0: return Poly()
            if o == 1: return self
            return Poly({m: c * o for m, c in self.d.items()})
        if o.is_const(): return self * o.const()
        if self.is_const(): return o * self.const()
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = d.get(m, 0) + c1 * c2
                if v: d[m] = v
                else: d.pop(m, None)
        return Poly(d)

    __rmul__ = __mul__

    def mod(self, q):
        d = {}
        for m, c in self.d.items():
            c %= q
            if c: d[m] = c
        return Poly(d)

    def atoms(self):
        s = set()
        for m in self.d: s.update(m)
        return s

    def is_zero(self):
        return not self.d


def pconst(c):
    return Poly({(): c} if c else {})


class Atom:
    __slots__ = ("id", "name", "lo", "hi", "kind", "defn", "facts", "gf")

    def __init__(self, i, name, lo, hi, kind, defn):
        self.id, self.name, self.lo, self.hi, self.kind, self.defn = i, name, lo, hi, kind, defn
        self.facts = []   # list of (poly, lo, hi)
        self.gf = None    # substitution modulo q


class Word:
    """value == poly (mod 2^64), lo <= poly <= hi over the integers."""
    __slots__ = ("p", "lo", "hi")

    def __init__(self, p, lo, hi):
        if lo != hi and p.is_const(): lo = hi = p.const()
        self.p, self.lo, self.hi = p, lo, hi

    def is_const(self):
        return self.p.is_const()

    def __repr__(self):
        if self.is_const(): return "%#x" % self.p.const()
        return "W(%d terms, [%#x,%#x])" % (len(self.p.d), self.lo, self.hi)


def wconst(c):
    return Word(pconst(c), c, c)


class Ptr:
    """A pointer into a symbolic memory region at a constant byte offset."""
    __slots__ = ("r", "o")

    def __init__(self, r, o):
        self.r, self.o = r, o

    def __repr__(self):
        return "&%s%+d" % (self.r, self.o)

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.r == self.r and x.o == self.o

    def __hash__(self):
        return hash((self.r, self.o))


class SPtr:
    """A pointer into an array region at a byte offset that is a term."""
    __slots__ = ("r", "w")

    def __init__(self, r, w):
        self.r, self.w = r, w

    def __repr__(self):
        return "&%s[..]" % self.r

    def __eq__(self, x):
        return isinstance(x, SPtr) and x.r == self.r and x.w.p.key() == self.w.p.key()

    def __hash__(self):
        return hash((self.r, self.w.p.key()))


class GVal:
    """The content of an abstract object: an element of a module, a linear form over named elements."""
    __slots__ = ("p",)

    def __init__(self, p): self.p = p


class GPart:
    """Bytes [o, o + k) of an abstract value of n bytes."""
    __slots__ = ("v", "n", "o", "k")

    def __init__(self, v, n, o, k): self.v, self.n, self.o, self.k = v, n, o, k


def val2(c):
    return (c & -c).bit_length() - 1 if c else 10**9


class Ctx:
    """Atoms, caches and facts shared by all paths of one entry case."""

    def __init__(self, q=None, n=0):
        self.atoms = []
        self.floor_cache = {}
        self.and_cache = {}
        self.canon_cache = {}
        self.default = None
        self.q, self.n = q, n
        self.composites = []       # (poly, lo, hi): named integers such as a whole operand
        self.extra = []            # unconditional linear facts (poly, lo, hi)
        self.stats = dict(lp=0, lp_s=0.0, syntactic=0)
        self._zc = {}
        self.joins = {}            # results of or / xor: zero tests split into tests of the parts

    # ---------- atoms
    def atom(self, name, lo, hi, kind="input", defn=None):
        a = Atom(len(self.atoms), name, lo, hi, kind, defn)
        self.atoms.append(a)
        return a

    def apoly(self, a):
        return Poly({(a.id,): 1})

    def aword(self, a):
        return Word(self.apoly(a), a.lo, a.hi)

    def input(self, name, lo, hi):
        return self.aword(self.atom(name, lo, hi))

    def bounds(self, p):
        """Interval of a polynomial from its atoms alone."""
        lo = hi = 0
        for m, c in p.d.items():
            l = h = 1
            first = True
            for i in m:
                a = self.atoms[i]
                if a.lo is None: l, h, first = -INF, INF, False; break
                if first: l, h, first = a.lo, a.hi, False
                else:
                    x = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                    l, h = min(x), max(x)
            if c >= 0: lo += c * l; hi += c * h
            else: lo += c * h; hi += c * l
        return lo, hi

    def word(self, p):
        return Word(p, *self.bounds(p))

    # ---------- floor division by 2^k
    def split(self, w, k):
        """-> (h, l) with w.p = 2^k h + l, 0 <= l < 2^k (integers)."""
        lo, hi = w.lo, w.hi
        hl, hh = lo >> k, hi >> k
        if hl == hh:
            if hl == 0: return wconst(0), w
            return wconst(hl), Word(w.p - (hl << k), lo - (hl << k), hi - (hl << k))
        B = 1 << k
        half = B >> 1
        pr, pq = {}, {}
        for m, c in w.p.d.items():
            r = c & (B - 1)
            if m == ():
                pass
            elif r > half: r -= B
            if r: pr[m] = r
            if r != c: pq[m] = (c - r) >> k
        Pr, Pq = Poly(pr), Poly(pq)
        h = Pq
        if pr:
            fl = self._floor(Pr, k, w if not pq else None)
            h = Pq + fl
            if fl.d and not fl.is_const() and len(fl.d) == 1:
                (m, c), = fl.d.items()
                bl, bh = self.bounds(h)
                if (bl < hl or bh > hh) and c == 1 and len(m) == 1:
                    self.atoms[m[0]].facts.append((h, hl, hh))
        l = w.p - h * B
        # the low part is divisible by the 2-part of the coefficients
        g = min((val2(c) for c in l.d.values()), default=0)
        g = min(g, k)
        return Word(h, hl, hh), Word(l, 0, B - (1 << g))

    def _floor(self, P, k, w):
        """floor(P / 2^k) as a polynomial."""
        if P.is_const(): return pconst(P.const() >> k)
        if w is not None: lo, hi = w.lo, w.hi
        else: lo, hi = self.bounds(P)
        if lo >> k == hi >> k: return pconst(lo >> k)
        # P = 2^j P' + rest with 0 <= rest < 2^j for some j <= k: floor(P/2^k) = floor(P'/2^(k-j))
        js = sorted({min(val2(c), k) for c in P.d.values()}, reverse=True)
        for j in js:
            if j == 0: break
            rest = Poly({m: c for m, c in P.d.items() if val2(c) < j})
            rl, rh = self.bounds(rest)
            if rl < 0 or rh >= 1 << j: continue
            Q = Poly({m: c >> j for m, c in P.d.items() if val2(c) >= j})
            if j == k: return Q
            qw = None
            if not rest.d: qw = Word(Q, -((-lo) >> j), hi >> j)   # exact division
            return self._floor(Q, k - j, qw)
        # floor of a floor
        if len(P.d) == 1:
            (m, c), = P.d.items()
            if c == 1 and len(m) == 1:
                a = self.atoms[m[0]]
                if a.kind == "floor":
                    Q, k2 = a.defn
                    return self._floor_key(Q, k + k2, lo >> k, hi >> k)
        return self._floor_key(P, k, lo >> k, hi >> k)

    def _floor_key(self, P, k, lo, hi):
        key = (P.key(), k)
        a = self.floor_cache.get(key)
        if a is None:
            b = self.bounds(P)
            lo, hi = max(lo, b[0] >> k), min(hi, b[1] >> k)
            if lo == hi: return pconst(lo)
            a = self.atom("fl%d_%d" % (len(self.atoms), k), lo, hi, "floor", (P, k))
            a.facts.append((P - Poly({(a.id,): 1 << k}), 0, (1 << k) - 1))
            self.floor_cache[key] = a
        else:
            a.lo, a.hi = max(a.lo, lo), min(a.hi, hi)
        return pconst(a.lo) if a.lo == a.hi else self.apoly(a)

    def uview(self, w, k=64):
        if 0 <= w.lo and w.hi < 1 << k: return w
        return self.split(w, k)[1]

    def sview(self, w, k=64):
        if -(1 << (k - 1)) <= w.lo and w.hi < 1 << (k - 1): return w
        o = 1 << (k - 1)
        _, l = self.split(Word(w.p + o, w.lo + o, w.hi + o), k)
        return Word(l.p - o, l.lo - o, l.hi - o)

    def norm(self, w, k=64):
        """Keep the representative in a sane range."""
        if -(1 << (k - 1)) <= w.lo and w.hi < 1 << k: return w
        return self.split(w, k)[1]

    # ---------- arithmetic
    def add(self, a, b):
        return Word(a.p + b.p, a.lo + b.lo, a.hi + b.hi)

    def sub(self, a, b):
        return Word(a.p - b.p, a.lo - b.hi, a.hi - b.lo)

    def neg(self, a):
        return Word(-a.p, -a.hi, -a.lo)

    def mul(self, a, b):
        x = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        return Word(a.p * b.p, min(x), max(x))

    def scale(self, a, c):
        x = (a.lo * c, a.hi * c)
        return Word(a.p * c, min(x), max(x))

    # ---------- bitwise (unsigned views of width k)
    def band(self, a, b, k=64):
        a, b = self.uview(a, k), self.uview(b, k)
        if a.is_const(): a, b = b, a
        if b.is_const():
            c = b.p.const()
            if a.is_const(): return wconst(a.p.const() & c)
            return self._mask(a, c, k)
        if a.p.key() == b.p.key(): return a
        return self._and(a, b)

    def _and(self, a, b):
        ka, kb = a.p.key(), b.p.key()
        key = (ka, kb) if hash(ka) <= hash(kb) else (kb, ka)
        t = self.and_cache.get(key) or self.and_cache.get((key[1], key[0]))
        if t is None:
            hi = min(a.hi, b.hi)
            t = self.atom("and%d" % len(self.atoms), 0, hi, "and", (a.p, b.p))
            t.facts.append((a.p - self.apoly(t), 0, a.hi))
            t.facts.append((b.p - self.apoly(t), 0, b.hi))
            # and >= a + b - 2^k + 1
            m = max(a.hi, b.hi).bit_length()
            t.facts.append((a.p + b.p - self.apoly(t), 0, (1 << m) - 1))
            self.and_cache[key] = t
        return self.aword(t)

    def bits(self, a):
        """{position: atom} when a is a sum of single bits at different positions"""
        out = {}
        for mono, co in a.p.d.items():
            if len(mono) != 1 or co <= 0 or co & (co - 1): return None
            t = self.atoms[mono[0]]
            if t.lo != 0 or t.hi != 1 or co.bit_length() - 1 in out: return None
            out[co.bit_length() - 1] = mono
        return out

    def _mask(self, a, c, k):
        b = self.bits(a)
        if b:
            d = {m: 1 << i for i, m in b.items() if c >> i & 1}
            return Word(Poly(d), 0, sum(d.values()))
        c &= (1 << max(a.hi.bit_length(), 1)) - 1 if a.hi > 0 else 0
        if c == 0: return wconst(0)
        if bin(c ^ (c << 1)).count("1") > 6: return self._and(a, wconst(c))      # more than three runs: opaque
        res, i, n = None, 0, 0
        # decompose the mask into runs of ones
        while c >> i:
            if not (c >> i) & 1: i += 1; continue
            j = i
            while (c >> j) & 1: j += 1
            hi_part = self.split(a, i)[0]            # a >> i
            run = self.scale(self.split(hi_part, j - i)[1], 1 << i)
            res = run if res is None else self.add(res, run)
            n += 1
            if n > 24: raise Unsupported("mask with many runs")
            i = j
        return res

    def bor(self, a, b, k=64):
        a, b = self.uview(a, k), self.uview(b, k)
        for x, y in ((a, b), (b, a)):
            g = min((val2(c) for c in x.p.d.values()), default=10**9)
            if y.lo >= 0 and y.hi < 1 << min(g, k): return self.add(x, y)
        x, y = self.bits(a), self.bits(b)
        if x and y and not x.keys() & y.keys(): return self.add(a, b)
        if a.p.key() == b.p.key(): return a
        t = self.band(a, b, k)
        r = self.sub(self.add(a, b), t)
        m = max(a.hi, b.hi).bit_length()
        self.join(r, "or", a, b)
        return Word(r.p, max(a.lo, b.lo), min((1 << m) - 1, a.hi + b.hi))

    def bxor(self, a, b, k=64):
        a, b = self.uview(a, k), self.uview(b, k)
        if a.p.key() == b.p.key(): return wconst(0)
        if a.is_const() and a.p.const() == MASK[k]: return self.sub(a, b)
        if b.is_const() and b.p.const() == MASK[k]: return self.sub(b, a)
        t = self.band(a, b, k)
        r = self.sub(self.add(a, b), self.scale(t, 2))
        m = max(a.hi, b.hi).bit_length()
        self.join(r, "xor", a, b)
        return Word(r.p, 0, (1 << m) - 1)

    def bnot(self, a, k=64):
        a = self.uview(a, k)
        return Word(MASK[k] - a.p, MASK[k] - a.hi, MASK[k] - a.lo)

    def shl(self, a, s, k=64):
        a = self.uview(a, k)
        return self.split(self.scale(a, 1 << s), k)[1]

    def shr(self, a, s, k=64):
        return self.split(self.uview(a, k), s)[0]

    def sar(self, a, s, k=64):
        return self.split(self.sview(a, k), s)[0]

    def join(self, r, kind, a, b):
        k = r.p.key()
        if k != a.p.key() and k != b.p.key(): self.joins.setdefault(k, (kind, a, b))

    def is_zero(self, w, depth=0):
        """The condition w == 0 (w a word of known sign)."""
        j = self.joins.get(w.p.key()) if depth < 40 else None
        if j is None: return c_eq(w, wconst(0))
        if j[0] == "or": return c_and(self.is_zero(j[1], depth + 1), self.is_zero(j[2], depth + 1))
        return c_eq(j[1], j[2])

    # ---------- residues modulo q
    def gf(self, p):
        """Normal form modulo q with canonical-limb definitions substituted, newest first."""
        q = self.q
        p = p.mod(q)
        while True:
            best = None
            for m in p.d:
                for i in m:
                    if self.atoms[i].gf is not None and (best is None or i > best): best = i
            if best is None: return p
            sub = self.atoms[best].gf
            rest, acc = {}, Poly()
            byp = {}
            for m, c in p.d.items():
                e = m.count(best)
                if e == 0: rest[m] = c
                else:
                    mm = tuple(x for x in m if x != best)
                    byp.setdefault(e, {})[mm] = c
            out = Poly(rest)
            pw = Poly({(): 1})
            for e in range(1, max(byp) + 1):
                pw = (pw * sub).mod(q)
                if e in byp: out = out + (pw * Poly(byp[e])).mod(q)
            p = out.mod(q)

    def canon(self, p):
        """Limbs (Words) of the canonical residue of p modulo q."""
        nf = self.gf(p)
        q, n = self.q, self.n
        if nf.is_const():
            c = nf.const()
            return [wconst((c >> (64 * i)) & MASK[64]) for i in range(n)]
        key = nf.key()
        r = self.canon_cache.get(key)
        if r is None:
            top = (q - 1) >> (64 * (n - 1))
            ats = [self.atom("C%d_%d" % (len(self.canon_cache), i), 0, MASK[64] if i < n - 1 else top, "canon", (nf, i)) for i in range(n)]
            ws = [self.aword(a) for a in ats]
            comp = Poly()
            for i, w in enumerate(ws): comp = comp + w.p * (1 << (64 * i))
            ats[0].gf = (nf - (comp - ws[0].p)).mod(q)
            for a in ats: a.facts.append((comp, 0, q - 1))
            self.composites.append((comp, 0, q - 1))
            r = self.canon_cache[key] = ws
        return r

    def register_canon(self, p, limbs):
        """Declare that the given input limbs are the canonical residue of p (an input invariant)."""
        self.canon_cache[self.gf(p).key()] = limbs

    # ---------- concrete evaluation
    def evaluator(self, env):
        """env: input atom id -> int.  Returns a function evaluating polynomials over the integers."""
        cache = dict(env)

        def at(i):
            v = cache.get(i)
            if v is None:
                a = self.atoms[i]
                if a.kind == "floor": v = ev(a.defn[0]) >> a.defn[1]
                elif a.kind == "and": v = ev(a.defn[0]) & ev(a.defn[1])
                elif a.kind == "canon":
                    p, j = a.defn
                    v = (ev(p) % self.q >> (64 * j)) & MASK[64]
                elif a.kind == "fn": v = a.defn[0](*[ev(x) for x in a.defn[1:]])
                elif a.kind in ("undef", "fresh") and self.default: v = self.default(a)
                else: raise Unsupported("no value for atom %s" % a.name)
                cache[i] = v
            return v

        def ev(p):
            s = 0
            for m, c in p.d.items():
                for i in m: c *= at(i)
                s += c
            return s
        ev.atom = at
        return ev

    # ---------- linear arithmetic
    def member_facts(self, i):
        a = self.atoms[i]
        out = list(a.facts)
        for comp in self.composites:
            if (i,) in comp[0].d: out.append(comp)
        return out

    def closure(self, polys, limit):
        """Facts reachable from the polynomials, newest atoms first, at most `limit` atoms."""
        import heapq
        facts, keys, seen, heap, queued = [], set(), set(), [], set()

        def note(p):
            for m in p.d:
                for i in m:
                    if i not in queued:
                        queued.add(i); heapq.heappush(heap, -i)

        def addf(f):
            k = (f[0].key(), f[1], f[2])
            if k not in keys:
                keys.add(k); facts.append(f); note(f[0])
        for p in polys: note(p)
        for f in self.extra:
            if f[0].d.keys() & self._mons: facts.append(f)
        full = True
        while heap:
            if limit is not None and len(seen) >= limit:
                full = False
                break
            i = -heapq.heappop(heap)
            if i in seen: continue
            seen.add(i)
            for f in self.member_facts(i): addf(f)
        return facts, full

    def product_facts(self, polys):
        """McCormick facts for the products of input integers that occur in the polynomials."""
        mons = {m for p in polys for m in p.d if len(m) == 2}
        comp_of = {}
        for c in self.composites:
            for m in c[0].d:
                if len(m) == 1: comp_of.setdefault(m[0], c)
        pairs, out = {}, []
        def single(x):
            a = self.atoms[x]
            return (self.apoly(a), a.lo, a.hi)
        for x, y in mons:
            cx, cy = comp_of.get(x), comp_of.get(y)
            c = [(cx, cy), (single(x), cy), (cx, single(y))] if cx and cy else [(cx, single(y)), (single(x), single(y))] if cx else [(single(x), cy), (single(x), single(y))] if cy else [(single(x), single(y))]
            for u, v in c:
                pairs[(u[0].key(), v[0].key())] = (u, v)
        for (px, lx, hx), (py, ly, hy) in pairs.values():
            X1, X2, Y1, Y2 = px - lx, hx - px, py - ly, hy - py
            for u, v in ((X1, Y1), (X2, Y2), (X1, Y2), (X2, Y1)): out.append((u * v, 0, None))
        return out

    def solver(self, conds, ints, timeout, limit, products):
        polys = []
        for c in conds: polys += c.polys()
        self._mons = {m for p in polys for m in p.d if m}
        facts, full = self.closure(polys, limit)
        if products: facts = facts + self.product_facts(polys + [f[0] for f in facts])
        s = z3.SolverFor("QF_LIA" if ints else "QF_LRA")
        s.set("timeout", timeout)
        s.set("arith.solver", 6 if ints else 2)
        # z3 expressions are kept across queries: building them is what costs
        VC, EC, BC = self._zc.setdefault(ints, ({}, {}, {}))
        V = {}
        mk = z3.Int if ints else z3.Real
        num = z3.IntVal if ints else z3.RealVal
        adds = []

        def var(m):
            v = V.get(m)
            if v is None:
                v = VC.get(m)
                if v is None: v = VC[m] = mk("v" + "_".join(map(str, m)))
                V[m] = v
                if len(m) == 1:
                    a = self.atoms[m[0]]
                    k = (m, a.lo, a.hi)
                    bs = BC.get(k)
                    if bs is None: bs = BC[k] = ([v >= a.lo] if a.lo is not None else []) + ([v <= a.hi] if a.hi is not None else [])
                    adds.extend(bs)
            return v

        def lin(p):
            e = EC.get(p.key())
            if e is None:
                t = [num(c) * var(m) if m else num(c) for m, c in p.d.items()]
                e = EC[p.key()] = z3.Sum(t) if t else num(0)
            else:
                for m in p.d:
                    if m and m not in V: var(m)
            return e
        for p, lo, hi in facts:
            e = lin(p)
            k = (p.key(), lo, hi)
            bs = BC.get(k)
            if bs is None: bs = BC[k] = ([e >= lo] if lo is not None else []) + ([e <= hi] if hi is not None else [])
            adds.extend(bs)
        for c in conds: adds.append(c.z3(lin))
        ref, sol = s.ctx.ref(), s.solver
        for e in adds: z3.Z3_solver_assert(ref, sol, e.as_ast())
        return s, V, full

    TIMEOUT = 20000

    def tighten(self, conds):
        """Flatten conjunctions and turn a disequality next to a bound into a strict bound (integers)."""
        flat, out = [], []
        for c in conds:
            if c.op == "and": flat += self.tighten(c.sub)
            else: flat.append(c)
        ges = {c.p.key() for c in flat if c.op == "ge"}
        for c in flat:
            if c.op == "or":
                c = Cond("or", sub=[x if len(y) != 1 else y[0] for x in c.sub for y in [self.tighten([x])]])
            if c.op == "ne":
                k, nk = c.p.key(), (-c.p).key()
                lo, hi = self.bounds(c.p)
                if c.lo is not None: lo = max(lo, c.lo)
                if c.hi is not None: hi = min(hi, c.hi)
                if k in ges or lo == 0:
                    out.append(Cond("ge", c.p - 1)); continue
                if nk in ges or hi == 0:
                    out.append(Cond("ge", -c.p - 1)); continue
            out.append(c)
        return out

    def unsat(self, path, goal=None, ints=True, timeout=None):
        """True if the conjunction of the path conditions (and the condition goal) is contradictory under the facts."""
        conds = self.tighten(list(path) + ([goal] if goal is not None else []))
        for c in conds:
            if c.truth(self) is False: return True
        t0 = time.time()
        self.stats["lp"] += 1
        self.last_model = None
        try:
            plans = []
            nonlin = any(len(m) > 1 for c in conds for p in c.polys() for m in p.d)
            if goal is not None:
                plans.append(([goal], 2, False))
            plans += [(conds, 6, False), (conds, 14, False), (conds, 40, False)]
            if goal is not None and nonlin: plans.append(([goal], None, True))
            plans.append((conds, None, False))
            if nonlin: plans.append((conds, None, True))
            fullseen = None
            for cs, lim, prod in plans:
                if lim is not None and fullseen == (len(cs), prod): continue
                s, V, full = self.solver(cs, False, timeout or self.TIMEOUT, lim, prod)
                r = s.check()
                if TRACE: print("   plan", len(cs), lim, prod, r, full, "%.2f" % (time.time() - t0), len(s.assertions()), len(V))
                if r == z3.unsat: return True
                if full and not prod and len(cs) == len(conds): fullseen = (len(cs), prod)
                if full and lim is not None and not prod and cs is conds and not nonlin: break
            if ints:
                s, V, full = self.solver(conds, True, 8000, None, nonlin and len(conds) < 12)
                r = s.check()
                if r == z3.unsat: return True
                if r == z3.sat:
                    m = s.model()
                    self.last_model = {k[0]: m.eval(v, model_completion=True).as_long() for k, v in V.items() if len(k) == 1}
            return False
        finally:
            self.stats["lp_s"] += time.time() - t0

    def elim_bounds(self, p):
        """Bounds of p after writing every floor atom f of P/2^k as (P - r)/2^k with 0 <= r < 2^k: the carries of a
        telescoping sum cancel exactly, so this is tight where plain intervals are not."""
        from fractions import Fraction
        cur = {m: Fraction(c) for m, c in p.d.items()}
        rems = {}
        while True:
            i = max((x for m in cur for x in m if self.atoms[x].kind == "floor"), default=None)
            if i is None: break
            if any(i in m and m != (i,) for m in cur): return None
            c = cur.pop((i,))
            P, k = self.atoms[i].defn
            rems[i] = rems.get(i, 0) - c / (1 << k)
            c /= 1 << k
            for m, v in P.d.items():
                x = cur.get(m, 0) + c * v
                if x: cur[m] = x
                else: cur.pop(m, None)
        lo = hi = Fraction(0)
        for i, c in rems.items():
            P, k = self.atoms[i].defn
            x = c * ((1 << k) - 1)
            lo += min(x, 0); hi += max(x, 0)
        cs = self.composites
        for _ in range(4):
            done = True
            for u in range(len(cs)):
                for v in list(range(u, len(cs))) + [None]:
                    W = cs[u][0] * cs[v][0] if v is not None else cs[u][0]
                    ms = [m for m in W.d if m]
                    if not ms or any(m not in cur for m in ms): continue
                    r = [cur[m] / W.d[m] for m in ms]
                    c = min(r) if r[0] > 0 else max(r)
                    if c == 0 or (min(r) < 0) != (max(r) < 0): continue
                    l, h = cs[u][1], cs[u][2]
                    if v is not None:
                        x = [a * b for a in (l, h) for b in cs[v][1:]]
                        l, h = min(x), max(x)
                    lo += min(c * l, c * h); hi += max(c * l, c * h)
                    for m, w in W.d.items():
                        x = cur.get(m, 0) - c * w
                        if x: cur[m] = x
                        else: cur.pop(m, None)
                    done = False
            if done: break
        if len(cs) == 1 or True:
            # composite times a single input
            for u in range(len(cs)):
                for y in sorted({x for m in cur if len(m) == 2 for x in m}):
                    a = self.atoms[y]
                    W = cs[u][0] * self.apoly(a)
                    ms = [m for m in W.d if m]
                    if not ms or any(m not in cur for m in ms): continue
                    r = [cur[m] / W.d[m] for m in ms]
                    c = min(r) if r[0] > 0 else max(r)
                    if c == 0 or (min(r) < 0) != (max(r) < 0): continue
                    x = [e * f for e in cs[u][1:] for f in (a.lo, a.hi)]
                    lo += min(c * min(x), c * max(x)); hi += max(c * min(x), c * max(x))
                    for m, w in W.d.items():
                        x = cur.get(m, 0) - c * w
                        if x: cur[m] = x
                        else: cur.pop(m, None)
        for m, c in cur.items():
            l, h = self.bounds(Poly({m: 1}))
            lo += min(c * l, c * h); hi += max(c * l, c * h)
        return -((-lo).__floor__()), hi.__floor__()

    def lemma(self, p, lo, hi):
        """Prove lo <= p <= hi without path conditions and keep it as a fact for later queries."""
        b = self.bounds(p)
        if b[0] >= lo and b[1] <= hi: return True
        e = self.elim_bounds(p)
        if e is not None and e[0] >= lo and e[1] <= hi:
            self.extra.append((p, lo, hi))
            return True
        for g in (Cond("ge", p - hi - 1), Cond("ge", lo - 1 - p)):
            if not self.unsat([], g, ints=False, timeout=60000): return False
        self.extra.append((p, lo, hi))
        return True

    def implies(self, path, goal):
        """Is the goal Cond implied by the path (list of Cond)?"""
        t = goal.truth(self)
        if t is True:
            self.stats["syntactic"] += 1
            return True
        return self.unsat(list(path), goal.negate())


class Cond:
    """A condition on integers: ('ge', p, lo, hi): p >= 0; ('eq', p, lo, hi): p == 0; ('ne', ...); ('and'|'or', [..]); ('const', b)."""
    __slots__ = ("op", "p", "lo", "hi", "sub")

    def __init__(self, op, p=None, lo=None, hi=None, sub=None):
        self.op, self.p, self.lo, self.hi, self.sub = op, p, lo, hi, sub

    def negate(self):
        if self.op == "const": return Cond("const", not self.p)
        if self.op == "ge": return Cond("ge", -self.p - 1, None if self.hi is None else -self.hi - 1, None if self.lo is None else -self.lo - 1)
        if self.op == "eq": return Cond("ne", self.p, self.lo, self.hi)
        if self.op == "ne": return Cond("eq", self.p, self.lo, self.hi)
        if self.op == "and": return Cond("or", sub=[c.negate() for c in self.sub])
        if self.op == "or": return Cond("and", sub=[c.negate() for c in self.sub])
        raise AssertionError

    def truth(self, ctx=None):
        if self.op == "const": return bool(self.p)
        if self.op in ("and", "or"):
            ts = [c.truth(ctx) for c in self.sub]
            if self.op == "and":
                if any(t is False for t in ts): return False
                return True if all(t is True for t in ts) else None
            if any(t is True for t in ts): return True
            return False if all(t is False for t in ts) else None
        lo, hi = self.lo, self.hi
        if ctx is not None:
            l2, h2 = ctx.bounds(self.p)
            lo = l2 if lo is None else max(lo, l2)
            hi = h2 if hi is None else min(hi, h2)
        if self.op == "ge":
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0: return False
            return None
        out = None
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): out = False
        elif self.p.is_const() and self.p.const() == 0: out = True
        elif lo is not None and lo == hi == 0: out = True
        if out is None: return None
        return out if self.op == "eq" else not out

    def polys(self):
        if self.op == "const": return []
        if self.sub is not None: return [p for c in self.sub for p in c.polys()]
        return [self.p]

    def z3(self, lin):
        if self.op == "const": return z3.BoolVal(bool(self.p))
        if self.op == "and": return z3.And([c.z3(lin) for c in self.sub])
        if self.op == "or": return z3.Or([c.z3(lin) for c in self.sub])
        e = lin(self.p)
        if self.op == "ge": return e >= 0
        if self.op == "eq": return e == 0
        return e != 0

    def eval(self, ev):
        if self.op == "const": return bool(self.p)
        if self.op == "and": return all(c.eval(ev) for c in self.sub)
        if self.op == "or": return any(c.eval(ev) for c in self.sub)
        v = ev(self.p)
        return v >= 0 if self.op == "ge" else v == 0 if self.op == "eq" else v != 0

    def __repr__(self):
        return "%s(%s)" % (self.op, self.sub if self.sub else "const" if self.op == "const" else "%d terms" % len(self.p.d))


TRUE, FALSE = Cond("const", True), Cond("const", False)


def c_ge(a, b):
    """a >= b for Words (integers)"""
    p = a.p - b.p
    return Cond("ge", p, a.lo - b.hi, a.hi - b.lo)


def c_eq(a, b):
    return Cond("eq", a.p - b.p, a.lo - b.hi, a.hi - b.lo)


def c_and(*cs):
    cs = [y for c in cs for y in (c.sub if c.op == "and" else [c]) if y.op != "const" or not y.p]
    if any(c.op == "const" for c in cs): return FALSE
    return cs[0] if len(cs) == 1 else Cond("and", sub=list(cs)) if cs else TRUE


def c_or(*cs):
    cs = [c for c in cs if c.op != "const" or c.p]
    if any(c.op == "const" for c in cs): return TRUE
    return cs[0] if len(cs) == 1 else Cond("or", sub=list(cs)) if cs else FALSE
