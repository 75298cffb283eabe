"""Assumed contracts of the GMP integer functions and of the few C / C++ library functions fr.cpp uses.

An mpz_t is an opaque object holding one mathematical integer (a polynomial with an interval); its fields are not readable."""
from .core import *
from .machine import *
from .mpn import _args, cst, ret

HUGE = 1 << 8000      # interval of integers that come from outside (text, mpz arguments)


class Opaque:
    """Contents of a field of an abstract object: storing it is fine, reading it is outside the subset."""
    def __init__(self, what): self.what = what


def ptr(s, p):
    if isinstance(p, Ptr): return p
    if not isinstance(p, Word) or not p.is_const(): raise Unsupported("symbolic pointer to an mpz")
    return s.m.static_ptr(p.p.const())


def key(s, p):
    p = ptr(s, p)
    return (p.r, p.o)


def get(s, p):
    k = key(s, p)
    z = s.aux.setdefault("mpz", {})
    if k not in z: raise Fault("an mpz is used before it is initialised")
    return z[k]


def put(s, p, w, init=False):
    k = key(s, p)
    z = s.aux.setdefault("mpz", {})
    if k not in z and not init: raise Fault("an mpz is used before it is initialised")
    q = ptr(s, p)
    s.check(q, 16, True)
    z[k] = w
    s.store(q, 8, Opaque("mpz")); s.store(Ptr(q.r, q.o + 8), 8, Opaque("mpz"))
    s.written.setdefault("mpz:" + k[0], set()).add((k[1], 16))


def i32(s, w): return s.m.ctx.sview(w, 32)


def init(m, s):
    put(s, s.regs["rdi"], wconst(0), True); ret(m, s, None)


def init2(m, s):
    put(s, s.regs["rdi"], wconst(0), True); ret(m, s, None)


def clear(m, s):
    get(s, s.regs["rdi"])
    s.aux["mpz"].pop(key(s, s.regs["rdi"]))
    ret(m, s, None)


def several(what):
    """mpz_inits / mpz_clears: the arguments up to the null pointer, in registers and then on the stack"""
    def h(m, s):
        args, sp = _args(m, s, 6), s.regs["rsp"]
        for i in range(32):
            a = args[i] if i < 6 else s.load(Ptr(sp.r, sp.o + 8 * (i - 5)), 8)
            if not isinstance(a, Ptr) and a.is_const() and a.p.const() == 0: break
            what(m, s, a)
        else: raise Unsupported("a list of integers that does not end")
        ret(m, s, None)
    return h


def drop(m, s, a):
    get(s, a)
    s.aux["mpz"].pop(key(s, a))


def set_(conv, ini):
    def h(m, s):
        r, v = _args(m, s, 2)
        x = conv(m, s, v)
        put(s, r, x, ini); ret(m, s, None)
    return h


si = lambda m, s, v: m.ctx.sview(v, 64)
ui = lambda m, s, v: m.ctx.uview(v, 64)
zz = lambda m, s, v: get(s, v)


def set_str(ini):
    def h(m, s):
        r, t, b = _args(m, s, 3)
        t, b = ptr(s, t), i32(s, b)
        x = s.aux.get("text", {}).get((t.r, t.o))
        if x is None: raise Unsupported("text of unknown content")
        T, radix = x
        if radix.p.key() != b.p.key():      # read in another radix than the one it is written in: an unrelated integer
            T = m.ctx.aword(m.ctx.atom("other_radix", 0, HUGE, "undef"))
        put(s, r, T, ini); ret(m, s, wconst(0))
    return h


def op2(f):
    def h(m, s):
        r, a, b = _args(m, s, 3)
        x = f(m.ctx, get(s, a), get(s, b))
        put(s, r, x); ret(m, s, None)
    return h


def op1(f):
    def h(m, s):
        r, a = _args(m, s, 2)
        x = f(m.ctx, get(s, a))
        put(s, r, x); ret(m, s, None)
    return h


def op2c(f, conv):
    def h(m, s):
        r, a, b = _args(m, s, 3)
        x = f(m.ctx, get(s, a), conv(m, s, b))
        put(s, r, x); ret(m, s, None)
    return h


def mul_2exp(m, s):
    r, a, b = _args(m, s, 3)
    k = cst(s, b)
    put(s, r, m.ctx.scale(get(s, a), 1 << k)); ret(m, s, None)


def sizeinbase(m, s):
    a, b = _args(m, s, 2)
    v, b = get(s, a), cst(s, b)
    if not v.is_const() or b != 2: raise Unsupported("size of a symbolic integer")
    ret(m, s, wconst(max(1, abs(v.p.const()).bit_length())))


def canonical(m, p):
    """The canonical residue of p modulo the prime, as one integer."""
    L = m.ctx.canon(p)
    c = Poly()
    for i, w in enumerate(L): c = c + w.p * (1 << (64 * i))
    if c.is_const(): return wconst(c.const())
    return Word(c, 0, m.ctx.q - 1)


def limbs_fn(ctx, name, fn, args, hi):
    """An integer in [0, hi] that is a function of polynomials, as named limbs."""
    n = max(1, (hi.bit_length() + 63) // 64)
    ats = []
    for i in range(n):
        top = hi >> (64 * (n - 1))
        ats.append(ctx.atom("%s_%d" % (name, i), 0, MASK[64] if i < n - 1 else top, "fn", ((lambda *v, i=i: (fn(*v) >> (64 * i)) & MASK[64]),) + tuple(args)))
    c = Poly()
    for i, a in enumerate(ats): c = c + ctx.apoly(a) * (1 << (64 * i))
    for a in ats: a.facts.append((c, 0, hi))
    ctx.composites.append((c, 0, hi))
    if hi < ctx.q and n <= ctx.n:
        L = [ctx.aword(a) for a in ats] + [wconst(0)] * (ctx.n - n)
        ctx.register_canon(c, L)
    return Word(c, 0, hi)


def cached(ctx, k, mk):
    c = ctx.__dict__.setdefault("fn_cache", {})
    if k not in c: c[k] = mk()
    return c[k]


def fdiv(kind):
    def h(m, s):
        r, a, b = _args(m, s, 3)
        N, D = get(s, a), get(s, b)
        c = m.ctx
        if D.is_const():
            d = D.p.const()
            if d == 0: raise Fault("division by zero")
            if d == c.q and kind == "r": put(s, r, canonical(m, N.p)); ret(m, s, None); return
        elif s.decide(c_eq(D, wconst(0))): raise Fault("division by zero")
        if N.lo < 0 or D.lo < 0: raise Unsupported("division of integers of unknown sign %s %s" % ((N.lo, N.hi, sorted(c.atoms[i].name for i in N.p.atoms())), (D.lo, D.hi)))
        put(s, r, quotient(c, kind, N, D)); ret(m, s, None)
    return h


def quotient(ctx, kind, N, D):
    """floor quotient / remainder of non-negative integers (divisor not zero)"""
    fn = (lambda n, d: n // d if d else 0) if kind == "q" else (lambda n, d: n % d if d else 0)
    return cached(ctx, (kind, N.p.key(), D.p.key()), lambda: limbs_fn(ctx, "fdiv" + kind, fn, (N.p, D.p), N.hi if kind == "q" else max(0, min(N.hi, D.hi - 1))))


def monic(ctx, p):
    """p modulo q as c * p0 with p0 normalised."""
    p = ctx.gf(p)
    if p.is_const(): return p.const(), pconst(1)
    m = min((m for m in p.d if m), key=lambda m: (len(m), m))
    c = p.d[m]
    return c, (p * pow(c, -1, ctx.q)).mod(ctx.q)


def inverse(ctx, p):
    """The canonical inverse of a residue that is not zero, as a polynomial congruent to it."""
    q = ctx.q
    c, p0 = monic(ctx, p)
    if p0.is_const(): return pconst(pow(c, -1, q))
    I = cached(ctx, ("inv", p0.key()), lambda: limbs_fn(ctx, "inv", lambda v: pow(v, -1, q) if v % q else 0, (p0,), q - 1))
    return I.p * pow(c, -1, q)


def power(ctx, b, e):
    """(residue b)^e for a non-negative integer e: canonical."""
    q = ctx.q
    b = ctx.gf(b)
    if b.is_const() and e.is_const(): return wconst(pow(b.const(), e.p.const(), q))
    return cached(ctx, ("pow", b.key(), e.p.key()), lambda: limbs_fn(ctx, "pow", lambda x, y: pow(x, y, q) if y >= 0 else 0, (b, e.p), q - 1))


def invert(m, s):
    r, a, b = _args(m, s, 3)
    A, M = get(s, a), get(s, b)
    c = m.ctx
    if not M.is_const() or M.p.const() != c.q: raise Unsupported("inverse for another modulus")
    C = canonical(m, A.p)
    if s.decide(c_eq(C, wconst(0))):
        put(s, r, c.aword(c.atom("no_inverse", 0, c.q - 1, "undef"))); ret(m, s, wconst(0))
        return
    put(s, r, canonical(m, inverse(c, A.p)))
    ret(m, s, c.aword(c.atom("nz", 1, (1 << 31) - 1, "fresh")))


def powm(m, s):
    r, a, e, b = _args(m, s, 4)
    A, E, M = get(s, a), get(s, e), get(s, b)
    c = m.ctx
    if not M.is_const() or M.p.const() != c.q: raise Unsupported("power for another modulus")
    if E.lo < 0: raise Unsupported("power with an exponent of unknown sign")
    put(s, r, power(c, A.p, E)); ret(m, s, None)


def bytes_of(ctx, w, n):
    """little-endian bytes"""
    out = []
    for _ in range(n):
        w, l = ctx.split(w, 8)
        out.append(l)
    return out


def import_(m, s):
    r, count, order, size, endian, nails = _args(m, s, 6)
    src = ptr(s, s.load(Ptr("stack", s.regs["rsp"].o + 8), 8))
    count, size, order, endian = cst(s, count), cst(s, size), cst(s, i32(s, order)), cst(s, i32(s, endian))
    if cst(s, nails): raise Unsupported("nails")
    if not 0 <= count * size <= 4096: raise Fault("import of %d words" % count)
    c = m.ctx
    v = wconst(0)
    for i in range(count):
        at = src.o + size * (i if order < 0 else count - 1 - i)
        if size == 8 and endian <= 0: x = c.uview(s.load(Ptr(src.r, at), 8))
        else:
            x = wconst(0)
            for j in range(size):
                b = c.uview(s.load(Ptr(src.r, at + (j if endian <= 0 else size - 1 - j)), 1), 8)
                x = c.add(x, c.scale(b, 1 << (8 * j)))
        v = c.add(v, c.scale(x, 1 << (64 * i) if size == 8 else 1 << (8 * size * i)))
    put(s, r, tighten(c, v)); ret(m, s, None)


def tighten(ctx, v):
    k = v.p.key()
    for p, lo, hi in ctx.composites:
        if p.key() == k: return Word(v.p, max(lo, v.lo), min(hi, v.hi))
    return v


def export(m, s):
    data, countp, order, size, endian, nails = _args(m, s, 6)
    v = get(s, s.load(Ptr("stack", s.regs["rsp"].o + 8), 8))
    order, size, endian = cst(s, i32(s, order)), cst(s, size), cst(s, i32(s, endian))
    if cst(s, nails): raise Unsupported("nails")
    if not isinstance(countp, Word) or not countp.is_const() or countp.p.const(): raise Unsupported("export with a count")
    if isinstance(data, Word) and data.is_const() and data.p.const() == 0: raise Unsupported("export to new memory")
    c = m.ctx
    dst = ptr(s, data)
    if v.lo < 0:
        if s.decide(c_ge(wconst(-1), v)): v = Word(-v.p, 1, -v.lo)
        else: v = Word(v.p, 0, v.hi)
    B = 8 * size
    nmax = (v.hi.bit_length() + B - 1) // B
    if nmax > 4096: raise Unsupported("export of an integer of unknown size")
    # number of words: the words above the value are not written (no difference where they are zero already)
    n = nmax
    while n > 0:
        at = dst.o + size * (n - 1)
        R = m.regions.get(dst.r)
        zero = True
        if order < 0 and (R is None or R.size is None or 0 <= at and at + size <= R.size):
            for j in range(0, size, 8 if size % 8 == 0 else 1):
                x = s.load(Ptr(dst.r, at + j), 8 if size % 8 == 0 else 1)
                zero = zero and isinstance(x, Word) and x.is_const() and x.p.const() == 0
        else: zero = n == 1 and all_zero(s, dst, size)
        if zero or s.decide(c_ge(v, wconst(1 << (B * (n - 1))))): break
        n -= 1
    # from here on nothing forks
    w, words = v, []
    for i in range(n):
        w, l = c.split(w, B)
        words.append(l)
    for i, x in enumerate(words):
        at = dst.o + size * (i if order < 0 else n - 1 - i)
        if size == 8 and endian <= 0: s.store(Ptr(dst.r, at), 8, x)
        else:
            for j, b in enumerate(bytes_of(c, x, size)): s.store(Ptr(dst.r, at + (j if endian <= 0 else size - 1 - j)), 1, b)
    ret(m, s, data)


def all_zero(s, p, n):
    for j in range(n):
        x = s.load(Ptr(p.r, p.o + j), 1)
        if not isinstance(x, Word) or not x.is_const() or x.p.const(): return False
    return True


def fits(lo, hi):
    def h(m, s):
        v = get(s, s.regs["rdi"])
        ok = s.decide(c_and(c_ge(v, wconst(lo)), c_ge(wconst(hi), v)))
        ret(m, s, wconst(1 if ok else 0))
    return h


def get_si(m, s):
    v = get(s, s.regs["rdi"])
    c = m.ctx
    for w in (31, 63):
        lo, hi = -(1 << w), (1 << w) - 1
        if (v.lo >= lo or c.unsat(s.path, c_ge(wconst(lo - 1), v))) and (v.hi <= hi or c.unsat(s.path, c_ge(v, wconst(hi + 1)))):
            if v.lo < lo or v.hi > hi:      # the integer on this path only: an atom that equals it here and is in range everywhere
                cl = cached(c, ("clamp", w, v.p.key()), lambda: c.aword(c.atom("clamp", lo, hi, "fn", (lambda x: x if lo <= x <= hi else 0, v.p))))
                s.assume(Cond("eq", cl.p - v.p))
                v = cl
            ret(m, s, v)
            return
    neg = v.lo < 0 and s.decide(c_ge(wconst(-1), v))
    if neg:
        x = Word(-v.p - 1, max(0, -v.hi - 1), -v.lo - 1)
        l = c.split(x, 63)[1]
        r = Word(-l.p - 1, -l.hi - 1, -l.lo - 1)
    else: r = c.split(Word(v.p, max(0, v.lo), v.hi), 63)[1]
    ret(m, s, r)


def get_ui(m, s):
    v = get(s, s.regs["rdi"])
    if v.lo < 0: raise Unsupported("get_ui of an integer of unknown sign")
    ret(m, s, m.ctx.split(v, 64)[1])


def cmp(conv):
    def h(m, s):
        a, b = _args(m, s, 2)
        A, Bv = get(s, a), conv(m, s, b)
        c = m.ctx
        if s.decide(c_eq(A, Bv)): v = wconst(0)
        elif s.decide(c_ge(A, Bv)): v = c.aword(c.atom("cmp_pos", 1, (1 << 31) - 1, "fresh"))
        else: v = c.aword(c.atom("cmp_neg", -(1 << 31), -1, "fresh"))
        ret(m, s, v)
    return h


def heap(s, size):
    s.heap += 1
    n = "heap%d_%s" % (s.heap, size)
    if n not in s.m.regions: s.m.add_region(n, size)
    return Ptr(n, 0)


def new(m, s):
    n = s.regs["rdi"]
    if isinstance(n, Word) and (not n.is_const() or getattr(m, "heap_all", False)) and getattr(m, "heap_array", None): return ret(m, s, m.heap_array(s, m.ctx.uview(n, 64)))
    n = cst(s, n)
    ret(m, s, heap(s, n))


def free(m, s):
    p = s.regs["rdi"]
    if isinstance(p, Ptr):
        if p.o or not p.r.startswith("heap") or p.r in s.freed: raise Fault("free of something that was not allocated")
        s.freed.add(p.r)
    ret(m, s, None)


def text(s, p, value, radix):
    p = ptr(s, p)
    s.aux.setdefault("text", {})[(p.r, p.o)] = (value, radix)


def get_str(m, s):
    out, radix, v = _args(m, s, 3)
    v = get(s, v)
    radix = i32(s, radix)
    if isinstance(out, Ptr) or not out.is_const() or out.p.const(): raise Unsupported("mpz_get_str into a buffer")
    p = heap(s, None)
    text(s, p, v, radix)
    ret(m, s, p)


def cstring(s, p):
    p = ptr(s, p)
    out = b""
    while len(out) < 256:
        b = s.load(Ptr(p.r, p.o + len(out)), 1)
        if not isinstance(b, Word) or not b.is_const(): raise Unsupported("symbolic text")
        if b.p.const() & 255 == 0: return out.decode("latin1")
        out += bytes([b.p.const() & 255])
    raise Unsupported("long text")


FORMATS = {"%d": 32, "%i": 32, "%ld": 64, "%lld": 64, "%u": -32, "%lu": -64, "%llu": -64}


def print_to(m, s, dst, size, fmt, v):
    f = cstring(s, fmt)
    if f not in FORMATS: raise Unsupported("format %r" % f)
    w = FORMATS[f]
    x = m.ctx.sview(v, w) if w > 0 else m.ctx.uview(v, -w)
    d = ptr(s, dst)
    need = max(len(str(x.lo)), len(str(x.hi))) + 1
    R = m.regions.get(d.r)
    if size is not None and size < need: raise Unsupported("snprintf that may cut its text")
    if R is not None and R.size is not None and d.o + need > R.size: raise Fault("sprintf past the end of its buffer")
    text(s, d, x, wconst(10))
    s.written.setdefault(d.r, set()).add((d.o, need))
    ret(m, s, m.ctx.aword(m.ctx.atom("printed", 1, need, "fresh")))


def sprintf(m, s):
    d, f, v = _args(m, s, 3)
    print_to(m, s, d, None, f, v)


def snprintf(m, s):
    d, n, f, v = _args(m, s, 4)
    print_to(m, s, d, cst(s, n), f, v)


def nothing(m, s): ret(m, s, wconst(0))


def string_ctor(m, s):
    this, p = _args(m, s, 2)
    p = ptr(s, p)
    x = s.aux.get("text", {}).get((p.r, p.o))
    if x is None or p.r in s.freed: raise Unsupported("string from unknown text")
    t = ptr(s, this)
    s.aux.setdefault("string", {})[(t.r, t.o)] = x
    for i in range(0, 32, 8): s.store(Ptr(t.r, t.o + i), 8, Opaque("string"))
    ret(m, s, None)


def string_move(m, s):
    this, o = _args(m, s, 2)
    t, o = ptr(s, this), ptr(s, o)
    x = s.aux.get("string", {}).get((o.r, o.o))
    if x is None: raise Unsupported("copy of an unknown string")
    s.aux["string"][(t.r, t.o)] = x
    for i in range(0, 32, 8): s.store(Ptr(t.r, t.o + i), 8, Opaque("string"))
    ret(m, s, None)


def string_cstr(m, s):
    t = ptr(s, s.regs["rdi"])
    x = s.aux.get("string", {}).get((t.r, t.o))
    if x is None: raise Unsupported("text of an unknown string")
    p = Ptr("chars:%s:%d" % (t.r, t.o), 0)
    m.regions.setdefault(p.r, Region(p.r, None))
    s.aux.setdefault("text", {})[(p.r, 0)] = x
    ret(m, s, p)


S = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
SK = "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
CONTRACTS = {
    "__gmpz_init": init, "__gmpz_init2": init2, "__gmpz_clear": clear, "__gmpz_inits": several(lambda m, s, a: put(s, a, wconst(0), True)), "__gmpz_clears": several(drop),
    "__gmpz_set": set_(zz, False), "__gmpz_set_si": set_(si, False), "__gmpz_set_ui": set_(ui, False),
    "__gmpz_init_set": set_(zz, True), "__gmpz_init_set_si": set_(si, True), "__gmpz_init_set_ui": set_(ui, True),
    "__gmpz_set_str": set_str(False), "__gmpz_init_set_str": set_str(True),
    "__gmpz_add": op2(lambda c, a, b: c.add(a, b)), "__gmpz_sub": op2(lambda c, a, b: c.sub(a, b)), "__gmpz_mul": op2(lambda c, a, b: c.mul(a, b)),
    "__gmpz_neg": op1(lambda c, a: c.neg(a)),
    "__gmpz_add_ui": op2c(lambda c, a, b: c.add(a, b), ui), "__gmpz_sub_ui": op2c(lambda c, a, b: c.sub(a, b), ui), "__gmpz_mul_ui": op2c(lambda c, a, b: c.mul(a, b), ui),
    "__gmpz_mul_si": op2c(lambda c, a, b: c.mul(a, b), si), "__gmpz_mul_2exp": mul_2exp, "__gmpz_sizeinbase": sizeinbase,
    "__gmpz_fdiv_r": fdiv("r"), "__gmpz_fdiv_q": fdiv("q"), "__gmpz_mod": fdiv("r"),
    "__gmpz_invert": invert, "__gmpz_powm": powm, "__gmpz_import": import_, "__gmpz_export": export,
    "__gmpz_fits_sint_p": fits(-(1 << 31), (1 << 31) - 1), "__gmpz_fits_slong_p": fits(-(1 << 63), (1 << 63) - 1), "__gmpz_fits_ulong_p": fits(0, MASK[64]),
    "__gmpz_fits_uint_p": fits(0, MASK[32]), "__gmpz_get_si": get_si, "__gmpz_get_ui": get_ui, "__gmpz_cmp": cmp(zz), "__gmpz_cmp_si": cmp(si), "__gmpz_cmp_ui": cmp(ui),
    "__gmpz_get_str": get_str, "_Znam": new, "_Znwm": new, "malloc": new, "free": free, "_ZdaPv": free, "_ZdlPv": free, "sprintf": sprintf, "snprintf": snprintf,
    "__cxa_atexit": nothing, S + "C1EPKcRKS3_": string_ctor, S + "C2EPKcRKS3_": string_ctor, S + "C2IS3_EEPKcRKS3_": string_ctor, S + "C1IS3_EEPKcRKS3_": string_ctor,
    S + "C1EOS4_": string_move, S + "C2EOS4_": string_move, S + "C1ERKS4_": string_move, S + "C2ERKS4_": string_move, S + "D1Ev": nothing, S + "D2Ev": nothing,
    SK + "5c_strEv": string_cstr, SK + "4dataEv": string_cstr, "_ZNSaIcEC1Ev": nothing, "_ZNSaIcEC2Ev": nothing, "_ZNSaIcED1Ev": nothing, "_ZNSaIcED2Ev": nothing,
}


def install(m, symbols):
    for name, h in CONTRACTS.items():
        if name in symbols: m.contracts[symbols[name]] = (lambda s, h=h: h(m, s))
