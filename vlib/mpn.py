"""Assumed contracts of the GMP low-level functions (limb counts are constants at every call)."""
from .core import *
from .machine import *


def _args(m, s, k):
    return [s.regs[r] for r in ("rdi", "rsi", "rdx", "rcx", "r8", "r9")[:k]]


def cst(s, w):
    v = s.concretize(w)
    v &= MASK[64]
    return v - (1 << 64) if v >> 63 else v


def lim(s, p, i):
    if not isinstance(p, Ptr):
        if not p.is_const(): raise Unsupported("symbolic pointer to mpn")
        p = s.m.static_ptr(p.p.const())
    return s.m.ctx.uview(s.load(Ptr(p.r, p.o + 8 * i), 8))


def put(s, p, i, v):
    if not isinstance(p, Ptr): p = s.m.static_ptr(p.p.const())
    s.store(Ptr(p.r, p.o + 8 * i), 8, v)


def ret(m, s, v):
    m.clobber(s)
    if v is not None: s.regs["rax"] = v


def add_n(m, s, sub=False):
    r, a, b, n = _args(m, s, 4)
    n = cst(s, n); c = m.ctx
    A, Bv = [lim(s, a, i) for i in range(n)], [lim(s, b, i) for i in range(n)]
    cy = wconst(0)
    for i in range(n):
        if not sub:
            cy, l = c.split(c.add(c.add(A[i], Bv[i]), cy), 64)
        else:
            h, l = c.split(c.sub(c.sub(A[i], Bv[i]), cy), 64)
            cy = c.neg(h)
        put(s, r, i, l)
    ret(m, s, cy)


def add_1(m, s, sub=False):
    r, a, n, b = _args(m, s, 4)
    n = cst(s, n); c = m.ctx
    A = [lim(s, a, i) for i in range(n)]
    cy = c.uview(b)
    for i in range(n):
        if not sub: cy, l = c.split(c.add(A[i], cy), 64)
        else:
            h, l = c.split(c.sub(A[i], cy), 64)
            cy = c.neg(h)
        put(s, r, i, l)
    ret(m, s, cy)


def add(m, s, sub=False):
    r, a, na, b, nb = _args(m, s, 5)
    na, nb = cst(s, na), cst(s, nb); c = m.ctx
    A = [lim(s, a, i) for i in range(na)]
    Bv = [lim(s, b, i) for i in range(nb)]
    cy = wconst(0)
    for i in range(na):
        t = c.add(A[i], Bv[i]) if i < nb and not sub else c.sub(A[i], Bv[i]) if i < nb else A[i]
        if not sub: cy, l = c.split(c.add(t, cy), 64)
        else:
            h, l = c.split(c.sub(t, cy), 64)
            cy = c.neg(h)
        put(s, r, i, l)
    ret(m, s, cy)


def mul_1(m, s, acc=0):
    r, a, n, b = _args(m, s, 4)
    n = cst(s, n); c = m.ctx
    A = [lim(s, a, i) for i in range(n)]
    R = [lim(s, r, i) for i in range(n)] if acc else None
    b = c.uview(b)
    cy = wconst(0)
    for i in range(n):
        t = c.mul(A[i], b)
        if acc < 0:
            t = c.sub(c.sub(R[i], t), cy)
            h, l = c.split(t, 64)
            cy = c.neg(h)
        else:
            t = c.add(t, cy)
            if acc > 0: t = c.add(t, R[i])
            cy, l = c.split(t, 64)
        put(s, r, i, l)
    ret(m, s, cy)


def bitop(m, s, f):
    r, a, b, n = _args(m, s, 4)
    n = cst(s, n)
    A, Bv = [lim(s, a, i) for i in range(n)], [lim(s, b, i) for i in range(n)]
    for i in range(n): put(s, r, i, f(A[i], Bv[i]))
    ret(m, s, None)


def com(m, s):
    r, a, n = _args(m, s, 3)
    n = cst(s, n)
    A = [lim(s, a, i) for i in range(n)]
    for i in range(n): put(s, r, i, m.ctx.bnot(A[i]))
    ret(m, s, None)


def copy(m, s):
    r, a, n = _args(m, s, 3)
    n = cst(s, n)
    if n < 0 or n > 10000: raise Fault("mpn_copy of %d limbs" % n)
    A = [lim(s, a, i) for i in range(n)]
    for i in range(n): put(s, r, i, A[i])
    ret(m, s, None)


def zero(m, s):
    r, n = _args(m, s, 2)
    for i in range(cst(s, n)): put(s, r, i, wconst(0))
    ret(m, s, None)


def lshift(m, s):
    r, a, n, k = _args(m, s, 4)
    n = cst(s, n); c = m.ctx
    k = s.concretize(c.uview(k, 32))
    if not 1 <= k <= 63: raise Fault("mpn_lshift by %d" % k)
    A = [lim(s, a, i) for i in range(n)]
    prev = wconst(0)
    for i in range(n):
        h, l = c.split(c.scale(A[i], 1 << k), 64)
        put(s, r, i, c.add(l, prev))
        prev = h
    ret(m, s, prev)


def rshift(m, s):
    r, a, n, k = _args(m, s, 4)
    n = cst(s, n); c = m.ctx
    k = s.concretize(c.uview(k, 32))
    if not 1 <= k <= 63: raise Fault("mpn_rshift by %d" % k)
    A = [lim(s, a, i) for i in range(n)]
    for i in range(n):
        h = c.split(A[i], k)[0]
        if i + 1 < n: h = c.add(h, c.scale(c.split(A[i + 1], k)[1], 1 << (64 - k)))
        put(s, r, i, h)
    ret(m, s, c.scale(c.split(A[0], k)[1], 1 << (64 - k)))


def compos(s, p, n):
    c = s.m.ctx
    w = wconst(0)
    for i in range(n): w = c.add(w, c.scale(lim(s, p, i), 1 << (64 * i)))
    return w


def cmp(m, s):
    a, b, n = _args(m, s, 3)
    n = cst(s, n); c = m.ctx
    A, Bv = compos(s, a, n), compos(s, b, n)
    if s.decide(c_eq(A, Bv)): v = wconst(0)
    elif s.decide(c_ge(A, Bv)): v = c.aword(c.atom("cmp_pos", 1, (1 << 31) - 1, "fresh"))
    else: v = c.aword(c.atom("cmp_neg", -(1 << 31), -1, "fresh"))
    ret(m, s, v)


def bytecmp(m, s):
    """memcmp: zero exactly for equal bytes; the sign of a difference is left open."""
    a, b, n = _args(m, s, 3)
    n = cst(s, n)
    c = m.ctx
    if n < 0 or n > 4096: raise Fault("memcmp of %d bytes" % n)
    a, b = (x if isinstance(x, Ptr) else m.static_ptr(x.p.const()) for x in (a, b))
    A, Bv, i = wconst(0), wconst(0), 0
    while i < n:
        k = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
        x, y = (c.uview(s.load(Ptr(p.r, p.o + i), k), 8 * k) for p in (a, b))
        A, Bv = c.add(A, c.scale(x, 1 << (8 * i))), c.add(Bv, c.scale(y, 1 << (8 * i)))
        i += k
    if n == 0 or s.decide(c_eq(A, Bv)): v = wconst(0)
    else:
        k = ("memcmp", A.p.key(), Bv.p.key())
        sg = s.aux.get(k)
        if sg is None: sg = s.aux[k] = c.aword(c.atom("sign", 0, 1, "undef"))
        v = c.aword(c.atom("diff", 1, (1 << 31) - 1, "fresh")) if s.decide(c_eq(sg, wconst(0))) else c.aword(c.atom("diff", -(1 << 31), -1, "fresh"))
    ret(m, s, v)


def zero_p(m, s):
    a, n = _args(m, s, 2)
    n = cst(s, n)
    if s.decide(c_eq(compos(s, a, n), wconst(0))): v = m.ctx.aword(m.ctx.atom("nz", 1, (1 << 31) - 1, "fresh"))
    else: v = wconst(0)
    ret(m, s, v)


def bytecopy(m, s):
    r, a, n = _args(m, s, 3)
    if not n.is_const():
        s.events.append(("copy", r, a, n))
        ret(m, s, r)
        return
    n = cst(s, n)
    if n < 0 or n > 1 << 20: raise Fault("copy of %d bytes" % n)
    rp = r if isinstance(r, Ptr) else m.static_ptr(r.p.const())
    ap = a if isinstance(a, Ptr) else m.static_ptr(a.p.const())
    vals, i = [], 0
    while i < n:
        k = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
        c = s.mem.get(ap.r, {}).get(ap.o + i)
        if c is not None and c[0] <= n - i: k = c[0]
        vals.append((i, k, s.load(Ptr(ap.r, ap.o + i), k)))
        i += k
    for i, k, v in vals: s.store(Ptr(rp.r, rp.o + i), k, v)
    ret(m, s, r)


def byteset(m, s):
    r, v, n = _args(m, s, 3)
    n = cst(s, n)
    if n < 0 or n > 1 << 20: raise Fault("memset of %d bytes" % n)
    v = s.concretize(m.ctx.split(m.ctx.uview(v), 8)[1])
    rp = r if isinstance(r, Ptr) else m.static_ptr(r.p.const())
    i = 0
    while i < n:
        k = 8 if n - i >= 8 else 1
        s.store(Ptr(rp.r, rp.o + i), k, wconst(int.from_bytes(bytes([v]) * k, "little")))
        i += k
    ret(m, s, r)


def abort(m, s):
    raise Fault("abort")


CONTRACTS = {
    "__gmpn_add_n": add_n, "__gmpn_sub_n": lambda m, s: add_n(m, s, True), "__gmpn_add_1": add_1, "__gmpn_sub_1": lambda m, s: add_1(m, s, True),
    "__gmpn_add": add, "__gmpn_sub": lambda m, s: add(m, s, True), "__gmpn_mul_1": mul_1, "__gmpn_addmul_1": lambda m, s: mul_1(m, s, 1),
    "__gmpn_submul_1": lambda m, s: mul_1(m, s, -1),
    "__gmpn_and_n": lambda m, s: bitop(m, s, m.ctx.band), "__gmpn_ior_n": lambda m, s: bitop(m, s, m.ctx.bor), "__gmpn_xor_n": lambda m, s: bitop(m, s, m.ctx.bxor),
    "__gmpn_com": com, "__gmpn_copyi": copy, "__gmpn_copyd": copy, "__gmpn_zero": zero, "__gmpn_lshift": lshift, "__gmpn_rshift": rshift, "__gmpn_cmp": cmp,
    "__gmpn_zero_p": zero_p, "memcpy": bytecopy, "memmove": bytecopy, "memset": byteset, "memcmp": bytecmp, "Fr_fail": abort, "Fr_longErr": abort, "abort": abort, "__assert_fail": abort,
}


def install(m, symbols):
    for name, h in CONTRACTS.items():
        if name in symbols: m.contracts[symbols[name]] = (lambda s, h=h: h(m, s))
    for name, addr in symbols.items():
        sec = m.image.section_at(addr)
        if sec is None or sec["name"] != "extstub" or addr in m.contracts: continue

        def unknown(s, name=name):
            raise Unsupported("call of the external function %s, which has no contract" % name)
        m.contracts[addr] = unknown
