"""Native runs of the tagged element functions and the field class against integer arithmetic (bounded)."""
import random, ctypes
from . import build
from .fieldref import Field, Native, T3, T2, SHORT, SMONT, LONG, LMONT, TYPES, TNAME
from .search import isolated

OPS = {"F04": ["add", "sub", "mul", "neg", "square"], "F05": ["add", "sub", "mul", "neg", "square"],
       "F06": ["copy", "toNormal", "toLongNormal", "toMontgomery"],
       "F07": ["eq", "neq", "lt", "gt", "leq", "geq", "land", "lor", "lnot"],
       "F08": ["band", "bor", "bxor", "bnot", "shl", "shr"],
       "F09": ["inv", "div", "idiv", "mod", "pow"]}
KINDS = {"F04": ["gen"], "F05": ["asm"], "F06": ["gen", "asm"], "F07": ["gen", "asm"], "F08": ["gen", "asm"], "F09": ["gen", "asm"]}
BOOL = {"eq", "neq", "lt", "gt", "leq", "geq", "land", "lor", "lnot"}
# destination forms promised by the conversions
FORM = {"toNormal": (SHORT, SMONT, LONG), "toLongNormal": (LONG,), "toMontgomery": (SMONT, LMONT)}


def show(f, e): return dict(type=TNAME.get(e[1], hex(e[1])), short=e[0], long=hex(e[2]), value=f.value(e))


def wellformed(f, e):
    s, t, L = e
    if t not in TYPES: return "type field %#x" % t
    if t & LONG: return None if L < f.q else "long part not below the prime"
    if t == SMONT and L != (s % f.q) * f.R % f.q: return "short Montgomery element whose long part is not the Montgomery form"
    return None


def check_tag(nat, f, op, ea, eb, al):
    a, b = f.value(ea), f.value(eb) if eb is not None else None
    if op in ("idiv", "mod", "div") and b == 0 or op == "inv" and a == 0: return "skip"
    want = f.tag(op, a, b)
    r, ra, rb = nat.tag(op, ea, eb, al)
    m = wellformed(f, r)
    if m: return m + ": %s" % (r,)
    if f.value(r) != want: return "got %s, specified %d" % (show(f, r), want)
    if op in BOOL and r[1] not in (SHORT, SMONT) : return "not a short: %s" % (r,)
    if op in BOOL and (r[0] != want or r[1] != SHORT): return "got short %d of type %s" % (r[0], TNAME[r[1]])
    if op in FORM and r[1] not in FORM[op]: return "%s gave type %s" % (op, TNAME[r[1]])
    if ra != ea: return "the first operand was changed to %s" % (ra,)
    if eb is not None and al != "ab" and rb != eb: return "the second operand was changed to %s" % (rb,)
    return None


def shift_amount(f, rng, t):
    k = rng.randrange(6)
    n = rng.choice([0, 1, 31, 32, 63, 64, 65, f.bits - 1, f.bits, f.bits + 1, rng.randrange(f.bits + 2), rng.randrange(f.bits)])
    if k < 2: v = n
    elif k < 4: v = -n % f.q
    elif k == 4: v = rng.choice(f._edges)
    else: v = rng.choice([1 << 64 * i for i in range(f.n)] + [n + (1 << 64 * i) for i in range(f.n)] + [f.q - n - (1 << 64 * i) for i in range(f.n)]) % f.q
    if not (t & LONG):
        s = v if v < 2**31 else v - f.q
        if not -2**31 <= s < 2**31: s = rng.choice([n, -n])
        return (s, t, (s % f.q) * f.R % f.q if t == SMONT else rng.randrange(f.R))
    return (rng.choice([0, 7, -1]), t, v if t == LONG else v * f.R % f.q)


def search(prop, kind, prime, seed, rounds, limit=200):
    """-> (failing input or None, cases)."""
    q = build.PRIMES[prime]
    f = Field(q)
    lib = build.native(build.render(prime), kind)

    def gen(mark):
        rng = random.Random("%s-%s-%s-%s" % (seed, prop, kind, prime))
        nat = Native(lib, f)
        count = 0
        for i in range(rounds):
            for op in OPS[prop]:
                for ta in TYPES:
                    for tb in TYPES if op in T3 else (None,):
                        ea = f.rand_elem(rng, (ta,))
                        eb = None
                        if tb is not None:
                            eb = shift_amount(f, rng, tb) if op in ("shl", "shr") and rng.random() < .9 else f.rand_elem(rng, (tb,))
                            k = rng.randrange(6)
                            if op not in ("shl", "shr") and k == 0:      # the same or the opposite value, or one apart, in another form
                                v = (f.value(ea) * rng.choice([1, 1, -1]) + rng.choice([0, 0, 1, -1])) % q
                                if tb & LONG: eb = (eb[0], tb, v if tb == LONG else v * f.R % q)
                                else:
                                    s = v if v < 2**31 else v - q
                                    if -2**31 <= s < 2**31: eb = (s, tb, v * f.R % q if tb == SMONT else eb[2])
                        al = ""
                        if eb is not None and ta == tb and rng.random() < .05: al, eb = "ab", ea
                        d = dict(back_end=kind, prime=prime, q=q, op=op, a=show(f, ea), b=show(f, eb) if eb is not None else None, same_object=al == "ab")
                        count += 1
                        mark(d, count)
                        m = check_tag(nat, f, op, ea, eb, al)
                        if m and m != "skip": yield dict(d, observed=m); return
            if prop == "F06":
                for ta in TYPES:
                    ea = f.rand_elem(rng, (ta,))
                    if rng.random() < .6:
                        v = rng.choice([0, 1, -1, 2**31 - 1, -2**31 + 1, rng.randrange(-2**31 + 1, 2**31)])
                        ea = (v if not ta & LONG else ea[0], ta, (v * f.R if ta in (SMONT, LMONT) else v) % q)
                    v = f.value(ea)
                    d = dict(back_end=kind, prime=prime, q=q, op="isTrue", a=show(f, ea))
                    count += 1; mark(d, count)
                    x = nat.el(ea)
                    r = nat.lib.tint(0, ctypes.byref(x))
                    if (r != 0) != (v != 0) or r not in (0, 1): yield dict(d, observed="isTrue gave %d" % r); return
                    sv = f.signed(v)
                    if -2**31 < sv < 2**31:
                        d["op"] = "toInt"; count += 1; mark(d, count)
                        r = nat.lib.tint(1, ctypes.byref(x))
                        if r != sv: yield dict(d, observed="toInt gave %d" % r); return
                    if nat.get(x) != ea: yield dict(d, observed="the operand was changed"); return
                n = rng.randrange(5)
                src = [f.rand_elem(rng) for _ in range(6)]
                A, Bf = (nat.El * 6)(*[nat.el(e) for e in src]), (nat.El * 6)(*[nat.el((1, 2, 3)) for _ in src])
                d = dict(back_end=kind, prime=prime, q=q, op="copyn", n=n, elements=[list(e) for e in src])
                count += 1; mark(d, count)
                nat.lib.tcopyn(Bf, A, n)
                if [nat.get(x) for x in Bf] != src[:n] + [(1, 2, 3)] * (6 - n) or [nat.get(x) for x in A] != src: yield dict(d, observed="copied %s" % [nat.get(x) for x in Bf]); return
            if prop == "F09":
                for r in conversions(nat, f, rng, kind, prime, mark, count):
                    if isinstance(r, int): count = r
                    else: yield r; return
    return isolated(gen, limit)


def conversions(nat, f, rng, kind, prime, mark, count):
    q, lib = f.q, nat.lib
    RawT = nat.RawT
    cap = ctypes.create_string_buffer(4096)

    def raw(v): return nat.rawbuf(v * f.R % q)

    def case(op, **kw):
        nonlocal count
        count += 1
        d = dict(back_end=kind, prime=prime, q=q, op=op, **kw)
        mark(d, count)
        return d
    a, b = f.rand_value(rng), f.rand_value(rng)
    # text of the tagged elements
    e = f.rand_elem(rng)
    x = nat.el(e)
    d = case("element2str", a=show(f, e))
    lib.cel2str(ctypes.byref(x), cap, 4000)
    if cap.value.decode() != str(f.value(e)): yield dict(d, observed=cap.value.decode()[:300]); return
    if nat.get(x) != e: yield dict(d, observed="the operand was changed"); return
    v = rng.choice([a, a + q, -a, a * q + b, 0, q, -q, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, q - 1, -(q - 1), -rng.randrange(2**31)])
    d = case("str2element", text=str(v))
    y = nat.el((0x1111, 0x22222222, f.R - 1))
    lib.cstr2el(ctypes.byref(y), str(v).encode())
    g = nat.get(y)
    if wellformed(f, g) or f.value(g) != v % q: yield dict(d, observed=str(g)); return
    # the field class
    r, ra = nat.rawbuf(f.R - 5), raw(a)
    rad = rng.choice([2, 8, 10, 16, 36, rng.randrange(2, 37)])
    D = "0123456789abcdefghijklmnopqrstuvwxyz"

    def text(v):
        s, neg = "", v < 0
        v = abs(v)
        while v: s, v = D[v % rad] + s, v // rad
        return ("-" if neg else "") + (s or "0")
    v = rng.choice([a, a + q, -a, a * q + b, 0, q - 1, q, 2 * q - 1])
    d = case("RawFr::fromString", text=text(v), radix=rad)
    lib.ffromstr(r, text(v).encode(), rad)
    if nat.rawget(r) != v * f.R % q: yield dict(d, observed=hex(nat.rawget(r)), specified=hex(v * f.R % q)); return
    d = case("RawFr::toString", value=a, radix=rad)
    lib.ftostr(ra, rad, cap, 4000)
    if cap.value.decode() != text(a): yield dict(d, observed=cap.value.decode()[:300]); return

    def fld(op, code, want, s=0, x=None, y=None, **kw):
        d = case("RawFr::" + op, s=s, **kw)
        r = nat.rawbuf(f.R - 77)
        ret = lib.fld(code, r, x if x is not None else ra, y if y is not None else ra, s)
        got = nat.rawget(r)
        if got != want * f.R % q: return dict(d, observed=hex(got), specified=hex(want * f.R % q))
        return None
    u = rng.choice([0, 1, 2**32, 2**63, 2**64 - 1, rng.randrange(2**64)])
    su = u - 2**64 if u >> 63 else u
    i = rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randrange(-2**31, 2**31), rng.randrange(-100, 100)])
    rb = raw(b)
    tests = [("fromUI", 2, u, su, None, None), ("set", 3, i, i, None, None), ("zero", 4, 0, 0, None, None), ("one", 5, 1, 0, None, None), ("negOne", 6, -1, 0, None, None),
             ("add", 7, a + b, 0, ra, rb), ("sub", 8, a - b, 0, ra, rb), ("mul", 9, a * b, 0, ra, rb), ("neg", 10, -a, 0, ra, None), ("square", 11, a * a, 0, ra, None),
             ("mul1", 12, a * u * f.Ri, su, ra, None), ("toMontgomery", 13, a * f.R, 0, ra, None), ("fromMontgomery", 14, a * f.Ri, 0, ra, None),
             ("add(int, e)", 18, i + a, i, ra, None), ("sub(int, e)", 19, i - a, i, ra, None), ("mul(int, e)", 20, i * a, i, ra, None),
             ("add(e, int)", 21, a + i, i, ra, None), ("sub(e, int)", 22, a - i, i, ra, None), ("mul(e, int)", 23, a * i, i, ra, None),
             ("neg()", 24, -a, 0, ra, None), ("square()", 25, a * a, 0, ra, None), ("add()", 26, a + b, 0, ra, rb), ("sub()", 27, a - b, 0, ra, rb), ("mul()", 28, a * b, 0, ra, rb)]
    if a: tests.append(("inv", 0, pow(a, -1, q), 0, ra, None))
    if b: tests.append(("div", 1, a * pow(b, -1, q), 0, ra, rb))
    for nm, code, want, s, p, o in tests:
        m = fld(nm, code, want, s, p, o, a=a, b=b)
        if m: yield m; return
        if nat.rawget(ra) != a * f.R % q or nat.rawget(rb) != b * f.R % q: yield dict(back_end=kind, prime=prime, q=q, op="RawFr::" + nm, a=a, b=b, observed="an operand was changed"); return
    for nm, code, want in (("eq", 15, a == b), ("isZero", 16, a == 0)):
        d = case("RawFr::" + nm, a=a, b=b)
        if bool(lib.fld(code, ra, ra, rb, 0)) != want: yield dict(d, observed=str(not want)); return
    d = case("RawFr::eq", a=a, b=a)
    if not lib.fld(15, ra, ra, raw(a), 0): yield dict(d, observed="False"); return
    d = case("RawFr::swap", a=a, b=b)
    p1, p2 = raw(a), raw(b)
    lib.fld(17, p1, p2, p2, 0)
    if (nat.rawget(p1), nat.rawget(p2)) != (b * f.R % q, a * f.R % q): yield dict(d, observed="not exchanged"); return
    # in place
    if a:
        d = case("RawFr::inv in place", a=a)
        p = raw(a)
        lib.fld(0, p, p, p, 0)
        if nat.rawget(p) != pow(a, -1, q) * f.R % q: yield dict(d, observed=hex(nat.rawget(p))); return
    sl = rng.choice([0, 1, 2, 4, 8, 32, rng.randrange(48)])
    sc = bytes(rng.choice([0, 255, 128, 1, rng.randrange(256)]) for _ in range(sl))
    d = case("RawFr::exp", a=a, scalar_little_endian=sc.hex())
    p = nat.rawbuf(1)
    lib.fexp(p, ra, (ctypes.c_uint8 * max(1, sl))(*sc), sl)
    if nat.rawget(p) != pow(a, int.from_bytes(sc, "little"), q) * f.R % q: yield dict(d, observed=hex(nat.rawget(p))); return
    if rng.random() < .5:
        p = raw(a)
        lib.fexp(p, p, (ctypes.c_uint8 * max(1, sl))(*sc), sl)
        if nat.rawget(p) != pow(a, int.from_bytes(sc, "little"), q) * f.R % q: yield dict(d, op="RawFr::exp in place", observed=hex(nat.rawget(p))); return
    nb = 8 * f.n
    extra = rng.choice([0, 0, 1, 8])
    buf = (ctypes.c_uint8 * (nb + extra))(*([0xC3] * (nb + extra)))
    d = case("RawFr::toRprBE", a=a, buffer=nb + extra)
    k = lib.ftobe(ra, buf, nb + extra)
    if k != nb or bytes(buf) != a.to_bytes(nb, "big") + b"\xc3" * extra: yield dict(d, observed="returned %d, %s" % (k, bytes(buf).hex())); return
    p = nat.rawbuf(5)
    d = case("RawFr::fromRprBE", bytes=a.to_bytes(nb, "big").hex())
    k = lib.ffrombe(p, (ctypes.c_uint8 * nb)(*a.to_bytes(nb, "big")), nb)
    if k != nb or nat.rawget(p) != a * f.R % q: yield dict(d, observed="returned %d, %s" % (k, hex(nat.rawget(p)))); return
    p, mid = nat.rawbuf(5), nat.rawbuf(0)
    d = case("RawFr::toMpz/fromMpz", a=a)
    lib.ftofrommpz(p, ra, mid)
    if nat.rawget(mid) != a or nat.rawget(p) != a * f.R % q: yield dict(d, observed="mpz %d, back %s" % (nat.rawget(mid), hex(nat.rawget(p)))); return
    yield count
