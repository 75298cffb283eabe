"""F10: the constants the generator emits, for many primes: closed obligations on the emitted objects, plus the routines that use them."""
import os, random, time
from . import build, elemnative, props_raw
from .elf import Elf
from .fieldref import Field
from .rawproof import Backend, RawCase, demangle
from .fieldspec import RAWSPECS, BITSPECS
from .report import pmap

USES = {"asm": ["rawMMul", "rawToMontgomery", "rawFromMontgomery", "rawAdd", "rawSub", "rawNeg", "rawMSquare"],
        "gen": ["rawMMul", "rawToMontgomery", "rawFromMontgomery", "rawAdd", "rawSub", "rawNeg", "rawNot", "rawMSquare"],
        "arm": ["rawMMul", "rawFromMontgomery", "rawAdd", "rawSub", "rawNeg", "rawNot"]}


def isprime(n):
    from sympy import isprime as p
    return p(n)


def up(n):
    n |= 1
    while not isprime(n): n += 2
    return n


def down(n):
    n -= 1 - n % 2
    while not isprime(n): n -= 2
    return n


def primes(seed, quick):
    """Odd primes of every shape the generator distinguishes: bit lengths around limb boundaries, patterns of the top limb, special low limbs."""
    out = {}

    def put(name, q): out.setdefault(q, name)
    for k in (33, 34, 62, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 255, 256, 257) + (() if quick else (40, 95, 150, 224, 319, 320, 321, 383, 384, 385, 447, 448, 449, 511, 512, 513, 521, 640)):
        put("least%d" % k, up(1 << (k - 1))); put("greatest%d" % k, down((1 << k) - 1))
    M = (1 << 64) - 1
    for n in (2, 4) if quick else (2, 3, 4, 5, 6, 8):
        low = 1 << (64 * (n - 1))
        for nm, t in (("7ffe", (1 << 63) - 2), ("7fff", (1 << 63) - 1), ("8000", 1 << 63), ("fffe", M - 1), ("0001", 1), ("3fff", (1 << 62) - 1), ("4000", 1 << 62)):
            put("top%s_%d_low" % (nm, n), up(t * low)); put("top%s_%d_high" % (nm, n), down(t * low + low - 1))
        r = random.Random("%s-%d" % (seed, n))
        for i in range(2 if quick else 8):
            put("random_%d_%d" % (n, i), up(r.randrange(1 << (64 * n - 1 - r.randrange(64)))| 1 << (64 * (n - 1))))
        # low limb 1 (np all ones), low limb all ones (np 1), a zero limb, a leading-zero limb
        for nm, lo in (("lowone", 1), ("lowones", M)):
            q = (r.randrange(1 << 40, 1 << 63) * low + lo)
            while not isprime(q): q += 1 << 64 if n > 1 else 2
            put("%s_%d" % (nm, n), q)
    return {v: k for k, v in out.items()}


def job(j):
    name, q, seed, rounds, proofs, samples = j
    f = Field(q)
    build.PRIMES[name] = q
    d = build.render(name)
    obls, engine, notes = [], [], []      # (function, name, ok, why)
    M = (1 << 64) - 1
    R = f.R
    want = {"q": q, "half": q >> 1, "R1": R % q, "R2": R * R % q, "R3": R ** 3 % q, "np": -pow(q, -1, 1 << 64) & M, "lboMask": (1 << (f.bits - 64 * (f.n - 1))) - 1}
    tail = {"rawq": "q", "_rawq": "q", "rawR2": "R2", "rawR3": "R3", "R2": "R2", "R3": "R3", "np": "np", "lboMask": "lboMask", "half": "half", "q": "q"}
    n64 = None
    for l in open(os.path.join(d, "fr_element.hpp")):
        w = l.split()
        if len(w) == 3 and w[:2] == ["#define", "Fr_N64"]: n64 = int(w[2])
    obls.append(("limb count", "Fr_N64 = ceil(bits / 64)", n64 == f.n, "Fr_N64 is %s for %d bits" % (n64, f.bits)))
    values = {}
    for kind, fn in (("asm", build.asm_image), ("gen", build.generic_image), ("arm", build.arm_object)):
        if kind == "arm" and f.n > 10: continue
        try: path = fn(d)
        except build.BuildError as e:
            obls.append(("%s emitted" % kind, "the emitted file assembles or compiles", False, str(e)[-300:])); continue
        e = Elf(path)
        sym = demangle(e.symbols)
        for s, a in sorted(sym.items()):
            if s in ("q", "half", "R2", "R3", "lboMask"): key = s
            elif s.startswith("Fr_"): key = tail.get(s[3:])
            else: key = None
            if key is None: continue
            element = s in ("Fr_q", "Fr_R2", "Fr_R3")
            ln = 8 if key in ("np", "lboMask") else 8 * f.n
            b = e.read(a, ln + (8 if element else 0))
            if b is None: continue
            hdr = b[:8] if element else b""
            v = int.from_bytes(b[8:] if element else b, "little")
            obls.append(("%s constant %s" % (kind, s), "%s has its defining value" % s, v == want[key], "%s: %s is %#x, defined as %#x" % (kind, s, v, want[key])))
            if element: obls.append(("%s constant %s" % (kind, s), "%s is a long element" % s, hdr[4:8] == b"\0\0\0\x80" and hdr[:4] == b"\0\0\0\0", "header of %s is %s" % (s, hdr.hex())))
    # the routines that use the constants, for all operands
    found = None
    und = []
    fails = []
    nob = nok = reach = 0
    fns = {}
    stats = {}
    if proofs:
        for kind in proofs:
            if kind == "arm" and f.n > 10: continue
            be = Backend(kind, d, q)
            for op in USES[kind]:
                if be.entry(op) is None: continue
                c = RawCase(be, op, "", None)
                nm = "%s/%s/%s" % (kind, name, op)
                try:
                    os_ = c.run()
                    if os_ is None: continue
                    bad = [o for o in os_ if o.status != "ok"]
                    probs, vals = c.selfcheck(random.Random("%s-%s" % (seed, nm)), f, samples if not bad else 2000, time.time() + 20)
                except Exception as ex:
                    und.append((nm, "outside the supported subset: %s" % ex)); continue
                if probs: und.append((nm, "self-check: " + probs[0])); continue
                x = fns.setdefault("%s: Fr_%s" % (kind, op), [0, 0, 0, 0, 0.0])
                x[0] += len(os_); x[1] += len(os_) - len(bad)
                x[2] += c.ctx.stats.get("syntactic", 0); x[3] += c.ctx.stats.get("lp", 0); x[4] += c.ctx.stats.get("lp_s", 0)
                reach += c.checked
                if vals: found = found or dict(case=nm, q=q, inputs=vals[0][0], observed=vals[0][1], source="terms of the executed code evaluated on the input")
                elif bad: fails.append((nm, [(o.name, o.why, o.case) for o in bad[:3]]))
    cases = 0
    if rounds:
        for prop in ("F04", "F05", "F06", "F07", "F08", "F09") if q > 1 << 62 else ():   # a product of two shorts must stay below the prime
            for kind in elemnative.KINDS[prop]:
                r, n = elemnative.search(prop, kind, name, seed, rounds, 100)
                cases += n
                if r and not found: found = dict(r, source="native run")
        for kind in ("gen", "asm"):
            ops = [o for o in props_raw.NEEDED[kind] if not (kind == "asm" and o in props_raw.RAW_GEN_ONLY)]
            r, n = props_raw.native_search(kind, name, ops, seed, rounds * 4)
            cases += n
            if r and not found: found = dict(r, source="native run")
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return dict(name=name, q=q, obls=obls, fns=fns, fails=fails, und=und, found=found, cases=cases, reach=reach)


def run(ck):
    quick = ck.tier == "quick"
    P = primes(ck.seed, quick)
    names = list(P)
    rnd = random.Random(ck.seed)
    jobs = []
    for i, nm in enumerate(names):
        small = P[nm].bit_length() <= (260 if quick else 400)
        prove = ("asm", "gen", "arm") if small and (not quick or "top7" in nm or "top8" in nm or "low" in nm or i % 3 == ck.seed % 3) else ()
        jobs.append((nm, P[nm], ck.seed, 6 if quick else 60, prove, 2))
    jobs.sort(key=lambda j: -P[j[0]].bit_length() * (5 if j[4] else 1))
    total = 0
    ck.backends.add("closed obligations on the constants of the assembled objects; the routines that use them by the term engine (all operands)")
    for r in pmap(job, jobs, 300):
        if "error" in r: ck.error(r["error"][-700:]); continue
        if "obls" not in r: ck.undecided.append((r["name"], r["undecided"][0])); continue
        total += r["cases"]; ck.reach += r["reach"]
        rep = None
        for fn, nm, ok, why in r["obls"]:
            ck.obl(fn, "%s (%s)" % (nm, r["name"]), ok, why)
            if not ok and not rep: rep = why
        for fn, x in r["fns"].items(): ck.note_case(fn, x[0], x[1], x[2], x[3], x[4])
        ck.undecided += r["und"]
        if len(ck.samples) < 6: ck.samples.append(dict(prime=r["name"], q=str(r["q"]), closed_obligations=len(r["obls"]), routines_proved=sorted(r["fns"])[:4]))
        if rep: ck.violation("prime %s (%d): %s" % (r["name"], r["q"], rep), dict(q=r["q"], observed=rep, native=r["found"]), True)
        elif r["found"]: ck.violation("prime %s (%d): %s" % (r["name"], r["q"], str(r["found"].get("observed"))[:250]), r["found"], True)
        elif r["fails"]: ck.violation("prime %s (%d): %s: %s" % (r["name"], r["q"], r["fails"][0][0], r["fails"][0][1][0]), dict(q=r["q"], failed_obligations=r["fails"]), False)
    ck.bounded.append(dict(what="native runs of raw and element routines on every prime", bound="%d primes" % len(names), cases=total))
    ck.notes.append("%d primes, %d with the routines proved for all operands" % (len(names), sum(1 for j in jobs if j[4])))
    ck.assumptions += ["the statement quantifies over every odd prime; each obligation is for one of the listed shapes of prime (%d primes, %d of them drawn from the seed)" % (len(names), sum("random" in n or "lowone" in n for n in names))]
    return ck.finish("proof")
