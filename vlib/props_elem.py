"""F04-F09: the tagged element operations and the field class."""
import random, time
from concurrent.futures import ThreadPoolExecutor
from . import build, elemnative, elemproof, classproof
from .core import Unsupported
from .fieldref import Field
from .fieldspec import BITSPECS
from .props_raw import backend, run_case, collect, report_failing
from .report import pmap

QUICK = ["bn128r", "secp256k1q", "goldilocks", "p63", "bls381q"]
ROUNDS = {"F04": 900, "F05": 900, "F06": 1200, "F07": 500, "F08": 500, "F09": 700}
BITOPS = ("band", "bor", "bxor", "bnot", "shl", "shr")


def native_job(job):
    prop, kind, prime, seed, rounds = job
    r, n = elemnative.search(prop, kind, prime, seed, rounds)
    return dict(name="%s/%s" % (kind, prime), found=r, cases=n)


def native(ck, primes, rounds):
    kinds = elemnative.KINDS[ck.prop]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda p: build.render(p), primes))
        list(ex.map(lambda kp: build.native(build.render(kp[1]), kp[0]), [(k, p) for k in kinds for p in primes]))
    jobs = [(ck.prop, k, p, ck.seed * 1000 + i, rounds) for k in kinds for p in primes for i in range(1 if rounds < 1000 else 4)]
    total, found = 0, {}
    for r in pmap(native_job, jobs, 400, share=760):
        if "error" in r: ck.error(r["error"][-600:]); continue
        if "undecided" in r: ck.undecided.append((r["name"], r["undecided"][0])); continue
        total += r["cases"]
        f = r["found"]
        if f:
            found.setdefault((f.get("back_end"), f.get("op")), f)
    for (k, op), f in list(found.items())[:6]:
        ck.violation("%s %s on prime %s: %s" % (k, op, f.get("prime"), str(f.get("observed"))[:200]), dict(f, source="native run"), True)
    ck.bounded.append(dict(what="native runs of the element functions against integer arithmetic, every combination of representations, both results and operands checked (cross-check, not counted as proof)",
                           bound="%d rounds per prime and back end, primes %s" % (rounds, ", ".join(primes)), cases=total, distinct=total))
    return found


def elem_case(job):
    kind, prime, op, ra, rb, alias, seed, samples = job
    be = backend(kind, prime)
    f = Field(be.F.q)
    name = "%s/%s/%s(%s%s)%s" % (kind, prime, op, ra, "," + rb if rb else "", "[%s]" % alias if alias else "")
    c = elemproof.CopynCase(be) if op == "copyn" else elemproof.ElemCase(be, op, ra, rb, alias)
    obls = c.run()
    if obls is None: return dict(name=name, absent=True, op=op)
    bad = [o for o in obls if o.status != "ok"]
    rng = random.Random("%s-%s" % (seed, name))
    probs, vals = c.selfcheck(rng, f, samples if not bad else 3000, time.time() + (20 if bad else 60))
    return dict(name=name, op=op, fn="%s: Fr_%s" % (kind, op), n=len(obls), ok=len(obls) - len(bad), bad=[(o.name, o.why, o.case) for o in bad[:4]],
                engine=probs[:2], values=[(str(v), m) for v, m in vals[:1]], reach=c.checked, paths=len(c.finals), stats=c.ctx.stats, job=job)


_cb = {}


def class_backend(kind, prime):
    k = (kind, prime)
    if k not in _cb: _cb[k] = classproof.ClassBackend(kind, build.render(prime), build.PRIMES[prime])
    return _cb[k]


def class_job(job):
    kind, prime, op, args, seed, samples = job
    be = class_backend(kind, prime)
    if op == "power": return power_case(be, prime, job)
    f = Field(be.F.q)
    c = (classproof.ClassCase if op.startswith("k_") else classproof.GmpElemCase)(be, op, *args)
    name = "%s/%s" % (prime, c.name)
    obls = c.run()
    if obls is None: return dict(name=name, absent=True, op=op)
    bad = [o for o in obls if o.status != "ok"]
    rng = random.Random("%s-%s" % (seed, name))
    probs, vals = c.selfcheck(rng, f, samples if not bad else 600, time.time() + (20 if bad else 60))
    return dict(name=name, op=op, fn="%s: %s" % (kind, "RawFr::" + op[2:] if op.startswith("k_") else "Fr_" + op), n=len(obls), ok=len(obls) - len(bad), bad=[(o.name, o.why, o.case) for o in bad[:4]],
                engine=probs[:2], values=[(str(v), m) for v, m in vals[:1]], reach=c.checked, paths=len(c.finals), stats=c.ctx.stats, job=job)


def power_case(be, prime, job):
    """RawFr::exp: the loop over the bits of a scalar of any length."""
    from .sumproof import RawExp
    c = RawExp(be, job[3][0])
    o = c.prove()
    bad = [(n, w, "every scalar") for n, ok, w, s in o if not ok]
    if c.loops.declined:
        return dict(name="%s/%s" % (prime, c.name), undecided=["loop at %#x: %s" % d for d in c.loops.declined])
    return dict(name="%s/%s" % (prime, c.name), op="exp", fn="%s: RawFr::exp" % be.kind, n=len(o), ok=len(o) - len(bad), bad=bad[:4],
                engine=[], values=[], reach=1, paths=len(c.finals), stats=c.ctx.stats, job=job)


def class_jobs(kind, p, seed):
    out = []
    for sym in classproof.CLASS:
        for al in classproof.aliases(sym): out.append((kind, p, sym, (al,), seed, 8))
    for op in classproof.TAGGED:
        for ra in elemproof.REPS:
            if op == "inv": out.append((kind, p, op, (ra,), seed, 8)); continue
            for rb in elemproof.REPS: out.append((kind, p, op, (ra, rb), seed, 4))
            out.append((kind, p, op, (ra, ra, "ab"), seed, 4))
    out += [(kind, p, "power", (al,), seed, 0) for al in (False, True)]
    out.append((kind, p, "str2element", ("",), seed, 10))
    out += [(kind, p, "element2str", (ra,), seed, 6) for ra in elemproof.REPS]
    return out


def prove_class(ck, primes, budget):
    kinds = elemnative.KINDS[ck.prop]
    for k in kinds: ck.backends.add({"gen": "portable C++ (g++ -O0 object code)", "asm": "x86-64 assembly (nasm) with fr.cpp (g++ -O0 object code)"}[k])
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda p: build.render(p), primes))
    for p in primes:
        for k in kinds: backend(k, p); class_backend(k, p)
    sj = [("asm", p, op, False) for p in primes for op in elemproof.CUT if backend("asm", p).entry(op) is not None]
    for r in pmap(summary_job, sj, 300):
        if "key" in r: backend(r["kind"], r["prime"]).summaries[r["key"]] = r["value"]
    jobs = []
    for p in primes:
        class_backend("asm", p).preserved_from(backend("asm", p))
        for k in kinds:
            be = class_backend(k, p)
            if be.F.n == 1:
                for op in elemproof.WIDE: be.summaries[("wide", op)] = elemproof.wide_ok(backend(k, p), op)
            jobs += class_jobs(k, p, ck.seed)
    return collect(ck, pmap(class_job, jobs, 120, deadline=time.time() + budget))


def summary_job(job):
    """What an assembly raw routine leaves in the registers, from its own code (used by the callers' proofs)."""
    kind, prime, op, sh = job
    be = backend(kind, prime)
    if sh == "min": return dict(name="%s/%s/%s" % (kind, prime, op), key=("min", op), prime=prime, kind=kind, value=elemproof.shift_min(be, op))
    return dict(name="%s/%s/%s" % (kind, prime, op), key=("keep", op), prime=prime, kind=kind, value=(elemproof.preserved_shift if sh else elemproof.preserved)(be, op))


def jobs_of(ck, primes):
    kinds = elemnative.KINDS[ck.prop]
    out, missing = [], []
    for p in primes:
        for kind in kinds:
            be = backend(kind, p)
            ops = [o for o in elemnative.OPS[ck.prop]] + (["isTrue", "toInt", "copyn"] if ck.prop == "F06" else [])
            for op in ops:
                if be.entry(op) is None:
                    if p == primes[0]: missing.append("%s/%s" % (kind, op))
                    continue
                if op == "copyn": out.append((kind, p, op, "", None, "", ck.seed, 4)); continue
                for ra in elemproof.REPS:
                    if op not in elemproof.TWO: out.append((kind, p, op, ra, None, "", ck.seed, 6)); continue
                    for rb in elemproof.REPS: out.append((kind, p, op, ra, rb, "", ck.seed, 4))
                    out.append((kind, p, op, ra, ra, "ab", ck.seed, 3))
    return out, missing


COST = {"lt": 5, "gt": 5, "leq": 5, "geq": 5, "shl": 4, "shr": 4, "band": 2, "bor": 2, "bxor": 2, "bnot": 2}


def cost(job):
    """A guess that only orders the work: the longest first."""
    if len(job) == 7: return 1
    kind, p, op, ra, rb = job[:5]
    n = (build.PRIMES[p].bit_length() + 63) // 64
    c = COST.get(op, 1) * n
    if op in ("shl", "shr"): return c * (8 if ra[0] in "s m" and ra[1:] == "+" and rb in ("L", "M") else 4 if ra[1:] == "+" else 1)
    return c * (3 if ra in "LM" else 1) * (3 if rb and rb in "LM" else 1)


def any_case(job):
    return run_case(job) if len(job) == 7 else elem_case(job)


def prove(ck, primes, budget):
    for k in elemnative.KINDS[ck.prop]: ck.backends.add({"gen": "portable C++ (g++ -O0 object code)", "asm": "x86-64 assembly (nasm)"}[k])
    kinds = elemnative.KINDS[ck.prop]
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda p: build.render(p), primes))
    for p in primes:
        for k in kinds: backend(k, p)
    # register summaries of the assembly routines, once
    sj = [("asm", p, op, False) for p in primes if "asm" in kinds for op in elemproof.CUT if backend("asm", p).entry(op) is not None]
    if ck.prop == "F08":
        sj += [("asm", p, op, True) for p in primes for op in ("rawShl", "rawShr")]
        sj += [(k, p, op, "min") for k in kinds for p in primes for op in ("rawShl", "rawShr")]
    for r in pmap(summary_job, sj, 300):
        if "key" in r: backend(r["kind"], r["prime"]).summaries[r["key"]] = r["value"]
    jobs, missing = jobs_of(ck, primes)
    for op in missing: ck.undecided.append((op, "not an exported symbol"))
    if ck.prop == "F08":      # the raw routines the element operations rest on
        for p in primes:
            for k in kinds:
                be = backend(k, p)
                for op, sp in BITSPECS.items():
                    if be.entry(op) is None: continue
                    if op in ("rawShl", "rawShr"):
                        for s in range(be.summaries.get(("min", op), 1), be.F.bits):
                            if ck.tier == "quick" and be.F.bits > 128 and not (s % 64 in (0, 1, 2, 31, 32, 62, 63) or s == be.F.bits - 1 or (s * 7 + ck.seed) % 11 == 0): continue
                            jobs.append((k, p, op, "", s, ck.seed, 2))
                    else: jobs += [(k, p, op, al, None, ck.seed, 8) for al in sp.aliases]
    jobs.sort(key=cost, reverse=True)
    res = pmap(any_case, jobs, 240, deadline=time.time() + budget)
    return collect(ck, res)


def run(ck):
    quick = ck.tier == "quick"
    primes = QUICK if quick else list(build.PRIMES)
    failing = {}
    budget = 420 if quick else 6 * 3600
    failing = (prove_class if ck.prop == "F09" else prove)(ck, primes, budget)
    und = bool(ck.undecided or failing)
    found = native(ck, primes, ROUNDS[ck.prop] if quick and not und else 4000 if not quick else 999)
    have = {op for _, op in found} | {str(v[1].get("case", "")).split("/")[-1].split("[")[0].split("(")[0] for v in ck.violations}
    report_failing(ck, failing, have)
    if ck.prop == "F09":
        ck.assumptions += ["the GMP integer functions and the C / C++ library functions fr.cpp calls (new, free, sprintf, std::string) behave as their documentation says (contracts in vlib/mpz.py)",
                           "texts denote integers below 2^8000 in absolute value; text syntax itself is GMP's",
                           "the static initialisers of fr.cpp have run before any function of it is called",
                           "RawFr::exp: the exponent is 1 to 2^26 bytes long; the raw routines enter as operations of the multiplicative group (F01, F02)"]
    ck.assumptions += ["operands are well formed (a long value below the prime, a short Montgomery element whose long part is its Montgomery form); the destination is distinct from the operands",
                       "the raw routines are entered by the contracts that F01, F02 (and, for the shifts, this check) discharge on their code",
                       "an out-of-range toInt ends the program in Fr_fail (assertions enabled)",
                       "primes: " + ", ".join(primes) + " (each proof is for one prime and all operand values)"]
    return ck.finish("proof")
