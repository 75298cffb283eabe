"""F01, F02, F03: the raw field routines of the three back ends."""
import random, time, os
from . import build
from .core import Unsupported
from .fieldref import Field, Native, RAW, RAW_GEN_ONLY
from .fieldspec import RAWSPECS, BITSPECS
from .rawproof import Backend, RawCase
from .report import pmap
from .search import isolated

QUICK = ["bn128r", "secp256k1q", "goldilocks", "p63", "bls381q"]
KIND = {"F01": "gen", "F02": "asm", "F03": "arm"}
# routines every back end must have
NEEDED = {"gen": list(RAWSPECS), "asm": [o for o in RAWSPECS if o not in ("rawAddLS", "rawSubLS", "rawSubSL", "rawNegLS", "rawCopyS2L", "rawSubRegular", "rawCmp")],
          "arm": [o for o in RAWSPECS if o not in ("rawMSquare", "rawToMontgomery", "rawZero")] + list(BITSPECS)}
_be = {}


def backend(kind, prime):
    k = (kind, prime)
    if k not in _be: _be[k] = Backend(kind, build.render(prime), build.PRIMES[prime])
    return _be[k]


def run_case(job):
    kind, prime, op, alias, shift, seed, samples = job
    be = backend(kind, prime)
    f = Field(be.F.q)
    name = "%s/%s/%s%s%s" % (kind, prime, op, "[%s]" % alias if alias else "", "" if shift is None else "(%d)" % shift)
    c = RawCase(be, op, alias, shift)
    obls = c.run()
    if obls is None: return dict(name=name, absent=True, op=op)
    bad = [o for o in obls if o.status != "ok"]
    rng = random.Random("%s-%s" % (seed, name))
    probs, vals = c.selfcheck(rng, f, samples if not bad else 3000, time.time() + (30 if bad else 60))
    return dict(name=name, op=op, fn="%s: Fr_%s" % (kind, op), n=len(obls), ok=len(obls) - len(bad), bad=[(o.name, o.why, o.case) for o in bad[:4]],
                engine=probs[:2], values=[(v, m) for v, m in vals[:1]], reach=c.checked, paths=len(c.finals), stats=c.ctx.stats, job=job)


def native_search(kind, prime, ops, seed, n, aliases=True):
    """Concrete search over the natively compiled raw routines."""
    q = build.PRIMES[prime]
    f = Field(q)
    lib = build.native(build.render(prime), kind)

    def gen(mark):
        rng = random.Random("%s-native-%s-%s" % (seed, kind, prime))
        nat = Native(lib, f)
        count = 0
        for i in range(n):
            for op in ops:
                sp = RAWSPECS.get(op) or BITSPECS[op]
                al = rng.choice(sp.aliases) if aliases else ""
                a, b = f.rand_value(rng), f.rand_value(rng)
                if op == "rawMMul" and a and rng.random() < .5: b = f.rand_value(rng) * f.R * pow(a, -1, q) % q
                if al in ("ab", "rab"): b = a
                if op in ("rawShl", "rawShr"): s = rng.randrange(f.bits)
                elif op == "rawCopyS2L":
                    s = rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randrange(-min(q, 2**63) + 1, min(q, 2**63))])
                    s = max(min(s, q - 1), 1 - q) & (2**64 - 1)
                else:
                    s = rng.choice([0, 1, 2, 2**31, 2**32 - 1, 2**63, 2**64 - 1, rng.randrange(2**64)])
                    if op in ("rawAddLS", "rawSubLS", "rawSubSL", "rawNegLS"): s = min(s, q - 1)
                    if op == "rawNegLS": s = max(s, 1)
                d = dict(back_end=kind, prime=prime, q=q, op=op, alias=al, a=a, b=b, s=s)
                count += 1
                mark(d, count)
                m = compare_raw(nat, f, op, a, b, s, al)
                if m: yield dict(d, observed=m); return
    return isolated(gen)


def compare_raw(nat, f, op, a, b, s, al):
    sp = RAWSPECS.get(op) or BITSPECS[op]
    r, ret, ra, rb = nat.rawop(op, a, b, s, al)
    if op == "rawSwap":
        if al: return None if ra == a else "got %d" % ra
        return None if (r, ra) == (a, (1 << 64 * f.n) - 0x1234) else "swap gave %d, %d" % (r, ra)
    if sp.ret:
        if sp.ret == "cmp": good = (ret > 0) == (a > b) and (ret < 0) == (a < b)
        else: good = (ret != 0) == (a == b if sp.ret == "eq" else a == 0)
        return None if good else "returned %d" % ret
    want = f.raw(op, a, b, s)
    if r != want: return "got %d, specified %d" % (r, want)
    if al == "" and (ra, rb) != (a, b): return "an operand was changed"
    return None


def collect(ck, results, native=True):
    """Fold case results into the check; failed obligations become violations."""
    failing = {}
    for r in results:
        if r is None: continue
        if "error" in r: ck.undecided.append((r["name"], r["error"].strip().split("\n")[-1])); failing.setdefault("?", []).append(r); continue
        if "undecided" in r: ck.undecided.append((r["name"], r["undecided"][0])); continue
        if r.get("absent"): continue
        ck.note_case(r["fn"], r["n"], r["ok"], r["stats"].get("syntactic", 0), r["stats"].get("lp", 0), r["stats"].get("lp_s", 0))
        ck.reach += r["reach"]
        if r["engine"]: ck.undecided.append((r["name"], "self-check: " + r["engine"][0])); continue
        if r["reach"] == 0 and r["n"]: ck.undecided.append((r["name"], "no input reaches the case"))
        if r["n"] == 0: ck.undecided.append((r["name"], "no obligation generated"))
        if len(ck.samples) < 6 and not r["bad"]:
            ck.samples.append(dict(case=r["name"], paths=r["paths"], obligations=r["n"], concrete_evaluations=r["reach"]))
        if r["values"]:
            v, m = r["values"][0]
            ck.violation("%s: %s" % (r["name"], m[:300]), dict(case=r["name"], inputs=v, observed=m, failed_obligations=r["bad"], source="terms of the executed code evaluated on the input"), True)
        elif r["bad"]: failing.setdefault(r["op"], []).append(r)
    return failing


def report_failing(ck, failing, found_ops=()):
    for op, rs in failing.items():
        if op == "?" or op in found_ops: continue
        r = rs[0]
        o = r["bad"][0]
        ck.violation("%s: obligation '%s' is not discharged (%s) %s" % (r["name"], o[0], o[2], o[1]),
                     dict(case=r["name"], failed_obligations=r["bad"], others=[x["name"] for x in rs[1:20]], verifier_output="the linear-arithmetic back end does not refute the negated goal"), False)


def run(ck):
    kind = KIND[ck.prop]
    primes = list(build.PRIMES) if ck.tier == "thorough" else QUICK
    if kind == "arm": primes = [p for p in primes if p != "mnt6753q"]
    ck.backends.add({"gen": "portable C++ (g++ -O0 object code)", "asm": "x86-64 assembly (nasm)", "arm": "AArch64 assembly (clang)"}[kind])
    jobs, missing = [], []
    for p in primes:
        be = backend(kind, p)
        for op in NEEDED[kind]:
            sp = RAWSPECS.get(op) or BITSPECS[op]
            if be.entry(op) is None:
                if p == primes[0] and kind != "arm": missing.append(op)
                continue
            if op in ("rawShl", "rawShr"):
                sh = range(be.F.bits)
                if ck.tier == "quick" and be.F.bits > 128: sh = [s for s in sh if s % 64 in (0, 1, 2, 31, 32, 62, 63) or s == be.F.bits - 1 or (s * 7 + ck.seed) % 11 == 0]
                jobs += [(kind, p, op, "", s, ck.seed, 2) for s in sh]
            else:
                jobs += [(kind, p, op, al, None, ck.seed, 8) for al in sp.aliases]
    for op in missing: ck.undecided.append((op, "not an exported symbol"))
    quick = ck.tier == "quick"
    ops = [o for o in NEEDED[kind] if o not in missing and not (kind == 'asm' and o in RAW_GEN_ONLY)]
    found, total = set(), 0

    def native(rounds):
        """Concrete cross-check of the native code (bounded)."""
        n = 0
        for p in primes:
            if quick and time.time() > ck.t0 + 640: break
            r, k = native_search(kind, p, ops, ck.seed, rounds)
            n += k
            if r:
                if r["op"] not in found: ck.violation("%s %s on prime %s: %s" % (kind, r["op"], p, r["observed"][:200]), dict(r, source="native run"), True)
                found.add(r["op"])
                if len(found) > 2: break
        return n
    if kind != "arm": total += native(400)
    res = pmap(run_case, jobs, 120 if quick else 600, deadline=ck.t0 + (100 if found else 360) if quick else None)
    failing = collect(ck, res)
    bad_ops = set(failing) - {"?"}
    if kind != "arm":
        if (ck.undecided or bad_ops) and not found: total += native(6000)       # deeper where the proof is missing
        ck.bounded.append(dict(what="native runs of the raw routines against integer arithmetic (cross-check, not counted as proof)", bound="at least 400 rounds per prime", cases=total))
    have = {v[1].get("op") for v in ck.violations} | {str(v[1].get("case", "")).split("/")[-1].split("[")[0].split("(")[0] for v in ck.violations}
    report_failing(ck, failing, have)
    ck.assumptions += ["operands are canonical (below the prime) on entry; in-place use only where the alias list says so",
                       "primes: " + ", ".join(primes) + " (each proof is for one prime and all operand values)"]
    return ck.finish("proof")
