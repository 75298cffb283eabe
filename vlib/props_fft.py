"""C07: the transforms' stages proved over an abstract field for every size (fftproof); the whole run on linear forms (every coefficient vector of a size), larger sizes on random vectors."""
import os
from . import build
from .props_tower import compile_cxx, concrete, repo, report, H
from .props_sum import bounded, case_result, collect_cases, cores
from .report import pmap

GOLD, BIGP = "18446744069414584321", "4179340454199820289"


IMG = {}


def job(j):
    from . import fftproof as F
    im = IMG["fft"]
    return case_result(F.Reversal(im, j[1]) if j[0] == "reversal" else F.Transform(im, j[1], j[2], j[0] == "inverse"))


def proofs(ck, quick):
    from . import fftproof as F, sumproof as P
    try: IMG["fft"] = P.Image("fft", [H + "/abs_fft.cpp"], flags=["-fno-access-control"])
    except build.BuildError as e:
        ck.undecided.append(("proof image", "does not build: %s" % str(e)[-300:]))
        return []
    ck.backends |= {"engine on g++ -O0 object code: loop invariants found by probing and proved for every iteration; linear forms and linear integer arithmetic (z3)"}
    jobs = []
    for d in range(F.DMAX, -1, -1):
        for S in sorted({d, F.DMAX} if quick else set(range(d, F.DMAX + 1)), reverse=True): jobs += [("forward", d, S), ("inverse", d, S)]
        jobs.append(("reversal", d))
    return collect_cases(ck, pmap(job, jobs, 120 if quick else 300, deadline=ck.t0 + (330 if quick else 2400)))


def run(ck):
    quick = ck.tier == "quick"
    exe = compile_cxx("conc_fft", [H + "/conc_fft.cpp", repo("misc.cpp")], opt="-O2", libs=["-lgmp", "-pthread"])
    d = build.render("bn128r", "Fr")
    real = compile_cxx("real_fft", [H + "/real_fft.cpp", repo("misc.cpp")] + [os.path.join(d, f) for f in ("fr.cpp", "fr_generic.cpp", "fr_raw_generic.cpp")], opt="-O2", inc=[d], libs=["-lgmp", "-pthread"])
    cs = cores()
    ks = sorted({k for k in (1, 2, 3, 4, 5, 6, 7, 8) if k <= len(cs)})
    pin = lambda k: ["taskset", "-c", ",".join(str(c) for c in cs[:k])]
    ck.backends.add("C++ templates run over linear forms in the coefficients; identity of all coefficients decides")
    failing, found = proofs(ck, quick), None
    for k in ks:
        for p, mp, dom in [(GOLD, 8 if quick else 11, 10 if quick else 12), ("17", 4, 4), ("65537", 7 if quick else 10, 9 if quick else 12), ("3", 1, 1), (BIGP, 6 if quick else 10, 8)]:
            if quick and k not in (1, 3, 8) and p in ("65537", BIGP): continue
            f, n = concrete(pin(k) + [exe, "lin", p, str(mp), str(dom)], 600)
            nm = "prime %s, sizes 1..2^%d, domains up to 2^%d, %d workers" % (p, mp, dom, k)
            if f and f.get("timeout"): ck.undecided.append((nm, "time limit")); continue
            ck.note_case("FFT<field> %s" % nm, n + (1 if f else 0), n, syntactic=n)
            if len(ck.samples) < 4: ck.samples.append(dict(case=nm, identities=n))
            if f and not found: found = f
    cmds = [[exe, "log"]] + [pin(k) + [exe, "big", str(ck.seed), "18" if quick and k == ks[-1] else "12" if quick else "20"] for k in (ks if not quick else [1, ks[-1]])]
    cmds += [pin(k) + [real, str(ck.seed), "11" if quick else "13"] for k in (1, ks[-1])]
    if not found: found = bounded(ck, "larger sizes, random vectors, roots and inverse:", "sizes up to 2^18 (thorough: 2^20), every output point compared", cmds, 600)
    report(ck, failing, found)
    ck.assumptions += ["the field obeys the ring axioms and exp, fromMpz, toMpz do what they say (F09, C04)", "the root table (root[i] = root[1]^i, primitive; powTwoInv[i] = 2^-i) is decided for the listed primes and domains, not for every field",
                       "parallelFor gives its workers parts that follow on from one another and cover the range (proved under U01); sizes up to 2^30 (its ranges are ints)",
                       "distinct indices of a stage work on disjoint pairs of elements; bit reversal and the d stages of butterflies are evaluation at the powers of the root; exchange of i and n - i with scaling by 1/n then undoes it (textbook inductions, not mechanised; every linear-form size is an instance)",
                       "interleavings of the workers in the native runs are those that happened (T01)"]
    return ck.finish("proof")
