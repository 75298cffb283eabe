"""C04, C05, C06: scalar multiplication, bucket and windowed multi-exponentiation: loop proofs on the object code (sumproof), native runs over abstract groups as cross-check."""
import os
from concurrent.futures import ThreadPoolExecutor
from .report import pmap
from .props_tower import compile_cxx, concrete, repo, report, H


def bounded(ck, what, bound, cmds, limit=400):
    """Run concrete searches; -> first failure."""
    found = None
    for cmd in cmds:
        f, n = concrete(cmd, limit)
        ck.bounded.append(dict(what=what + " " + " ".join(os.path.basename(c) for c in cmd), bound=bound, cases=n))
        if f and not f.get("timeout"): found = found or f
        elif f: ck.undecided.append((" ".join(cmd[-3:]), "no answer within %d s" % limit))
        if found: break
    return found


def cores():
    try: return sorted(os.sched_getaffinity(0))
    except AttributeError: return [0]


def run(ck):
    return {"C04": run_exp, "C05": run_msm, "C06": run_msm}[ck.prop](ck)


ASSUME_EXP = ["the group operations obey the contracts proved by C03 (points) and, for powers, C02 / F01 / F02 (the field's multiplication); they enter as operations of an abstract abelian group, in whose free instance the identities are proved",
              "scalars are 1 to 2^26 bytes long and do not overlap the operands or results",
              "operator new[] returns fresh memory of the asked size (assumed contract)",
              "loops end: every proved loop has a counter that moves by a constant towards a proved bound"]


def case_result(c):
    """Run one LoopCase -> dict for collect_cases."""
    o = c.prove()
    bad = [(n, w) for n, ok, w, s in o if not ok]
    out = dict(name=c.name, n=len(o), ok=len(o) - len(bad), bad=bad[:6], loops=sorted({b for _, b in c.loops.used}), paths=len(c.finals), stats=c.ctx.stats)
    if c.loops.declined: out["undecided"] = ["loop at %#x: %s" % d for d in c.loops.declined[:4]]
    if c.loops.declined and bad:       # obligations that rest on an unread loop say nothing
        out["bad"] = []
    return out


def collect_cases(ck, results):
    """-> failing cases"""
    failing = []
    for r in results:
        if "error" in r: ck.undecided.append((r["name"], r["error"].strip().split("\n")[-1])); continue
        for u in r.get("undecided", []): ck.undecided.append((r["name"], u))
        st = r.get("stats", {})
        if "n" in r:
            ck.note_case(r["name"], r["n"], r["ok"], st.get("syntactic", 0), st.get("lp", 0), st.get("lp_s", 0))
            if len(ck.samples) < 8 and r["n"]: ck.samples.append(dict(case=r["name"], paths=r["paths"], loops_read=r["loops"], obligations=r["n"]))
        if r.get("n") == 0: ck.undecided.append((r["name"], "no obligation generated"))
        if r.get("bad"): failing.append(r)
    return failing


def exp_job(job):
    from . import sumproof as P
    k = job[0]
    if k == "naf": return case_result(P.BuildNaf(IMG["abs"]))
    if k == "mul": return case_result(P.NafMul(IMG["abs"], job[1], job[2]))
    return case_result(P.FieldExp(IMG["f12"], "F12Field::exp", "F12Field<A6>", IMG["f12"].find("F12Field<A6>::exp(")))


IMG = {}


def run_exp(ck):
    from . import sumproof as P
    srcs = [H + "/conc_exp.cpp", repo("misc.cpp"), repo("naf.cpp"), repo("splitparstr.cpp")]
    IMG["abs"] = P.Image("abs", [H + "/abs_curve.cpp", repo("naf.cpp")])
    IMG["f12"] = P.Image("absf", [H + "/abs_f12.cpp"])
    with ThreadPoolExecutor(3) as ex:
        nat = ex.submit(lambda: [compile_cxx("conc_exp", srcs, ["-DNDEBUG"], opt="-O2", libs=["-lgmp", "-pthread"]),
                                 compile_cxx("conc_exp_san", srcs, ["-DNDEBUG", "-fsanitize=address", "-fno-sanitize-recover=all"], opt="-O1", libs=["-lgmp", "-pthread"])])
        exes = nat.result()
    ck.backends |= {"engine on g++ -O0 object code: loop invariants found by probing and proved for every iteration; linear forms and linear integer arithmetic (z3)"}
    failing = collect_cases(ck, pmap(exp_job, [("naf",), ("mul", "point", False), ("mul", "point", True), ("mul", "affine", False), ("f12",)], 150))
    r = "3000" if ck.tier == "quick" else "40000"
    found = bounded(ck, "recoding and scalar multiplication against repeated addition:", "every scalar of up to two bytes (three with 3001 rounds or more), random and patterned longer ones; %s rounds" % r,
                    [[exes[0], str(ck.seed), "3001" if ck.tier == "quick" else r], [exes[1], str(ck.seed), "300"]])
    report(ck, failing, found)
    ck.assumptions += ASSUME_EXP
    return ck.finish("proof")


ASSUME_MSM = ["the group operations obey the contracts proved by C03; they enter as operations of an abstract abelian group, in whose free instance the identities are proved",
              "the calls of a parallel loop cover its range, each index once, and two calls that run at the same time have different thread numbers below the thread count (U01)",
              "operator new[] returns fresh memory of the asked size (assumed contract)",
              "sizes: fewer than 2^31 - 1 points, scalars of 8 to 2^20 bytes, up to 2^16 threads; machine arithmetic is exact (no wrap is assumed away)",
              "sums over the points and over the buckets enter as ghosts defined by their recurrences; that the sum over the windows of 2^(kj) times the sum of digit * point is the sum of scalar * point (exchange of two finite sums, each scalar being the sum of its digits) is not mechanised",
              "loops end: every proved loop has a counter that moves by a constant towards a proved bound"]


def msm_job(job):
    from . import msmproof as M
    im, k = IMG["msm"], job[0]
    if k == "window": return case_result(M.Window(im, job[2], job[1], job[3]))
    if k == "bits": return case_result(M.BitsPerChunk(im))
    return case_result(M.MsmRun(im, job[1], job[2]))


def msm_proofs(ck):
    from . import sumproof as P
    from .build import BuildError
    try: IMG["msm"] = P.Image("msm", [H + "/abs_msm.cpp"], flags=["-fno-access-control"])
    except BuildError as e:
        ck.undecided.append(("proof image", "does not build: %s" % str(e)[-300:]))
        return []
    ck.backends |= {"engine on g++ -O0 object code: loop invariants found by probing and proved for every iteration; linear forms and linear integer arithmetic (z3)"}
    jobs = [("run", k, n) for k in range(16, 1, -1) for n in (None, 1, 0)] + [("window", k, "getBucketIndex", 1) for k in range(2, 17)] + [("bits",)]
    return collect_cases(ck, pmap(msm_job, jobs, 120, deadline=ck.t0 + 330))


ASSUME_BUCKET = ["the group operations obey the contracts proved by C03; they enter as operations of an abstract abelian group, in whose free instance the identities are proved; its zero is the element of all-zero bytes (memset of the totals)",
                 "OpenMP (assumed contract): the ranges of a team's threads partition the iterations, each thread has its own number, and a team has no more threads than omp_set_num_threads allows; iterations of a parallel loop are proved to touch only their own cells, so their order does not matter",
                 "log2 returns a value from 0 to 31 (every one is a case; its value only chooses the window width)",
                 "operator new[] returns fresh memory of the asked size (assumed contract)",
                 "sizes: up to 2^40 points, scalars of 8 to 2^20 bytes, up to 2^16 threads; machine arithmetic is exact (no wrap is assumed away)",
                 "sums over the points and over the buckets enter as ghosts defined by their recurrences; that the sum over the windows of 2^(kj) times the sum of digit * point is the sum of scalar * point (exchange of two finite sums, each scalar being the sum of its digits) is not mechanised",
                 "loops end: every proved loop has a counter that moves by a constant towards a proved bound"]


def bucket_job(jobs):
    from . import bucketproof as B, msmproof as M
    out = []
    for job in jobs:
        omp, what, a = job[0], job[1], job[2:]
        im = IMG["omp%d" % omp]
        try:
            c = dict(init=lambda: B.InitAccs(im, a[0], omp), pack=lambda: B.PackThreads(im, a[0], omp), proc=lambda: B.ProcessChunk(im, a[0], omp, a[1]),
                     reduce=lambda: B.Reduce(im, 16, omp, a[0]), main=lambda: B.Multiexp(im, a[0], omp, a[1], a[2], a[3]),
                     window=lambda: M.Window(im, "getChunk", a[0], 0, NMAX))[what]()
            c.name += ", OpenMP" if omp else ""
            out.append(case_result(c))
        except Exception as e:
            out.append(dict(name=str(job), error=str(e)))
    return out


NMAX = 1 << 40


def bucket_proofs(ck):
    from . import sumproof as P
    from .build import BuildError
    try:
        for omp in (0, 1): IMG["omp%d" % omp] = P.Image("bucket%d" % omp, [H + "/abs_msm.cpp"], flags=["-fno-access-control", "-DABS_BUCKET"] + (["-fopenmp", "-DUSE_OPENMP"] if omp else []))
    except BuildError as e:
        ck.undecided.append(("proof image", "does not build: %s" % str(e)[-300:]))
        return []
    ck.backends |= {"engine on g++ -O0 object code: loop invariants found by probing and proved for every iteration; linear forms and linear integer arithmetic (z3)"}
    jobs = []
    for omp in (1, 0):
        for k in range(16, 1, -1): jobs += [[(omp, "window", k)], [(omp, "proc", k, True), (omp, "proc", k, False)], [(omp, "init", k), (omp, "pack", k)]]
        jobs += [[(omp, "reduce", b)] for b in range(16, 0, -1)]
        for v in range(32): jobs += [[(omp, "main", v, sized, n, zero) for n in (None, 1, 0) for zero in (False, True)] for sized in (False, True)]
    res = []
    for j, r in zip(jobs, pmap(bucket_job, jobs, 120, deadline=ck.t0 + 330)):
        res += r if isinstance(r, list) else [r]
    return collect_cases(ck, res)


def run_msm(ck):
    failing = msm_proofs(ck) if ck.prop == "C06" else bucket_proofs(ck)
    mode = "bucket" if ck.prop == "C05" else "windowed"
    srcs = [H + "/conc_msm.cpp", repo("misc.cpp"), repo("naf.cpp")]
    libs = ["-lgmp", "-pthread"]
    builds = [("plain", []), ("omp", ["-fopenmp", "-DUSE_OPENMP"])] if mode == "bucket" else [("plain", [])] + [("k%d" % k, ["-DMSM_BITS_PER_CHUNK=%d" % k]) for k in ((2, 5, 8, 16) if ck.tier == "quick" else range(2, 17))]
    builds.append(("san", ["-fsanitize=address", "-fno-sanitize-recover=all"]))
    if mode == "bucket": builds[-1][1].extend(["-fopenmp", "-DUSE_OPENMP"])
    with ThreadPoolExecutor(8) as ex:
        exes = list(ex.map(lambda b: (b[0], compile_cxx("conc_msm_" + b[0], srcs, ["-DNDEBUG"] + b[1], opt="-O1" if b[0] == "san" else "-O2", libs=libs)), builds))
    rounds = 600 if ck.tier == "quick" else 20000
    cmds, cs = [], cores()
    for nm, exe in exes:
        if mode == "bucket":
            cmds.append([exe, mode, str(ck.seed), str(60 if nm == "san" else rounds), "1" if nm == "plain" else "9"])
        else:
            for k in sorted({1, 2, 3, len(cs)} if nm in ("plain",) else {min(2, len(cs)), len(cs)}):
                if k > len(cs): continue
                cmds.append(["taskset", "-c", ",".join(str(c) for c in cs[:k]), exe, mode, str(ck.seed), str(60 if nm == "san" else rounds), "1"])
    found = bounded(ck, "multi-exponentiation against the naive sum:", "points up to 5000, scalars of 8 to 64 bytes, %d rounds" % rounds, cmds, 120 if ck.tier == "quick" else 400)
    report(ck, failing, found)
    ck.assumptions += ASSUME_BUCKET if ck.prop == "C05" else ASSUME_MSM
    return ck.finish("proof")
