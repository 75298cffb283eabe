"""U01, U02."""
from .props_tower import compile_cxx, concrete, repo, report, H
from .props_sum import bounded, case_result, collect_cases, cores
from .report import pmap

IMG = {}
ASSUME_WORK = ["a task given to a worker (std::function assignment under its lock, notify) runs once, at some time before wait() of that worker returns (assumed contract of the worker thread; schedules are T01); it is executed on a copy of its closure with the caller's variables unreadable, so that the time does not matter",
               "std::vector<int>: the filling and copying constructors and the destructor by contract; element access, size and moves are the library's code",
               "pools of up to 2^20 threads; ranges of at most 2^31 - 1 indices",
               "the logarithm is not proved symbolically: its complete domain, every 32-bit word, is evaluated natively",
               "loops end: every proved loop has a counter that moves by a constant towards a proved bound"]


def work_job(w):
    from . import workproof as W
    im = IMG["work"]
    return case_result(dict(divide=lambda: W.Divide(im), f=lambda: W.ParallelFor(im, False), named=lambda: W.ParallelFor(im, True), block=lambda: W.ParallelBlock(im))[w]())


def work_proofs(ck):
    from . import sumproof as P
    from .build import BuildError
    try: IMG["work"] = P.Image("work", [H + "/abs_work.cpp", repo("misc.cpp")], flags=["-fno-access-control"])
    except BuildError as e:
        ck.undecided.append(("proof image", "does not build: %s" % str(e)[-300:]))
        return []
    ck.backends |= {"engine on g++ -O0 object code: loop invariants found by probing and proved for every iteration; linear integer arithmetic (z3)"}
    return collect_cases(ck, pmap(work_job, ["divide", "f", "named", "block"], 120, deadline=ck.t0 + 300))


def run(ck):
    return run_work(ck) if ck.prop == "U01" else run_split(ck)


def run_work(ck):
    quick = ck.tier == "quick"
    failing = work_proofs(ck)
    exe = compile_cxx("conc_work", [H + "/conc_work.cpp", repo("misc.cpp")], opt="-O2", libs=["-pthread"])
    cmds = [[exe, str(ck.seed), "40" if quick else "200", "17" if quick else "48"]]
    cs = cores()
    for k in (1, 3): cmds.append(["taskset", "-c", ",".join(str(c) for c in cs[:k]), exe, str(ck.seed), "20", "5"]) if not quick else None
    found = bounded(ck, "partitions, pools of 1 to 17 workers (thorough: 48), and the logarithm of every 32-bit word:", "up to 900 elements by 200 workers, edges and random larger ranges; the logarithm is exhaustive", cmds)
    report(ck, failing, found)
    ck.assumptions += ASSUME_WORK
    return ck.finish("proof")


ASSUME_SPLIT = ["std::string and std::vector<std::string>: length, element access, erase, appending a character, clear, copies and comparison, push_back, size and the first element by contract; isspace is that of the C locale",
                "texts of at most 2^31 - 2 characters",
                "the recursive call of splitParStr by its own contract: it is made on a text that differs from this one by removed characters only, so on a shorter one",
                "removing parentheses twice removes no more than once: removePars leaves a text that no pair encloses (proved)"]


def split_job(k):
    from . import splitproof as B
    return case_result(B.case(IMG["split"], k))


def split_proofs(ck):
    from . import sumproof as P
    from .build import BuildError
    try: IMG["split"] = P.Image("split", [H + "/abs_split.cpp", repo("splitparstr.cpp")])
    except BuildError as e:
        ck.undecided.append(("proof image", "does not build: %s" % str(e)[-300:]))
        return []
    ck.backends |= {"engine on g++ -O0 object code: loop invariants found by probing and proved for every iteration; linear integer arithmetic (z3)"}
    return collect_cases(ck, pmap(split_job, ["remove", "split"], 200, deadline=ck.t0 + 300))


def run_split(ck):
    quick = ck.tier == "quick"
    failing = split_proofs(ck)
    exe = compile_cxx("conc_split", [H + "/conc_split.cpp", repo("splitparstr.cpp")], opt="-O2")
    san = compile_cxx("conc_split_san", [H + "/conc_split.cpp", repo("splitparstr.cpp")], opt="-O1", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
    cmds = [[exe, "(),a", "13" if quick else "16"], [exe, "(),ab ", "9" if quick else "11"], [exe, "(), \t1-\\", "7" if quick else "9"], [exe, "rand", str(ck.seed), "300000" if quick else "10000000"],
            [san, "(),a", "9"], [san, "rand", str(ck.seed), "10000"]]
    found = bounded(ck, "balanced texts:", "every balanced text over the alphabet up to the length, and random nested ones", cmds, 600)
    report(ck, failing, found)
    ck.assumptions += ASSUME_SPLIT
    return ck.finish("proof")
