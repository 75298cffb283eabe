"""B01, B02."""
import os
from . import build
from .props_tower import compile_cxx, concrete, repo, report, H
from .props_sum import bounded, case_result, collect_cases
from .report import pmap

IMG = {}
ASSUME = ["ThreadUtils::parcpy (not part of the repository) copies len bytes",
          "malloc succeeds; open, fstat, mmap (which succeeds on an open file), munmap and close by contract; a file does not change while it is read",
          "std::map, std::vector and std::string: find, [], at, count, insert of an empty list, push_back, emplace_back, assignment, copies and comparison by contract; iterators, size and element access are the library's code",
          "a throw ends a call (the stack is not unwound in the proof); what is thrown is not examined",
          "a table lists at most 2^31 - 1 sections, a file has at most 2^48 bytes, field sizes are at most 2^20 bytes"]


def job(k):
    from . import binproof as B
    return case_result(B.case(IMG["bin"], k))


def proofs(ck):
    from . import sumproof as P
    from .binproof import JOBS
    from .build import BuildError
    try: IMG["bin"] = P.Image("bin", [H + "/abs_bin.cpp"] + [repo(f + ".cpp") for f in ("zkey_utils", "wtns_utils", "binfile_utils")], flags=["-fno-access-control", "-include", "stdexcept", "-fopenmp", "-I" + H + "/binstub"])
    except BuildError as e:
        ck.undecided.append(("proof image", "does not build: %s" % str(e)[-300:]))
        return []
    ck.backends |= {"engine on g++ -O0 object code: loop invariants found by probing and proved for every iteration; linear integer arithmetic (z3)"}
    return collect_cases(ck, pmap(job, JOBS[ck.prop], 120, deadline=ck.t0 + 300))


def exe(name, flags, opt):
    objs = []
    for f in ("binfile_utils", "zkey_utils", "wtns_utils"):
        o = os.path.join(build.scratch(), "%s_%s.o" % (name, f))
        build.run(["g++", "-w", "-std=c++11", opt, "-fopenmp"] + flags + ["-include", H + "/binstub/mmap_shim.h", "-I" + H + "/binstub", "-I" + os.path.join(build.REPO, "c"), "-c", repo(f + ".cpp"), "-o", o])
        objs.append(o)
    return compile_cxx(name, [H + "/conc_bin.cpp"] + objs, flags, inc=[H + "/binstub"], opt=opt, libs=["-lgmp", "-fopenmp"])


def run(ck):
    quick = ck.tier == "quick"
    failing = proofs(ck)
    plain = exe("conc_bin", [], "-O1")
    san = exe("conc_bin_san", ["-fsanitize=address", "-fno-sanitize-recover=all"], "-O1")
    d = os.path.join(build.scratch(), "files")
    os.makedirs(d, exist_ok=True)
    n = 30000 if quick else 600000
    if ck.prop == "B01": cmds = [[plain, d, "files", str(ck.seed), str(n)], [plain, d, "big", str(ck.seed), "1"], [san, d, "files", str(ck.seed), "3000"]]
    else: cmds = [[plain, d, "headers", str(ck.seed), str(n)], [san, d, "headers", str(ck.seed), "3000"]]
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
    found = bounded(ck, "files, images and read histories against a model:" if ck.prop == "B01" else "headers written field by field and loaded:", "%d random files; up to 60 sections, one section above 4 GiB" % n, cmds)
    report(ck, failing, found)
    ck.assumptions += ASSUME
    return ck.finish("proof")
