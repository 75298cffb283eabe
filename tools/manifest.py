#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when the list of checks changes)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED = "contract-based deductive verification of the compiled routines (obligations over all operand values)"
CLOSED = "contract-based deductive verification: closed obligations evaluated on the real code"
SYM = "contract-based deductive verification: the real templates executed over abstract operands, postconditions decided by polynomial identity"
LOOPS = "contract-based deductive verification of the compiled code: loop invariants and postconditions over an abstract group, for every length"
CHECKS = {
 "F01": ("proof", PROVED, "Every obligation of every raw routine of the portable C++ source, on its g++ -O0 object code, for each listed prime; GMP mpn functions by assumed contract."),
 "F02": ("proof", PROVED, "Every obligation of every raw routine of the generated x86-64 assembly, on the assembled bytes, for each listed prime."),
 "F03": ("proof", PROVED, "Every obligation of every exported raw routine of the generated AArch64 assembly, on the assembled bytes, for each listed prime. No AArch64 machine here: a failing input is replayed on the instruction semantics."),
 "F04": ("proof", PROVED, "Every path of every element operation, all values of every combination of representations, the raw routines entered by contract: portable C++ source, on its g++ -O0 object code; for each listed prime (quick: five, thorough: ten). Native runs cross-check and are not counted."),
 "F05": ("proof", PROVED, "Every path of every element operation, all values of every combination of representations, the raw routines entered by contract: generated x86-64 assembly, on the assembled bytes; for each listed prime (quick: five, thorough: ten). Native runs cross-check and are not counted."),
 "F06": ("proof", PROVED, "Every path of every element operation, all values of every combination of representations, the raw routines entered by contract: portable C++ (g++ -O0 object code) and the x86-64 assembly; for each listed prime (quick: five, thorough: ten). Native runs cross-check and are not counted."),
 "F07": ("proof", PROVED, "Every path of every element operation, all values of every combination of representations, the raw routines entered by contract: portable C++ (g++ -O0 object code) and the x86-64 assembly; for each listed prime (quick: five, thorough: ten). Native runs cross-check and are not counted."),
 "F08": ("proof", PROVED, "Every path of every element operation, all values of every combination of representations, the raw routines entered by contract: portable C++ (g++ -O0 object code) and the x86-64 assembly; in the quick tier a sample of the constant amounts of the raw shifts; for each listed prime (quick: five, thorough: ten). Native runs cross-check and are not counted."),
 "F09": ("proof", PROVED, "Every path of every conversion, inverse, division, remainder and power of the tagged functions and of the field class, all operand values, GMP and the C++ library by assumed contract and the raw routines by the contracts of F01 / F02; both back ends, each listed prime."),
 "F10": ("proof", CLOSED, "Closed obligations on the constants in the assembled objects of the three back ends for a list of primes of every shape the generator distinguishes, and the routines that use them proved for all operands on part of them. Other primes are not covered."),
 "C01": ("proof", SYM, "Every path of every operation over an abstract commutative ring with inverse."),
 "C02": ("proof", SYM, "Every path of every operation over an abstract commutative ring with inverse."),
 "C03": ("proof", SYM, "Every path of every operation, for all coordinates, modulo the curve equation."),
 "C04": ("proof", LOOPS, "The recoding, scalar multiplication by extended and affine bases (also in place) and F12Field::exp, on their g++ -O0 object code, for every scalar of 1 to 2^26 bytes, over an abstract abelian group; loop invariants proved for every iteration. RawFr::exp is proved under F09. Native runs cross-check and are not counted."),
 "C05": ("proof", LOOPS, "The bucket multi-exponentiation, method by method (digits, clearing, filling, packing, reducing, the whole), on its g++ -O0 object code with and without OpenMP, every bucket width, for every number of points and threads and every scalar length from 8 to 2^20 bytes, over an abstract abelian group. Native runs cross-check and are not counted."),
 "C06": ("proof", LOOPS, "The Straus multi-exponentiation (the window table, the windows, the doubling chain, initialisation of lengths) on its g++ -O0 object code without OpenMP, window widths 2 to 16, for every number of points below 2^31 - 1 and every scalar length from 8 to 2^20 bytes, over an abstract abelian group. The OpenMP build is the same source under pragmas; it is run natively (bounded, not counted)."),
 "C07": ("proof", "contract-based deductive verification: loop invariants and stage contracts on the compiled transforms over an abstract field; the templates executed over linear forms for the root table", "fft, ifft and the bit reversal on their g++ -O0 object code for every size 2^0..2^30 (bit reversal, each stage's butterflies, exchange and scaling, ranges and order of the stages), any number of workers by U01's contract. The induction from stages to evaluation is a textbook lemma, not mechanised, checked against all coefficient vectors of each listed size. The root table: listed fields and domains. Native runs cross-check and are not counted."),
 "C08": ("proof", CLOSED, "The statement is about one engine: every constant is an obligation."),
 "U01": ("proof", "contract-based deductive verification of the compiled code: loop invariants and postconditions, for every range and number of workers", "divideWork, parallelFor and parallelBlock on their g++ -O0 object code for every range of at most 2^31 - 1 indices and every pool of up to 2^20 threads; the worker threads by assumed contract. The logarithm by evaluation of its complete domain. Native runs cross-check and are not counted."),
 "U02": ("proof", LOOPS.replace("over an abstract group, for every length", "over the characters, for every text"), "removePars and splitParStr on their g++ -O0 object code, for every balanced text of at most 2^31 - 2 characters; std::string, std::vector and std::ostringstream by assumed contract, the recursion by its own contract on a shorter text. Native runs cross-check and are not counted."),
 "B01": ("proof", LOOPS.replace("over an abstract group, for every length", "over the bytes of the file, for every well-formed file"), "The constructors, the opening of existing files and every accessor of the reader on their g++ -O0 object code, for every well-formed file of up to 2^48 bytes and 2^31 - 1 sections; the C++ library, open/fstat/mmap and the throw of an exception by assumed contract. Native runs cross-check and are not counted."),
 "B02": ("proof", LOOPS.replace("loop invariants and postconditions over an abstract group, for every length", "postconditions over the bytes of the header sections, for every well-formed header"), "loadHeader of zkey and wtns on their g++ -O0 object code, for every header with field sizes of up to 2^20 bytes; the reader by the contracts proved under B01, GMP by assumed contract. Native runs cross-check and are not counted."),
}
NA = {
 "T01": "schedules: contracts over sequential code say nothing about interleavings of the pool's condition variables; no separation-logic verifier for C++ is available here",
}
PENDING = "check not built yet"
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        lv, t, n = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3-vt check.py %s --tier quick" % p, thorough_cmd="python3-vt check.py %s --tier thorough" % p,
                                technique=t, level=lv, level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, PENDING)))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
