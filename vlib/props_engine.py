"""C08: the ready-made engine against the published parameters (closed statements: every obligation is about constants)."""
import os, subprocess, json
from . import build
from .props_tower import repo, report, H

P = 21888242871839275222246405745257275088696311157297823662689037894645226208583
R = 21888242871839275222246405745257275088548364400416034343698204186575808495617
G2X = (10857046999023057135944570762232829481370756359578518086990519993285655852781, 11559732032986387107991004021392285783925812861821192530917403151452391805634)
G2Y = (8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531)


class Q:
    """The quadratic field with u^2 = -1, for the expected values."""
    def __init__(s, a, b=0): s.a, s.b = a % P, b % P
    def __add__(s, o): return Q(s.a + o.a, s.b + o.b)
    def __sub__(s, o): return Q(s.a - o.a, s.b - o.b)
    def __mul__(s, o): return Q(s.a * o.a - s.b * o.b, s.a * o.b + s.b * o.a)
    def inv(s):
        n = pow(s.a * s.a + s.b * s.b, -1, P)
        return Q(s.a * n, -s.b * n)
    def __str__(s): return "(%d,%d)" % (s.a, s.b)


def expected():
    xi = Q(9, 1)
    z, o = Q(0), Q(1)
    six = lambda x, y, w: "(%s,%s,%s)" % (x, y, w)
    zero6 = six(z, z, z)
    e = {}

    def put(k, v): e[k] = str(v)
    for pre, f1, fr, f2, f6, f12, g1, g2 in [("", "F1", "Fr", "F2", "F6", "F12", "G1", "G2")] + [(p, "f1", "fr", "f2", "f6", "f12", "g1", "g2") for p in ("engine.", "fresh.")]:
        for n, m in ((f1, P), (fr, R)):
            put(pre + n + ".one", 1); put(pre + n + ".zero", 0); put(pre + n + ".negOne", m - 1)
        n = pre + f2
        put(n + ".u^2", Q(-1)); put(n + ".u*u", Q(-1)); put(n + ".one", o); put(n + ".negOne", Q(-1)); put(n + ".inv", o); put(n + ".xi", Q(5, 7) * xi); put(n + ".conj", Q(5, -7))
        n = pre + f6
        put(n + ".v^2", six(o, z, z)); put(n + ".v^3", six(z, z, xi)); put(n + ".one", six(z, z, o)); put(n + ".negOne", six(z, z, Q(-1))); put(n + ".inv", six(z, z, o))
        put(n + ".tau", six(Q(3, 4), Q(5, 6), Q(1, 2) * xi))
        n = pre + f12
        put(n + ".w^2", "(%s,%s)" % (zero6, six(z, o, z))); put(n + ".sq_w", "(%s,%s)" % (zero6, six(z, o, z)))
        put(n + ".one", "(%s,%s)" % (zero6, six(z, z, o))); put(n + ".negOne", "(%s,%s)" % (zero6, six(z, z, Q(-1)))); put(n + ".inv", "(%s,%s)" % (zero6, six(z, z, o)))
        for nm, k in ((f6, 7), (f12, 13)):
            for i in range(k):
                for t in ("frobenius%d", "frobeniusP2_%d", "frobenius_inplace%d", "frobeniusP2_inplace%d"): put("%s%s.%s" % (pre, nm, t % i), 1)
        for n, x, y, a, b, show in ((g1, Q(1), Q(2), Q(0), Q(3), lambda v: str(v.a)), (g2, Q(*G2X), Q(*G2Y), Q(0), Q(3) * xi.inv(), str)):
            n = pre + n
            for k, v in (("x", x), ("y", y), ("a", a), ("b", b), ("one.x", x), ("one.y", y), ("r_minus_1.x", x), ("r_minus_1.y", Q(0) - y)): put(n + "." + k, show(v))
            for k in ("one_eq", "zero", "zeroAffine", "one_nonzero", "on_curve", "order_r", "ops"): put(n + "." + k, 1)
            l = Q(3) * x * x * (Q(2) * y).inv()
            x3 = l * l - x - x
            put(n + ".two.x", show(x3)); put(n + ".two.y", show(l * (x - x3) - y))
    put("END", 1)
    return e


def engine_exe(kind):
    dq, dr = build.render("bn128q", "Fq"), build.render("bn128r", "Fr")
    out = os.path.join(build.scratch(), "engine_" + kind)
    srcs = [H + "/engine_dump.cpp", repo("alt_bn128.cpp"), repo("splitparstr.cpp"), repo("misc.cpp"), repo("naf.cpp")]
    srcs += [os.path.join(d, n + ".cpp") for d, n in ((dq, "fq"), (dr, "fr"))]
    fl = []
    if kind == "asm":
        fl = ["-DUSE_ASM", "-DARCH_X86_64", "-no-pie"]
        for d, n in ((dq, "fq"), (dr, "fr")):
            build.run(["nasm", "-felf64", n + ".asm", "-o", n + "_asm.o"], cwd=d)
            srcs.append(os.path.join(d, n + "_asm.o"))
    else: srcs += [os.path.join(d, n + s + ".cpp") for d, n in ((dq, "fq"), (dr, "fr")) for s in ("_generic", "_raw_generic")]
    build.run(["g++", "-w", "-std=c++11", "-O1"] + fl + ["-I" + d for d in (dq, dr, os.path.join(build.REPO, "c"))] + srcs + ["-o", out, "-lgmp", "-pthread"])
    return out


def run(ck):
    want = expected()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex: exes = list(ex.map(engine_exe, ("gen", "asm")))
    failing, found = [], None
    for kind, exe in zip(("gen", "asm"), exes):
        r = subprocess.run([exe, str(R), str(P)], capture_output=True, text=True, timeout=200)
        got = dict(l.split("=", 1) for l in r.stdout.splitlines() if "=" in l and not l.startswith("#"))
        got = {}
        for l in r.stdout.splitlines():
            k, _, v = l.partition("=")
            got[k] = v
        for k, v in want.items():
            # keys contain '=' nowhere; values are compared as text
            ok = got.get(k) == v
            fn = ".".join(k.split(".")[:-1]) or "end"
            ck.obl("%s (%s back end)" % (fn, kind), k, ok)
            if not ok and not found:
                found = dict(back_end=kind, what=k, got=got.get(k, "no answer (the program ended with status %d)" % r.returncode), published=v)
        if len(ck.samples) < 4: ck.samples.append(dict(back_end=kind, what="G2.b", value=got.get("G2.b")))
    ck.backends.add("closed obligations: the real engine is evaluated and compared with the published parameters")
    report(ck, failing, found)
    ck.assumptions += ["the base field of the engine (F01, F02, F09) and the tower and curve templates (C01-C04) are checked by their own properties"]
    return ck.finish("proof")
