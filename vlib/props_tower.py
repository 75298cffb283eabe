"""C01, C02: the extension fields, run over an abstract field below them (every path, all operand values)."""
import os, json, subprocess, time
from . import build
from .core import Unsupported
from .symrun import World, paths
from .report import pmap

H = os.path.join(build.VERIF, "harness")


def compile_cxx(name, srcs, flags=(), inc=(), libs=(), opt="-O0", std="-std=c++11", timeout=300):
    out = os.path.join(build.scratch(), name)
    build.run(["g++", "-w", std, opt] + list(flags) + ["-I" + i for i in inc] + ["-I" + os.path.join(build.REPO, "c"), "-I" + H] + list(srcs) + ["-o", out] + list(libs), timeout=timeout)
    return out


def repo(f): return os.path.join(build.REPO, "c", f)


OPS = {2: ["add", "sub", "mul", "div", "neg", "copy", "square", "inv", "mulScalar", "conjugate", "dbl", "mulXi", "isZero", "isOne", "eq", "constants"],
       6: ["add", "sub", "mul", "div", "neg", "copy", "square", "inv", "mulScalar", "mulGFP", "mulTau", "dbl", "isZero", "isOne", "eq", "constants"],
       12: ["add", "sub", "mul", "div", "neg", "copy", "square", "inv", "mulScalar", "conjugate", "isZero", "isOne", "eq", "constants"]}
BINARY = {"add", "sub", "mul", "div"}
PRED = {"isZero", "isOne", "eq"}
COMP = {2: ["a", "b"], 6: ["z", "y", "x"], 12: ["y", "x"]}        # by increasing power of the adjoined root


def aliases(op):
    if op in BINARY: return ["none", "ab", "ra", "rb", "rab"]
    if op in PRED or op == "constants": return ["none"] + (["ab"] if op == "eq" else [])
    return ["none", "ra"]


def multiply(w, lv, x, y, k):
    """Product in the quotient ring; k is the constant the top power reduces to."""
    n = len(x)
    out = [w.F(0)] * (2 * n - 1)
    for i in range(n):
        for j in range(n): out[i + j] = w.add(out[i + j], w.mul(x[i], y[j]))
    for i in range(n, 2 * n - 1): out[i - n] = w.add(out[i - n], w.mul(k, out[i]))
    return out[:n]


def world(lv, nr):
    names = ["a%d" % i for i in range(3)] + ["b%d" % i for i in range(3)] + ["s", "g", "k", "kb"] + ["junk%d" % i for i in range(8)] + ["t%d" % i for i in range(8)]
    names += [n + "_bar" for n in ("a0", "a1", "a2")]
    w = World(names, units=(2, 3))
    v = w.v
    k = w.F(-1) if lv == 2 and nr == "neg1" else w.F(v["k"])
    inputs = {"s": w.F(v["s"]), "g": w.F(v["g"]), "nr": k}
    for i, c in enumerate(COMP[lv]):
        inputs["a." + c] = w.F(v["a%d" % i]); inputs["b." + c] = w.F(v["b%d" % i])
    if lv == 2 and nr != "neg1":
        w.add_nonzero(v["k"]); w.add_nonzero(v["k"] - 1); w.add_nonzero(v["k"] + 1)
    consts = Texts(w)
    special = {"mulXi": lambda w, x: w.mul(w.F(v["k"]), x), "mulTau": lambda w, x: w.mul(w.F(v["k"]), x)}
    return w, inputs, consts, special, k


class Texts(dict):
    """Constants given as text that the property does not depend on: one opaque value per text."""
    def __init__(self, w): self.w, self.n = w, 0

    def __contains__(self, s):
        try: int(s); return False
        except ValueError: return True

    def __getitem__(self, s):
        if s not in self.keys():
            if self.n >= 8: raise Unsupported("too many text constants")
            super().__setitem__(s, self.w.F(self.w.v["t%d" % self.n])); self.n += 1
        return super().__getitem__(s)


def norm_poly(w, lv, x, k):
    """The norm of an element down to the field below, whose being non-zero makes the element invertible."""
    n = lambda f: f[0]
    if lv == 2 or lv == 12:
        return n(w.sub(w.mul(x[0], x[0]), w.mul(k, w.mul(x[1], x[1]))))
    z, y, X = [n(c) for c in x]
    K = n(k)
    return z**3 + K * y**3 + K * K * X**3 - 3 * K * X * y * z


def run_case(job):
    exe, lv, nr, op, al = job
    name = "F%d%s %s[%s]" % (lv, "(u^2=-1)" if nr == "neg1" else "" if lv > 2 else "(u^2=nr)", op, al)

    def make():
        w, inputs, consts, special, k = world(lv, nr)
        src = "b" if op == "div" and al not in ("ab", "rab") else "a"
        if op in ("inv", "div"): w.add_nonzero(norm_poly(w, lv, [inputs["%s.%s" % (src, c)] for c in COMP[lv]], k))
        return w, inputs, consts, special
    obls, bad, und, np = 0, [], [], 0
    for p in paths([exe, str(lv), nr, op, al], make):
        np += 1
        w = p.w
        if p.crashed: bad.append(("the run completes", "crash")); obls += 1; continue
        C = COMP[lv]
        k = w.F(-1) if lv == 2 and nr == "neg1" else w.F(w.v["k"])
        A = [p.inputs["a." + c] for c in C]
        B = [p.inputs["b." + c] for c in C] if al not in ("ab", "rab") else A

        def need(nm, ok, why=""):
            nonlocal obls
            obls += 1
            if not ok: bad.append((nm, why or "; ".join(p.notes)))

        def vec(tag): return [p.val(tag + "." + c) for c in C]

        def same(nm, got, want):
            for i, c in enumerate(C):
                need("%s.%s" % (nm, c), got[i] is not None and w.equal(got[i], want[i]))
        one = [w.F(1)] + [w.F(0)] * (len(C) - 1)
        R = vec("r")
        if op in PRED:
            zeros = [w.sub(a, b) for a, b in zip(A, {"isZero": [w.F(0)] * len(C), "isOne": one, "eq": B}[op])]
            allz = all(w.zero(w.norm(z)) for z in zeros)
            nonz = any(w.is_nonzero(w.norm(z)[0]) for z in zeros)
            need("%s answers true exactly when it holds" % op, (p.truth and allz) or (p.truth is False and nonz))
        elif op == "constants":
            same("zero", vec("zero"), [w.F(0)] * len(C)); same("one", vec("one"), one); same("negOne", vec("negOne"), [w.neg(c) for c in one])
        elif op in ("inv", "div"):
            src = B if op == "div" else A
            want = one if op == "inv" else A
            if None in R: need("result", False, "not written")
            else: same("r times the operand", multiply(w, lv, R, src, k), want)
        else:
            s, g = p.inputs["s"], p.inputs["g"]
            if op == "add": want = [w.add(a, b) for a, b in zip(A, B)]
            elif op == "sub": want = [w.sub(a, b) for a, b in zip(A, B)]
            elif op == "dbl": want = [w.add(a, a) for a in A]
            elif op == "neg": want = [w.neg(a) for a in A]
            elif op == "copy": want = A
            elif op == "mul": want = multiply(w, lv, A, B, k)
            elif op == "square": want = multiply(w, lv, A, A, k)
            elif op == "mulScalar": want = [w.mul(a, s) for a in A]
            elif op == "mulGFP": want = [w.mul(a, g) for a in A]
            elif op == "conjugate": want = [A[0], w.neg(A[1])]
            elif op == "mulXi": want = multiply(w, lv, A, [w.F(9), w.F(1)], k)
            elif op == "mulTau": want = multiply(w, lv, A, [w.F(0), w.F(1), w.F(0)], k)
            same("r", R, want)
        # frame
        if al in ("none", "ab", "rb"): same("a unchanged", vec("a"), A)
        if al in ("none", "ra"): same("b unchanged", vec("b"), [p.inputs["b." + c] for c in C])
        if op == "mulScalar": need("s unchanged", w.equal(p.val("s"), p.inputs["s"]))
    return dict(name=name, op=op, fn="F%dField::%s" % (lv, op), n=obls, ok=obls - len(bad), bad=bad[:4], paths=np)


def concrete(cmd, timeout=120):
    """Run a concrete search; -> (failure dict or None, cases)."""
    # idle threads of a team sleep: other checks may be running
    env = dict(os.environ, OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0")
    try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return dict(observed="no answer within %d s" % timeout, cmd=cmd, timeout=True), 0
    fail, n = None, 0
    for l in r.stdout.splitlines():
        if l.startswith("FAIL "):
            try: fail = fail or json.loads(l[5:])
            except ValueError: fail = fail or dict(observed=l[5:])
        elif l.startswith("AT "): last = l[3:]
        elif l.startswith("COUNT "): n = int(l.split()[1])
    if r.returncode and not fail:
        at = [l[3:] for l in r.stdout.splitlines() if l.startswith("AT ")]
        fail = dict(observed="the run ended with status %d" % r.returncode, at=at[-1:] , stderr=r.stderr[-600:])
    if fail: fail["cmd"] = " ".join(os.path.basename(c) for c in cmd)
    return fail, n


def fold(ck, results):
    """Collect symbolic results; -> list of failing results."""
    failing = []
    for r in results:
        if "error" in r: ck.undecided.append((r["name"], r["error"].strip().split("\n")[-1])); continue
        if "undecided" in r: ck.undecided.append((r["name"], r["undecided"][0])); continue
        ck.note_case(r["fn"], r["n"], r["ok"], syntactic=r["ok"])
        if r["n"] == 0 or r["paths"] == 0: ck.undecided.append((r["name"], "no path"))
        if len(ck.samples) < 6 and not r["bad"]: ck.samples.append(dict(case=r["name"], paths=r["paths"], obligations=r["n"]))
        if r["bad"]: failing.append(r)
    return failing


def report(ck, failing, found):
    """failing: symbolic failures; found: concrete failure or None."""
    if found:
        ck.violation("%s" % json.dumps(found)[:400], dict(found, failed_obligations=[(r["name"], r["bad"]) for r in failing[:10]]), True)
    elif failing:
        r = failing[0]
        ck.violation("%s: obligation '%s' is not discharged" % (r["name"], r["bad"][0][0]),
                     dict(failed_obligations=[(x["name"], x["bad"]) for x in failing[:20]], verifier_output="the polynomial identity does not hold on the path"), False)


def run(ck):
    levels = [2] if ck.prop == "C01" else [6, 12]
    ck.backends.add("C++ templates run over an abstract base field (all paths); polynomial normal forms decide")
    exe = compile_cxx("sym_tower", [H + "/sym_tower.cpp", repo("splitparstr.cpp")])
    conc = compile_cxx("conc_tower", [H + "/conc_tower.cpp", repo("splitparstr.cpp")], opt="-O1", libs=["-lgmp"], flags=["-fsanitize=undefined", "-fno-sanitize-recover=undefined"])
    jobs = [(exe, lv, nr, op, al) for lv in levels for nr in (["neg1", "gen"] if lv == 2 else ["gen"]) for op in OPS[lv] for al in aliases(op)
            if not (op == "mulXi" and nr == "gen")]
    failing = fold(ck, pmap(run_case, jobs, 120))
    rounds = 3000 if ck.tier == "quick" else 60000
    found = None
    for lv in levels:
        f, n = concrete([conc, str(lv), str(ck.seed), str(rounds if not failing else 20000)], 300)
        ck.bounded.append(dict(what="concrete runs of the degree-%d extension over seven prime fields, cross-check and text conversion (not counted as proof)" % lv, bound="%d rounds" % rounds, cases=n))
        found = found or f
    report(ck, failing, found)
    ck.assumptions += ["the field below obeys the commutative ring axioms and its inverse is the inverse of every invertible element (its own contracts: C01 for the towers, F01-F03 and F09 for the base)",
                       "2 and 3 are invertible in the base field", "an operand of inverse or division has a non-zero norm"]
    return ck.finish("proof")
