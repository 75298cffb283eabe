"""C03: point operations of the curve template, over an abstract field: every path, every operand value."""
import os, itertools
from . import build
from .props_tower import compile_cxx, repo, concrete, fold, report, H
from .symrun import World, paths
from .report import pmap

ACASES = ["0", "1", "-1", "a"]


def setup(acase, op, ka, kb, al, rel):
    names = ["x1", "y1", "z1", "x2", "y2", "z2", "d", "a", "b", "gx", "gy", "f1", "f2", "f3", "f4"] + ["junk%d" % i for i in range(8)]
    w = World(names, units=(2, 3))
    v = w.v
    a = w.F(v["a"]) if acase == "a" else w.F(int(acase))
    if acase == "a":
        for p in (v["a"], v["a"] - 1, v["a"] + 1): w.add_nonzero(p)
    w.add_nonzero(v["b"])
    for z in ("z1", "z2"): w.add_nonzero(v[z])
    inputs = {"ca": a, "cb": w.F(v["b"]), "gx": w.F(v["gx"]), "gy": w.F(v["gy"])}

    def place(tag, kind, val, z, free):
        if val is None:
            if kind == "P":
                inputs.update({tag + ".x": w.F(v[free[0]]), tag + ".y": w.F(v[free[1]]), tag + ".zz": w.F(0), tag + ".zzz": w.F(0)})
            else: inputs.update({tag + ".x": w.F(0), tag + ".y": w.F(0)})
            return
        x, y = val
        w.not_both.append((x, y))
        if kind == "P":
            Z = w.F(v[z]); Z2 = w.mul(Z, Z); Z3 = w.mul(Z2, Z)
            inputs.update({tag + ".x": w.mul(x, Z2), tag + ".y": w.mul(y, Z3), tag + ".zz": Z2, tag + ".zzz": Z3})
        else: inputs.update({tag + ".x": x, tag + ".y": y})
    x1, y1 = w.F(v["x1"]), w.F(v["y1"])
    fin = (x1, y1)
    if rel in ("same2", "fin2", "fin2,inf", "inf,fin2"): w.add_nonzero(v["x1"]); fin = (x1, w.F(0))      # a point of order two
    elif rel in ("same", "opp", "fin"): w.add_nonzero(v["y1"])
    if rel == "gen": w.add_nonzero(v["d"])
    A, B = {"inf,inf": (None, None), "inf,fin": (None, fin), "fin,inf": (fin, None), "same": (fin, fin), "same2": (fin, fin),
            "opp": (fin, (x1, w.neg(y1))), "gen": (fin, (w.add(x1, w.F(v["d"])), w.F(v["y2"]))),
            "inf": (None, None), "fin": (fin, None), "fin2": (fin, None)}[rel]
    place("a", ka, A, "z1", ("f1", "f2"))
    place("b", kb, B, "z2", ("f3", "f4"))
    if al in ("ab", "rab"):
        for c in ("x", "y", "zz", "zzz"):
            if "b." + c in inputs: inputs["b." + c] = inputs["a." + c]
    return w, inputs, A, B, a


def double(w, a, p):
    if p is None or w.zero(p[1]): return None
    x, y = p
    # lambda = (3x^2 + a) / (2y)
    n = w.add(w.mul(w.F(3), w.mul(x, x)), a); dd = w.mul(w.F(2), y)
    lam = w.mul(n, (dd[1], dd[0]))
    x3 = w.sub(w.mul(lam, lam), w.mul(w.F(2), x))
    return x3, w.sub(w.mul(lam, w.sub(x, x3)), y)


def add(w, a, p, q, rel):
    if p is None: return q
    if q is None: return p
    if rel in ("same", "same2"): return double(w, a, p)
    if rel == "opp": return None
    D = w.sub(q[0], p[0])
    lam = w.mul(w.sub(q[1], p[1]), (D[1], D[0]))
    x3 = w.sub(w.sub(w.mul(lam, lam), p[0]), q[0])
    return x3, w.sub(w.mul(lam, w.sub(p[0], x3)), p[1])


def run_case(job):
    exe, acase, op, kr, ka, kb, al, rel = job
    name = "Curve::%s(%s) a=%s [%s] %s" % (op, kr + ka + (kb if op in ("add", "sub", "eq") else ""), acase, al, rel)
    n, bad, np = 0, [], 0
    for p in paths([exe, op, kr, ka, kb, al], lambda: setup(acase, op, ka, kb, al, rel)[:2] + (None, None)):
        np += 1
        w = p.w
        if p.crashed: bad.append(("the run completes", "crash")); n += 1; continue
        _, _, A, B, a = setup(acase, op, ka, kb, al, rel)
        # rebuild the operands in this path's ring
        tr = lambda f: None if f is None else tuple((w.R(dict(c[0])), w.R(dict(c[1]))) for c in f)
        A, B, a = tr(A), tr(B), (w.R(dict(a[0])), w.R(dict(a[1])))

        def need(nm, ok):
            nonlocal n
            n += 1
            if not ok: bad.append((nm, "; ".join(p.notes)))

        def cells(tag, kind): return [p.val(tag + "." + c) for c in (("x", "y", "zz", "zzz") if kind == "P" else ("x", "y"))]

        def is_point(tag, kind, want):
            c = cells(tag, kind)
            if None in c: need(tag + " is written", False); return
            if want is None:
                if kind == "P":
                    need("result is infinity (zz = 0)", w.zero(c[2])); need("result is infinity (zzz = 0)", w.zero(c[3]))
                else: need("result is infinity (0, 0)", w.zero(c[0]) and w.zero(c[1]))
                return
            x, y = want
            if kind == "A":
                need("x", w.equal(c[0], x)); need("y", w.equal(c[1], y)); return
            need("zz is not zero", w.is_nonzero(c[2][0]))
            need("zz^3 = zzz^2", w.equal(w.mul(c[2], w.mul(c[2], c[2])), w.mul(c[3], c[3])))
            need("x", w.equal(c[0], w.mul(x, c[2]))); need("y", w.equal(c[1], w.mul(y, c[3])))
        if op == "constants":
            g = (w.F(w.v["gx"]), w.F(w.v["gy"]))
            is_point("one", "P", g); is_point("oneAffine", "A", g); is_point("zero", "P", None); is_point("zeroAffine", "A", None)
            need("a", w.equal(p.val("ca"), p.inputs["ca"])); need("b", w.equal(p.val("cb"), p.inputs["cb"]))
            continue
        if op == "eq": need("eq", p.truth == (rel in ("inf,inf", "same", "same2")))
        elif op == "isZero": need("isZero", p.truth == (A is None))
        else:
            if op == "add": want = add(w, a, A, B, rel)
            elif op == "sub":
                nb = None if B is None else (B[0], w.neg(B[1]))
                want = add(w, a, A, nb, {"same": "opp", "opp": "same"}.get(rel, rel))
            elif op == "dbl": want = double(w, a, A)
            elif op == "neg": want = None if A is None else (A[0], w.neg(A[1]))
            else: want = A
            is_point("r", kr, want)
        if al in ("none", "ab", "rb"):
            for c, g in zip(("x", "y", "zz", "zzz"), cells("a", ka)): need("a.%s unchanged" % c, g is not None and w.equal(g, p.inputs["a." + c]))
        if op in ("add", "sub", "eq") and al in ("none", "ra"):
            for c, g in zip(("x", "y", "zz", "zzz"), cells("b", kb)): need("b.%s unchanged" % c, g is not None and w.equal(g, p.inputs["b." + c]))
    return dict(name=name, op=op, fn="Curve::%s(%s)" % (op, ", ".join([kr, ka] + ([kb] if op in ("add", "sub", "eq") else []))), n=n, ok=n - len(bad), bad=bad[:4], paths=np)


def jobs(exe):
    out = []
    for op in ("add", "sub"):
        for kr, ka, kb in itertools.product("PA", repeat=3):
            als = ["none"]
            if ka == kb: als.append("ab")
            if kr == ka: als.append("ra")
            if kr == kb: als.append("rb")
            if kr == ka == kb: als.append("rab")
            for al in als:
                rels = ["inf,inf", "inf,fin", "fin,inf", "same", "same2", "opp", "gen"] if al in ("none", "ra", "rb") else ["inf,inf", "same", "same2"]
                for rel in rels:
                    for ac in (ACASES if rel in ("same", "same2", "opp") else ["0", "a"]): out.append((exe, ac, op, kr, ka, kb, al, rel))
    for op in ("dbl", "neg", "copy"):
        for kr, ka in itertools.product("PA", repeat=2):
            for al in ["none"] + (["ra"] if kr == ka else []):
                for rel in ("inf", "fin", "fin2"):
                    for ac in (ACASES if op == "dbl" else ["a"]): out.append((exe, ac, op, kr, ka, "P", al, rel))
    for ka, kb in itertools.product("PA", repeat=2):
        for al in ["none"] + (["ab"] if ka == kb else []):
            for rel in (["inf,inf", "inf,fin", "fin,inf", "inf,fin2", "fin2,inf", "same", "same2", "opp", "gen"] if al == "none" else ["inf,inf", "same", "same2"]):
                if rel in ("inf,fin2", "fin2,inf"): continue
                out.append((exe, "a", "eq", "P", ka, kb, al, rel))
    for ka in "PA":
        for rel in ("inf", "fin", "fin2"): out.append((exe, "a", "isZero", "P", ka, "P", "none", rel))
    for ac in ACASES: out.append((exe, ac, "constants", "P", "P", "P", "none", "fin"))
    return out


def run(ck):
    ck.backends.add("C++ templates run over an abstract base field (all paths); polynomial normal forms decide")
    src = [repo("misc.cpp"), repo("naf.cpp")]
    exe = compile_cxx("sym_curve", [H + "/sym_curve.cpp"] + src, flags=["-DNDEBUG"], libs=["-pthread"])
    conc = compile_cxx("conc_curve", [H + "/conc_curve.cpp", repo("splitparstr.cpp")] + src, flags=["-DNDEBUG"], opt="-O1", libs=["-pthread", "-lgmp"])
    failing = fold(ck, pmap(run_case, jobs(exe), 200, chunk=4))
    f, n = concrete([conc, str(ck.seed), "2" if ck.tier == "quick" and not failing else "12"], 400)
    ck.bounded.append(dict(what="all pairs of points of small curves in random representations against the textbook group law (cross-check, not counted as proof)", bound="primes 5..31, all points, several a and b", cases=n))
    report(ck, failing, f)
    ck.assumptions += ["the base field obeys the field axioms, characteristic other than 2 and 3", "operands are on the curve and extended operands satisfy zz^3 = zzz^2 (zzz = 0 where zz = 0)", "b is not zero"]
    return ck.finish("proof")
