"""Paths of template code run over an abstract field (harness/sym_field.hpp), and the algebra that decides
their postconditions: values are fractions of integer polynomials whose denominators are known to be non-zero."""
import subprocess
from sympy import ring, ZZ
from .core import Unsupported


class Infeasible(Exception):
    pass


class World:
    """Polynomial ring, the facts known to be non-zero, and the equations found on the path."""
    def __init__(self, names, nonzero=(), not_both=(), units=(2, 3)):
        r = ring(names, ZZ)
        self.R, gens = r[0], r[1:]
        self.v = {str(n): g for n, g in zip(names, gens)}
        self.nz = []
        self.units = units
        self.subst = {}
        self.pending = []          # polynomials assumed zero that could not be solved for a variable
        self.not_both = []
        for p in nonzero: self.add_nonzero(p)

    def c(self, k): return self.R(k)

    def const_unit(self, k):
        k = abs(int(k))
        if k == 0: return False
        for u in self.units:
            while u > 1 and k % u == 0: k //= u
        return k == 1

    def add_nonzero(self, p):
        if p == 0: raise Infeasible()
        if p.is_ground: return
        for f, _ in p.factor_list()[1]:
            if not any(f == g or f == -g for g in self.nz): self.nz.append(f)

    def is_nonzero(self, p):
        if p == 0: return False
        for f in self.nz:
            while True:
                q, r = p.div(f)
                if r != 0: break
                p = q
        return p.is_ground and self.const_unit(p.LC)

    # ---- path assumptions
    def norm(self, f):
        n, d = f
        for var, (sn, sd) in self.subst.items():
            n, d = self._sub(n, d, var, sn, sd)
        return n, d

    def _sub(self, n, d, var, sn, sd):
        i = self.R.gens.index(self.v[var])
        dn = max([m[i] for m in n], default=0)
        dd = max([m[i] for m in d], default=0)
        if dn == 0 and dd == 0: return n, d
        k = max(dn, dd)

        def go(p):
            out = self.R(0)
            pn, pd = [self.R(1)], [self.R(1)]
            for _ in range(k): pn.append(pn[-1] * sn); pd.append(pd[-1] * sd)
            groups = {}
            for m, cf in p.items():
                mm = m[:i] + (0,) + m[i + 1:]
                groups.setdefault(m[i], {})[mm] = cf
            for e, g in groups.items(): out += self.R(g) * pn[e] * pd[k - e]
            return out
        return go(n), go(d)

    def assume_zero(self, p):
        """Record p = 0; raises Infeasible when that contradicts what is known."""
        p = self.norm((p, self.R(1)))[0]
        if p == 0: return
        if self.is_nonzero(p): raise Infeasible()
        # drop factors known to be non-zero
        fs = [f for f, _ in p.factor_list()[1] if not self.is_nonzero(f)]
        if not fs: raise Infeasible()
        if len(fs) == 1:
            f = fs[0]
            for name, g in self.v.items():
                i = self.R.gens.index(g)
                if max(m[i] for m in f) != 1: continue
                c = self.R({m[:i] + (0,) + m[i + 1:]: k for m, k in f.items() if m[i] == 1})
                rest = self.R({m: k for m, k in f.items() if m[i] == 0})
                if self.is_nonzero(c) or (c.is_ground and self.const_unit(c.LC)):
                    new = (-rest, c)
                    self.subst = {k: self._sub(*v, name, *new) for k, v in self.subst.items()}
                    self.subst[name] = new
                    break
            else: self.pending.append(f)
        else:
            q = self.R(1)
            for f in fs: q *= f
            self.pending.append(q)
        self.recheck()

    def recheck(self):
        old, self.nz = self.nz, []
        for f in old: self.add_nonzero(self.norm((f, self.R(1)))[0])
        for a, b in self.not_both:
            if self.zero(a) and self.zero(b): raise Infeasible()

    def zero(self, f):
        n = self.norm(f)[0]
        if n == 0: return True
        if self.pending: return n.rem(self.pending) == 0 or self._member(n)
        return False

    def _member(self, n):
        from sympy import groebner
        G = groebner([p.as_expr() for p in self.pending], *[g.as_expr() for g in self.R.gens], order="grevlex")
        return G.contains(n.as_expr())

    def equal(self, a, b):
        return self.zero((a[0] * b[1] - b[0] * a[1], a[1] * b[1]))

    # ---- fractions
    def F(self, n, d=None): return (n if not isinstance(n, int) else self.R(n), self.R(1) if d is None else d)
    def add(self, a, b): return (a[0] + b[0], a[1]) if a[1] == b[1] else (a[0] * b[1] + b[0] * a[1], a[1] * b[1])
    def sub(self, a, b): return (a[0] - b[0], a[1]) if a[1] == b[1] else (a[0] * b[1] - b[0] * a[1], a[1] * b[1])
    def mul(self, a, b): return (a[0] * b[0], a[1] * b[1])
    def neg(self, a): return (-a[0], a[1])


class Path:
    """One run of the harness under a list of decisions."""
    def __init__(self, cmd, world, inputs, decisions, consts=None, special=None, timeout=20):
        self.w, self.inputs, self.decisions, self.taken, self.alts = world, inputs, list(decisions), [], []
        self.nodes, self.out, self.truth, self.trace = {}, {}, None, []
        self.special = special or {}
        self.consts = {} if consts is None else consts
        self.junk = 0
        self.notes = []
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        done = False
        try:
            n = 0
            for line in p.stdout:
                n += 1
                if n > 60000: raise Unsupported("the run does not end")
                t = line.split()
                if t[0] == "o": self.nodes[int(t[1])] = self.op(t[2], int(t[3]), int(t[4]))
                elif t[0] == "s": self.nodes[int(t[1])] = self.const(t[3])
                elif t[0] == "i":
                    if t[2] not in inputs: raise Unsupported("input %s" % t[2])
                    self.nodes[int(t[1])] = inputs[t[2]]
                elif t[0] == "q":
                    a = self.get(int(t[2]))
                    if t[1] == "eq": a = self.w.sub(a, self.get(int(t[3])))
                    d = self.decide(a)
                    p.stdin.write("1\n" if d else "0\n"); p.stdin.flush()
                elif t[0] == "r": self.out[t[1]] = int(t[2])
                elif t[0] == "t": self.truth = t[1] == "1"
                elif t[0] == "end": done = True
        finally:
            p.kill()
            for f in (p.stdin, p.stdout, p.stderr):
                try: f.close()
                except Exception: pass
            p.wait()
        self.crashed = not done

    def get(self, i):
        if i == 0:
            self.notes.append("an uninitialised value is used")
            return self.fresh()
        return self.w.norm(self.nodes[i])

    def fresh(self):
        k = "junk%d" % self.junk
        self.junk += 1
        if k not in self.w.v: raise Unsupported("too many unspecified values")
        return self.w.F(self.w.v[k])

    def const(self, s):
        if s in self.consts: return self.consts[s]
        try: k = int(s)
        except ValueError: raise Unsupported("constant text %r" % s)
        return self.w.F(k)

    def op(self, op, a, b):
        w = self.w
        if op == "zero": return w.F(0)
        if op == "one": return w.F(1)
        if op == "uninit": return self.get(0)
        x = self.get(a)
        if op in ("add", "sub", "mul"): return getattr(w, op)(x, self.get(b))
        if op == "neg": return w.neg(x)
        if op == "inv":
            if w.is_nonzero(x[0]): return (x[1], x[0])
            self.notes.append("inverse of a value not known to be non-zero")
            return self.fresh()
        if op in self.special: return self.special[op](w, x)
        raise Unsupported("operation %s" % op)

    def decide(self, f):
        w = self.w
        if w.zero(f): return True
        if w.is_nonzero(f[0]): return False
        k = len(self.taken)
        d = self.decisions[k] if k < len(self.decisions) else False
        if k >= len(self.decisions): self.alts.append(self.taken + [True])
        self.taken.append(d)
        if d: w.assume_zero(f[0])
        else: w.add_nonzero(f[0])
        return d

    def val(self, name):
        i = self.out.get(name, 0)
        if i == 0: return None
        return self.w.norm(self.nodes[i])


def paths(cmd, make, limit=200):
    """All feasible paths; make() -> (World, inputs, consts, special)."""
    todo, out, n = [[]], [], 0
    while todo:
        n += 1
        if n > limit: raise Unsupported("too many paths")
        w, inputs, consts, special = make()
        dec = todo.pop()
        try: p = Path(cmd, w, inputs, dec, consts, special)
        except Infeasible: continue
        out.append(p)
        todo += p.alts
    return out
