"""Obligations: generation, discharge, self-check by concrete evaluation, counterexamples."""
import time, random
from .core import *
from .machine import *


class Obl:
    __slots__ = ("name", "status", "why", "case", "model")

    def __init__(self, name, status, why="", case="", model=None):
        self.name, self.status, self.why, self.case, self.model = name, status, why, case, model


def path_equalities(path):
    out = []
    for c in path:
        if c.op == "eq": out.append(c.p)
        elif c.op == "and": out += [x.p for x in c.sub if x.op == "eq"]
    return out


def substitute(p, i, val):
    """Replace atom i by polynomial val."""
    rest, byp = {}, {}
    for m, c in p.d.items():
        e = m.count(i)
        if e == 0: rest[m] = c
        else: byp.setdefault(e, {})[tuple(x for x in m if x != i)] = c
    if not byp: return p
    out, pw = Poly(rest), Poly({(): 1})
    for e in range(1, max(byp) + 1):
        pw = pw * val
        if e in byp: out = out + pw * Poly(byp[e])
    return out


def fixed_value(ctx, path, h, lo, hi):
    """The single value the path conditions leave to a small-range polynomial, if linear arithmetic shows it."""
    l0, h0 = lo, hi
    while lo < hi and ctx.unsat(path, Cond("ge", lo - h, l0 - h0, 0), ints=False): lo += 1
    while lo < hi and ctx.unsat(path, Cond("ge", h - hi, l0 - h0, 0), ints=False): hi -= 1
    return lo if lo == hi else None


def prove_congruent_zero(ctx, path, D, modulus=None, budget=24, known=None):
    """D == 0 modulo the prime under the path conditions."""
    gf = ctx.gf if modulus is None else (lambda p: p.mod(modulus))
    p = gf(D)
    if p.is_zero():
        ctx.stats["syntactic"] += 1
        return True
    # equalities on the path with a unit coefficient
    used = set()
    for e in path_equalities(path):
        for m, c in sorted(e.d.items(), key=lambda t: (len(t[0]), t[0]), reverse=True):
            if len(m) == 1 and c in (1, -1) and m[0] not in used and all(m[0] not in mm or mm == m for mm in e.d):
                val = (e - Poly({m: c})) * (-c)
                p = gf(substitute(p, m[0], val))
                used.add(m[0])
                break
    if p.is_zero(): return True
    # atoms fixed by the path conditions, newest first
    tried = set()
    while budget > 0:
        cand = [i for i in p.atoms() if i not in tried]
        if not cand: break
        i = max(cand)
        tried.add(i)
        a = ctx.atoms[i]
        forms = [(ctx.apoly(a), a.lo, a.hi)] if a.hi - a.lo <= 3 else []
        forms += [f for f in a.facts if f[1] is not None and f[2] is not None and f[2] - f[1] <= 3 and f[0].d.get((i,)) in (1, -1) and f[0].atoms()]
        for c in path:
            if c.p is not None and c.lo is not None and c.hi is not None and c.hi - c.lo <= 3 and c.p.d.get((i,)) in (1, -1):
                forms.append((c.p, c.lo, c.hi))
        for h, lo, hi in forms[:5]:
            if any(i in m and m != (i,) for m in h.d): continue
            budget -= 1
            v = fixed_value(ctx, path, h, lo, hi)
            if v is None: continue
            c = h.d[(i,)]
            if known is not None: known.append(Cond("eq", h - v))
            p = gf(substitute(p, i, (pconst(v) - (h - Poly({(i,): c}))) * c))
            break
        if p.is_zero(): return True
    # the path may pin the difference to zero over the integers
    mod = modulus or ctx.q
    if all(len(m) <= 1 for m in p.d) and len(p.d) <= 12:
        z = Poly({m: (c if c <= mod // 2 else c - mod) for m, c in p.d.items()})
        pk = list(path) + (known or [])
        if ctx.unsat(pk, Cond("ge", z - 1)) and ctx.unsat(pk, Cond("ge", -z - 1)): return True
    # the path may be impossible
    return ctx.unsat(path)


def prove(ctx, path, goal):
    return ctx.implies(path, goal)


def simplify_env(ctx, rng, gens):
    """Concrete values for the input atoms from generator functions {atom id: value}."""
    env = {}
    for a in ctx.atoms:
        if a.kind in ("undef", "fresh"): env[a.id] = rng.randrange(a.lo, a.hi + 1)
    env.update(gens)
    return env
