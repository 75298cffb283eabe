"""Bookkeeping of one check: obligations, bounded searches, violations, evidence."""
import os, sys, json, time, re, signal, traceback, multiprocessing as mp, multiprocessing.connection
from . import build

VERIF = build.VERIF
START, QUICK = time.time(), True


def ends(deadline=None, share=540):
    """When to stop starting things: a quick check ends well within 900 s."""
    return min(deadline or 1e18, START + share) if QUICK else deadline


class TimeUp(Exception):
    pass


def _alarm(*a):
    raise TimeUp()


def guarded(args):
    """Run fn(x) in a worker with a time limit; never raises."""
    fn, x, limit, deadline = args
    if deadline and time.time() > deadline - 1: return dict(name=str(x), undecided=["not started: time budget of the check"], t=0)
    if deadline: limit = max(1, min(limit, int(deadline - time.time()) + 30))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t = time.time()
    try:
        r = fn(x)
    except TimeUp:
        r = dict(name=str(x), undecided=["time limit of %d s" % limit])
    except MemoryError:
        r = dict(name=str(x), undecided=["memory"])
    except Exception as e:
        from .core import Unsupported
        if "TimeUp" in str(e): r = dict(name=str(x), undecided=["time limit of %d s" % limit])
        elif isinstance(e, Unsupported): r = dict(name=str(x), undecided=["outside the supported subset: %s" % e])
        else: r = dict(name=str(x), error=traceback.format_exc(limit=12))
    finally:
        signal.alarm(0)
    if isinstance(r, dict): r.setdefault("t", time.time() - t)
    return r


def pmap(fn, jobs, limit=200, procs=None, chunk=1, deadline=None, share=540):
    """Ordered parallel map over jobs (forked workers)."""
    if not jobs: return []
    deadline = ends(deadline, share)
    procs = min(procs or min(8, os.cpu_count() or 1), len(jobs))
    ctx = mp.get_context("fork")
    out, todo, live = [None] * len(jobs), list(range(len(jobs)))[::-1], {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(b, fn, jobs, limit, deadline, [c for c in live]), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, None]
        give(a)

    def give(c):
        i = todo.pop() if todo else None
        live[c][1:] = [i, time.time() + hard() if i is not None else None]
        c.send(i)

    def hard():
        if not deadline: return limit + 20
        return max(1, min(limit, int(deadline - time.time()) + 30)) + 20

    def lost(c, why):
        p, i, _ = live.pop(c)
        p.kill(); p.join(); c.close()
        out[i] = dict(name=str(jobs[i]), undecided=[why], t=limit)
        if todo: start()
    for _ in range(procs): start()
    while any(v[1] is not None for v in live.values()):
        for c in mp.connection.wait([c for c, v in live.items() if v[1] is not None], 1):
            try: r = c.recv()
            except (EOFError, OSError):
                lost(c, "the worker ended")
                continue
            out[live[c][1]] = r
            give(c)
        for c in [c for c, v in live.items() if v[1] is not None and time.time() > v[2]]: lost(c, "time limit of %d s" % limit)
    for c, v in live.items():
        c.close()
        v[0].join(2)
        if v[0].is_alive(): v[0].kill()
    return out


def _serve(conn, fn, jobs, limit, deadline, others):
    for c in others: c.close()
    while True:
        try: i = conn.recv()
        except EOFError: break
        if i is None: break
        r = guarded((fn, jobs[i], limit, deadline))
        try: conn.send(r)
        except Exception as e: conn.send(dict(name=str(jobs[i]), error="result cannot be sent: %s" % e))
    conn.close()
    os._exit(0)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        global QUICK
        QUICK = tier == "quick"
        self.t0 = time.time()
        self.obligations = self.discharged = 0
        self.syntactic = self.smt = 0
        self.solver_s = 0.0
        self.functions = {}
        self.failed = []          # dicts
        self.undecided = []       # (case, reason)
        self.violations = []      # (title, replay dict, found)
        self.bounded = []         # dict(what, bound, cases)
        self.samples = []
        self.assumptions = []
        self.errors = []
        self.notes = []
        self.backends = set()
        self.reach = 0

    def note_case(self, function, n, ok, syntactic=0, smt=0, solver_s=0.0):
        self.obligations += n
        self.discharged += ok
        self.syntactic += syntactic
        self.smt += smt
        self.solver_s += solver_s
        f = self.functions.setdefault(function, [0, 0])
        f[0] += n; f[1] += ok

    def obl(self, function, name, ok, why="", sample=None):
        """One obligation decided outside the term engine."""
        self.note_case(function, 1, 1 if ok else 0)
        if not ok: self.failed.append(dict(case=function, obligation=name, why=why))
        return ok

    def violation(self, title, replay, found):
        self.violations.append((title, replay, found))

    def error(self, msg):
        self.errors.append(msg)

    def finish(self, level="proof", explanation=None):
        prop = self.prop
        rdir = os.path.join(VERIF, "replay")
        # one line per distinct violation, at most a handful
        shown = 0
        self.violations.sort(key=lambda v: not v[2])
        for i, (title, rep, found) in enumerate(self.violations):
            if shown >= 3: break
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d.json" % (prop, i))
            rep = dict(rep, property=prop, title=title, found_input=found)
            with open(path, "w") as f: json.dump(rep, f, indent=1, default=str)
            print("%s" % title)
            print("VIOLATION property=%s replay=%s%s" % (prop, os.path.relpath(path, VERIF), "" if found else " no-failing-input-found"))
            shown += 1
        cov = dict(
            obligations=self.obligations, discharged=self.discharged,
            checker_cmd="python3-vt /verif/check.py %s --tier %s" % (prop, self.tier),
            trusted_base=TRUSTED,
            functions_under_contract=len(self.functions),
            functions={k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(self.functions.items())[:400]},
            back_ends=sorted(self.backends), discharged_by_normalisation=self.syntactic, linear_arithmetic_queries=self.smt,
            solver_seconds=round(self.solver_s, 2), self_check_evaluations=self.reach,
            undecided=[list(u) for u in self.undecided[:60]], undecided_count=len(self.undecided),
            bounded_checks=self.bounded, samples=self.samples[:12])
        if self.notes: cov["notes"] = self.notes
        if explanation: cov["explanation"] = explanation
        if level == "exploration":
            cov["evaluations"] = sum(b.get("cases", 0) for b in self.bounded)
            cov["distinct_nontrivial"] = sum(b.get("distinct", b.get("cases", 0)) for b in self.bounded)
            cov["rule"] = "cases are enumerated or drawn from the seed as each entry of bounded_checks says; every case runs the real code and compares its complete result with the specification"
            if not self.samples: cov["samples"] = [dict(case=b["what"], bound=b["bound"], cases=b["cases"]) for b in self.bounded[:6]]
        ev = dict(property=prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        for l in known_findings(prop): print(l)
        for e in self.errors[:5]: print("ERROR:", e)
        print("%s: %d of %d obligations discharged over %d functions, %d undecided, %d bounded cases, %d violations, %.1f s"
              % (prop, self.discharged, self.obligations, len(self.functions), len(self.undecided), sum(b.get("cases", 0) for b in self.bounded),
                 len(self.violations), time.time() - self.t0))
        for u in self.undecided[:5]: print("  undecided:", *[str(x)[:160] for x in u])
        if self.violations: return 1
        if self.errors: return 2
        return 0


TRUSTED = ["the term engine of /verif/vlib (checked on every run by concrete evaluation of its own terms and paths)",
           "z3 (linear arithmetic only)", "objdump / llvm-objdump disassembly and the instruction semantics in vlib/x86.py, vlib/arm.py",
           "g++ -O0 for the C++ back end: the object code it emits is what is verified", "GMP mpn contracts in vlib/mpn.py (assumed)"]


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop): out.append("KNOWN-FINDING: " + l[len("known: "):])
    return out
