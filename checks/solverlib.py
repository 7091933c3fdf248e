"""Solvers under simulation: generated optimisation problems with a reachable feasible region, solver runs whose
every objective evaluation, clock movement and failure is controlled and recorded."""
import ast, math, os
import numpy as np
from sim.core import SIM, Violation, HarnessError, SimInterrupt, SimMemoryError, REPO, REPO_PREFIX, fork_call
from . import optlib as O
from metku.optimization.solvers import SLP, MISLP, MMA, SLSQP, COBYLA, TrustRegionConstr, GA, PSO, VNS, DiscreteVNS, BnB

GROUPS = {
    "cont": ((("cont", 5), ("xsec", 1)), [("SLP", 4), ("MMA", 1.5), ("SLSQP", 2), ("COBYLA", 1.5), ("TRC", 0.7), ("MISLP", 2), ("GA", 2), ("PSO", 2), ("VNS-GA", 1.5), ("VNS-SLP", 1), ("VNS-MISLP", 0.7)]),
    "mixed": ((("cont", 2), ("disc", 2), ("int", 2)), [("MISLP", 3), ("GA", 2), ("PSO", 2), ("VNS-GA", 1.5), ("VNS-MISLP", 1.5), ("BnB", 3)]),
    "disc": ((("int", 3), ("index", 1.5), ("bool", 0.5), ("bin", 0.7)), [("GA", 2), ("PSO", 2), ("VNS-GA", 1.5), ("DVNS", 4)]),
    "int": ((("int", 3), ("disc", 2)), [("MISLP", 2), ("GA", 1.5), ("PSO", 1.5), ("VNS-GA", 1), ("BnB", 4)]),
    "any": ((("cont", 2), ("disc", 2), ("int", 2), ("index", 2), ("bin", 1), ("xsec", 0.7)), [("GA", 2), ("PSO", 2), ("VNS-GA", 2)]),
}
SEQ = ("SLP", "MISLP", "MMA", "VNS-GA", "VNS-SLP", "VNS-MISLP")
POP = ("GA", "PSO", "DVNS", "VNS-GA")
NLP = ("SLSQP", "COBYLA", "TRC")
TIMED = ("SLP", "MISLP", "MMA", "GA", "PSO", "DVNS", "VNS-GA", "VNS-SLP", "VNS-MISLP")
CON_TOL = 1e-4


# ------------------------------------------------------------------ generation
def gen_group(r):
    return r.pick([("cont", 5), ("mixed", 4), ("disc", 4), ("int", 2.5), ("any", 3)])


def gen_solver(r, group, only=None):
    k = r.pick([(a, w) for a, w in GROUPS[group][1] if only is None or a in only])
    d = {"k": k}
    if k in ("SLP", "VNS-SLP"):
        m = r.choice([0.05, 0.2, 0.5, 1.0])
        d.update(move=[m, m if r.random() < 0.6 else r.choice([0.1, 0.3])], gamma=r.choice([1e-3, 1e-2, 0.1]), beta=r.choice([10, 10, 100, 0]), C=r.choice([2e5, 1e3, 10.0, 0.5]),
                 mtype="range" if r.random() < 0.8 else "relative")
    if k in ("MISLP", "VNS-MISLP"):
        m = r.choice([0.1, 0.3, 1.0])
        d.update(move=[m, m], gamma=r.choice([1e-3, 1e-2, 0.1]), beta=r.choice([100, 10]), C=r.choice([2e5, 1e3, 10.0, 0.5]))
    if k in ("GA", "VNS-GA"):
        d.update(pop=r.randint(3, 9), mut=r.choice([0.05, 0.3, 0.8]), cx=r.choice([0.8, 0.3, 1.0]), sel=r.choice(["default", "best3", "tour", "roulette"]), op=r.choice(["default", "gauss", "uniform"]),
                 first=r.random() < 0.2)
    if k == "PSO":
        d.update(pop=r.randint(2, 8), c=[r.choice([2.0, 1.0, 0.5]), r.choice([2.0, 1.5])], inertia=r.choice([0.9, 0.5]), crazy=r.choice([0.1, 0.0, 0.5]))
    if k.startswith("VNS"):
        d.update(step=r.choice([1, 1, 2]), inner=r.randint(1, 3), exp=r.randint(1, 4), params=r.random() < 0.4, vfirst=r.random() < 0.7)
    if k == "DVNS":
        d.update(step=r.choice([1, 1, 2, 3]), subset=r.choice([-1, -1, 1]))
    if k == "BnB":
        d.update(inner=r.choice(["SLSQP", "SLSQP", "SLP"]))
    return d


def gen_spec(r, group, p_fea=0.35, eq=0.08, infeasible=0.06, nv=None):
    """A problem whose constraints leave room around some allowed design (mostly)."""
    for _ in range(60):
        s = O.gen_problem(r, kinds=GROUPS[group][0], nv=nv or r.pick([(2, 3), (3, 3), (4, 1.5)]), p_fea=p_fea, types="<>", grad=0.25, maxobj=0.3)
        if any(c.get("bvar") is not None for c in s["cons"]):
            for c in s["cons"]:
                c.pop("bvar", None)
        s["obj"].pop("linear", None)
        kinds = [v["k"] for v in s["vars"]]
        if all(k in dict(GROUPS[group][0]) or k == "cont" for k in kinds) and (group not in ("disc", "int") or "cont" not in kinds) and s["cons"]:
            break
    else:
        raise HarnessError("no problem")
    for v in s["vars"]:
        v["init"] = True
    if s["grad"] and any(v["k"] != "cont" for v in s["vars"]):
        s["grad"] = False
    ref = O.Ref(s)
    x = [O.rand_value(r, v) for v in s["vars"]]
    for v, i in zip(s["vars"], range(len(x))):
        if v["k"] in ("cont", "xsec"):
            x[i] = v["lb"] + (v["ub"] - v["lb"]) * r.uniform(0.15, 0.85)
    bad = r.random() < infeasible
    for c in s["cons"]:
        g = ref.con(c, [O.settle(v, y) for v, y in zip(s["vars"], x)])
        slack = 0.0 if r.random() < 0.15 else r.uniform(0.05, 4)
        if r.random() < eq and c["k"] == "lin" and group in ("cont", "mixed"):
            c["type"] = "="
            slack = 0.0
        shift = g + (slack if c["type"] != ">" else -slack)
        if bad:
            shift = g + r.uniform(20, 60) * (-1 if c["type"] != ">" else 1)
        if c["k"] == "lin":
            c["b"] = c["b"] + shift
        else:
            c["f"]["c"] -= shift
    s["room"] = None if bad else x
    s["dt"] = r.choice([0.0, 0.0, 0.1, 3.0])
    return s


def gen_x0(r, s, spec):
    """Full-length starting point (all variables), or None."""
    if spec["k"] == "PSO" or r.random() < 0.2:
        return None
    if s["room"] is not None and r.random() < 0.35:
        return list(s["room"])
    out = []
    for v in s["vars"]:
        x = O.rand_value(r, v, inside=r.random() < 0.8)
        out.append(max(v["lb"], min(x, v["ub"])) if v["k"] not in ("cont", "xsec") else x)
    return out


def gen_solve(r, s, group, only=None, maxiter=None):
    spec = gen_solver(r, group, only)
    k = spec["k"]
    op = {"op": "solve", "spec": spec, "x0": gen_x0(r, s, spec), "form": r.choice(["list", "array"]), "seed": r.randrange(1 << 30)}
    hi = {"SLP": 14, "MISLP": 10, "MMA": 5, "GA": 12, "PSO": 14, "DVNS": 20, "VNS-GA": 4, "VNS-SLP": 4, "VNS-MISLP": 3, "BnB": 14, "SLSQP": 30, "COBYLA": 50, "TRC": 12}[k]
    op["maxiter"] = maxiter if maxiter is not None else r.randint(2 if k in NLP else 1, hi)
    if k == "COBYLA":
        op["maxiter"] += 8
    return op


# ------------------------------------------------------------------ recorded problem
class SimFunctionError(ValueError):
    """The user's function reports an error."""


class Track:
    """Everything the solver asked for, and when."""

    def __init__(self):
        self.start()
        self.total = 0

    def start(self, dt=0.0, stalls=(), limit=None, inside=None):
        self.evals = []          # (full design, value, time at start)
        self.ncon = 0
        self.dt, self.stalls = dt, dict(stalls)
        self.t0 = SIM.clock.now
        self.limit = limit
        self.crossed = None      # state of the run when the time limit passed
        self.probe = None
        self.inside = False      # the harness' relaxation solver is at work
        self.fault = None
        self.calls = 0

    def elapsed(self):
        return SIM.clock.now - self.t0

    def tick(self, what):
        """Called inside every user function call: time passes, faults strike."""
        self.calls += 1
        f = self.fault
        if f is not None:
            f["n"] -= 1
            if f["n"] <= 0:
                self.fault = None
                f["fired"] = True
                SIM.fault("function-fails")
                raise f["exc"]
        d = self.dt + self.stalls.get(self.calls, 0.0)
        if self.calls in self.stalls:
            SIM.fault("stall")
        if d:
            SIM.clock.advance(d)
        if self.limit is not None and self.crossed is None and self.elapsed() > self.limit:
            self.crossed = {"evals": len(self.evals), "state": self.probe() if self.probe else None}
            SIM.probe("limit-passed-during-run")


class Live(O.Live):
    """optlib.Live whose functions record what the solvers evaluate."""

    def __init__(self, s):
        self.t = Track()
        super().__init__(s)

    def value_fun(self, f):
        st, t = self.st, self.t
        is_obj = f is self.s["obj"]["f"]

        def fun(x):
            full = tuple(float(y) for y in x)
            if is_obj:
                t.evals.append((full, t.elapsed(), t.inside))
            else:
                t.ncon += 1
            t.tick("obj" if is_obj else "con")
            return O.fun_value(f, x, st.results)
        return fun


class Relaxation:
    """User-supplied solver of the branch-and-bound relaxations: the real SLSQP or SLP, watched."""

    def __init__(self, track, inner):
        self.t = track
        self.inner = SLSQP() if inner == "SLSQP" else SLP(move_limits=(0.5, 0.5))
        self.kind = inner
        self.calls = 0

    @property
    def feasible(self):
        return self.inner.feasible

    def solve(self, problem, x0=None, **kw):
        self.calls += 1
        self.t.inside = True
        try:
            return self.inner.solve(problem, x0=x0, maxiter=30 if self.kind == "SLSQP" else 12)
        finally:
            self.t.inside = False


def make_solver(d, lv):
    from deap import tools
    k = d["k"]
    if k == "SLP":
        return SLP(move_limits=list(d["move"]), gamma=d["gamma"], beta=d["beta"], C=d["C"], move_limit_type=d["mtype"])
    if k == "MISLP":
        return MISLP(move_limits=list(d["move"]), gamma=d["gamma"], beta=d["beta"], C=d["C"])
    if k in ("MMA", "SLSQP", "COBYLA", "TRC"):
        return {"MMA": MMA, "SLSQP": SLSQP, "COBYLA": COBYLA, "TRC": TrustRegionConstr}[k]()
    if k == "PSO":
        return PSO(pop_size=d["pop"], c=list(d["c"]), inertia=d["inertia"], crazy_prob=d["crazy"])
    if k == "DVNS":
        return DiscreteVNS(step_length=d["step"], subset_size=d["subset"])
    if k == "BnB":
        sv = BnB(lv.P, Relaxation(lv.t, d["inner"]))
        return sv
    gp = {}
    if k in ("GA", "VNS-GA"):
        gp = dict(pop_size=d["pop"], mutation_rate=d["mut"], crossover_rate=d["cx"], first_improvement=d["first"])
        if d["sel"] == "best3":
            gp.update(select=tools.selBest, select_kwargs={"k": 3})
        elif d["sel"] == "tour":
            gp.update(select=tools.selTournament, select_kwargs={"k": 3, "tournsize": 2})
        elif d["sel"] == "roulette":
            gp.update(select=tools.selRandom, select_kwargs={"k": 2})
        if d["op"] == "gauss":
            gp.update(mutation_fun=tools.mutGaussian, mutation_kwargs={"mu": 0, "sigma": 1.5, "indpb": 0.5})
        elif d["op"] == "uniform":
            gp.update(crossover_fun=tools.cxUniform, crossover_kwargs={"indpb": 0.5})
        if k == "GA":
            return GA(**gp)
    kw = dict(step_length=d["step"], maxiter=d["inner"], max_expansion=d["exp"], first_improvement=d["vfirst"], pop_size=d.get("pop", 5), solver=k[4:])
    if k != "VNS-GA":
        kw["solver_params"] = dict(move_limits=list(d["move"]), gamma=d["gamma"], beta=d["beta"], C=d["C"]) if d["params"] else None
    elif d["params"]:
        kw["solver_params"] = gp
    return VNS(**kw)


def runnable(d, ref):
    n = len(ref.free())
    return n >= (2 if d["k"] in ("GA", "VNS-GA") else 1)


def start_point(op, ref):
    if op["x0"] is None:
        return None
    x = [op["x0"][i] for i in ref.free()]
    return np.array(x, dtype=float) if op["form"] == "array" else x


def call(sv, op, lv, x0, maxtime=None):
    k = op["spec"]["k"]
    kw = {"maxiter": op["maxiter"]}
    if k != "PSO":
        kw["x0"] = x0
    if maxtime is not None and k in TIMED:
        kw["maxtime"] = maxtime
    return sv.solve(lv.P, **kw)


# ------------------------------------------------------------------ judging a result
def violation_of(s, ref, full):
    w = -math.inf
    for c in s["cons"]:
        g = ref.con(c, full)
        w = max(w, g if c["type"] == "<" else -g if c["type"] == ">" else abs(g))
    return w


def allowed(v, x, what, tol=0.0):
    if not (v["lb"] - tol <= x <= v["ub"] + tol):
        raise Violation("outside-bounds", f"{what}: returned value {x!r} of a {v['k']} variable with bounds {v['lb']}, {v['ub']}")
    if v["k"] == "disc" and not any(x == y for y in v["values"]):
        raise Violation("not-allowed", f"{what}: returned value {x!r} of a discrete variable, allowed are {v['values']}")
    if v["k"] in ("int", "index", "bin", "bool") and x != int(x):
        raise Violation("not-allowed", f"{what}: returned value {x!r} of an integer variable ({v['k']})")


def check_form(res, ref, what, may_be_empty=False):
    if not (isinstance(res, tuple) and len(res) == 2):
        raise Violation("result-form", f"{what}: returned {res!r} instead of a value and a design")
    f, x = res
    if x is None and may_be_empty:
        return None
    try:
        fv = float(f)
        xs = [float(y) for y in x]
    except (TypeError, ValueError):
        raise Violation("result-form", f"{what}: returned {res!r} instead of a value and a design")
    n = len(ref.free())
    if len(xs) != n:
        raise Violation("result-form", f"{what}: returned a design of {len(xs)} values for {n} variables")
    return fv, xs


def candidates(op, sv, lv, ref, x0):
    """Full designs the solver accepted (as far as they can be known without its internals)."""
    s, k = lv.s, op["spec"]["k"]
    out = []
    lock = [ref.val[i] for i in range(len(s["vars"]))]

    def full(x):
        y = list(lock)
        for i, xi in zip(ref.free(), x):
            y[i] = O.settle(s["vars"][i], float(xi))
        return tuple(y)
    if k in SEQ:
        out += [full(x) for x in sv.xvals]
    if k in POP:
        out += [full([e[0][i] for i in ref.free()]) for e in lv.t.evals]
    if k == "BnB":
        out += [e[0] for e in lv.t.evals if not e[2] and exact(s, e[0], ref)]
    if k in NLP:
        if x0 is not None:
            out.append(full(x0))
        r = getattr(sv, "result", None)
        if r is not None and len(getattr(r, "x", ())) == len(ref.free()):
            out.append(full(r.x))
    if k in SEQ + ("DVNS",) and x0 is not None:
        out.append(full([round(y) for y in x0] if k == "DVNS" else x0))
    return out


def exact(s, full, ref):
    for i in ref.free():
        v, x = s["vars"][i], full[i]
        if not v["lb"] <= x <= v["ub"]:
            return False
        if v["k"] == "disc" and x not in v["values"]:
            return False
        if v["k"] in ("int", "index", "bin", "bool") and x != int(x):
            return False
    return True


def check_result(res, op, sv, lv, ref, x0, what):
    """S01: the incumbent is the best feasible design, reported with its true value."""
    s, k = lv.s, op["spec"]["k"]
    cand = candidates(op, sv, lv, ref, x0)
    feas = [c for c in cand if violation_of(s, ref, c) <= 0.5 * CON_TOL]
    got = check_form(res, ref, what, may_be_empty=k == "BnB" and not feas)
    if got is None:
        return {"candidates": len(cand), "feasible": 0, "found": False}
    f, x = got
    for i, xi in zip(ref.free(), x):
        allowed(s["vars"][i], xi, what)
    full = ref.full(x)
    e = ref.obj(full)
    scale = 1.0 + sum(abs(t) for t in full)
    if not abs(f - e) <= 1e-9 * max(scale, abs(e)):
        raise Violation("wrong-value", f"{what}: returned value {f!r} but the objective at the returned design {x} is {e!r}")
    w = violation_of(s, ref, full)
    if feas:
        if w > CON_TOL * (1 + 1e-6) + 1e-9:
            raise Violation("infeasible-returned", f"{what}: returned design {x} violates a constraint by {w:.3g} although {len(feas)} evaluated designs were feasible, e.g. {feas[0]}")
        best = min(feas, key=lambda c: ref.obj(c))
        fb = ref.obj(best)
        if f > fb + 1e-9 * max(scale, abs(fb)):
            raise Violation("not-best", f"{what}: returned value {f!r} but the feasible design {best} evaluated during the run has {fb!r}")
    return {"candidates": len(cand), "feasible": len(feas), "found": bool(feas), "improved": len({round(ref.obj(c), 9) for c in feas})}


def check_problem(lv, ref, what):
    """The problem is as the user defined it (S02)."""
    s, P = lv.s, lv.P
    if [id(v) for v in P.all_vars] != [id(v) for v in lv.vars]:
        raise Violation("variables-changed", f"{what}: the variable list of the problem changed")
    for i, (v, var) in enumerate(zip(s["vars"], lv.vars)):
        if bool(var.locked) != ref.locked[i]:
            raise Violation("lock-changed", f"{what}: variable {i} ({v['k']}) is left {'locked' if var.locked else 'unlocked'}")
        if var.lb != v["lb"] or var.ub != v["ub"]:
            raise Violation("bounds-changed", f"{what}: variable {i} ({v['k']}) is left with bounds {var.lb}, {var.ub}, defined as {v['lb']}, {v['ub']}")
        if v["k"] == "disc" and list(var.values) != list(v["values"]):
            raise Violation("values-changed", f"{what}: allowed values of variable {i} are left as {list(var.values)}")
    if [id(v) for v in P.vars] != [id(lv.vars[i]) for i in ref.free()]:
        raise Violation("variables-changed", f"{what}: the free variables of the problem changed")
    if sorted(id(c) for c in P.cons) != sorted(id(c) for c in lv.cons):
        raise Violation("constraints-changed", f"{what}: the constraint list of the problem changed")
    for c in P.cons:
        if c.problem is not P:
            raise Violation("constraints-changed", f"{what}: constraint {c.name} is left attached to another problem")
    for c, d in zip(lv.cons, s["cons"]):
        if c.type != d["type"]:
            raise Violation("constraints-changed", f"{what}: type of constraint {c.name} is left as {c.type}")
        if d["k"] == "lin" and (len(c.a) != len(d["a"]) or any(a != b for a, b in zip(c.a, d["a"])) or c.b != d["b"]):
            raise Violation("constraints-changed", f"{what}: linear constraint {c.name} is left as {list(c.a)}, {c.b}")
    if P.obj is not lv.obj or lv.obj.problem is not P or P.structure is not lv.st:
        raise Violation("objective-changed", f"{what}: the objective or structure of the problem changed")
    if lv.obj.obj_type != s["obj"]["type"]:
        raise Violation("objective-changed", f"{what}: the objective sense is left as {lv.obj.obj_type}")


def same_problem_after(lv, ref, what):
    """Values the locked variables had are still there."""
    for i, var in enumerate(lv.vars):
        if ref.locked[i] and ref.known[i] and not O.same(var.value, ref.val[i]):
            raise Violation("locked-value-changed", f"{what}: locked variable {i} has the value {var.value}, was locked at {ref.val[i]}")


# ------------------------------------------------------------------ failures
_cleanup = {}


def cleanup_lines(path):
    """Line ranges of finally blocks and exception handlers of a source file."""
    if path not in _cleanup:
        out = []
        try:
            tree = ast.parse(open(path, encoding="utf-8", errors="replace").read())
            for n in ast.walk(tree):
                if isinstance(n, ast.Try):
                    for b in [n.finalbody] + [h.body for h in n.handlers]:
                        if b:
                            out.append((b[0].lineno, b[-1].end_lineno))
                elif isinstance(n, (ast.FunctionDef,)) and n.name == "__exit__":
                    out.append((n.lineno, n.end_lineno))
        except (OSError, SyntaxError):
            pass
        _cleanup[path] = out
    return _cleanup[path]


def in_cleanup(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fn).startswith(REPO_PREFIX) and any(a <= tb.tb_lineno <= b for a, b in cleanup_lines(fn)):
            return True
        tb = tb.tb_next
    return False


def gen_fault(r):
    k = r.pick([("line", 5), ("fun", 3), ("fea", 2), ("set", 1.5)])
    if k == "line":
        return {"kind": r.choice(["interrupt", "interrupt", "memory"]), "at": r.random() ** r.choice([0.4, 1, 1, 2])}
    exc = r.choice(["error", "memory", "interrupt"])
    if k == "fun":
        return {"kind": "fun", "n": r.logint(1, 120), "exc": exc}
    if k == "fea":
        return {"kind": "fea", "n": r.logint(1, 60), "when": r.choice(["before", "mid", "after"]), "exc": exc}
    return {"kind": "set", "n": r.logint(1, 200), "exc": exc}


def attempt(lv, fault, fn, what):
    """Run fn with a fault.  Returns (outcome, value): done | failed | cleanup (struck during clean-up)."""
    k = fault["kind"]
    if k in ("interrupt", "memory"):
        def count():
            with SIM.lines.counting() as c:
                fn()
            return c.count
        r = fork_call(count, 120)
        if r[0] != "ok":
            if r[0] == "violation":
                raise Violation(r[1]["cls"], r[1]["msg"])
            fn()
            raise HarnessError("dry run failed but the real run did not: " + str(r[1])[-300:])
        if r[1] == 0:
            return "done", fn()
        at = min(r[1], 1 + int(fault["at"] * r[1]))
        exc = SimInterrupt("simulated Ctrl-C") if k == "interrupt" else SimMemoryError("simulated")
        with SIM.lines.counting(fire_at=at, exc=exc) as c:
            try:
                v = fn()
            except BaseException as e:
                if c.fired is None:
                    raise
                if k == "interrupt" and not isinstance(e, KeyboardInterrupt):
                    raise Violation("fault-masked", f"{what}: interruption at {c.fired} surfaced as {type(e).__name__}: {e}")
                SIM.fault(k)
                SIM.log("fault", k, at, c.fired)
                SIM.probe("interrupted-in:" + c.fired[1].split(".")[-1])
                if in_cleanup(exc.__traceback__):
                    SIM.probe("struck-during-cleanup")
                    return "cleanup", None
                return "failed", None
        if c.fired is None:
            raise HarnessError(f"statement {at} of {r[1]} never reached")
        raise Violation("fault-swallowed", f"{what}: {k} injected at {c.fired} never reached the caller")
    exc = O.make_exc(fault["exc"], SimFunctionError if k == "fun" else O.SimAnalysisError if k == "fea" else O.SimTargetError)
    f = {"n": fault["n"], "when": fault.get("when"), "exc": exc, "fired": False}
    if k == "fun":
        lv.t.fault = f
    elif k == "fea":
        lv.w.fea_fault = f
    else:
        lv.w.set_fault = f
    try:
        v = fn()
    except BaseException as e:
        if not f["fired"]:
            raise
        if e is not exc and fault["exc"] == "interrupt" and not isinstance(e, KeyboardInterrupt):
            raise Violation("fault-masked", f"{what}: an interruption surfaced as {type(e).__name__}: {e}")
        SIM.log("fault", k, fault["n"], type(e).__name__)
        return "failed", None
    finally:
        lv.t.fault = lv.w.fea_fault = lv.w.set_fault = None
    if f["fired"]:
        raise Violation("fault-swallowed", f"{what}: a failing {k} ({type(exc).__name__}) was not reported to the caller")
    SIM.probe("fault-not-reached")
    return "done", v


def seed(n):
    import random
    np.random.seed(n & 0xFFFFFFFF)
    random.seed(n)


def lock_ops(r, s, p=0.35):
    """Lock or unlock some variables between solves."""
    ops = []
    if r.random() < p:
        j = r.randrange(len(s["vars"]))
        if r.random() < 0.7:
            v = s["vars"][j]
            ops.append({"op": "lock", "i": j, "x": s["room"][j] if s["room"] and r.random() < 0.7 else O.rand_value(r, v)})
        else:
            ops.append({"op": "unlock", "i": j})
    return ops


def apply_lock(lv, ref, op):
    i = op["i"]
    if op["op"] == "lock":
        if ref.locked[i] or len(ref.free()) < 2:
            return False
        x = O.settle(lv.s["vars"][i], op["x"])
        lv.vars[i].lock(x)
        ref.set(i, x)
        ref.locked[i] = True
    else:
        lv.vars[i].unlock()
        ref.locked[i] = False
    return True
