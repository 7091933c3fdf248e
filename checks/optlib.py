"""Optimisation problems under simulation: generated problems over a simulated structure whose
analyses and attribute writes can fail, and a closed-form reference for every value."""
import math
import numpy as np
from sim.core import SIM, Violation, SimInterrupt, SimMemoryError, HarnessError
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction, LinearObjective
from metku.optimization.variables import (Variable, IntegerVariable, BooleanVariable, BinaryVariable, IndexVariable,
                                          DiscreteVariable, CrossSectionVariable)
from metku.optimization.variable_group import VariableGroup, VariableTypeEnum


class SimAnalysisError(ValueError):
    """The structural analysis reports an error."""


class SimTargetError(ValueError):
    """The model refuses an attribute value."""


class World:
    """Fault plan of the simulated structure."""

    def __init__(self):
        self.sets = 0            # attribute writes so far
        self.set_fault = None    # fail the n-th write from now
        self.fea_fault = None    # {"n":, "when": before|mid|after, "exc":}
        self.dt = 0.0            # simulated duration of one analysis
        self.analyses = 0
        self.log = []

    def fail_set(self):
        if self.set_fault is not None:
            self.set_fault["n"] -= 1
            if self.set_fault["n"] <= 0:
                f, self.set_fault = self.set_fault, None
                f["fired"] = True
                SIM.fault("model-refuses-value")
                raise f["exc"]


class Thing:
    """Part of the model that variables control."""

    def __init__(self, world, attrs):
        d = self.__dict__
        d["_w"] = world
        d.update(attrs)

    def __setattr__(self, k, v):
        w = self.__dict__["_w"]
        w.sets += 1
        w.fail_set()
        self.__dict__[k] = v


class Prof:
    """Profile chosen by an index or binary variable."""

    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return f"Prof({self.val})"


ATTRS = ["A", "I", "H"]
WT = {"A": 1.0, "I": 0.37, "H": 0.61}


class Structure:
    """Stands for a frame: 'calculate' analyses whatever the model holds at that moment."""

    def __init__(self, world, members, loads):
        self.w, self.members, self.loads = world, members, loads
        self.results = {}

    def state(self):
        out = []
        for m in self.members:
            d = m.__dict__
            p = d["profile"].val
            out.append([float(d[a]) for a in ATTRS] + [float(p), float(d["cross_section"].__dict__["Iy"]), 1.0 if d["active"] else 0.0])
        return out

    def calculate(self, load_id=None, support_method="ELIM", design=True):
        w = self.w
        w.analyses += 1
        SIM.clock.advance(w.dt)
        f = w.fea_fault
        if f is not None:
            f["n"] -= 1
            if f["n"] > 0:
                f = None
            else:
                w.fea_fault = None
                f["fired"] = True
                SIM.fault("analysis-fails-" + f["when"])
        if f is not None and f["when"] == "before":
            raise f["exc"]
        ids = list(self.loads) if load_id == "ALL" else [load_id]
        st = self.state()
        for n, lid in enumerate(ids):
            res = analyse(st, self.loads[lid])
            if f is not None and f["when"] == "mid":
                self.results[lid] = res[:1] + list(self.results.get(lid, [0.0] * len(res)))[1:]
                raise f["exc"]
            self.results[lid] = res
        if f is not None and f["when"] == "after":
            raise f["exc"]


def analyse(state, load):
    """Results of one load case as a smooth function of the whole model state."""
    m = [0.5 + WT["A"] * s[0] + WT["I"] * s[1] + WT["H"] * s[2] + 0.8 * s[3] + 0.45 * s[4] + 1.5 * s[5] for s in state]
    tot = sum(m) / len(m)
    return [l * v * (1 + 0.05 * tot) for l, v in zip(load, m)]


# ------------------------------------------------------------------ generation
def gen_var(r, i, kinds, nm, used, positive=False):
    k = r.pick(kinds)
    v = {"k": k, "scale": None, "fun": False, "target": None, "style": "dict", "init": True}
    if k in ("cont", "xsec"):
        lo = round(r.uniform(0.2, 2), 2) if positive or r.random() < 0.5 else round(r.uniform(-4, 1), 2)
        v["lb"], v["ub"] = lo, round(lo + r.uniform(1, 8), 2)
    elif k in ("int", "bool"):
        v["lb"] = 0 if k == "bool" else r.randint(1 if positive else -3, 3)
        v["ub"] = 1 if k == "bool" else v["lb"] + r.randint(1, 6)
    elif k == "disc":
        n = r.randint(2, 6)
        vals = []
        while len(vals) < n:
            c = round(r.uniform(0.3 if positive else -3, 9), 2)
            if all(abs(c - o) > 0.05 for o in vals):
                vals.append(c)
        if r.random() < 0.7:
            vals.sort()
        v["values"] = vals
        v["lb"], v["ub"] = min(vals), max(vals)
    elif k == "index":
        v["values"] = [round(r.uniform(0.2, 6), 2) for _ in range(r.randint(2, 6))]
        v["lb"], v["ub"] = 0, len(v["values"]) - 1
    elif k == "bin":
        v["lb"], v["ub"] = 0, 1
    # targets: every attribute is controlled by one variable at most
    free = lambda j, a: (j, a) not in used
    if k == "bin":
        c = [j for j in range(nm) if free(j, "active")]
        if c:
            js = r.sample(c, r.randint(1, min(2, len(c))))
            v["target"] = {"objs": js, "props": ["member"], "aslist": r.random() < 0.3}
            used.update((j, "active") for j in js)
    elif k == "index":
        c = [j for j in range(nm) if free(j, "profile")]
        if c:
            js = r.sample(c, r.randint(1, min(2, len(c))))
            v["target"] = {"objs": js, "props": ["profile"], "aslist": r.random() < 0.4}
            used.update((j, "profile") for j in js)
            v["style"] = r.choice(["dict", "kw", "group"])
    elif k == "xsec":
        c = [j for j in range(nm) if free(j, "xs")]
        if c:
            js = r.sample(c, r.randint(1, min(2, len(c))))
            v["target"] = {"objs": js, "props": ["Iy"], "aslist": False}
            used.update((j, "xs") for j in js)
        else:
            v["k"] = "cont"
    if v["k"] in ("cont", "int", "bool", "disc") and r.random() < 0.85:
        c = [(j, a) for j in range(nm) for a in ATTRS if free(j, a)]
        if c:
            j, a = r.choice(c)
            js = [j] + [q for q in range(nm) if q != j and free(q, a) and r.random() < 0.3]
            props = [a] + [b for b in ATTRS if b != a and all(free(q, b) for q in js) and r.random() < 0.35]
            v["target"] = {"objs": js, "props": props, "aslist": len(props) > 1 or r.random() < 0.3}
            used.update((q, b) for q in js for b in props)
            v["style"] = r.choice(["dict", "kw", "kw1", "group"])
            if v["k"] in ("cont", "int") and r.random() < 0.3:
                v["fun"] = True
            if v["k"] == "cont" and r.random() < 0.3:
                v["scale"] = [r.choice([2.0, 0.5, 4.0]) for _ in range(r.randint(1, 2))]
    if v["style"] == "group" and (v["fun"] or v["k"] in ("int", "bool", "bin", "xsec") or v["target"] is None):
        v["style"] = "dict"
    v["init"] = r.random() < 0.6
    if v["scale"]:
        f = np.prod(v["scale"])
        v["ulb"], v["uub"] = v["lb"], v["ub"]
        v["lb"], v["ub"] = v["lb"] / f, v["ub"] / f
    return v


DEFKINDS = (("cont", 5), ("int", 1.5), ("disc", 2), ("index", 2), ("bin", 1), ("bool", 0.4), ("xsec", 1))


def gen_fun(r, nv, nm, lids, fea, quad=True):
    f = {"c": round(r.uniform(-5, 5), 3), "a": [round(r.uniform(-2, 2), 3) if r.random() < 0.8 else 0.0 for _ in range(nv)],
         "q": [round(r.uniform(0, 0.5), 3) if quad and r.random() < 0.4 else 0.0 for _ in range(nv)], "p": [], "t": []}
    if quad and nv > 1 and r.random() < 0.5:
        i, j = r.sample(range(nv), 2)
        f["p"].append([i, j, round(r.uniform(-0.5, 0.5), 3)])
    if fea:
        for lid in fea:
            for j in range(nm):
                if r.random() < 0.7 or not f["t"]:
                    f["t"].append([lid, j, round(r.uniform(-1, 1), 3)])
    return f


def gen_problem(r, kinds=DEFKINDS, nv=None, p_fea=0.5, positive=False, ncons=None, types="<><=", grad=0.2, maxobj=0.3):
    nm = r.randint(1, 3)
    nv = nv or r.pick([(1, 1), (2, 2), (3, 2), (4, 1.5), (5, 1)])
    used = set()
    s = {"nm": nm, "mem": [{a: round(r.uniform(0.5, 3), 2) for a in ATTRS + ["profile", "xs"]} for _ in range(nm)],
         "loads": {str(l): [round(r.uniform(0.1, 1.0), 3) for _ in range(nm)] for l in range(r.randint(1, 3))}}
    s["vars"] = [gen_var(r, i, kinds, nm, used, positive) for i in range(nv)]
    lids = list(s["loads"])
    cons = []
    for _ in range(ncons if ncons is not None else r.randint(1, 4)):
        t = r.choice(types)
        if r.random() < 0.35:
            c = {"k": "lin", "type": t, "a": [round(r.uniform(-2, 2), 3) if r.random() < 0.8 else 0.0 for _ in range(nv)], "b": round(r.uniform(-6, 6), 3)}
            if r.random() < 0.15:
                c["bvar"] = r.randrange(nv)
        else:
            fea = None
            if r.random() < p_fea:
                fea = ["ALL"] if r.random() < 0.4 else r.sample(lids, r.randint(1, len(lids)))
            c = {"k": "nl", "type": t, "fea": fea, "f": gen_fun(r, nv, nm, lids, r.sample(lids, r.randint(1, len(lids))) if fea == ["ALL"] else fea)}
        c["add"] = r.choice(["add", "method", "list", "ctor"])
        cons.append(c)
    s["cons"] = cons
    of = r.random() < p_fea
    s["obj"] = {"fea": of, "f": gen_fun(r, nv, nm, lids, lids if of else None), "type": "MAX" if r.random() < maxobj else "MIN", "ctor": r.random() < 0.3}
    if not of and r.random() < 0.2:
        s["obj"]["linear"] = True
        s["obj"]["f"].update(c=0.0, q=[0.0] * nv, p=[])
    s["grad"] = (not of) and r.random() < grad
    s["ctor_vars"] = r.random() < 0.4
    s["dt"] = r.choice([0.0, 0.1, 3.0])
    return s


def rand_value(r, v, inside=True):
    k = v["k"]
    if k in ("cont", "xsec"):
        c = r.random()
        if c < 0.12:
            return v["lb"]
        if c < 0.24:
            return v["ub"]
        if not inside and c < 0.5:
            return v["lb"] - r.uniform(0, 3) if c < 0.37 else v["ub"] + r.uniform(0, 3)
        return r.uniform(v["lb"], v["ub"])
    if k == "disc":
        return r.choice(v["values"])
    if not inside and r.random() < 0.15 and k in ("int", "index"):
        return r.choice([v["lb"] - 2, v["ub"] + 3])
    return r.randint(int(v["lb"]), int(v["ub"]))


# ------------------------------------------------------------------ reference
def clip(v, x):
    return max(v["lb"], min(x, v["ub"]))


def settle(v, x):
    """Value a variable has after x was substituted through the problem."""
    x = clip(v, x)
    return int(round(x)) if v["k"] == "index" else x


def scaling(v):
    return float(np.prod(v["scale"])) if v["scale"] else 1.0


def fun_of(a, y):
    return {"A": y, "I": 0.2 * y * y + 0.3, "H": 1.1 * y + 0.4}[a]


FUN_PROPS = ("I", "H")


def attr_values(v, x):
    """{(object, attribute): value} the model must carry when variable v has value x."""
    t = v["target"]
    out = {}
    if t is None:
        return out
    for j in t["objs"]:
        for p in t["props"]:
            if p == "member":
                out[j, "active"] = (x == 1)
            elif p == "profile":
                out[j, "profile"] = v["values"][int(round(x))]
            elif v["k"] == "xsec":
                out[j, "xs"] = x * scaling(v)
            else:
                y = x * scaling(v)
                out[j, p] = fun_of(p, y) if v["fun"] and p in FUN_PROPS else y
    return out


def init_value(s, v):
    """Initial value: consistent with the initial model (the model is built from it)."""
    if v["k"] == "disc":
        return v["values"][0]
    if v["k"] in ("int", "index", "bin", "bool"):
        return int(v["lb"])
    return v["lb"] + 0.25 * (v["ub"] - v["lb"])


def init_model(s):
    m = {}
    for j, d in enumerate(s["mem"]):
        for a in ATTRS + ["profile", "xs"]:
            m[j, a] = d[a]
        m[j, "active"] = True
    for v in s["vars"]:
        m.update(attr_values(v, init_value(s, v)))
    return m


def state_of(s, model):
    return [[model[j, a] for a in ATTRS] + [model[j, "profile"], model[j, "xs"], 1.0 if model[j, "active"] else 0.0] for j in range(s["nm"])]


class Ref:
    """What values and model must be: known[i] is None while variable i was hit by a failure."""

    def __init__(self, s):
        self.s = s
        self.model = init_model(s)
        self.val = [init_value(s, v) if v["init"] else None for v in s["vars"]]
        self.known = [True] * len(s["vars"])
        self.locked = [False] * len(s["vars"])

    def free(self):
        return [i for i, l in enumerate(self.locked) if not l]

    def set(self, i, x):
        self.val[i] = x
        self.known[i] = True
        self.model.update(attr_values(self.s["vars"][i], x))

    def sub(self, x):
        for i, xi in zip(self.free(), x):
            self.set(i, settle(self.s["vars"][i], xi))

    def full(self, x):
        """All values, with x for the free variables."""
        out = list(self.val)
        for i, xi in zip(self.free(), x):
            out[i] = xi
        return out

    def model_at(self, vals):
        m = dict(self.model)
        for v, x in zip(self.s["vars"], vals):
            if x is not None:
                m.update(attr_values(v, settle(v, x)))
        return m

    def res(self, vals):
        st = state_of(self.s, self.model_at(vals))
        return {l: analyse(st, w) for l, w in self.s["loads"].items()}

    def fun(self, f, vals, res=None):
        if f["t"] and res is None:
            res = self.res(vals)
        return fun_value(f, vals, res)

    def obj(self, vals):
        o = self.s["obj"]
        y = self.fun(o["f"], vals)
        return -y if o["type"] == "MAX" else y

    def con(self, c, vals):
        if c["k"] == "lin":
            b = vals[c["bvar"]] if "bvar" in c else c["b"]
            return sum(a * (x or 0.0) for a, x in zip(c["a"], vals)) - b
        return self.fun(c["f"], vals)


def fun_value(f, vals, res):
    y = f["c"]
    for a, q, x in zip(f["a"], f["q"], vals):
        if a or q:
            y += a * x + q * x * x
    for i, j, p in f["p"]:
        y += p * vals[i] * vals[j]
    for lid, j, t in f["t"]:
        y += t * res[lid][j]
    return y


def slope(fn, vals, i, rel=1e-5):
    h = rel * max(1.0, abs(vals[i]))
    a, b = list(vals), list(vals)
    a[i] += h
    b[i] -= h
    return (fn(a) - fn(b)) / (2 * h)


# ------------------------------------------------------------------ live objects
class Live:
    def __init__(self, s, world=None):
        self.s = s
        self.w = world or World()
        self.w.dt = s.get("dt", 0.0)
        im = init_model(s)
        self.mem = []
        for j in range(s["nm"]):
            xs = Thing(self.w, {"Iy": im[j, "xs"]})
            self.mem.append(Thing(self.w, {**{a: im[j, a] for a in ATTRS}, "profile": Prof(im[j, "profile"]), "cross_section": xs,
                                           "active": im[j, "active"]}))
        self.st = Structure(self.w, self.mem, s["loads"])
        self.vars = [self.make_var(i, v) for i, v in enumerate(s["vars"])]
        late, ctor = [], []
        self.cons = []
        for k, c in enumerate(s["cons"]):
            self.cons.append(None if c["add"] == "method" else self.make_con(k, c))
        ctor = [c for c, d in zip(self.cons, s["cons"]) if d["add"] == "ctor"]
        kw = {}
        o = s["obj"]
        if o.get("linear"):
            self.obj = LinearObjective("f", o["f"]["a"], o["type"])
        else:
            self.obj = ObjectiveFunction("f", self.value_fun(o["f"]), o["type"], fea_required=bool(o["fea"]))
        if ctor:
            kw["constraints"] = ctor
        if o["ctor"]:
            kw["objective"] = self.obj
        if s["ctor_vars"]:
            kw["variables"] = self.vars
        if s["grad"]:
            kw["gradient"] = self.gradient
        self.P = P = OptimizationProblem("p", structure=self.st, **kw)
        if not s["ctor_vars"]:
            for i, v in enumerate(self.vars):
                if i % 3 == 2:
                    P.add_variable(v)
                elif i % 3 == 1:
                    P.add_variables([v])
                else:
                    P.add(v)
        for k, d in enumerate(s["cons"]):
            if d["add"] == "method":
                if d["k"] == "lin":
                    self.cons[k] = P.linear_constraint(list(d["a"]), self.bof(d), d["type"], f"c{k}")
                else:
                    self.cons[k] = P.non_linear_constraint(self.value_fun(d["f"]), d["type"], f"c{k}", fea_required=bool(d["fea"]), load_ids=d["fea"])
            elif d["add"] == "list":
                P.add_constraints([self.cons[k]])
            elif d["add"] == "add":
                P.add(self.cons[k])
        if not o["ctor"]:
            P.add(self.obj)

    def bof(self, d):
        return self.vars[d["bvar"]] if "bvar" in d else d["b"]

    def value_fun(self, f):
        st = self.st
        return lambda x: fun_value(f, x, st.results)

    def gradient(self, x):
        """Analytic gradient of the objective with respect to the free variables."""
        o = self.s["obj"]
        vals, free, k = [], [], 0
        for i, v in enumerate(self.vars):
            if v.locked:
                vals.append(v.value)
            else:
                vals.append(float(x[k]))
                k += 1
                free.append(i)
        f = o["f"]
        g = []
        for i in free:
            y = f["a"][i] + 2 * f["q"][i] * vals[i]
            for a, b, p in f["p"]:
                y += p * vals[b] if a == i else p * vals[a] if b == i else 0.0
            g.append(-y if o["type"] == "MAX" else y)
        return np.array(g)

    def make_con(self, k, d):
        if d["k"] == "lin":
            return LinearConstraint(list(d["a"]), self.bof(d), d["type"], f"c{k}")
        return NonLinearConstraint(self.value_fun(d["f"]), d["type"], f"c{k}", fea_required=bool(d["fea"]), load_ids=d["fea"])

    def make_var(self, i, v):
        t = v["target"]
        k = v["k"]
        name = f"x{i}"
        kw = {}
        x0 = init_value(self.s, v) if v["init"] else None
        objs = [self.mem[j] for j in t["objs"]] if t else []
        lb, ub = v.get("ulb", v["lb"]), v.get("uub", v["ub"])
        sc = scaling(v)
        if v["fun"]:
            kw["target_fun"] = {a: (lambda y, a=a: fun_of(a, y)) for a in FUN_PROPS}
        if t and v["style"] == "group":
            props = list(t["props"])
            at = props if t["aslist"] else props[0]
            if k == "index":
                g = VariableGroup(name, VariableTypeEnum.INDEX, objects=objs, attribute=t["props"][0], value=x0 if x0 is not None else 0,
                                  values=self.profiles(v))
                var = g.variables[0]
            elif k == "cont":
                g = VariableGroup(name, VariableTypeEnum.CONTINUOUS, objects=objs, attributes=[at], value=[None], lower_bounds=[lb], upper_bounds=[ub])
                var = g.variables[0]
            else:
                g = VariableGroup(name, VariableTypeEnum.DISCRETE, objects=objs, attributes=[at], value=[None], values=[list(v["values"])])
                var = g.variables[0]
            if not (k == "index" and x0 is None):
                var.value = None if x0 is None else x0 * sc if k == "cont" else x0
            else:
                var.value = None
        else:
            if t:
                if v["style"] in ("kw", "kw1") and k != "xsec":
                    if v["style"] == "kw1" and len(objs) == 1:
                        kw["target_object"] = objs[0]
                    else:
                        kw["target_objects"] = objs
                    if len(t["props"]) == 1 and v["style"] == "kw1":
                        kw["target_property"] = t["props"][0]
                    else:
                        kw["target_properties"] = list(t["props"])
                else:
                    kw["target"] = {"property": list(t["props"]) if t["aslist"] else t["props"][0], "objects": objs}
            kw["value"] = x0 * sc if x0 is not None and k in ("cont",) else x0
            if k == "cont":
                var = Variable(name, lb, ub, **kw)
            elif k == "int":
                var = IntegerVariable(name, lb, ub, **kw)
            elif k == "bool":
                var = BooleanVariable(name, **kw)
            elif k == "bin":
                var = BinaryVariable(name, **kw)
            elif k == "disc":
                var = DiscreteVariable(name, values=list(v["values"]), **kw)
            elif k == "index":
                var = IndexVariable(name, values=self.profiles(v), **kw)
            else:
                var = CrossSectionVariable(name, lb, ub, **kw)
        for f in v["scale"] or ():
            var.scale(f)
        return var

    def profiles(self, v):
        return [Prof(x) for x in v["values"]]

    # -- observation
    def model(self):
        m = {}
        for j, t in enumerate(self.mem):
            d = t.__dict__
            for a in ATTRS:
                m[j, a] = d[a]
            m[j, "profile"] = d["profile"].val if isinstance(d["profile"], Prof) else d["profile"]
            m[j, "xs"] = d["cross_section"].__dict__["Iy"]
            m[j, "active"] = d["active"]
            extra = set(d) - set(ATTRS) - {"profile", "cross_section", "active", "_w"}
            if extra:
                m[j, "extra"] = sorted(extra)
        return m


def same(a, b, rel=1e-12):
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    try:
        return abs(a - b) <= rel * max(1.0, abs(a), abs(b))
    except TypeError:
        return a is b


def check_design(lv, ref, what, cls="design"):
    """Variables, locks, bounds and the model are exactly what the history says."""
    s = lv.s
    if [id(v) for v in lv.P.all_vars] != [id(v) for v in lv.vars]:
        raise Violation(cls + ":variables", f"{what}: the variable list of the problem changed")
    for i, (v, var) in enumerate(zip(s["vars"], lv.vars)):
        if bool(var.locked) != ref.locked[i]:
            raise Violation(cls + ":lock", f"{what}: variable {i} locked={var.locked}, expected {ref.locked[i]}")
        if not (same(var.lb, v["lb"]) and same(var.ub, v["ub"])):
            raise Violation(cls + ":bounds", f"{what}: variable {i} has bounds {var.lb}, {var.ub}, defined as {v['lb']}, {v['ub']}")
        if not ref.known[i]:
            continue
        if ref.val[i] is None:
            if var.value is not None:
                raise Violation(cls + ":value", f"{what}: variable {i} ({v['k']}) got the value {var.value} although none was given")
        elif var.value is None or not same(var.value, ref.val[i]):
            raise Violation(cls + ":value", f"{what}: variable {i} ({v['k']}) has the value {var.value}, expected {ref.val[i]}")
    skip = {k for i, v in enumerate(s["vars"]) if not ref.known[i] for k in attr_values(v, init_value(s, v))}
    got = lv.model()
    if set(got) != set(ref.model):
        raise Violation(cls + ":model", f"{what}: the model has unexpected attributes {sorted(map(str, set(got) ^ set(ref.model)))}")
    for k, x in ref.model.items():
        if k not in skip and not same(got[k], x):
            raise Violation(cls + ":model", f"{what}: member {k[0]} has {k[1]} = {got[k]}, expected {x}")


# ------------------------------------------------------------------ faults
def gen_fault(r, kinds=("fea", "set", "line")):
    k = r.choice(kinds)
    if k == "fea":
        return {"kind": "fea", "n": r.pick([(1, 5), (2, 2), (3, 1), (5, 1)]), "when": r.choice(["before", "mid", "after"]), "exc": r.choice(["error", "memory", "interrupt"])}
    if k == "set":
        return {"kind": "set", "n": r.randint(1, 6), "exc": r.choice(["error", "memory", "interrupt"])}
    return {"kind": r.choice(["interrupt", "memory"]), "at": r.random()}


def make_exc(kind, base):
    return {"error": base("simulated"), "memory": SimMemoryError("simulated"), "interrupt": SimInterrupt("simulated Ctrl-C")}[kind]


def attempt(lv, fault, fn, what):
    """Run fn, with a fault if one is given.  Returns (done, value)."""
    if not fault:
        return True, fn()
    from .femlib import with_fault
    if fault["kind"] in ("interrupt", "memory"):
        box = {}

        def go():
            box["v"] = fn()
        if with_fault(fault, go, what):
            return False, None
        return True, box["v"]
    w = lv.w
    exc = make_exc(fault["exc"], SimAnalysisError if fault["kind"] == "fea" else SimTargetError)
    f = {"n": fault["n"], "when": fault.get("when"), "exc": exc, "fired": False}
    if fault["kind"] == "fea":
        w.fea_fault = f
    else:
        w.set_fault = f
    try:
        v = fn()
    except BaseException as e:
        if not f["fired"]:
            raise
        if e is not exc and fault["exc"] == "interrupt" and not isinstance(e, KeyboardInterrupt):
            raise Violation("fault-masked", f"{what}: an interruption surfaced as {type(e).__name__}: {e}")
        SIM.log("fault", fault["kind"], fault["n"], type(e).__name__)
        return False, None
    finally:
        w.fea_fault = w.set_fault = None
    if f["fired"]:
        raise Violation("fault-swallowed", f"{what}: a failing {'analysis' if fault['kind'] == 'fea' else 'model change'} ({type(exc).__name__}) was not reported to the caller")
    SIM.probe("fault-not-reached")
    return True, v
