"""C01: section properties always follow the current dimensions, steel grade and forces."""
import copy
import numpy as np
from sim.core import SIM, Violation
from .femlib import with_fault
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.wi import WISection
from metku.sections.steel.ISection import IPE, HEA, HEB, HEM

RUNS = {"quick": 1500, "thorough": 20000}
RULE = ("1-3 live sections (hollow, welded I symmetric or not, rolled I) to which more may be added go through dimension changes one at a time (one value, both flanges by list, web height), steel grade "
        "changes by name or number, force changes (whole list or one component), reads of any property or method in any order, and dimension or grade changes interrupted or out of memory at a chosen "
        "statement and then repeated. After every change a full dump (about 60 properties) of each section equals that of a section newly created with the same data, in two read orders; a read of one "
        "property leaves the dump of all sections as it was. Non-trivial: a dump was compared after a change that followed earlier reads.")
REAL = ["metku.sections.steel (RHS, SHS, WISection, ISection family)", "metku.materials.steel_data", "metku.eurocodes.en1993"]
STUB = ["interruption and memory faults at chosen statements"]
ASSUMPTIONS = ["classes of parts and effective parts left in web_class, flanges_class and eff_* by a computation are by-products, not properties",
               "expected values come from the constructor of the same class: their correctness against the standard is N01"]

GRADES = ["S235", "S275", "S355", "S420", "S460M", "S500", "S700", 235, 275, 355, 420, 500, 700.0, 355.0]
ATTR = ["A", "I", "Au", "Wpl", "Wel", "Ashear", "It", "Iw", "fy", "fu", "E", "G", "eps", "epsilon", "Iy", "Iz", "Wply", "Wplz", "Wely", "Welz", "NRd", "VRd", "VyRd",
        "VzRd", "MRd", "MyRd", "MzRd", "C", "imp_factor", "imp_factor_LT", "imp_factor_LT_gen", "section_factor", "box_section_factor", "h", "b", "density"]
METH = ["iy", "iz", "i0", "weight", "self_weight", "cost", "sigma_com", "sigmaN", "sigmaM", "section_class", "axial_force_resistance", "bending_resistance", "flange_class",
        "web_class_comp", "web_class_bend", "shear_force_resistance", "section_resistance", "elastic_bending_resistance", "plastic_bending_resistance", "__repr__"]
KIND = {"rhs": (["H", "B", "T", "R", "t", "r", "c_web", "c_flange"], ["torsional_constant"]),
        "wi": (["tw", "tt", "tb", "bt", "bb", "tf", "hw", "Aw", "Izw", "Iyw", "zw", "Ab", "Izb", "zb", "At", "zt", "cf_top", "cf_bottom", "cw", "MfRd", "NtopRd", "NbottomRd", "zs", "zj", "Aeff",
                "I_eff_y", "W_eff_y", "Weff", "hneg"],
               ["effective_area", "elastic_neutral_axis", "plastic_neutral_axis", "shear_buckling_resistance", "transverse_load_resistance"]),
        "i": (["tf", "tw", "r", "hw"], ["shear_buckling_resistance"])}
KIND["shs"] = KIND["rhs"]
ROLLED = [("IPE", 100), ("IPE", 200), ("IPE", 300), ("IPE", 600), ("HEA", 100), ("HEA", 240), ("HEA", 400), ("HEB", 200), ("HEB", 600), ("HEM", 300)]
# dimension ranges: (low, high)
DIMS = {"rhs": {"H": (60, 400), "B": (60, 300), "T": (3, 12.5)}, "shs": {"H": (60, 300), "B": (60, 300), "T": (3, 12.5)},
        "wi": {"h": (150, 1600), "tw": (4, 15), "bt": (80, 500), "bb": (80, 500), "tt": (5, 50), "tb": (5, 50), "weld_throat": (3, 7)}, "i": {}}


def names(k):
    a, m = KIND[k]
    return ATTR + a, METH + m


def draw(r, lo, hi):
    v = r.uniform(lo, hi)
    return r.choice([round(v), round(v), round(v, 1), v]) or lo


def gen_spec(r):
    k = r.pick([("rhs", 3), ("shs", 1), ("wi", 5), ("i", 1.5)])
    s = {"k": k, "fy": r.choice(GRADES), "Ned": 0.0, "Med": [0.0, 0.0], "Ved": [0.0, 0.0]}
    if k == "i":
        s["name"] = r.choice(ROLLED)
    d = {n: draw(r, *rg) for n, rg in DIMS[k].items()}
    if k == "shs":
        d["B"] = d["H"]
    if k == "wi" and r.random() < 0.5:
        d["bb"], d["tb"] = d["bt"], d["tt"]
    s["dim"] = d
    return s


def build(s):
    d, k = s["dim"], s["k"]
    if k == "i":
        o = {"IPE": IPE, "HEA": HEA, "HEB": HEB, "HEM": HEM}[s["name"][0]](s["name"][1], s["fy"])
    elif k == "wi":
        o = WISection(d["h"], d["tw"], [d["bt"], d["bb"]], [d["tt"], d["tb"]], fy=s["fy"], weld_throat=d["weld_throat"])
    elif k == "shs" and d["H"] == d["B"]:
        o = SHS(d["H"], d["T"], s["fy"])
    else:
        o = (RHS if k == "rhs" else SHS)(*((d["H"], d["B"], d["T"]) if k == "rhs" else (d["H"], d["T"])), s["fy"])
        if k == "shs":
            o.B = d["B"]
    o.Ned, o.Med, o.Ved = s["Ned"], list(s["Med"]), list(s["Ved"])
    return o


def gen_op(r, s, i):
    k = s["k"]
    c = r.pick([("dim", 5 if k != "i" else 0), ("grade", 2), ("force", 3), ("read", 6), ("new", 0.7)])
    op = {"op": c, "i": i}
    if c == "dim":
        keys = list(DIMS[k])
        if k == "wi":
            keys += ["b", "tf", "hw", "b2", "tf2"]
        n = r.choice(keys)
        if n in ("b", "tf"):
            v = draw(r, *DIMS["wi"]["bt" if n == "b" else "tt"])
        elif n in ("b2", "tf2"):
            v = [draw(r, *DIMS["wi"]["bt" if n == "b2" else "tt"]) for _ in range(2)]
        elif n == "hw":
            v = draw(r, 140, 1500)
        else:
            v = draw(r, *DIMS[k][n])
        if r.random() < 0.2 and n in s["dim"]:
            v = s["dim"][n]                      # assigning the present value again
        op.update(name=n, v=v)
    elif c == "grade":
        op["v"] = r.choice(GRADES)
    elif c == "force":
        op["what"] = r.choice(["Ned", "Med", "Ved", "Med0", "Med1", "Ved0", "Ved1"])
        f = lambda: r.choice([0.0, 0.0, r.choice([-1, 1]) * r.uniform(1e3, 5e5), r.choice([-1, 1]) * r.uniform(1e3, 5e5)])
        m = 1e3 if op["what"].startswith("Med") else 1
        op["v"] = [m * f(), m * f()] if op["what"] in ("Med", "Ved") else m * f()
    elif c == "read":
        a, m = names(k)
        op["names"] = [r.choice(a + m) for _ in range(r.randint(1, 5))]
        if k == "wi" and r.random() < 0.4:
            op["names"].append(r.choice(["Aeff", "hneg", "effective_area", "W_eff_y", "MRd", "web_class_bend", "I_eff_y"]))
    if c in ("dim", "grade") and r.random() < 0.2:
        op["fault"] = {"kind": r.choice(["interrupt", "memory"]), "at": r.random()}
    return op


def apply_spec(s, op):
    c = op["op"]
    if c == "dim":
        n, v, d = op["name"], op["v"], s["dim"]
        if n in ("b", "b2"):
            d["bt"], d["bb"] = v if n == "b2" else (v, v)
        elif n in ("tf", "tf2"):
            d["tt"], d["tb"] = v if n == "tf2" else (v, v)
        elif n == "hw":
            d["h"] = v + d["tt"] + d["tb"]
        else:
            d[n] = v
    elif c == "grade":
        s["fy"] = op["v"]
    elif c == "force":
        w = op["what"]
        if w[-1] in "01":
            s[w[:-1]][int(w[-1])] = op["v"]
        else:
            s[w] = list(op["v"]) if isinstance(op["v"], list) else op["v"]


def valid(s):
    d = s["dim"]
    if s["k"] == "wi":
        return d["h"] - d["tt"] - d["tb"] > 60 and min(d["bt"], d["bb"]) - d["tw"] > 30
    if s["k"] in ("rhs", "shs"):
        return min(d["H"], d["B"]) > 7 * d["T"]
    return True


def apply_live(o, op):
    c = op["op"]
    if c == "dim":
        n = op["name"]
        setattr(o, n[:-1] if n in ("b2", "tf2") else n, list(op["v"]) if isinstance(op["v"], list) else op["v"])
    elif c == "grade":
        o.material = op["v"]
    elif c == "force":
        w = op["what"]
        if w[-1] in "01":
            getattr(o, w[:-1])[int(w[-1])] = op["v"]
        else:
            setattr(o, w, list(op["v"]) if isinstance(op["v"], list) else op["v"])


def flat(v):
    if isinstance(v, str):
        return v
    if v is NotImplemented or v is None:
        return str(v)
    if isinstance(v, (list, tuple, np.ndarray)):
        return [flat(x) for x in v]
    return float(v)


def read(o, n, meth):
    try:
        v = getattr(o, n)
        return flat(v() if meth else v)
    except (SIM_EXC, Violation):
        raise
    except Exception as e:
        return "raises " + type(e).__name__


SIM_EXC = MemoryError


def dump(o, k, rev=False):
    a, m = names(k)
    todo = [(n, False) for n in a] + [(n, True) for n in m]
    if rev:
        todo.reverse()
    return {n: read(o, n, f) for n, f in todo}


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) or (a != a and b != b)
    return a == b


def same(got, want, cls, what):
    for n in want:
        if not close(got[n], want[n]):
            raise Violation(cls, f"{what}: {n} = {got[n]!r}, expected {want[n]!r}")


def gen(r, i, tier):
    specs = [gen_spec(r) for _ in range(r.pick([(1, 3), (2, 2), (3, 1)]))]
    for j in range(len(specs)):
        while not valid(specs[j]):
            specs[j] = gen_spec(r)
    cur = copy.deepcopy(specs)
    ops = []
    for _ in range(r.randint(5, 20 if tier == "quick" else 45)):
        j = r.randrange(len(cur))
        op = gen_op(r, cur[j], j)
        t = copy.deepcopy(cur[j])
        apply_spec(t, op)
        if not valid(t):
            continue
        if op["op"] == "new":
            if len(cur) >= 5:
                continue
            cur.append(t)
        else:
            cur[j] = t
        ops.append(op)
    return {"init": specs, "ops": ops}


def run(plan):
    specs = copy.deepcopy(plan["init"])
    with SIM.quiet():
        live = [build(s) for s in specs]
        n = 0
        readbefore = False
        SIM.probe("sections", len(live))
        for op in plan["ops"]:
            j = op["i"]
            if j >= len(live):
                continue
            s, o = specs[j], live[j]
            c = op["op"]
            SIM.log(c, j, op.get("name") or op.get("what"))
            if c == "new":
                specs.append(copy.deepcopy(s))
                live.append(build(s))
                check(live, specs, f"after creating another section like {j}")
                continue
            if c == "read":
                before = [dump(x, y["k"]) for x, y in zip(live, specs)]
                a, m = names(s["k"])
                got = {}
                for nm in op["names"]:
                    got[nm] = read(o, nm, nm in m)
                for q, (x, y) in enumerate(zip(live, specs)):
                    same(dump(x, y["k"]), before[q], "read-changed", f"section {q} after reading {op['names']} of section {j}")
                same(got, {k: before[j][k] for k in got}, "read-order", f"section {j} read in another order")
                readbefore = True
                n += 1
                continue
            t = copy.deepcopy(s)
            apply_spec(t, op)
            if not valid(t):
                continue
            if op.get("fault"):
                if with_fault(op["fault"], lambda: apply_live(o, op), c):
                    apply_live(o, op)
            else:
                apply_live(o, op)
            specs[j] = t
            check(live, specs, f"after {op}", rev=n % 2 == 1)
            n += readbefore
    return {"nontrivial": n > 0, "compared": n}


def check(live, specs, what, rev=False):
    for q, (x, y) in enumerate(zip(live, specs)):
        want = dump(build(y), y["k"])
        same(dump(x, y["k"], rev), want, "stale", f"section {q} ({y['k']}) {what}, compared with a new section")
        same(dump(x, y["k"], not rev), want, "stale", f"section {q} ({y['k']}) {what}, read again, compared with a new section")
