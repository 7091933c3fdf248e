"""T02: portal trusses (a roof truss on two columns) carry exactly their loads, whatever happened to the model before."""
import copy
import math
import numpy as np
from . import raamilib as R
from .d02 import truss_feasible, family, ident, LIMIT
from sim.core import SIM, Violation
from metku.materials.steel_data import Steel
from metku.raami.raami_portal_truss import PortalTruss
from metku.sections.steel import catalogue
from metku.sections.steel.ISection import HEA, HEB
from metku.sections.steel.RHS import RHS

RUNS = {"quick": 260, "thorough": 6000}
RULE = ("A run draws a portal truss: span, height, K or N roof truss whose bottom chord ends at the columns or short of them, clamped or hinged columns, I-section or hollow columns, loads on the chords (uniform or in zones) "
        "and the columns in 1-3 cases. Then profile changes of chords, braces and columns, renewed calculation models, analyses of some or all cases and automatic sizing runs happen in any order, some interrupted or "
        "out of memory at a chosen statement and then repeated. After every analysis the base reactions balance the loads given between the faces of the columns in force and moment, the shear and moment along the columns follow "
        "their loads, symmetrical loads on a symmetrical portal give mirrored forces, and all member forces are those of a newly made portal that was given the same sections. After sizing that ends before its limit, members are in the steel, "
        "class and width asked for and within their utilisation if the catalogue allows it. Non-trivial: at least two analyses compared with something changed before.")
REAL = ["metku.raami PortalTruss, SlopedTruss, members, loads, sizing", "metku.framefem", "metku.structures.steel member design"]
STUB = ["statement counter that raises the injected fault"]
ASSUMPTIONS = ["joints of the columns are made with the separate chord nodes (y_joint_node=True) and column eccentricity, as in the examples of the module", "after profile changes and renewed models update_fem_joint_nodes is called, as sizing does",
               "an element that a load zone ends in carries the larger of the two zone loads as it was when the model was made; such cases are not compared with a new portal after a renewed model", "the ends of a bottom chord that stops short of the columns may carry up to 3 % more than its length"]


def gen(r, i, tier):
    touch = r.random() < 0.55
    h1 = r.choice([1200, 1500, 1800])
    d = {"L": r.choice([12000, 16000, 20000, 24000]), "H": r.choice([5000, 7000, 10000]), "h1": h1, "h2": h1 + r.choice([0, 400, 800]) if r.random() < 0.97 else h1, "dx": 0 if touch else r.choice([1000, 1500]),
         "topo": r.pick([("K", 3), ("N", 1.5)]), "ndiv": r.choice([2, 3, 4]), "up": True, "nelc": r.choice([2, 3, 4]), "nelb": r.choice([1, 2, 3]),
         "base": "pinned" if touch and r.random() < 0.4 else "fixed", "col": gen_col(r), "sway": True, "loads": []}
    for lc in r.sample([0, 1, 2, 10], r.randint(1, 3)):
        for k in r.sample(["top", "bottom", "left", "right", "zones"], r.randint(1, 3)):
            if k == "zones" and any(l["k"] == "top" and l["lc"] == lc for l in d["loads"]):
                continue
            l = {"k": k, "lc": lc, "q": float(r.choice([-5, -12, -20, -30])) if k in ("top", "bottom") else float(r.choice([3, 6, 9, -4]))}
            if k == "zones":
                n = r.randint(1, 3)
                l["q"] = [float(r.choice([-4, -10, -18])) for _ in range(n + 1)]
                l["x"] = sorted(round(r.uniform(0.15, 0.85), 3) for _ in range(n))
            d["loads"].append(l)
    plan = {"d": d, "ops": []}
    for _ in range(r.randint(3, 7)):
        k = r.pick([("analyse", 4), ("chord", 2), ("brace", 2), ("column", 1.5), ("regen", 1), ("size", 0.35)])
        op = {"op": k}
        if k == "analyse":
            op["lc"] = r.choice(["all", "all", 0.1, 0.5, 0.9])
        elif k == "chord":
            b = r.choice([120, 140, 150, 160, 180])
            op.update(which=r.choice(["top", "bottom"]), sec=[b, r.choice([b, b, 100]), r.choice([5, 6, 8]), r.choice([355, 420])])
        elif k == "brace":
            b = r.choice([60, 70, 80, 90, 100])
            op.update(x=r.random(), sec=[b, b, r.choice([3, 4, 5]), 355])
        elif k == "column":
            op["col"] = gen_col(r)
        elif k == "size":
            op.update(top=[r.choice(["S355", "S420"]), 2, r.choice([1.0, 0.8])], bottom=[r.choice(["S355", "S500"]), r.choice([2, 3]), r.choice([1.0, 0.7])], braces=["S355", 2, r.choice([1.0, 0.8])],
                      columns=["S355", 3, r.choice([1.0, 0.9])], wide=r.random() < 0.3)
        if r.random() < 0.2:
            op["fault"] = {"kind": r.choice(["interrupt", "memory"]), "at": r.random()}
        plan["ops"].append(op)
    if any(o["op"] == "size" for o in plan["ops"]):
        # sizing designs every member with up to a hundred sections in every case and round
        first = next(j for j, o in enumerate(plan["ops"]) if o["op"] == "size")
        plan["ops"] = [o for j, o in enumerate(plan["ops"]) if o["op"] != "size" or j == first]
        d["ndiv"], d["nelb"], d["nelc"] = 2, 1, 2
        lcs = sorted({l["lc"] for l in d["loads"]})[:2]
        d["loads"] = [l for l in d["loads"] if l["lc"] in lcs]
    plan["ops"].append({"op": "analyse", "lc": "all"})
    return plan


def gen_col(r):
    return [r.choice(["HEA", "HEA", "HEB"]), r.choice([240, 300, 360])] if r.random() < 0.75 else ["RHS", r.choice([200, 250]), r.choice([8, 10])]


def col_section(c):
    return RHS(c[1], c[1], c[2]) if c[0] == "RHS" else {"HEA": HEA, "HEB": HEB}[c[0]](c[1])


def col_copy(s):
    t = type(s).__name__
    if t in ("RHS", "SHS"):
        return RHS(s.H, s.B, s.T, int(s.fy))
    o = catalogue.make_section(next(k for k, v in family(t).items() if v == ident(s)))
    o.material = s.material
    return o


def build(d):
    p = PortalTruss(span=d["L"], height_eaves=d["H"])
    p.create_truss(topology=d["topo"], ndiv=d["ndiv"], h2=d["h2"], h1=d["h1"], dx=d["dx"], nel_chord=d["nelc"], nel_brace=d["nelb"], first_diagonal_up=d["up"], truss_type="connected" if d["dx"] == 0 else "simple")
    for l in d["loads"]:
        if l["k"] in ("top", "bottom"):
            p.generate_uniform_load("truss", q=l["q"], member=l["k"], load_id=l["lc"], ltype="snow")
        elif l["k"] == "zones":
            p.generate_piecewise_uniform_load(list(l["q"]), [x * d["L"] for x in l["x"]], load_id=l["lc"], ltype="wind")
    p.create_columns(profile=col_section(d["col"]))
    p.create_truss_to_column_joints(y_joint_node=True)
    p.generate_supports(d["base"])
    p.symmetry()
    for l in d["loads"]:
        if l["k"] in ("left", "right"):
            p.generate_uniform_load("column", q=l["q"], member=l["k"], load_id=l["lc"], ltype="wind")
    p.generate_fem(truss_eccentricity=True, column_eccentricity=True)
    p.update_fem_joint_nodes()
    return p


def truss_members(p):
    return {k: m for k, m in p.members.items() if not any(m is c for c in p.columns)}


def spans(m):
    return list(m.members) if hasattr(m, "members") and not hasattr(m, "joints") else [m]


def sections(p):
    return {k: (m.cross_section.H, m.cross_section.B, m.cross_section.T, int(m.cross_section.fy)) for k, m in truss_members(p).items()}


def assign(p, secs, col):
    for k, s in secs.items():
        p.members[k].cross_section = RHS(*s)
    p.col_profile = col
    p.update_fem_joint_nodes()


def forces(p, lc):
    return {(k, i): {q: np.array([float(v) for v in x.nodal_forces[lc][q]]) for q in ("N", "Vz", "My")} for k, m in p.members.items() for i, x in enumerate(spans(m))}


def compare(a, b, what, cls):
    scale = max([1.0] + [float(np.max(np.abs(v["N"]))) for v in b.values()] + [float(np.max(np.abs(v["My"]))) / 1000 for v in b.values()])
    for k in b:
        for q in ("N", "Vz", "My"):
            tol = 2e-5 * scale * (1000 if q == "My" else 1)
            if a[k][q].shape != b[k][q].shape or not np.all(np.abs(a[k][q] - b[k][q]) <= tol):
                raise Violation(cls, f"{what}: {q} of member {k[0]} is {a[k][q].tolist()}, should be {b[k][q].tolist()}")


def zoned(d, lc):
    return any(l["k"] == "zones" and l["lc"] == lc for l in d["loads"])


def width_of_column(p):
    return float(p.columns[0].cross_section.h)


def loads_of(d, lc, hc):
    """Vertical resultant of the case, its moment about the left base, horizontal resultant, relative uncertainty of the vertical ones."""
    W = M = V = 0.0
    tol = 0.0
    rise = (d["h2"] - d["h1"]) / (0.5 * d["L"])
    for l in d["loads"]:
        if l["lc"] != lc:
            continue
        a, b = 0.5 * hc, d["L"] - 0.5 * hc
        if l["k"] in ("top", "zones"):
            x = [a] + [u * d["L"] for u in l.get("x", [])] + [b]
            q = l["q"] if l["k"] == "zones" else [l["q"]]
            for qi, x1, x2 in zip(q, x, x[1:]):
                w = qi * (x2 - x1) * math.hypot(1, rise)
                W += w
                M += w * 0.5 * (x1 + x2)
            tol += sum(abs(u - v) for u, v in zip(q, q[1:])) * (d["L"] / (2 * d["ndiv"] * d["nelc"]) * 1.3 + 800)
        elif l["k"] == "bottom":
            if d["dx"]:
                a, b = d["dx"], d["L"] - d["dx"]
                tol += 0.03 * abs(l["q"]) * (b - a)
            W += l["q"] * (b - a)
            M += l["q"] * (b - a) * 0.5 * d["L"]
        else:
            V += l["q"] * d["H"]
            M -= l["q"] * d["H"] ** 2 / 2
    return W, M, V, tol


def balance(p, d, lc):
    hc = width_of_column(p)
    base = [spans(c)[0].nodal_forces[lc] for c in p.columns]
    N, Q, B = ([float(b[q][0]) for b in base] for q in ("N", "Vz", "My"))
    W, M, V, tol = loads_of(d, lc, hc)
    scale = abs(W) + abs(V) + tol + 1.0
    if abs(sum(N) - W) > 2e-4 * scale + tol:
        raise Violation("equilibrium:vertical", f"case {lc}: the columns carry {sum(N):.1f} N, the loads of the case are {W:.1f} N")
    if abs(sum(Q) - V) > 2e-4 * scale:
        raise Violation("equilibrium:horizontal", f"case {lc}: the bases take {sum(Q):.1f} N sideways, the loads of the case are {V:.1f} N")
    m = sum(B) + N[1] * d["L"]
    # loads of uncertain extent balance about midspan when they are symmetrical
    if abs(m - M) > 2e-4 * scale * d["L"] + tol * d["L"]:
        raise Violation("equilibrium:moment", f"case {lc}: moment of the base reactions about the left base {m:.1f} Nmm, of the loads {M:.1f} Nmm")
    if d["base"] == "pinned" and max(abs(x) for x in B) > 1e-5 * scale * d["L"]:
        raise Violation("hinge", f"case {lc}: hinged bases have moments {B}")
    return scale


def columns(p, d, lc, scale):
    """Within a column piece the shear changes by the load of the piece and the moment by the shear."""
    for side, c in zip(("left", "right"), p.columns):
        q = sum(l["q"] for l in d["loads"] if l["k"] == side and l["lc"] == lc)
        for x in spans(c):
            nf = x.nodal_forces[lc]
            n, v, m = (np.array([float(u) for u in nf[k]]) for k in ("N", "Vz", "My"))
            ends = np.array([float(u) for u in x.local_node_coords])
            s = (ends - ends[0]) / (ends[-1] - ends[0]) * float(x.length())
            if len(s) != len(v):
                raise Violation("stations", f"case {lc}: {side} column has forces at {len(v)} stations, nodes at {len(s)}")
            want = v[0] - q * s, m[0] + v[0] * s - q * s ** 2 / 2
            if np.max(np.abs(n - n[0])) > 1e-5 * scale:
                raise Violation("column:axial", f"case {lc}: axial force along the {side} column {n.tolist()}")
            if np.max(np.abs(v - want[0])) > 1e-4 * scale or np.max(np.abs(m - want[1])) > 1e-4 * scale * d["H"]:
                raise Violation("column:statics", f"case {lc}: {side} column: shear {v.tolist()}, moment {m.tolist()}; statics gives {want[0].tolist()}, {want[1].tolist()}")


def hinged(p, d, lc, scale):
    """The chords are hinged where they meet the columns."""
    for name in ("top_chord", "bottom_chord")[:2 if d["dx"] == 0 else 1]:
        for end in (0, -1):
            m = getattr(p.truss, name)[end]
            k = next(j for j, x in p.members.items() if x is m)
            my = [float(v) for v in m.nodal_forces[lc]["My"]]
            if min(abs(my[0]), abs(my[-1])) > 1e-5 * scale * 1000:
                raise Violation("hinge:chord", f"case {lc}: no hinge at the column end of {k}, moments {my}")


def mirrored(p, d, lc, scale):
    """Truss loads that do not distinguish left from right give mirrored base reactions."""
    if any(l["k"] in ("left", "right", "zones") for l in d["loads"] if l["lc"] == lc):
        return
    secs = sections(p)
    if any(secs[k] != secs[j] for k, m in truss_members(p).items() if m.symmetry_pair is not None for j, x in p.members.items() if x is m.symmetry_pair):
        return
    base = [spans(c)[0].nodal_forces[lc] for c in p.columns]
    (n0, v0, m0), (n1, v1, m1) = ([float(b[q][0]) for q in ("N", "Vz", "My")] for b in base)
    if abs(n0 - n1) > 1e-3 * scale or abs(v0 + v1) > 1e-3 * scale or abs(m0 + m1) > 1e-3 * scale * d["H"]:
        raise Violation("symmetry", f"case {lc}: symmetrical loads, reactions {n0, v0, m0} and {n1, v1, m1}")


def run(plan):
    d = copy.deepcopy(plan["d"])
    with SIM.quiet():
        p = build(d)
    cases = sorted({l["lc"] for l in d["loads"]})
    state = {"n": 0, "dirty": False, "redrawn": False}
    count = [0]
    real = p.structural_analysis

    def counted(*a, **k):
        count[0] += 1
        return real(*a, **k)
    p.structural_analysis = counted

    def fresh(design=False):
        with SIM.quiet():
            f = build(d)
            assign(f, sections(p), col_copy(p.columns[0].cross_section))
            f.structural_analysis("all", support_method="REM", design=design)
        return f

    def check(which, what):
        f = fresh()
        for lc in which:
            scale = balance(p, d, lc)
            columns(p, d, lc, scale)
            hinged(p, d, lc, scale)
            mirrored(p, d, lc, scale)
            if not (state["redrawn"] and zoned(d, lc)):
                compare(forces(p, lc), forces(f, lc), f"{what}, case {lc}, against a newly made portal", "history")
        SIM.log("analysed", which, [[round(float(v), 3) for v in spans(c)[0].nodal_forces[lc]["N"]] for c in p.columns for lc in which])
        state["n"] += state["dirty"]

    def attempt(op, fn, what):
        with SIM.quiet():
            if op.get("fault") and R.with_fault(op["fault"], fn, what):
                state["dirty"] = True
            fn()

    def change(fn):
        def go():
            fn()
            p.update_fem_joint_nodes()
        return go
    for op in plan["ops"]:
        k = op["op"]
        if k == "analyse":
            which = cases if op["lc"] == "all" else [cases[int(op["lc"] * len(cases))]]
            attempt(op, lambda: p.structural_analysis("all" if op["lc"] == "all" else which[0], support_method="REM", design=False), "analysis of a portal")
            check(which, "analysis")
        elif k == "chord":
            g = p.member_groups[op["which"] + "_chord"]
            attempt(op, change(lambda: setattr(g, "cross_section", RHS(*op["sec"]))), "new profile of a chord")
            state["dirty"] = True
        elif k == "brace":
            bs = [m for m in truss_members(p).values() if any(m is b for b in p.truss.braces.values())]
            m = bs[int(op["x"] * len(bs))]
            attempt(op, change(lambda: setattr(m, "cross_section", RHS(*op["sec"]))), "new profile of a brace")
            state["dirty"] = True
        elif k == "column":
            attempt(op, change(lambda: setattr(p, "col_profile", col_section(op["col"]))), "new profile of the columns")
            state["dirty"] = True
        elif k == "regen":
            attempt(op, change(lambda: p.generate_fem(truss_eccentricity=True, column_eccentricity=True)), "new calculation model")
            state["redrawn"] = True
            state["dirty"] = True
        elif k == "size":
            kw = {g: dict(zip(("material", "class", "utility"), op[g])) for g in ("top", "bottom", "columns")}
            kw["braces"] = {"material": op["braces"][0], "class": op["braces"][1], "utility_tens": op["braces"][2], "utility_comp": op["braces"][2]}
            with SIM.quiet():
                if op.get("fault") and R.with_fault(op["fault"], lambda: p.optimize_members(limit_width=op["wide"], **kw), "portal sizing"):
                    state["dirty"] = True
                count[0] = 0
                p.optimize_members(limit_width=op["wide"], **kw)
            state["dirty"] = True
            done = count[0] < LIMIT
            SIM.probe("portal:" + ("converged" if done else "limit"))
            for k2, m in p.members.items():
                for x in spans(m):
                    for e in x.fem_elements:
                        if not np.allclose([e.section.A, e.section.I[0]], [m.cross_section.A, m.cross_section.I[0]], rtol=1e-9):
                            raise Violation("element-section", f"after sizing an element of member {k2} has {e.section!r}, the member {m.cross_section!r}")
            if done:
                sized(p, d, op, fresh(True), cases, state["redrawn"])
    return {"nontrivial": state["n"] >= 2, "compared": state["n"]}


def sized(p, d, op, f, cases, redrawn):
    if redrawn and any(zoned(d, lc) for lc in cases):
        return
    for lc in cases:
        compare(forces(p, lc), forces(f, lc), f"after sizing, case {lc}, against a newly made portal with the sections chosen", "sizing:forces")
        for k, m in p.members.items():
            got, want = float(m.utilization[lc]), float(f.members[k].utilization[lc])
            if abs(got - want) > 1e-3 * max(1, want):
                raise Violation("sizing:reported", f"member {k}, case {lc} after sizing: reported utilisation {got!r}, a newly made portal with the chosen sections gives {want!r}")
    secs = sections(p)
    wide = max(secs[k][1] for k, m in truss_members(p).items() if any(m is b for b in p.truss.braces.values())) if op["wide"] else 0.0
    for k, m in truss_members(p).items():
        g = next((x for x in ("top", "bottom") if any(m is y for y in p.member_groups[x + "_chord"].members)), "braces")
        mat, cls, util = op[g]
        if m.cross_section.fy != Steel(mat).fy:
            raise Violation("sizing:grade", f"member {k} was to be sized in {mat} and ended with {m.cross_section!r} S{m.cross_section.fy:.0f}")
        o = RHS(*secs[k])
        o.Ned = -1
        worst = max(float(f.members[k].utilization[lc]) for lc in cases)
        for what, bad in (("class", o.section_class() > cls), ("width", g != "braces" and o.B < wide), ("utilisation", worst > util * (1 + 1e-3))):
            if not bad:
                continue
            SIM.probe("none-enough")
            unit = p.member_groups[g + "_chord"].members if g != "braces" else [m] + ([m.symmetry_pair] if m.symmetry_pair is not None else [])
            keys = [j for j, x in p.members.items() if any(x is y for y in unit)]
            with SIM.quiet():
                good = truss_feasible(f, keys, mat, cls, util * (1 - 1e-3), cases, wide if g != "braces" else 0.0)
            if good:
                raise Violation("sizing:" + what, f"sizing ended with {m.cross_section!r} for member {k} (utilisation {worst:.4f}, allowed {util}), which does not respect the {what} asked for, although {good} would do")
    mat, cls, util = op["columns"]
    for c in p.columns:
        k = next(j for j, x in p.members.items() if x is c)
        worst = max(float(f.members[k].utilization[lc]) for lc in cases)
        t = type(c.cross_section).__name__
        table = {"HEA": "hea_profiles", "HEB": "heb_profiles", "RHS": "rhs_profiles", "SHS": "rhs_profiles"}[t]
        if worst > util * (1 + 1e-3) and t in ("HEA", "HEB") and float(c.cross_section.A) < max(float(catalogue.make_section(x).A) for x in list(getattr(catalogue, table))[-1:]) - 1:
            raise Violation("sizing:column", f"sizing ended with {c.cross_section!r} for a column, utilisation {worst:.4f}, allowed {util}, though heavier sections are in the catalogue")
