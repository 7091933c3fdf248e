"""F07: frames of beams, columns and braces assembled in Frame2D, with hinged, semi-rigid or rigid beam ends."""
import contextlib
import copy
import numpy as np
from sim.core import SIM, Violation, HarnessError
from sim import reffem
from .femlib import with_fault, FAULTS

from metku.frame2d import frame2d as F
from metku.frame2d.simple_truss import SimpleTruss
from metku.structures.steel.steel_member import SteelMember

RUNS = {"quick": 1800, "thorough": 16000}
RULE = ("A run draws a plane frame (storey frame made by the library, the same frame from its members, portal with a gable roof, continuous beam; braces; rigid, semi-rigid and hinged beam "
        "ends; supports; point and line loads of 1-3 load cases with factors; self-weight) whose parts are added in a drawn order, generates the model and then draws profile and "
        "joint-stiffness changes and analyses of one or all cases, some interrupted, out of memory or with a failing solver. Every completed analysis is compared with an independent "
        "mechanics reference (own degrees of freedom for every spring): joint displacements, end forces, member extremes, forces handed to member design; the utilisation with that of "
        "a new member. Non-trivial: an analysis was compared after a change that followed an earlier analysis.")
REAL = ["metku.frame2d (Frame2D, members, supports, loads)", "metku.framefem (FrameFEM, EBBeam, EBSemiRigidBeam, Rod)", "metku steel sections and member design"]
STUB = ["interruption and memory faults at chosen statements", "failing equation solver"]
ASSUMPTIONS = ["parts are added before the model is generated, and it is generated once", "members meet at their ends or cross at right angles to the axes",
               "steel members"]
PROFILES = ["IPE 100", "IPE 200", "IPE 300", "IPE 360", "HE 160 A", "HE 240 A", "HE 200 B", "RHS 150X100X5.0", "SHS 120X6.0", "WI 300-6-10-150-10-150"]
SUP = {"fix": (F.FixedSupport, [0, 1, 2]), "pin": (F.XYHingedSupport, [0, 1]), "xr": (F.XHingedSupport, [0]), "yr": (F.YHingedSupport, [1])}
LIDS = {"ULS": F.LoadIDs.ULS, "SLS": F.LoadIDs.SLS_Charasteristic, "ACC": F.LoadIDs.Accidental, "7": 7}
RIGID, HINGE = 1e20, 1e-4
LTYPES = ["live", "live", "dead", "snow", "wind"]


# ---------------------------------------------------------------- generation
def stiffness(r):
    return r.pick([("inf", 3), (0.0, 2), (float(10 ** r.uniform(7.5, 11.5)), 5)])


def gen_spec(r):
    kind = r.pick([("simple", 3), ("portal", 3), ("gable", 3), ("beam", 3), ("grid", 3), ("truss", 3)])
    if kind == "truss":
        return gen_truss(r)
    s = {"kind": kind, "m": [], "sup": [], "pl": [], "ll": [], "sw": False, "ne": None, "supports": None}

    def mem(a, b, t, ne=None):
        s["m"].append({"c": [list(a), list(b)], "t": t, "prof": r.choice(PROFILES), "ne": ne or r.choice([1, 2, 3, 4, 5, 6]),
                       "S": [stiffness(r), stiffness(r)] if t == "beam" else [r.pick([("inf", 3), (0.0, 1)]) for _ in range(2)] if t == "plain" else ["inf", "inf"]})

    if kind in ("simple", "portal"):
        st, bays = r.choice([1, 1, 2]), r.choice([1, 1, 2])
        h, b = r.choice([3000, 3500, 4200.5]), r.choice([4000, 5000, 6500.25])
        s["dims"] = [st, bays, h, b]
        for k in range(bays + 1):
            for q in range(st):
                mem((k * b, q * h), (k * b, (q + 1) * h), "column")
        for k in range(bays):
            for q in range(st):
                mem((k * b, (q + 1) * h), ((k + 1) * b, (q + 1) * h), "plain" if kind == "portal" and r.random() < 0.2 else "beam")
        if kind == "simple":
            s["ne"] = r.choice([None, 2, 3, 5])
            s["supports"] = r.choice([None, "fixed", "XYHINGED"])
            for m in s["m"]:
                m["ne"] = s["ne"] or 4
                m["prof"] = "IPE 100"
                m["S"] = ["inf", "inf"]
        else:
            for m in s["m"]:
                if r.random() < 0.15 and m["t"] != "column":
                    m["c"].reverse()
            if r.random() < 0.3:
                mem((0, 0), (b, h), "bar")
                if r.random() < 0.5:
                    mem((0, h), (b, 0), "bar")
        feet = [(k * b, 0) for k in range(bays + 1)]
    elif kind == "gable":
        h, b, rise = r.choice([4000, 5000]), r.choice([8000, 12000]), r.choice([600, 1200, 1600])
        mem((0, 0), (0, h), "column")
        mem((b, 0), (b, h), "column")
        mem((0, h), (b / 2, h + rise), "beam")
        mem((b / 2, h + rise), (b, h), "beam")
        if r.random() < 0.4:
            mem((0, h), (b, h), "bar")
        if r.random() < 0.4:
            mem((b / 4, 0), (b / 4, h + rise / 2), "column")
        feet = [(0, 0), (b, 0)] + [(b / 4, 0)] * (s["m"][-1]["c"][0][0] == b / 4)
    elif kind == "grid":
        # members running through several storeys and bays: joints where they cross, columns standing on beams, beams framing into columns
        st, bays = r.choice([1, 2, 3]), r.choice([1, 2, 3])
        h, b = r.choice([3000, 3500, 4200.5]), r.choice([4000, 5000, 6500.25])
        for k in range(bays + 1):
            mem((k * b, 0), (k * b, st * h), "column")
        for q in range(st):
            mem((0, (q + 1) * h), (bays * b, (q + 1) * h), r.pick([("beam", 3), ("plain", 1)]))
        if r.random() < 0.4:
            q = r.choice([0.5, 1 / 3, 0.7])
            mem((0, q * h), (b, q * h), "beam")
        if r.random() < 0.4:
            q = r.choice([0.5, 1 / 3, 0.7])
            mem((q * b, st * h), (q * b, (st + 1) * h), "column")
        if r.random() < 0.4:
            mem((0, 0), (b, h), "bar")
            mem((0, h), (b, 0), "bar")
        feet = [(k * b, 0) for k in range(bays + 1)]
    else:
        n = r.randint(1, 3)
        x, feet = 0, [(0, 0)]
        for _ in range(n):
            L = r.choice([3000, 4000, 5500.5])
            mem((x, 0), (x + L, 0), r.pick([("beam", 4), ("plain", 1)]))
            x += L
            feet.append((x, 0))
        s["sup"].append({"c": list(feet[0]), "k": r.choice(["pin", "fix"])})
        for f in feet[1:]:
            s["sup"].append({"c": list(f), "k": r.choice(["yr", "pin", "fix"])})
        if r.random() < 0.4:
            m = r.choice(s["m"])
            s["sup"].append({"c": along(m, r.choice([0.25, 0.5, 0.4])), "k": "yr"})
    if kind != "beam" and not s["supports"]:
        for f in feet:
            s["sup"].append({"c": list(f), "k": r.choice(["fix", "fix", "pin"])})
    if kind not in ("simple", "beam"):
        for m in s["m"]:
            if r.random() < 0.25 and m["t"] == "column":
                m["c"].reverse()
        if r.random() < 0.4:
            m = r.choice([m for m in s["m"] if m["t"] != "bar"])
            s["sup"].append({"c": along(m, r.choice([0, 1, 0.5] if kind == "gable" else [0, 1, 0.5, 0.4])), "k": r.choice(["xr", "yr", "yr", "pin"])})
    for p in list(s["sup"]):
        if p["k"] == "pin" and r.random() < 0.2:
            p["k"] = "xr"
            s["sup"].append({"c": list(p["c"]), "k": "yr"})
    lids = r.sample(sorted(LIDS), r.randint(1, 3))
    beams = [i for i, m in enumerate(s["m"]) if m["t"] != "bar"]
    for lid in lids:
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.5:
                m = s["m"][r.choice(beams)]
                t = r.choice([0, 1, 0.5, 0.25, 1 / 3, 0.4, 0.15]) if m["c"][0][0] == m["c"][1][0] or m["c"][0][1] == m["c"][1][1] else r.choice([0, 1, 0.5])
                s["pl"].append({"c": along(m, t), "v": [r.choice([0, 8e3, -3e3]), r.choice([0, -2e4, 5e3]), r.choice([0, 0, 4e6])], "lid": lid,
                                "f": r.choice([1.0, 1.0, 1.35, 0.5]), "name": r.pick([("PointLoad", 6), ("PointLoad1", 1), ("PointLoad2", 1), ("wind", 1)]), "ltype": r.choice(LTYPES)})
            else:
                q1 = r.choice([-5.0, -12.5, 3.0])
                s["ll"].append({"m": r.choice(beams), "q": [q1, q1 if r.random() < 0.6 else r.choice([0.0, -8.0, 2.0])], "dir": r.choice(["x", "y", "y"]), "lid": lid,
                                "co": r.choice(["global", "global", "local"]), "f": r.choice([1.0, 1.0, 1.5]),
                                "name": r.pick([("LineLoad", 6), ("LineLoad1", 1), ("LineLoad2", 1), ("snow", 1)]), "ltype": r.choice(LTYPES)})
    # the library cannot put a line load (the weight) on a bar
    s["sw"] = r.random() < 0.3 and all(m["t"] != "bar" for m in s["m"])
    # order of adding: members keep their order; everything else anywhere, line loads after their member
    items = [("m", i) for i in range(len(s["m"]))] if kind != "simple" else []
    rest = [(k, i) for k in ("sup", "pl", "ll") for i in range(len(s[k]))]
    if r.random() < 0.5:
        r.shuffle(rest)
        items += rest
    else:
        for it in rest:
            items.insert(r.randint(0, len(items)), it)
    s["order"] = [list(x) for x in items]
    return s


def gen_truss(r):
    """Pin-jointed truss with all bars: panels with one or two (crossing) diagonals."""
    n, a, h = r.randint(1, 4), r.choice([1000, 1500.5, 360]), r.choice([1000, 800, 1200.25])
    s = {"kind": "truss", "X": [], "m": [], "sup": [], "pl": [], "ll": [], "sw": False, "ne": None, "supports": None}
    for k in range(n + 1):
        s["X"] += [[k * a, 0], [k * a, h]]
    mems = [(2 * k, 2 * k + 2) for k in range(n)] + [(2 * k + 1, 2 * k + 3) for k in range(n)] + [(2 * k, 2 * k + 1) for k in range(n + 1)]
    for k in range(n):
        d = [(2 * k, 2 * k + 3), (2 * k + 1, 2 * k + 2)]
        mems += d if r.random() < 0.4 else [r.choice(d)]
    r.shuffle(mems)
    for i, j in mems:
        if r.random() < 0.2:
            i, j = j, i
        s["m"].append({"n": [i, j], "c": [s["X"][i], s["X"][j]], "t": "bar", "prof": r.choice(PROFILES), "ne": 1, "S": ["inf", "inf"]})
    if r.random() < 0.5:
        sup = [(0, "pin"), (2 * n, r.choice(["yr", "pin"]))]
    else:
        sup = [(0, "pin"), (1, r.choice(["xr", "pin"]))]
    if r.random() < 0.2:
        sup.append((r.randrange(2 * n + 2), r.choice(["xr", "yr"])))
    s["sup"] = [{"c": s["X"][i], "k": k} for i, k in sup]
    for lid in r.sample(sorted(LIDS), r.randint(1, 3)):
        for _ in range(r.randint(1, 3)):
            s["pl"].append({"c": r.choice(s["X"]), "v": [r.choice([0, 8e3, -3e3]), r.choice([-2e4, 5e3]), 0], "lid": lid, "f": r.choice([1.0, 1.0, 1.35, 0.5]),
                            "name": r.pick([("PointLoad", 6), ("PointLoad1", 1), ("PointLoad2", 1), ("wind", 1)]), "ltype": r.choice(LTYPES)})
    items = [(k, i) for k in ("sup", "pl") for i in range(len(s[k]))]
    r.shuffle(items)
    s["order"] = [list(x) for x in items]
    return s


def along(m, t):
    (x0, y0), (x1, y1) = m["c"]
    return [x0 + t * (x1 - x0), y0 + t * (y1 - y0)]


def lids_of(s):
    out = []
    for k, i in s["order"]:
        if k in ("pl", "ll") and s[k][i]["lid"] not in out:
            out.append(s[k][i]["lid"])
    if s["sw"] and "ULS" not in out:
        out.append("ULS")
    return out


def gen(r, i, tier):
    while True:
        s = gen_spec(r)
        try:
            reference(s, lids_of(s)[0], plain_nodes(s))
            break
        except reffem.Unstable:
            continue
    plan = {"spec": s, "ops": []}
    pf = r.choice([0, 0, 0.3])
    for _ in range(r.randint(2, 8 if tier == "quick" else 20)):
        x = r.random()
        if x < 0.45:
            plan["ops"].append(gen_calc(r, pf))
        elif x < 0.65:
            plan["ops"].append({"op": "prof", "m": r.random(), "prof": r.choice(PROFILES)})
        elif s["kind"] == "truss":
            plan["ops"].append({"op": "A", "m": r.random(), "f": r.choice([0.5, 1.5, 3.0])})
        elif x < 0.9:
            plan["ops"].append({"op": "Sj", "m": r.random(), "end": r.randint(0, 1), "v": stiffness(r)})
        elif x < 0.95:
            plan["ops"].append({"op": "rigid"})
        else:
            plan["ops"].append({"op": "hinge"})
    plan["ops"].append(gen_calc(r, 0))
    return plan


def gen_calc(r, pf):
    op = {"op": "calc", "lid": r.random(), "how": r.choice(["one", "one", "all", "ALL", "default"]), "meth": r.choice(["ZERO", "REM", "DEF"])}
    if r.random() < pf:
        op["fault"] = {"kind": r.pick(FAULTS), "at": r.random()}
    return op


# ---------------------------------------------------------------- live frame
def build(s):
    if s["kind"] == "simple":
        fr = F.Frame2D(simple=s["dims"], num_elements=s["ne"], supports=s["supports"])
        ms = list(fr.members.values())
    elif s["kind"] == "truss":
        fr = SimpleTruss([list(c) for c in s["X"]], [list(m["n"]) for m in s["m"]], [m["prof"] for m in s["m"]])
        ms = list(fr.members.values())
    else:
        fr = F.Frame2D()
        ms = []
        for m in s["m"]:
            if m["t"] == "beam":
                x = F.SteelBeam(copy.deepcopy(m["c"]), profile=m["prof"], num_elements=m["ne"], Sj1=val(m["S"][0]), Sj2=val(m["S"][1]))
            elif m["t"] == "column":
                x = F.SteelColumn(copy.deepcopy(m["c"]), profile=m["prof"], num_elements=m["ne"])
            elif m["t"] == "plain":
                x = F.SteelFrameMember(copy.deepcopy(m["c"]), profile=m["prof"], num_elements=m["ne"])
                for end in range(2):
                    if m["S"][end] == 0.0:
                        x.add_hinge(end)
            else:
                x = F.SteelFrameMember(copy.deepcopy(m["c"]), profile=m["prof"], mtype="bar", **({} if m["ne"] == 4 else {"num_elements": m["ne"]}))
            ms.append(x)
    for k, i in s["order"]:
        if k == "m":
            fr.add(ms[i])
        elif k == "sup":
            fr.add(SUP[s["sup"][i]["k"]][0](list(s["sup"][i]["c"])))
        elif k == "pl":
            p = s["pl"][i]
            fr.add(F.PointLoad(list(p["c"]), list(p["v"]), load_id=LIDS[p["lid"]], name=p["name"], f=p["f"], ltype=p["ltype"]))
        else:
            p = s["ll"][i]
            fr.add(F.LineLoad(ms[p["m"]], list(p["q"]), p["dir"], load_id=LIDS[p["lid"]], f=p["f"], name=p["name"], coord_sys=p["co"], ltype=p["ltype"]))
    if s["kind"] == "simple":
        for m, x in zip(s["m"], ms):
            if not np.allclose(x.coordinates, m["c"]):
                raise Violation("frame:geometry", f"member {x.mem_id} of the simple frame runs {x.coordinates} instead of {m['c']}")
            if m["prof"] != "IPE 100":
                x.profile = m["prof"]
            x.Sj1, x.Sj2 = val(m["S"][0]), val(m["S"][1])
    fr.generate(self_weight=s["sw"])
    return fr, ms


def val(x):
    return np.inf if x == "inf" else x


# ---------------------------------------------------------------- reference
def key(c):
    return (round(float(c[0]), 3), round(float(c[1]), 3))


def on(m, c):
    """Position of point c along member m (0..1), or None."""
    a, b = np.array(m["c"][0], float), np.array(m["c"][1], float)
    d = b - a
    L = np.hypot(*d)
    t = float(np.dot(np.array(c, float) - a, d) / L ** 2)
    off = abs(d[0] * (c[1] - a[1]) - d[1] * (c[0] - a[0])) / L
    return t if off < 0.01 and -1e-6 < t < 1 + 1e-6 else None


def required(s):
    """For each member the points where a joint must be: its ends, ends of other members on it, loads and supports."""
    pts = [c for m in s["m"] for c in m["c"]] + [p["c"] for p in s["pl"]] + [p["c"] for p in s["sup"]]
    out = []
    for m in s["m"]:
        if m["t"] == "bar":
            # joined at its ends only
            out.append([0.0, 1.0])
            continue
        mine = pts + [c for c in (crossing(m, o) for o in s["m"] if o is not m and o["t"] != "bar") if c]
        out.append(sorted({round(t, 7) for t in (on(m, c) for c in mine) if t is not None}))
    return out


def crossing(a, b):
    """Where two members cross, or None."""
    p, q = np.array(a["c"], float), np.array(b["c"], float)
    d, e = p[1] - p[0], q[1] - q[0]
    det = d[0] * e[1] - d[1] * e[0]
    if abs(det) < 1e-9 * np.hypot(*d) * np.hypot(*e):
        return None
    w = q[0] - p[0]
    t, v = (w[0] * e[1] - w[1] * e[0]) / det, (w[0] * d[1] - w[1] * d[0]) / det
    return [float(x) for x in p[0] + t * d] if -1e-6 < t < 1 + 1e-6 and -1e-6 < v < 1 + 1e-6 else None


def plain_nodes(s):
    return [[key(along(m, t)) for t in req] for m, req in zip(s["m"], required(s))]


SECT = {}


def section(prof):
    if prof not in SECT:
        m = F.SteelBeam([[0, 0], [1000, 0]], profile=prof)
        SECT[prof] = (float(m.cross_section.A), float(m.cross_section.I[0]), float(m.E), float(m.rho))
    return SECT[prof]


def reference(s, lid, chains, tol=False):
    """chains: per member the node coordinates along it."""
    nodes, els, loads = {}, [], []
    for i, (m, ch) in enumerate(zip(s["m"], chains)):
        A, I, E, rho = section(m["prof"])
        A = m.get("A", A)
        for k, c in enumerate(ch):
            nodes[key(c)] = tuple(float(x) for x in c)
        if m["t"] == "bar":
            els.append({"uid": (i, 0), "t": "rod", "n": (key(ch[0]), key(ch[-1])), "E": E, "A": A, "I": I})
            continue
        for k in range(len(ch) - 1):
            e = {"uid": (i, k), "t": "beam", "n": (key(ch[k]), key(ch[k + 1])), "E": E, "A": A, "I": I, "rel": [], "spr": {}}
            for end, first in ((0, k == 0), (1, k == len(ch) - 2)):
                S = val(m["S"][end])
                if not first or m["t"] not in ("beam", "plain") or S >= RIGID:
                    continue
                if S <= HINGE:
                    e["rel"].append(2 if end == 0 else 5)
                else:
                    e["spr"][2 if end == 0 else 5] = S
            els.append(e)
        L = np.hypot(*np.subtract(ch[-1], ch[0]))
        lls = [p for p in s["ll"] if p["m"] == i and p["lid"] == lid]
        if s["sw"] and lid == "ULS":
            # the weight is a load of the sections the model was generated with
            A0, _, _, rho0 = section(m.get("gen", m["prof"]))
            lls.append({"q": [-10 * A0 * rho0] * 2, "dir": "y", "co": "global", "f": 1.0})
        for p in lls:
            for k in range(len(ch) - 1):
                t = [np.hypot(*np.subtract(c, ch[0])) / L for c in ch[k:k + 2]]
                q = [p["q"][0] + x * (p["q"][1] - p["q"][0]) for x in t]
                loads.append({"k": "ll", "e": (i, k), "q": q, "dir": p["dir"], "co": p["co"], "f": p["f"]})
    for p in s["pl"]:
        if p["lid"] == lid:
            loads.append({"k": "pt", "n": key(p["c"]), "v": p["v"], "f": p["f"]})
    sups = [(key(p["c"]), SUP[p["k"]][1]) for p in s["sup"]]
    if s["supports"]:
        d = {"FIXED": [0, 1, 2], "XYHINGED": [0, 1]}[s["supports"].upper()]
        sups += [(n, d) for n in nodes if n[1] == 0]
    model = {"nodes": nodes, "els": els, "sups": sups, "loads": loads}
    if not tol:
        return reffem.solve(model, min_eig=1e-10)
    u, f, t, w = reffem.solve_tol(model, min_eig=1e-11)
    # nodes next to each other make the equations less well conditioned
    us = max(float(np.max(np.abs(v[:2]))) for v in u.values())
    rs = max(float(abs(v[2])) for v in u.values())
    t["u"] += 1e-14 / w * us
    t["r"] += 1e-14 / w * rs
    for e in els:
        A, I, E, L = e["A"], e["I"], e["E"], float(np.hypot(*np.subtract(nodes[e["n"][1]], nodes[e["n"][0]])))
        t["fx"] = max(t["fx"], 1e-14 * us * E * A / L)
        t["fz"] = max(t["fz"], 1e-14 * us * 12 * E * I / L ** 3)
        t["my"] = max(t["my"], 1e-14 * us * 6 * E * I / L ** 2)
    return u, f, t, w


def check_chains(s, ms):
    """Nodes of every member run along it from end to end, through every joint, load and support, and joints are shared."""
    seen, chains = {}, []
    for m, x, req in zip(s["m"], ms, required(s)):
        nd = list(x.nodes.values())
        ch = [[float(v) for v in n.coord[:2]] for n in nd]
        ts = [on(m, c) for c in ch]
        if any(t is None for t in ts) or any(b <= a for a, b in zip(ts, ts[1:])) or len(nd) < 2:
            raise Violation("frame:nodes", f"nodes of member {x.mem_id} {m['c']} do not run along it: {ch}")
        for t in req:
            if min(abs(t - q) for q in ts) > 1e-5:
                raise Violation("frame:joint-missing", f"member {x.mem_id} {m['c']} has no node at {along(m, t)}, where another member, a load or a support is")
        for n, c in zip(nd, ch):
            if seen.setdefault(key(c), n) is not n:
                raise Violation("frame:joint-split", f"two separate nodes at {c}")
        if len(x.elements) != len(nd) - 1:
            raise Violation("frame:elements", f"member {x.mem_id}: {len(x.elements)} elements between {len(nd)} nodes")
        chains.append(ch)
    return chains


def check(fr, ms, s, lid, what):
    chains = check_chains(s, ms)
    u, f, tol, _ = reference(s, lid, chains, tol=True)
    L = LIDS[lid]
    for i, (m, x, ch) in enumerate(zip(s["m"], ms, chains)):
        U = x.nodal_displacements[L]
        for c, (n, node) in zip(ch, x.nodes.items()):
            for q, t in ((0, "u"), (1, "u"), (2, "r")):
                for src, got in (("node", node.u[L][q]), ("member", U[n][q])):
                    if not abs(got - u[key(c)][q]) <= tol[t] and not (q == 2 and all(mm["t"] == "bar" for mm in s["m"] if on(mm, c) is not None)):
                        raise Violation("frame:displacement", f"{what}, case {lid}: displacement {q} at {c} reported by the {src} is {got:.7g}, mechanics gives {u[key(c)][q]:.7g}")
        ext = {}
        for k, el in enumerate(x.elements.values()):
            for q in ("fx", "fz", "my"):
                for e in range(2):
                    a, b = el.fint[L][q][e], f[(i, k)][q][e]
                    if not abs(a - b) <= tol[q]:
                        raise Violation("frame:force", f"{what}, case {lid}: {q} at end {e} of element {k} of member {x.mem_id} is {a:.7g}, mechanics gives {b:.7g}")
                    ext.setdefault(q, []).append(b)
        for prop, q in (("NEd", "fx"), ("VEd", "fz"), ("MEd", "my")):
            got = getattr(x, prop)[L]
            mx = max(ext[q], key=abs)
            if not (abs(abs(got) - abs(mx)) <= 2 * tol[q] and min(abs(got - v) for v in ext[q]) <= 2 * tol[q]):
                raise Violation("frame:extreme", f"{what}, case {lid}: {prop} of member {x.mem_id} is {got:.7g}, the largest value along it is {mx:.7g}")
    w = sum(m.get("A", section(m["prof"])[0]) * section(m["prof"])[3] * np.hypot(*np.subtract(*m["c"])) for m in s["m"])
    if not abs(fr.weight - w) <= 1e-6 * w:
        raise Violation("frame:weight", f"{what}: weight of the frame is {fr.weight}, its members weigh {w}")
    return f, tol, chains


def check_design(ms, s, lid, f, tol, what):
    """After an analysis of one case, the members carry that case: extremes and the forces handed to the design."""
    for i, (m, x) in enumerate(zip(s["m"], ms)):
        n = len(x.elements)
        for attr, q in (("ned", "fx"), ("ved", "fz"), ("med", "my")):
            mx = max((v for k in range(n) for v in f[(i, k)][q]), key=abs)
            if not abs(abs(getattr(x, attr)) - abs(mx)) <= 2 * tol[q]:
                raise Violation("frame:extreme", f"{what}, case {lid}: {attr} of member {x.mem_id} is {getattr(x, attr):.7g}, the largest value along it is {mx:.7g}")
        for attr, q in (("ned", "fx"), ("vzed", "fz"), ("myed", "my")):
            want = [f[(i, k)][q][0] for k in range(n)] + [f[(i, n - 1)][q][1]]
            got = list(getattr(x.member, attr))
            if len(got) != len(want) or any(not abs(a - b) <= tol[q] for a, b in zip(got, want)):
                raise Violation("frame:design-forces", f"{what}, case {lid}: member {x.mem_id} is designed for {attr} {got}, the analysis gives {want}")


@contextlib.contextmanager
def results_of(lid):
    """Results that are not there although their case was analysed."""
    try:
        yield
    except KeyError as e:
        if e.args and (e.args[0] == LIDS[lid] or e.args[0] in LIDS.values()):
            raise Violation("frame:no-result", f"case {lid} was analysed, but its results are missing ({e.args[0]})")
        raise


def run(plan):
    s = copy.deepcopy(plan["spec"])
    fr, ms = build(s)
    chains = check_chains(s, ms)
    if fr.members and list(fr.members.values()) != ms:
        raise Violation("frame:members", "the frame does not hold its members in order of adding")
    valid = set()
    edited = nontriv = ncmp = False
    for op in plan["ops"]:
        k = op["op"]
        if k == "calc":
            all_l = lids_of(s)
            lid = all_l[int(op["lid"] * len(all_l))]
            arg = {"one": LIDS[lid], "default": None}.get(op["how"], op["how"])
            if op["how"] == "default":
                lid = all_l[0]
            todo = all_l if op["how"] in ("all", "ALL") else [lid]
            try:
                for x in todo:
                    reference(s, x, chains)
            except reffem.Unstable:
                SIM.probe("unstable-skipped")
                try:
                    for x in todo:
                        reference(s, x, plain_nodes(s))
                    SIM.probe("only-chains-unstable")
                except reffem.Unstable:
                    pass
                continue
            kw = {} if op["meth"] == "DEF" else {"support_method": op["meth"]}
            fired = False
            if op.get("fault"):
                fired = with_fault(op["fault"], lambda: fr.calculate(arg, **kw), "Frame2D.calculate")
            else:
                fr.calculate(arg, **kw)
            if fired:
                valid -= set(todo)
            else:
                valid |= set(todo)
                if edited:
                    valid = set(todo)
                    edited, nontriv = False, nontriv or ncmp
                for x in sorted(valid):
                    with results_of(x):
                        f, tol, ch = check(fr, ms, s, x, f"{op['how']} {op['meth']}")
                        if x == todo[-1]:
                            check_design(ms, s, x, f, tol, f"{op['how']} {op['meth']}")
                            rs = {m.mem_id: np.max(m.r[LIDS[x]]) for m in ms}
                ncmp = True
                current_r(s, todo[-1], rs, ms)
                SIM.log("calc", todo, [round(float(v), 9) for m in ms for v in (m.ned, m.ved, m.med)])
        else:
            t = copy.deepcopy(s)
            for m in t["m"]:
                m.setdefault("gen", m["prof"])
            if k == "prof":
                i = int(op["m"] * len(ms))
                ms[i].profile = op["prof"]
                t["m"][i].pop("A", None)
                t["m"][i]["prof"] = op["prof"]
            elif k == "A":
                i = int(op["m"] * len(ms))
                if s["m"][i]["prof"].startswith("WI"):
                    # the area of a welded section follows from its dimensions
                    continue
                t["m"][i]["A"] = section(s["m"][i]["prof"])[0] * op["f"]
                ms[i].A = t["m"][i]["A"]
            elif k == "Sj":
                bs = [i for i, m in enumerate(s["m"]) if m["t"] == "beam"]
                if not bs:
                    continue
                i = bs[int(op["m"] * len(bs))]
                setattr(ms[i], "Sj%d" % (op["end"] + 1), val(op["v"]))
                t["m"][i]["S"][op["end"]] = op["v"]
            elif k == "rigid":
                fr.rigid_joints()
                for m in t["m"]:
                    if m["t"] == "beam":
                        m["S"] = ["inf", "inf"]
            else:
                fr.hinge_joints()
                for m in t["m"]:
                    if m["t"] == "beam":
                        m["S"] = [0.0, 0.0]
            s = t
            edited = True
            SIM.log("edit", k)
    return {"nontrivial": nontriv}


def current_r(s, lid, rs, ms):
    """Utilisation is that of a new design check with the current section, length and forces."""
    for m, x in zip(s["m"], ms):
        if "A" in m:
            continue
        a, b = rs[x.mem_id], utilisation(x, m["prof"], x.elements.values(), lid)
        if not np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True):
            raise Violation("frame:utilisation", f"case {lid}: utilisation of member {x.mem_id} is {a}, a new check of {m['prof']} with the same forces gives {b}")
        if x.is_strong_enough != (not a > 1.0):
            raise Violation("frame:utilisation", f"case {lid}: member {x.mem_id} with utilisation {a} is reported {'adequate' if x.is_strong_enough else 'inadequate'}")


def utilisation(x, prof, els, lid):
    """Largest utilisation of a new member of the given profile under the forces of the elements."""
    sec = F.SteelBeam([[0, 0], [1000, 0]], profile=prof).cross_section
    m = SteelMember(sec, x.length, Lcr=[1.0, 1.0], mtype=x.mtype)
    els = list(els)
    a = np.array(els[0].nodes[0].coord[:2], float)
    for el, e in [(el, 0) for el in els] + [(els[-1], 1)]:
        f = el.fint[LIDS[lid]]
        m.add_section(ned=f["fx"][e], vzed=f["fz"][e], myed=f["my"][e], loc=float(np.hypot(*(el.nodes[e].coord[:2] - a)) / x.length))
    return np.max(m.design())
