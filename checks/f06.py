"""F06: second-order elastic analysis follows beam-column theory, whatever was analysed or edited before."""
import copy
import numpy as np
from . import femlib as L
from sim import reffem
from sim.core import SIM, Violation

RUNS = {"quick": 1600, "thorough": 14000}
RULE = ("A run draws a beam or sway frame with end releases, compression and uniform transverse loads, and 4-12 operations: edits, first-order analyses and second-order analyses of its load "
        "cases with either support method, some interrupted. After every second-order analysis the displacements and end forces are compared with an independent solution (every member divided "
        "into eight elements with consistent geometric stiffness from the first-order axial forces, tension members first order) and with the model built afresh; the first-order results of "
        "every case must stay those of plain mechanics. Non-trivial: an amplified second-order answer was compared after an edit or an earlier analysis.")
REAL = ["metku.framefem (second_order_analysis, linear_statics, EBBeam stability functions)", "numpy linear algebra"]
STUB = ["interruption and memory faults injected at chosen statements", "failing equation solver", "clock and entropy"]
ASSUMPTIONS = ["beam elements only: the library has no second-order stiffness of rods and springs", "load level below 1/1.3 of the critical one",
               "uniform loads perpendicular to the member: others are approximated by the library, as its comments say",
               "axial forces of the first-order solution, tension members first order, as documented"]
DIV = 8
EDITS = [("move", 3), ("section", 3), ("dim", 2), ("release", 3), ("material", 1), ("young", 2), ("add_sup", 1), ("del_sup", 1), ("add_load", 3), ("edit_load", 3), ("del_load", 1), ("split_brace", 1), ("add_member", 1), ("del_el", 1)]


def gen(r, i, tier):
    s = start(r)
    while not s.stable(list(s.cases)):
        s = start(r)
    plan = {"init": L.spec_to_json(s), "ops": []}
    known = {k for k, _ in L.EDITS}
    edits = [e for e in EDITS if e[0] in known]
    for _ in range(r.randint(4, 12 if tier == "quick" else 20)):
        x = r.random()
        if x < 0.4:
            g = L.gen_edit(r, s, edits)
            if g and "load" in g[0] and g[0]["load"]["k"] == "ll" and r.random() < 0.85:
                g[0]["load"].update(q=[g[0]["load"]["q"][0]] * 2, dir="y", co="local")
                t = copy.deepcopy(s)
                g = (g[0], t) if L.apply_spec(t, g[0]) and t.stable(list(t.cases)) else None
            if g and all(e["t"] == "beam" for e in g[1].els.values()):
                plan["ops"].append(g[0])
                s = g[1]
        elif x < 0.55:
            plan["ops"].append(L.gen_analyse(r, s, 0))
        else:
            plan["ops"].append(second(r, s, 0.15))
    plan["ops"].append(second(r, s, 0))
    return plan


def start(r):
    s = L.gen_frame(r, r.choice(["frame", "frame", "beam"]))
    for e in s.els.values():
        if e["t"] == "rod":
            e.update(t="beam", rel=[2, 5])
    for ld in s.loads.values():
        if ld["k"] == "ll" and r.random() < 0.85:
            ld.update(q=[ld["q"][0]] * 2, dir="y", co="local") if r.random() < 0.6 else ld.update(q=[ld["q"][0]] * 2)
    top = [n for n in s.nodes if s.nodes[n][1] >= max(v[1] for v in s.nodes.values()) - 1]
    for lc in list(s.cases):
        if r.random() < 0.15:
            continue                  # hardly any axial force
        p = r.choice([2e4, 1e5, 3e5, 8e5])
        for n in top if s.kind == "frame" else [list(s.nodes)[-1]]:
            v = [0.0, -p * r.choice([0.5, 1, 1, 1.5]), 0.0] if s.kind == "frame" else [-p, 0.0, 0.0]
            s.loads[s.uid()] = {"k": "pt", "sid": lc, "n": n, "v": v, "f": 1.0}
    return s


def second(r, s, p):
    op = {"op": "second", "lc": r.choice(list(s.cases)), "m": r.choice(["REM", "ZERO", "DEF"])}
    if r.random() < p:
        op["fault"] = {"kind": r.pick(L.FAULTS), "at": r.random()}
    return op


def divided(ref, P, div, round_len=False):
    """The model with every member cut into pieces; P: compression of the members."""
    nodes, els, loads = dict(ref["nodes"]), [], [ld for ld in ref["loads"] if ld["k"] == "pt"]
    for e in ref["els"]:
        a, b = e["n"]
        xa, xb = np.array(ref["nodes"][a], float), np.array(ref["nodes"][b], float)
        seq = [a] + [("s", e["uid"], i) for i in range(1, div)] + [b]
        for i, n in enumerate(seq[1:-1], 1):
            nodes[n] = tuple(xa + (xb - xa) * i / div)
        for i in range(div):
            rel = [d for d in e["rel"] if (d < 3 and i == 0) or (d > 2 and i == div - 1)]
            els.append({**e, "uid": (e["uid"], i), "n": (seq[i], seq[i + 1]), "rel": rel, "P": P.get(e["uid"], 0.0)})
        for ld in ref["loads"]:
            if ld["k"] == "ll" and ld["e"] == e["uid"]:
                loads += [{**ld, "e": (e["uid"], i)} for i in range(div)]
    return {"nodes": nodes, "els": els, "sups": ref["sups"], "loads": loads}


def answer(ref, P, div):
    u, f, w = reffem.solve(divided(ref, P, div), False, 1e-9)
    out = {}
    for e in ref["els"]:
        a, b = f[e["uid"], 0], f[e["uid"], div - 1]
        out[e["uid"]] = {q: [a[q][0], b[q][1]] for q in ("fx", "fz", "my")}
    return {n: u[n] for n in ref["nodes"]}, out


def expected(s, lc):
    """Second-order answer and tolerances, or why there is none."""
    ref = s.ref(lc)
    for ld in ref["loads"]:
        if ld["k"] == "ll":
            e = s.els[ld["e"]]
            d = np.array(s.nodes[e["n"][1]], float) - np.array(s.nodes[e["n"][0]], float)
            along = ld["dir"] == "x" if ld["co"] == "local" else abs(d["xy".index(ld["dir"])]) > 1e-9
            if along or abs(ld["q"][0] - ld["q"][1]) > 0:
                return "approximated-load"
    try:
        u1, f1, _ = reffem.solve(ref)
        P = {e: max(0.0, -f["fx"][0]) for e, f in f1.items()}
        reffem.solve(divided(ref, {e: 1.3 * p for e, p in P.items()}, 4), False, 1e-9)
        a, b = answer(ref, P, DIV), answer(ref, P, DIV // 2)
        _, _, tol1, _ = reffem.solve_tol(ref)
    except reffem.Unstable:
        return "near-critical"
    amp = max([float(np.max(np.abs(a[0][n][:2]))) for n in u1]) / (max([float(np.max(np.abs(u1[n][:2]))) for n in u1]) + 1e-12)
    us = max(float(np.max(np.abs(v[:2]))) for v in a[0].values())
    rs = max(float(abs(v[2])) for v in a[0].values())
    fm = max(abs(x) for f in a[1].values() for q in ("fx", "fz") for x in f[q])
    mm = max(abs(x) for f in a[1].values() for x in f["my"])
    d = lambda pick: max([abs(x - y) for x, y in pick] + [0])
    k = max(1.0, amp) ** 2
    tol = {"u": d((a[0][n][i], b[0][n][i]) for n in u1 for i in (0, 1)) + k * (tol1["u"] + 1e-5 * us),
           "r": d((a[0][n][2], b[0][n][2]) for n in u1) + k * (tol1["r"] + 1e-5 * rs)}
    for q in ("fx", "fz", "my"):
        tol[q] = d((a[1][e][q][i], b[1][e][q][i]) for e in f1 for i in (0, 1)) + k * (tol1[q] + 1e-5 * (fm if q != "my" else max(mm, 1000 * fm)))
    return a[0], a[1], tol, amp


def do_second(lv, op):
    if op["m"] == "DEF":
        lv.fem.second_order_analysis(op["lc"])
    else:
        lv.fem.second_order_analysis(op["lc"], op["m"])


def run(plan):
    s = L.spec_from_json(plan["init"])
    lv = L.Live(s)
    first, before, n = set(), 0, 0
    for op in plan["ops"]:
        k = op["op"]
        if k == "second":
            lc = op["lc"]
            if lc not in s.cases or not s.stable([lc]):
                continue
            if op.get("fault"):
                want = expected(s, lc)
                if isinstance(want, str):
                    continue
                first.discard(lc)
                if L.with_fault(op["fault"], lambda: do_second(lv, op), "second_order_analysis"):
                    before += 1
                    continue
                n += judge(lv, s, op, want) and before > 0
            else:
                got = second_order(lv, s, op)
                if got is None:
                    continue
                n += got and before > 0
            first.add(lc)
            before += 1
        elif k == "analyse":
            lcs = [x for x in L.lc_list(op) if x in s.cases]
            if not lcs or len(lcs) != len(L.lc_list(op)) or len({s.cases[x] for x in lcs}) > 1 or not s.stable(lcs):
                continue
            L.do_analyse(lv, op)
            first |= set(lcs)
            before += 1
        else:
            t = copy.deepcopy(s)
            if not L.apply_spec(t, op) or any(e["t"] != "beam" for e in t.els.values()):
                continue
            L.apply_live(lv, s, t, op)
            SIM.log("edit", k)
            s = t
            first.clear()
            before += 1
            continue
        for lc in sorted(first):
            L.against_ref(lv.results(s, lc), s, lc, f"first-order results of case {lc} after a second-order analysis", "first-order")
    return {"nontrivial": n > 0, "second_order_compared": n}


def second_order(lv, s, op):
    want = expected(s, op["lc"])
    if isinstance(want, str):
        SIM.probe("skip:" + want)
        if want == "near-critical":
            return None
        do_second(lv, op)
        fresh(lv, s, op, 1.0)
        return False
    do_second(lv, op)
    return judge(lv, s, op, want)


def judge(lv, s, op, want):
    lc = op["lc"]
    u, f, tol, amp = want
    what = f"second-order analysis of case {lc} ({op['m']})"
    res = lv.results(s, lc, 2)
    sup = {(x["n"], d) for x in s.sups.values() if x["sid"] == s.cases[lc] for d in x["dof"]}
    for nd in u:
        for i in range(3):
            got = res["u"][nd][i]
            if (nd, i) in sup and not abs(got) <= 1e-12:
                raise Violation("second-order:support-moves", f"{what}: supported dof {i} of node {nd} reported {got!r}")
            if not abs(got - u[nd][i]) <= tol["u" if i < 2 else "r"]:
                raise Violation("second-order:displacement", f"{what}: node {nd} dof {i}: {got!r}, beam-column theory gives {u[nd][i]!r} (tol {tol['u' if i < 2 else 'r']:.2e}, amplification {amp:.3f})")
    for e in f:
        for q in ("fx", "fz", "my"):
            for i in range(2):
                if not abs(res["f"][e][q][i] - f[e][q][i]) <= tol[q]:
                    raise Violation("second-order:force", f"{what}: element {e} {q}[{i}]: {res['f'][e][q][i]!r}, beam-column theory gives {f[e][q][i]!r} (tol {tol[q]:.2e}, amplification {amp:.3f})")
    fresh(lv, s, op, amp)
    SIM.log("second", lc, op["m"], "%.4g" % amp, [(nd, ["%.5g" % x for x in v]) for nd, v in res["u"].items()])
    SIM.probe("second-order:" + ("amplified" if abs(amp - 1) > 0.01 else "hardly-amplified"))
    return abs(amp - 1) > 0.002


def fresh(lv, s, op, amp):
    new = L.Live(s)
    do_second(new, op)
    L.compare(lv.results(s, op["lc"], 2), new.results(s, op["lc"], 2), s, f"second-order analysis of case {op['lc']} against an identical new model", "stale", 1e-6 * max(1, amp) ** 2)
