"""F03: load cases are independent of each other and of the order they are analysed in."""
import copy
from . import femlib as L
from sim.core import SIM, Violation

RUNS = {"quick": 1600, "thorough": 20000}
RULE = ("A run draws a structure with 2-5 load cases and a schedule of analyses (single cases, several together, repeats, both support methods, some "
        "interrupted or failing), additions of cases and changes of one case's loads. After every step the stored results of every case are compared with "
        "those of a model that contains only this case, and cases not named in the step must keep their stored results bit for bit. "
        "Non-trivial: at least three analyses over at least two cases.")
REAL = ["metku.framefem", "numpy linear algebra"]
STUB = ["interruption, memory and solver faults"]
ASSUMPTIONS = ["cases analysed in one call share their supports, as linear_statics documents"]


def gen(r, i, tier):
    s = L.gen_frame(r)
    while not s.stable(list(s.cases)):
        s = L.gen_frame(r)
    for _ in range(r.randint(1, 3)):
        g = L.gen_edit(r, s, [("add_case", 3), ("sup_case", 1), ("add_load", 1)])
        if g:
            s = g[1]
    plan = {"init": L.spec_to_json(s), "ops": []}
    pf = r.choice([0, 0, 0.3])
    for _ in range(r.randint(4, 14 if tier == "quick" else 30)):
        x = r.random()
        if x < 0.75:
            plan["ops"].append(L.gen_analyse(r, s, pf))
        elif x < 0.8:
            plan["ops"].append({"op": "buckle", "lc": r.choice(list(s.cases)), "k": 1})
        else:
            g = L.gen_edit(r, s, [("add_case", 2), ("add_load", 3), ("edit_load", 3), ("del_load", 2)])
            if g:
                plan["ops"].append(g[0])
                s = g[1]
    return plan


def only(s, lc):
    t = copy.deepcopy(s)
    t.loads = {u: l for u, l in t.loads.items() if l["sid"] == lc}
    t.cases = {lc: s.cases[lc]}
    t.sups = {u: x for u, x in t.sups.items() if x["sid"] == s.cases[lc]}
    return t


def run(plan):
    s = L.spec_from_json(plan["init"])
    lv = L.Live(s)
    stored, dirty, alone = {}, set(), {}
    n, seen = 0, set()

    def verify(touched):
        for lc in list(stored):
            now = L.snapshot(lv.results(s, lc))
            if lc not in touched and now != stored[lc]:
                raise Violation("case-disturbed", f"stored results of case {lc} changed although only {sorted(touched)} was analysed")
    for op in plan["ops"]:
        k = op["op"]
        if k == "analyse":
            lcs = [x for x in L.lc_list(op) if x in s.cases]
            if not lcs or len(lcs) != len(L.lc_list(op)) or len({s.cases[x] for x in lcs}) > 1:
                continue
            if op.get("fault") and L.with_fault(op["fault"], lambda: L.do_analyse(lv, op), "linear_statics"):
                for lc in lcs:
                    stored.pop(lc, None)
                verify(set(lcs))
                continue
            if not op.get("fault"):
                L.do_analyse(lv, op)
            for lc in lcs:
                res = lv.results(s, lc)
                if lc not in alone:
                    t = only(s, lc)
                    alone[lc] = L.fresh_results(t, lc)
                L.compare(res, alone[lc], s, f"case {lc} analysed with {op['lcs']} vs alone", "case-coupled")
                L.log_results(res, f"lc{lc}")
                n += 1
                seen.add(lc)
            verify(set(lcs))
            for lc in lcs:
                stored[lc] = L.snapshot(lv.results(s, lc))
        elif k == "buckle":
            if op["lc"] in s.cases:
                try:
                    lv.fem.linear_buckling(lcase=op["lc"], k=1)
                except Exception:
                    SIM.probe("buckling-refused")
                stored.pop(op["lc"], None)
                verify({op["lc"]})
        else:
            t = copy.deepcopy(s)
            if not L.apply_spec(t, op):
                continue
            L.apply_live(lv, s, t, op)
            lc = op["lc"] if k == "add_case" else (op["load"]["sid"] if k == "add_load" else s.loads[op["u"]]["sid"])
            alone.pop(lc, None)
            s = t
            SIM.log("edit", k, lc)
            verify(set())
    return {"nontrivial": n >= 3 and len(seen) >= 2, "comparisons": n}
