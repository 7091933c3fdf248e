"""M01: frame results always reflect the frame as it is currently defined."""
import copy
from . import raamilib as R
from sim.core import SIM, Violation

RUNS = {"quick": 1000, "thorough": 12000}
RULE = ("A run draws a plane frame (portal, multi-storey, truss or continuous beam of steel members with 1-6 elements each, hinges, supports, 1-3 load cases) and 4-14 operations: "
        "moving nodes, replacing sections, changing dimensions, hinging, adding members, braces, supports, loads and combinations, self-weight on and off, and analyses of one or "
        "all cases by either support method, some interrupted or out of memory during model generation or analysis. The model is regenerated only after edits that need it; section "
        "and node edits must take effect without. Every analysis is compared with an identical frame built from scratch and with an independent mechanics reference. "
        "Non-trivial: an analysis was compared after an edit that followed an earlier analysis.")
REAL = ["metku.raami (Raami, SteelFrameMember, loads, supports)", "metku.framefem", "metku steel sections and member design"]
STUB = ["interruption and memory faults at chosen statements", "failing equation solver"]
ASSUMPTIONS = ["a combination is rebuilt after its cases changed, as the library requires", "bars and braces carry joint loads only (one element, no self-weight)",
               "plane frames; members have design data (SteelFrameMember)"]


def gen(r, i, tier):
    s = R.gen_frame(r)
    while not s.stable():
        s = R.gen_frame(r)
    plan = {"init": R.to_json(s), "kind": s.kind, "ops": []}
    pf = r.choice([0, 0, 0.25])
    pe = r.choice([0.5, 0.65, 0.75])
    for _ in range(r.randint(4, 14 if tier == "quick" else 28)):
        if r.random() < pe:
            g = R.gen_edit(r, s)
            if g:
                plan["ops"].append(g[0])
                s = g[1]
        else:
            plan["ops"].append(gen_analyse(r, pf))
    plan["ops"].append(gen_analyse(r, 0))
    return plan


def gen_analyse(r, pf):
    op = {"op": "analyse", "pick": r.random(), "all": r.random() < 0.4, "m": r.choice(["REM", "ZERO", "DEF"]), "regen": r.random() < 0.25,
          "design": r.random() < 0.6, "via": r.choice(["structural_analysis", "calculate"])}
    if r.random() < pf:
        op["fault"] = {"kind": r.pick(R.FAULTS), "at": r.random()}
        op["in"] = r.choice(["analysis", "analysis", "generate"])
    return op


def analyse(fr, op, lid):
    kw = {} if op["m"] == "DEF" else {"support_method": op["m"]}
    getattr(fr, op["via"])(load_id="ALL" if op["all"] else lid, design=op["design"], **kw)


def fresh(s, op, lid):
    lv = R.Live(s)
    lv.frame.generate_fem()
    analyse(lv.frame, dict(op, all=False), lid)
    return lv


def run(plan):
    s = R.from_json(plan["init"])
    lv = R.Live(s)
    dirty, dirty_loads = True, False
    analysed, edits, n = False, 0, 0
    for op in plan["ops"]:
        k = op["op"]
        if k != "analyse":
            t = copy.deepcopy(s)
            if not R.apply_spec(t, op) or not t.stable(1e-8):
                continue
            R.apply_live(lv, s, t, op)
            s = t
            dirty = dirty or k in R.REGEN
            dirty_loads = dirty_loads or k in R.LOADCHANGE
            edits += 1
            SIM.log("edit", k)
            SIM.probe("edit:" + k)
            check_weight(lv, s)
            continue
        ids = s.all_ids()
        if not ids or not s.stable(1e-8):
            continue
        fr = lv.frame
        if dirty_loads:
            for u in s.combs:
                lv.o[u].combine_loads()
            dirty_loads, dirty = False, True
        if dirty or op["regen"]:
            if op.get("fault") and op["in"] == "generate" and not op["fault"]["kind"].startswith("solve"):
                if R.with_fault(op["fault"], fr.generate_fem, "generate_fem"):
                    dirty = True
                    continue
            else:
                fr.generate_fem()
            dirty = False
        elif edits and analysed:
            SIM.probe("analysed-edits-without-regenerating")
        lid = ids[int(op["pick"] * len(ids))]
        if op.get("fault") and op["in"] == "analysis":
            if R.with_fault(op["fault"], lambda: analyse(fr, op, lid), "structural_analysis"):
                analysed = True
                continue
        else:
            analyse(fr, op, lid)
        for x in (ids if op["all"] else [lid]):
            res = lv.results(s, x)
            f2 = fresh(s, op, x)
            R.compare(res, f2.results(s, x), f"case {x} ({plan['kind']} frame)", "stale")
            R.against_ref(res, s, x, f"case {x} ({plan['kind']} frame)")
            check_summary(lv, f2, s, x)
            R.log_results(res, x)
        if analysed and edits:
            n += 1
        analysed, edits = True, 0
    return {"nontrivial": n > 0, "compared_after_edit": n, "operations": len(plan["ops"])}


def check_weight(lv, s):
    w, want = float(lv.frame.weight()), s.weight()
    if not abs(w - want) <= 1e-9 * max(1.0, want):
        raise Violation("weight", f"frame weight {w!r}, members weigh {want!r}")


def check_summary(lv, f2, s, lid):
    for m in s.mems:
        nf = lv.o[m].nodal_forces[lid]
        a = R.design_summary(lv.o[m], lid)
        for name, v, q in zip(("NEd", "VzEd", "MyEd"), a, ("N", "Vz", "My")):
            if not (abs(v) == max(abs(x) for x in nf[q]) and v in nf[q]):
                raise Violation("summary", f"case {lid}: member {m}: {name} = {v!r} is not the largest of {q} {[float(x) for x in nf[q]]}")
        g = lv.o[m].get_max_forces([lid])
        for q in ("N", "Vz", "My"):
            for fn in (min, max):
                if g[f"{fn.__name__} {q}"][q] != fn(nf[q]):
                    raise Violation("summary:get_max_forces", f"case {lid}: member {m}: {fn.__name__} {q} reported {g[f'{fn.__name__} {q}'][q]!r}, is {fn(nf[q])!r}")
