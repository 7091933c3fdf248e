"""D01: utilisation ratios reflect the current section, length and forces."""
import copy
import numpy as np
from . import raamilib as R
from sim.core import SIM, Violation
from metku.structures.steel.steel_member import SteelMember

RUNS = {"quick": 1000, "thorough": 12000}
RULE = ("Half of the runs drive a steel frame whose members often share one section object: node moves, section changes, dimension, material and buckling-length changes, trial sections set and "
        "taken back, analyses, and design checks of single members, single cases or the whole frame in any order, some interrupted or out of memory and then repeated. Half drive 2-4 steel members "
        "that share section objects through force, length, section and buckling-length changes and individual section, buckling, lateral-torsional and beam-column checks in any order. Every reported "
        "ratio is compared with the same check made on newly built objects with the same data, and checks of one member must leave the reported ratios of the others alone. "
        "Non-trivial: a check was compared after a change that followed an earlier check.")
REAL = ["metku.structures.steel.SteelMember", "metku.raami members and design", "metku.sections.steel", "metku.eurocodes.en1993"]
STUB = ["interruption and memory faults at chosen statements"]
ASSUMPTIONS = ["a ratio is reported by the check that computed it; after a change it is asked for again",
               "expected values come from the same formulas on fresh objects: their correctness against the standard is N01"]

FW = [("move", 2), ("section", 4), ("dim", 4), ("lcr", 3), ("material", 3), ("trial", 4), ("design", 8), ("design_case", 4), ("analyse", 3), ("add_load", 1)]


def gen(r, i, tier):
    return gen_frame(r, tier) if r.random() < 0.5 else gen_members(r, tier)


def gen_frame(r, tier):
    s = R.gen_frame(r, ncases=r.randint(1, 2))
    while not s.stable():
        s = R.gen_frame(r, ncases=r.randint(1, 2))
    for m in s.mems.values():
        m["sway"] = r.random() < 0.3
    plan = {"mode": "frame", "init": R.to_json(s), "ops": [{"op": "analyse", "design": r.random() < 0.5}]}
    pf = r.choice([0, 0, 0.2])
    for _ in range(r.randint(6, 18 if tier == "quick" else 36)):
        k = r.pick(FW)
        f = {"kind": r.choice(["interrupt", "memory"]), "at": r.random()} if r.random() < pf else None
        if k == "analyse":
            op = {"op": k, "design": r.random() < 0.7}
        elif k == "design":
            op = {"op": k, "m": r.choice(list(s.mems)), "lc": r.random(), "fault": f}
        elif k == "design_case":
            op = {"op": k, "lc": r.random(), "fault": f}
        elif k == "trial":
            op = {"op": k, "m": r.choice(list(s.mems)), "sec": R.gen_section(r), "design": r.random() < 0.7, "lc": r.random(), "force": r.random() < 0.3}
        else:
            op = R.make_op(r, s, k)
            if op is None:
                continue
            t = copy.deepcopy(s)
            if not R.apply_spec(t, op) or not t.stable():
                continue
            s = t
        plan["ops"].append(op)
    plan["ops"].append({"op": "design_case", "lc": r.random(), "fault": None})
    return plan


def fresh_member(sec, length, lcr, mtype, forces):
    m = SteelMember(R.make_section(sec), length, Lcr=list(lcr), mtype=mtype)
    for loc, (n, vz, my) in forces:
        m.add_section(loc=loc, ned=n, vzed=vz, myed=my)
    return m


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) or (a != a and b != b) or a == b


def same(a, b, what):
    if set(a) != set(b):
        raise Violation("ratio-kinds", f"{what}: reported {sorted(a)}, a fresh check reports {sorted(b)}")
    for k in a:
        if not close(float(a[k]), float(b[k])):
            raise Violation("ratio", f"{what}: {k} = {float(a[k])!r}, a fresh check of the same member gives {float(b[k])!r}")


def governing(m, forces, what):
    """The member's governing forces are the extremes over its sections."""
    n, v, my = (np.array([float(f[k]) for f in forces]) for k in range(3))
    for name, want in (("NcEd", min(n.min(), 0.0)), ("NEd", abs(n).max()), ("VEdZ", abs(v).max()), ("MEdY", abs(my).max())):
        if not close(float(getattr(m, name)), float(want)):
            raise Violation("governing-force", f"{what}: {name} = {float(getattr(m, name))!r}, the extreme over the sections is {float(want)!r}")


def governs(m, ratio, what):
    """The reported utilisation is the largest ratio of the design it summarises."""
    worst = max([float(x) for d in m.sections.values() for x in d["utilization"].values()] + [float(x) for x in m.stability.values()])
    if not close(float(ratio), worst):
        raise Violation("not-largest", f"{what}: utilisation {float(ratio)!r}, while the largest of its ratios is {worst!r}")


def run(plan):
    return run_frame(plan) if plan["mode"] == "frame" else run_members(plan)


def run_frame(plan):
    s = R.from_json(plan["init"])
    lv = R.Live(s)
    fr = lv.frame
    reported = {}                       # (member, case) -> ratio from the check that computed it last
    gen_needed, analysed, changed, n = True, set(), False, 0

    def oracle(m, lc):
        mem = lv.o[m]
        nf = mem.nodal_forces[lc]
        a, b = (np.array(s.nodes[x], float) for x in s.mems[m]["n"])
        nel = s.mems[m]["nel"]
        f = list(zip([i / nel for i in range(nel + 1)], zip(nf["N"], nf["Vz"], nf["My"])))
        fm = fresh_member(s.secs[s.mems[m]["sec"]], float(np.linalg.norm(b - a)), s.mems[m].get("lcr") or [1.0, 1.0], s.mems[m]["type"], f)
        return fm, fm.design(sway=bool(s.mems[m].get("sway")))

    def check(m, lc):
        nonlocal n
        fm, want = oracle(m, lc)
        mem = lv.o[m]
        got = mem.utilization[lc]
        what = f"member {m}, case {lc}"
        if not close(float(got), float(want)):
            raise Violation("utilisation", f"{what}: reported {float(got)!r}, a fresh check of the same member gives {float(want)!r}")
        same(mem.member.stability, fm.stability, what + " stability")
        nf = mem.nodal_forces[lc]
        governing(mem.member, list(zip(nf["N"], nf["Vz"], nf["My"])), what)
        governs(mem.member, got, what)
        for (x, a), (y, b) in zip(sorted(mem.member.sections.items()), sorted(fm.sections.items())):
            same(a["utilization"], b["utilization"], f"{what} section {x:.3g}")
        if mem.resistance_check is not True and mem.resistance_check is not False or mem.resistance_check != bool(got <= mem.allowable_utilization):
            raise Violation("flag", f"{what}: utilisation {float(got)!r} with allowable {mem.allowable_utilization}, but resistance_check is {mem.resistance_check}")
        reported[m, lc] = got
        if changed:
            n += 1

    def others(touched, after):
        for (m, lc), v in reported.items():
            if (m, lc) not in touched:
                now = lv.o[m].utilization.get(lc)
                if now is None or not close(float(now), float(v)):
                    raise Violation("other-member", f"after {after}: reported utilisation of member {m}, case {lc} went from {float(v)!r} to {now!r} without being checked")

    for op in plan["ops"]:
        k = op["op"]
        ids = s.cases()
        if k == "analyse":
            if not ids or not s.stable(1e-8):
                continue
            if gen_needed:
                fr.generate_fem()
                gen_needed = False
            fr.structural_analysis("ALL", support_method="REM", design=op["design"])
            analysed = set(ids)
            if op["design"]:
                for m in s.mems:
                    # case by case, so the flag and details are those of the last one
                    reported.update({(m, lc): lv.o[m].utilization[lc] for lc in ids})
                    for lc in ids:
                        _, want = oracle(m, lc)
                        if not close(float(lv.o[m].utilization[lc]), float(want)):
                            raise Violation("utilisation", f"member {m}, case {lc} after analysis: reported {float(lv.o[m].utilization[lc])!r}, a fresh check gives {float(want)!r}")
            others({(m, lc) for m in s.mems for lc in ids}, k)
        elif k in ("design", "design_case", "trial"):
            a = sorted(analysed)
            if not a:
                continue
            lc = a[int(op["lc"] * len(a))]
            if k == "design":
                if op["m"] not in s.mems or lc not in lv.o[op["m"]].nodal_forces:
                    continue
                mem = lv.o[op["m"]]
                if op["fault"] and not R.with_fault(op["fault"], lambda: mem.design(lc), "design") or not op["fault"]:
                    mem.design(lc)
                else:
                    mem.design(lc)
                check(op["m"], lc)
                others({(op["m"], lc)}, k)
            elif k == "design_case":
                if any(lc not in lv.o[m].nodal_forces for m in s.mems):
                    continue
                if op["fault"]:
                    R.with_fault(op["fault"], lambda: fr.design_members(lc), "design_members")
                fr.design_members(lc)
                for m in s.mems:
                    check(m, lc)
                others({(m, lc) for m in s.mems}, k)
            else:
                if op["m"] not in s.mems or lc not in lv.o[op["m"]].nodal_forces:
                    continue
                mem = lv.o[op["m"]]
                old = mem.cross_section
                mem.cross_section = R.make_section(op["sec"])
                if op["force"]:
                    mem.cross_section.Ned = -1
                if op["design"]:
                    mem.design(lc)
                    reported[op["m"], lc] = mem.utilization[lc]
                mem.cross_section = old
                others(set(), k)
            changed = False
        else:
            t = copy.deepcopy(s)
            if not R.apply_spec(t, op) or not t.stable(1e-8):
                continue
            R.apply_live(lv, s, t, op)
            s = t
            gen_needed = gen_needed or k in R.REGEN
            changed = True
            others(set(), k)
        SIM.probe("op:" + k)
    for (m, lc), v in sorted(reported.items()):
        SIM.log(m, lc, "%.6g" % float(v))
    return {"nontrivial": n > 0, "checks_compared": n}


# ---------------------------------------------------------------- members on their own
def gen_members(r, tier):
    secs = [R.gen_section(r) for _ in range(r.randint(1, 2))]
    mems = []
    for _ in range(r.randint(2, 4)):
        nloc = r.randint(2, 4)
        locs = [0, 1] + ([0.5] if nloc > 2 else []) + ([0.25] if nloc > 3 else [])
        mems.append({"sec": r.randrange(len(secs)), "L": float(r.choice([2500, 4000, 6000])), "lcr": [r.choice([0.7, 1.0, 2.0]), r.choice([0.9, 1.0])],
                     "f": {str(x): gen_force(r) for x in sorted(locs)}, "sway": r.random() < 0.3})
    ops = []
    for _ in range(r.randint(8, 24 if tier == "quick" else 50)):
        m = r.randrange(len(mems))
        k = r.pick([("force", 4), ("all_n", 1), ("all_my", 1), ("length", 1), ("lcr", 1), ("section", 2), ("dim", 2), ("fy", 1),
                    ("check_section", 3), ("check_sections", 2), ("check_buckling", 3), ("check_beamcolumn", 4), ("check_LT_buckling", 1), ("design", 5)])
        op = {"op": k, "m": m}
        if k == "force":
            op.update(loc=r.choice(list(mems[m]["f"])), f=gen_force(r))
        elif k in ("all_n", "all_my"):
            op["v"] = gen_force(r)[0 if k == "all_n" else 2]
        elif k == "length":
            op["L"] = float(r.choice([2000, 3500, 5000, 7000]))
        elif k == "lcr":
            op["lcr"] = [r.choice([0.7, 1.0, 2.0]), r.choice([0.9, 1.0])]
        elif k == "section":
            op["sec"] = r.randrange(len(secs))
        elif k == "dim":
            op["sec"] = r.randrange(len(secs))
            if secs[op["sec"]]["k"] not in ("rhs", "wi"):
                continue
            op["to"] = R.gen_section(r, ((secs[op["sec"]]["k"], 1),))
        elif k == "fy":
            op["sec"], op["fy"] = r.randrange(len(secs)), r.choice([235, 355, 420])
        elif k == "check_section":
            op["loc"] = r.choice(list(mems[m]["f"]))
        elif k == "check_beamcolumn":
            op["sway"] = r.random() < 0.4
        ops.append(op)
        if k.startswith("check") and r.random() < 0.12 or k == "design" and r.random() < 0.12:
            op["fault"] = {"kind": r.choice(["interrupt", "memory"]), "at": r.random()}
    ops.append({"op": "design", "m": r.randrange(len(mems))})
    return {"mode": "members", "secs": secs, "mems": mems, "ops": ops}


def gen_force(r):
    return [float(r.choice([0, -1, 1, -1]) * r.randint(1, 900)) * 1e3, float(r.randint(-80, 80)) * 1e3, float(r.choice([0, 1, 1]) * r.randint(-90, 90)) * 1e6]


def run_members(plan):
    secs = [dict(s) for s in plan["secs"]]
    mems = copy.deepcopy(plan["mems"])
    so = [R.make_section(s) for s in secs]
    mo = []
    for m in mems:
        o = SteelMember(so[m["sec"]], m["L"], Lcr=list(m["lcr"]))
        for x, f in m["f"].items():
            o.add_section(loc=num(x), ned=f[0], vzed=f[1], myed=f[2])
        mo.append(o)
    changed, checked, n = set(), set(), 0
    last = {}
    for op in plan["ops"]:
        k, i = op["op"], op["m"]
        m, o = mems[i], mo[i]
        SIM.probe("op:" + k)
        if k == "force":
            if op["loc"] not in m["f"]:
                continue
            m["f"][op["loc"]] = list(op["f"])
            d = o.sections[num(op["loc"])]
            d["N"], d["Vz"], d["My"] = op["f"]
        elif k == "all_n":
            for f in m["f"].values():
                f[0] = op["v"]
            o.ned = op["v"]
        elif k == "all_my":
            for f in m["f"].values():
                f[2] = op["v"]
            o.myed = op["v"]
        elif k == "length":
            m["L"] = o.length = op["L"]
        elif k == "lcr":
            m["lcr"] = list(op["lcr"])
            o.lcr = np.array(op["lcr"])
        elif k == "section":
            m["sec"] = op["sec"]
            o.profile = so[op["sec"]]
        elif k == "dim":
            if secs[op["sec"]]["k"] != op["to"]["k"]:
                continue
            secs[op["sec"]].update({a: b for a, b in op["to"].items()})
            R.set_dim(so[op["sec"]], op["to"])
        elif k == "fy":
            secs[op["sec"]]["fy"] = op["fy"]
            so[op["sec"]].material = "S%d" % op["fy"]
        else:
            fm = fresh_member(secs[m["sec"]], m["L"], m["lcr"], "beam", [(num(x), f) for x, f in m["f"].items()])

            def call(z):
                if k == "design":
                    return z.design(sway=m["sway"])
                if k == "check_section":
                    return z.check_section(num(op["loc"]))
                if k == "check_beamcolumn":
                    return z.check_beamcolumn(sway=op["sway"])
                return getattr(z, k)()
            if k == "check_LT_buckling":
                # compared in the sequence the library uses it: after the sections
                o.check_sections(), fm.check_sections()
            if op.get("fault"):
                R.with_fault(op["fault"], lambda: call(o), k)
            got, want = call(o), call(fm)
            got, want = np.atleast_1d(np.asarray(got, float)), np.atleast_1d(np.asarray(want, float))
            if got.shape != want.shape or not all(close(float(a), float(b)) for a, b in zip(got, want)):
                raise Violation("ratio:" + k, f"{k} of member {i} gives {got.tolist()}, a fresh check of the same member gives {want.tolist()}")
            governing(o, list(m["f"].values()), f"member {i}")
            if k == "design":
                governs(o, got[0], f"member {i}")
                same(o.stability, fm.stability, f"member {i} stability")
                for x in fm.sections:
                    same(o.sections[x]["utilization"], fm.sections[x]["utilization"], f"member {i} section {x}")
            for j, z in enumerate(mo):
                if j != i and j in last and state(z) != last[j]:
                    raise Violation("other-member", f"{k} of member {i} changed the reported ratios of member {j}")
            last[i] = state(o)
            if i in checked and changed:
                n += 1
            checked.add(i)
            changed.discard(i)
            SIM.log(k, i, ["%.6g" % float(x) for x in got])
            continue
        changed.add(i)
    return {"nontrivial": n > 0, "checks_compared": n}


def num(x):
    return float(x)


def state(o):
    return repr(sorted(o.stability.items())) + repr([(x, sorted(d["utilization"].items())) for x, d in sorted(o.sections.items())])
