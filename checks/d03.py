"""D03: sizing of a Frame2D frame ends in sections that pass every load case."""
import contextlib
import copy
import numpy as np
from . import f07 as L
from sim.core import SIM, Violation
from sim import reffem
from metku.frame2d import frame2d as F

RUNS = {"quick": 260, "thorough": 3000}
RULE = ("A run draws a frame (as F07, 1-3 load cases, loads of very different size) and 1-3 sizing runs with the family of the current sections or a named family, some interrupted or out of "
        "memory at a chosen statement and then run again, with profile and joint-stiffness changes in between. When a sizing run ends before its limit of ten rounds, the frame is built "
        "afresh with the chosen sections and analysed case by case: every member passes every case, or no section of the family would (all tried on new members), and no earlier "
        "section of the family would have passed. Non-trivial: a converged sizing was compared.")
REAL = ["metku.frame2d sizing, analysis and design", "metku.framefem", "metku.structures.steel.SteelMember", "metku.sections.steel"]
STUB = ["interruption and memory faults at chosen statements"]
ASSUMPTIONS = ["families of I, RHS and SHS sections (members of circular sections cannot be designed by the library)", "a square hollow section belongs to the family RHS", "self-weight is the weight the model was generated with"]
FAMILY = {"IPE": F.ipe_profiles, "H": F.h_profiles, "RHS": F.rhs_profiles, "SHS": F.shs_profiles}
NAMES = {k: [F.SteelBeam([[0, 0], [1000, 0]], profile=p).profile for p in v] for k, v in FAMILY.items()}


def gen(r, i, tier):
    while True:
        s = L.gen_spec(r)
        if len(s["m"]) > 5 or not lids_ok(s):
            continue
        z = r.choice([0.2, 1, 1, 3, 10])
        for p in s["pl"]:
            p["f"] *= z * r.choice([1, 1, 0.2])
        for p in s["ll"]:
            p["f"] *= z * r.choice([1, 1, 0.2])
        for m in s["m"]:
            m["ne"] = min(m["ne"], 4)
        break
    plan = {"spec": s, "ops": []}
    for k in range(r.randint(1, 2 if tier == "quick" else 4)):
        op = {"op": "size", "fam": r.pick([("CURRENT", 4), ("IPE", 3), ("H", 2), ("SHS", 0.7), ("RHS", 0.15)])}
        if r.random() < 0.25:
            op["fault"] = {"kind": r.pick([("interrupt", 3), ("memory", 1), ("solve:LinAlgError", 1)]), "at": r.random(), "n": r.randint(1, 4)}
        plan["ops"].append(op)
        for _ in range(r.randint(0, 2)):
            if r.random() < 0.5:
                plan["ops"].append({"op": "prof", "m": r.random(), "prof": r.choice([p for p in L.PROFILES if p[0] in "IH"])})
            else:
                plan["ops"].append({"op": "Sj", "m": r.random(), "end": r.randint(0, 1), "v": L.stiffness(r)})
    plan["ops"].append({"op": "size", "fam": "CURRENT"})
    return plan


def lids_ok(s):
    try:
        for lid in L.lids_of(s):
            L.reference(s, lid, L.plain_nodes(s))
    except reffem.Unstable:
        return False
    return True


def family(name, x):
    if name != "CURRENT":
        return name
    c = type(x.cross_section).__name__
    return {"HEA": "H", "HEAA": "H", "HEB": "H", "HEC": "H", "HEM": "H", "RHS": "RHS", "SHS": "RHS"}.get(c, "IPE")


def run(plan):
    s = copy.deepcopy(plan["spec"])
    fr, ms = L.build(s)
    for m in s["m"]:
        m.setdefault("gen", m["prof"])
    n = 0
    for op in plan["ops"]:
        if op["op"] == "prof":
            i = int(op["m"] * len(ms))
            ms[i].profile = op["prof"]
            s["m"][i]["prof"] = op["prof"]
        elif op["op"] == "Sj":
            bs = [i for i, m in enumerate(s["m"]) if m["t"] == "beam"]
            if bs:
                i = bs[int(op["m"] * len(bs))]
                old = s["m"][i]["S"][op["end"]]
                s["m"][i]["S"][op["end"]] = op["v"]
                if not lids_ok(s):
                    s["m"][i]["S"][op["end"]] = old
                    continue
                setattr(ms[i], "Sj%d" % (op["end"] + 1), L.val(op["v"]))
        else:
            fams = [family(op["fam"], x) for x in ms]
            rounds, seen = [0], [None]
            real, first = fr.f.linear_statics, L.LIDS[L.lids_of(s)[0]]

            def counted(*a, **k):
                # every round analyses every case, each on its own or together
                cases = [v for y in list(a) + list(k.values()) for v in (y if isinstance(y, (list, tuple)) else [y])]
                if any(type(v) is type(first) and v == first for v in cases):
                    rounds[0] += 1
                    seen[0] = [profile_name(x, m["prof"]) for m, x in zip(s["m"], ms)]
                return real(*a, **k)
            fr.f.linear_statics = counted
            try:
                if op.get("fault"):
                    fired = L.with_fault(op["fault"], lambda: fr.optimize_members(op["fam"]), "Frame2D.optimize_members")
                else:
                    fr.optimize_members(op["fam"])
                    fired = False
            finally:
                del fr.f.linear_statics
            for m, x in zip(s["m"], ms):
                m["prof"] = profile_name(x, m["prof"])
            SIM.log("size", op["fam"], [m["prof"] for m in s["m"]], rounds[0])
            if fired:
                continue
            for x in ms:
                for el in x.elements.values():
                    if not np.allclose([el.section.A, el.section.I[0]], [x.cross_section.A, x.cross_section.I[0]], rtol=1e-9):
                        raise Violation("sizing:elements", f"an element of member {x.mem_id} has {el.section}, the member has {x.cross_section}")
            if rounds[0] >= 10:
                SIM.probe("limit-reached")
                with contextlib.ExitStack() as st:
                    for lid in L.lids_of(s):
                        st.enter_context(L.results_of(lid))
                    last_step(s, ms, fams, seen[0], f"sizing with {op['fam']} (stopped after {rounds[0]} rounds)")
                continue
            n += 1
            with contextlib.ExitStack() as st:
                for lid in L.lids_of(s):
                    st.enter_context(L.results_of(lid))
                compare(s, ms, fams, f"sizing with {op['fam']} ({rounds[0]} rounds)")
    return {"nontrivial": n > 0, "converged": n}


def profile_name(x, old):
    """A name from which the section of x can be made anew."""
    for k, v in NAMES.items():
        if x.profile in v:
            return list(FAMILY[k])[v.index(x.profile)]
    return old


def anew(s, profs):
    s2 = copy.deepcopy(s)
    for m in s2["m"]:
        m["prof"] = m["gen"]
    fr2, ms2 = L.build(s2)
    for p, x in zip(profs, ms2):
        x.profile = p
    return fr2, ms2


def last_step(s, ms, fams, profs, what):
    """The sections chosen in the last round follow from the forces the frame has with the sections before it."""
    fr2, ms2 = anew(s, profs)
    forces = {}
    for lid in L.lids_of(s):
        fr2.calculate(L.LIDS[lid], support_method="REM")
        for i, y in enumerate(ms2):
            for p in dict.fromkeys(list(FAMILY[fams[i]])[:NAMES[fams[i]].index(ms[i].profile) + 1] if ms[i].profile in NAMES[fams[i]] else []):
                u = L.utilisation(y, p, y.elements.values(), lid)
                forces[i, p] = max(forces.get((i, p), 0.0), u)
    for i, x in enumerate(ms):
        fam, names = list(FAMILY[fams[i]]), NAMES[fams[i]]
        if x.profile not in names:
            raise Violation("sizing:family", f"{what}: member {x.mem_id} got {x.profile}, which is not in the family {fams[i]}")
        k = names.index(x.profile)
        if forces[i, fam[k]] > 1.001 and k < len(fam) - 1:
            raise Violation("sizing:step-inadequate", f"{what}: member {x.mem_id} was given {x.profile}, utilised {forces[i, fam[k]]:.4f} by the forces found, though the family has further sections")
        for p in fam[:k]:
            if forces[i, p] < 0.999:
                raise Violation("sizing:step-skipped", f"{what}: member {x.mem_id} was given {x.profile}, though {p} before it in the family is utilised {forces[i, p]:.4f} by the forces found")


def compare(s, ms, fams, what):
    fr2, ms2 = anew(s, [m["prof"] for m in s["m"]])
    for lid in L.lids_of(s):
        fr2.calculate(L.LIDS[lid], support_method="REM")
        try:
            L.check(fr2, ms2, s, lid, what)
        except reffem.Unstable:
            SIM.probe("reference-ill-conditioned")
        for x, y, m in zip(ms, ms2, s["m"]):
            a, b = np.max(x.r[L.LIDS[lid]]), L.utilisation(x, m["prof"], x.elements.values(), lid)
            if not np.allclose(a, b, rtol=1e-6, atol=1e-9):
                raise Violation("sizing:utilisation", f"{what}: utilisation of member {x.mem_id} ({x.profile}) in case {lid} is reported as {a}; a new check with its forces gives {b}")
    for i, (x, y) in enumerate(zip(ms, ms2)):
        fam = list(FAMILY[fams[i]])
        worst = max(np.max(y.r[L.LIDS[lid]]) for lid in L.lids_of(s))
        names = NAMES[fams[i]]
        if x.profile not in names:
            raise Violation("sizing:family", f"{what}: member {x.mem_id} got {x.profile}, which is not in the family {fams[i]}")
        k = names.index(x.profile)
        if worst > 1.001 and k < len(fam) - 1:
            raise Violation("sizing:inadequate", f"{what}: member {x.mem_id} ended with {x.profile}, utilised {worst:.4f}, though the family has further sections")
        for p in fam[:k]:
            u = max(L.utilisation(y, p, y.elements.values(), lid) for lid in L.lids_of(s))
            if u < 0.999:
                raise Violation("sizing:skipped", f"{what}: member {x.mem_id} ended with {x.profile}, though {p} before it in the family is utilised {u:.4f}")

