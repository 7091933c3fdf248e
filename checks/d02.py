"""D02: automatic member sizing ends in a consistent design that passes its checks."""
import copy
import numpy as np
from . import raamilib as R
from .d01 import fresh_member
from sim.core import SIM, Violation
from metku.sections.steel import catalogue
from metku.raami.raami_plane_truss import SlopedTruss
from metku.structures.steel.steel_member import SteelMember
from metku.materials.steel_data import Steel

RUNS = {"quick": 400, "thorough": 5000}
RULE = ("Small steel frames with random member groups, symmetry pairs, allowed utilisations, load cases and combinations: sizing with the family of the current section or a named one, between load, geometry, section and "
        "buckling-length edits, some sizing runs interrupted or out of memory at a chosen statement and then run again. However sizing ends, members of a group or pair, elements and design data carry the "
        "same section. When it ends before its iteration limit, a newly built frame or truss (in any joint model) with the chosen sections gives the same forces and utilisations in every case, and every utilisation is within the allowed "
        "one unless no section of the family would do (decided by checking the whole family on new members). Non-trivial: a converged sizing was compared after an earlier sizing, edit or fault.")
REAL = ["metku.raami sizing, analysis and design", "metku.framefem", "metku.structures.steel.SteelMember", "metku.sections.steel"]
STUB = ["interruption and memory faults at chosen statements"]
ASSUMPTIONS = ["the iteration limit counts analyses of the frame (nine); of a run that reaches it the last round is checked",
               "steel members; sizing families IPE, HEA, HEB and RHS (the ones the catalogue can build)"]

LIMIT = 9
EW = [("move", 2), ("section", 3), ("add_load", 2), ("edit_load", 5), ("lcr", 2), ("material", 1), ("add_comb", 2), ("sw_on", 2), ("sw_off", 1)]
FAM = [("CURRENT", 5), ("IPE", 3), ("HEA", 2), ("HEB", 1), ("RHS", 0.15)]


def gen(r, i, tier):
    return gen_truss(r, tier) if r.random() < 0.15 else gen_frame(r, tier)


def gen_frame(r, tier):
    kinds = (("ipe", 3), ("hea", 2), ("wi", 1), ("rhs", 0.25))
    while True:
        s = R.gen_frame(r, kinds=kinds, kind=r.pick([("portal", 5), ("beam", 3), ("truss", 0.7), ("multi", 0.7)]), ncases=r.randint(1, 2))
        if s.stable() and len(s.mems) <= 9:
            break
    ms = list(s.mems)
    for m in s.mems.values():
        m["sway"] = r.random() < 0.2
        if r.random() < 0.2:
            m["allow"] = r.choice([0.6, 0.8, 0.9, 1.1])
    r.shuffle(ms)
    groups, pairs = [], []
    if len(ms) > 1:
        if r.random() < 0.5:
            n = r.randint(1, min(3, len(ms)))
            groups.append([ms.pop() for _ in range(n)])
            if len(ms) > 2 and r.random() < 0.3:
                groups.append([ms.pop() for _ in range(2)])
        while len(ms) > 1 and r.random() < 0.5:
            pairs.append([ms.pop(), ms.pop()])
    # loads of a size that needs some sections of the family, now and then none is enough
    z = r.choice([0.3, 1, 1, 2, 4, 15])
    for l in s.loads.values():
        l["f"] *= z
    plan = {"init": R.to_json(s), "groups": groups, "pairs": pairs, "ops": []}
    for _ in range(r.randint(1, 3 if tier == "quick" else 6)):
        op = {"op": "size", "fam": r.pick(FAM)}
        if r.random() < 0.3:
            op["fault"] = {"kind": r.pick([("interrupt", 4), ("memory", 2), ("solve:singular", 1), ("solve:memory", 1)]), "at": r.random(), "n": r.randint(1, 6)}
        plan["ops"].append(op)
        for _ in range(r.randint(0, 2)):
            w = list(EW)
            e = R.gen_edit(r, s, w)
            if e and not (e[0].get("new", {}).get("k") == "rhs"):
                plan["ops"].append(e[0])
                s = e[1]
    if plan["ops"][-1]["op"] != "size":
        plan["ops"].append({"op": "size", "fam": r.pick(FAM)})
    return plan


# ---------------------------------------------------------------- catalogue
TABLE = {"IPE": "ipe_profiles", "HEA": "hea_profiles", "HEB": "heb_profiles", "RHS": "rhs_profiles"}
_cat = {}


def family(name):
    if name not in _cat:
        _cat[name] = {k: ident(catalogue.make_section(k)) for k in getattr(catalogue, TABLE[name])}
    return _cat[name]


def fam_of(sec):
    t = type(sec).__name__
    return {"SHS": "RHS"}.get(t, t) if t in ("IPE", "HEA", "HEB", "RHS", "SHS") else "IPE"


def named(fam, sec):
    return fam if fam in TABLE else fam_of(sec)


def ident(o):
    """What makes two sections the same profile."""
    return (type(o).__name__, round(float(o.h), 6), round(float(np.max(o.b)), 6), round(float(o.A), 4), round(float(o.Iy), 1), round(float(o.Iz), 1))


def sync(lv, s):
    """The specification takes the sections the members of the live frame carry now."""
    known = {id(lv.o[u]): u for u in s.secs}
    for m in s.mems:
        sec = lv.o[m].cross_section
        if id(sec) not in known:
            key = next((k for k, v in family(fam_of(sec)).items() if v == ident(sec)), None)
            if key is None:
                raise Violation("section", f"member {m} carries {sec}, which is neither a section given to it nor one of the catalogue")
            u = s.uid()
            s.secs[u] = {"k": "cat", "name": key, "fy": int(sec.fy)}
            lv.o[u] = sec
            known[id(sec)] = u
        s.mems[m]["sec"] = known[id(sec)]
        s.secs[known[id(sec)]]["fy"] = int(sec.fy)


def consistent(lv, s, plan, what):
    def eq(a, b):
        return a is b or ident(a) == ident(b) and a.fy == b.fy

    def need(a, b, cls, txt):
        if not eq(a, b):
            raise Violation(cls, f"{what}: {txt}: {a!r} S{a.fy:.0f} and {b!r} S{b.fy:.0f}")
    for m in s.mems:
        mem = lv.o[m]
        need(mem.cross_section, mem.member.profile, "design-section", f"member {m} and its design data carry different sections")
        for e in mem.fem_elements:
            need(mem.cross_section, e.section, "element-section", f"member {m} and its element carry different sections")
    for g, grp in zip(plan["groups"], lv.groups):
        for m in g:
            need(grp.cross_section, lv.o[m].cross_section, "group-section", f"member {m} and its group carry different sections")
    for a, b in plan["pairs"]:
        need(lv.o[a].cross_section, lv.o[b].cross_section, "pair-section", f"members {a} and {b} of a symmetry pair carry different sections")


def fresh(s):
    f = R.Live(s)
    f.frame.generate_fem()
    f.frame.structural_analysis("ALL", support_method="REM", design=True)
    return f


def feasible(f, s, unit, fam, ids, slack=1.0, upto=None):
    """Keys of the family that would do for all members of the unit with the forces of the fresh frame (only those before 'upto')."""
    for key in getattr(catalogue, TABLE[fam]):
        if upto is not None and family(fam)[key] == upto:
            return None
        o = catalogue.make_section(key)
        o.Ned = -1
        if o.section_class() > 3 or (fam == "RHS" and getattr(catalogue, TABLE[fam])[key]["t"] < 3.0):
            continue
        ok = True
        for m in unit:
            x = s.mems[m]
            a, b = (np.array(s.nodes[q], float) for q in x["n"])
            nel = x["nel"]
            for lc in ids:
                nf = f.o[m].nodal_forces[lc]
                loc = list(zip([i / nel for i in range(nel + 1)], zip(nf["N"], nf["Vz"], nf["My"])))
                fm = fresh_member({"k": "cat", "name": key}, float(np.linalg.norm(b - a)), x.get("lcr") or [1.0, 1.0], x["type"], loc)
                if any(fm.slenderness() > 5.0 * slack) or not fm.design(sway=bool(x.get("sway"))) <= x.get("allow", 1.0) * slack:
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return key
    return None


def last_step(lv, end, s, units, fam, ids):
    """When the rounds are used up, the last choice is still adequate for the forces of the last analysis."""
    with SIM.quiet():
        f = fresh(s)
    for u in units:
        for m in u:
            x = s.mems[m]
            a, b = (np.array(s.nodes[q], float) for q in x["n"])
            for lc in ids:
                nf = f.o[m].nodal_forces[lc]
                loc = list(zip([i / x["nel"] for i in range(x["nel"] + 1)], zip(nf["N"], nf["Vz"], nf["My"])))
                with SIM.quiet():
                    v = fresh_member(end.secs[end.mems[m]["sec"]], float(np.linalg.norm(b - a)), x.get("lcr") or [1.0, 1.0], x["type"], loc).design(sway=bool(x.get("sway")))
                    key = feasible(f, s, u, named(fam, lv.o[u[0]].cross_section), ids) if v > x.get("allow", 1.0) * (1 + 1e-5) else None
                if key:
                    raise Violation("step-undersized", f"the last round of sizing chose {lv.o[m].cross_section!r} for member {m}: utilisation {v:.4f} with the forces found in case {lc}, allowed "
                                                       f"{x.get('allow', 1.0)}, although {key} would do for {u}")


def run(plan):
    return run_truss(plan) if plan.get("mode") == "truss" else run_frame(plan)


def run_frame(plan):
    s = R.from_json(plan["init"])
    lv = R.Live(s)
    fr = lv.frame
    for m, x in s.mems.items():
        if "allow" in x:
            lv.o[m].allowable_utilization = x["allow"]
    lv.groups = []
    for i, g in enumerate(plan["groups"]):
        grp = R.MemberGroup([lv.o[m] for m in g], "g%d" % i)
        fr.member_groups["g%d" % i] = grp
        lv.groups.append(grp)
    for a, b in plan["pairs"]:
        lv.o[a].symmetry_pair, lv.o[b].symmetry_pair = lv.o[b], lv.o[a]
    units = [*plan["groups"], *plan["pairs"]]
    inunit = {m for u in units for m in u}
    units += [[m] for m in s.mems if m not in inunit]
    count = [0]
    real = fr.structural_analysis

    last = [None]

    def counted(*a, **k):
        count[0] += 1
        if count[0] > 0:
            with SIM.quiet():
                sync(lv, s)
                last[0] = copy.deepcopy(s)
        return real(*a, **k)
    fr.structural_analysis = counted
    gen_needed, n, before = True, 0, False
    for op in plan["ops"]:
        k = op["op"]
        if k != "size":
            t = copy.deepcopy(s)
            if not R.apply_spec(t, op) or not t.stable(1e-8):
                continue
            R.apply_live(lv, s, t, op)
            s = t
            sync(lv, s)
            gen_needed = gen_needed or k in R.REGEN
            if k in R.LOADCHANGE:
                for u in s.combs:
                    R.apply_live(lv, s, s, {"op": "rebuild", "u": u})
            before = True
            continue
        if not s.cases() or not s.stable(1e-8):
            continue
        if gen_needed:
            fr.generate_fem()
            gen_needed = False
        ids = list(fr.load_ids)
        with SIM.quiet():
            count[0] = -10 ** 6
            if op.get("fault"):
                if R.with_fault(op["fault"], lambda: fr.optimize_members(op["fam"]), "sizing"):
                    consistent(lv, s, plan, "after interrupted sizing")
                    before = True
                    sync(lv, s)
            count[0] = 0
            fr.optimize_members(op["fam"])
        done = count[0] < LIMIT
        SIM.probe("sizing:" + ("converged" if done else "limit"))
        consistent(lv, s, plan, "after sizing")
        sync(lv, s)
        if not s.stable(1e-10):
            SIM.probe("ref:unstable-skip")
            continue
        SIM.log("sizes", [repr(lv.o[m].cross_section) for m in s.mems])
        if not done:
            before = True
            if last[0].stable(1e-10):
                last_step(lv, s, last[0], units, op["fam"], ids)
            continue
        with SIM.quiet():
            f = fresh(s)
        for lc in ids:
            R.compare(lv.results(s, lc), f.results(s, lc), f"after sizing, case {lc}, compared with a new frame with the chosen sections", "model", rel=1e-5)
        for u in units:
            over = None
            chosen = ident(lv.o[u[0]].cross_section)
            name = named(op["fam"], lv.o[u[0]].cross_section)
            if chosen not in family(name).values():
                raise Violation("family", f"sizing with {op['fam']} ended with {lv.o[u[0]].cross_section!r} for {u}")
            for m in u:
                for lc in ids:
                    want, got = float(f.o[m].utilization[lc]), float(lv.o[m].utilization[lc])
                    if not abs(got - want) <= 1e-5 * max(1, abs(want)):
                        raise Violation("reported", f"member {m}, case {lc} after sizing: reported utilisation {got!r}, re-analysis with the chosen sections gives {want!r}")
                    if not want <= s.mems[m].get("allow", 1.0) * (1 + 1e-5):
                        over = m, lc, want
            if over:
                SIM.probe("none-enough")
                with SIM.quiet():
                    key = feasible(f, s, u, name, ids)
                if key:
                    m, lc, want = over
                    raise Violation("undersized", f"sizing ended with {lv.o[m].cross_section!r} for member {m}: utilisation {want:.4f} in case {lc}, allowed {s.mems[m].get('allow', 1.0)}, "
                                                  f"although {key} would do for {u}")
                continue
            with SIM.quiet():
                key = feasible(f, s, u, name, ids, 1 - 1e-4, chosen)
            if key:
                raise Violation("oversized", f"sizing ended with {lv.o[u[0]].cross_section!r} for {u}, although {key}, before it in the catalogue, does as well with the same forces")
        n += before
        before = True
    return {"nontrivial": n > 0, "compared": n}


# ---------------------------------------------------------------- plane trusses
def gen_truss(r, tier):
    h1 = r.choice([1000, 1500])
    plan = {"mode": "truss", "span": r.choice([9000, 12000, 16000]), "h1": h1, "h2": h1 + r.choice([300, 600]), "dx": r.choice([800, 1200]), "topo": r.choice(["K", "N", "KT"]), "ndiv": r.choice([2, 2, 3]),
            "nel": r.choice([1, 2]), "sym": r.random() < 0.7, "beams": r.random() < 0.8, "model": r.pick([("no_eccentricity", 2), ("en1993", 1), ("ecc_elements", 1)]),
            "loads": [[-float(r.choice([5, 15, 25, 40])), r.choice(["top", "top", "bottom"]), c] for c in r.sample([0, 1, 2], r.randint(1, 2))], "ops": []}
    if plan["topo"] == "KT":
        plan["topo"] = "K"
    for _ in range(r.randint(1, 2)):
        op = {"op": "size", "top": [r.choice(["S355", "S355", "S420"]), 2, r.choice([1.0, 0.8, 0.6])], "bottom": [r.choice(["S355", "S500"]), r.choice([2, 3]), r.choice([1.0, 0.9, 0.7])],
              "braces": ["S355", 2, r.choice([1.0, 0.95, 0.7])]}
        if r.random() < 0.3:
            op["wide"] = True
        if r.random() < 0.3:
            op["fault"] = {"kind": r.choice(["interrupt", "memory"]), "at": r.random()}
        plan["ops"].append(op)
        if r.random() < 0.6:
            plan["ops"].append({"op": "factor", "x": r.choice([0.5, 1.5, 2.0]), "lc": r.random()})
    return plan


def build_truss(plan, factors, secs=None):
    t = SlopedTruss(L1=0.5 * plan["span"], L2=0.5 * plan["span"], h2=plan["h2"], h1=plan["h1"], dx1=plan["dx"], dx2=plan["dx"])
    t.braces_as_beams = plan["beams"]
    t.generate_topology(plan["topo"], plan["ndiv"], top_chord_profile=R.RHS(160, 160, 5), bottom_chord_profile=R.RHS(140, 140, 5), brace_profile=R.RHS(90, 90, 5), nel_chord=plan["nel"], nel_brace=1)
    t.generate_supports()
    t.generate_joints()
    if plan["sym"]:
        t.symmetry()
    for q, chord, lc in plan["loads"]:
        t.generate_uniform_load(q=q * factors[lc], chord=chord, load_id=lc)
    if secs:
        assign(t, secs)
    t.generate_fem(model=plan["model"])
    return t


def sections(t):
    return {k: (m.cross_section.H, m.cross_section.B, m.cross_section.T, int(m.cross_section.fy)) for k, m in t.members.items()}


def assign(t, secs):
    for k, s in secs.items():
        t.members[k].cross_section = R.RHS(*s)


def run_truss(plan):
    factors = {lc: 1.0 for _, _, lc in plan["loads"]}
    with SIM.quiet():
        t = build_truss(plan, factors)
        drawn = sections(t)      # sections the calculation model was drawn with
    count = [0]
    real = t.structural_analysis

    last = [None]

    def counted(*a, **k):
        count[0] += 1
        if count[0] > 0:
            last[0] = sections(t)
        return real(*a, **k)
    t.structural_analysis = counted

    def ok(what):
        for k, m in t.members.items():
            others = [("design data", m.member.profile)] + [("element", e.section) for e in m.fem_elements]
            others += [("group " + g, grp.cross_section) for g, grp in t.member_groups.items() if m in grp.members]
            others += [("symmetry pair", m.symmetry_pair.cross_section)] if m.symmetry_pair is not None else []
            for w, x in others:
                if ident(x) != ident(m.cross_section) or x.fy != m.cross_section.fy:
                    raise Violation(w.split()[0] + "-section", f"{what}: member {k} carries {m.cross_section!r} S{m.cross_section.fy:.0f}, its {w} {x!r} S{x.fy:.0f}")
    n, before = 0, False
    for op in plan["ops"]:
        if op["op"] == "factor":
            ids = sorted(factors)
            lc = ids[int(op["lc"] * len(ids))]
            factors[lc] *= op["x"]
            for l in t.load_cases[lc].loads:
                l.values = l.values * op["x"]
            with SIM.quiet():
                t.generate_fem(model=plan["model"])
                drawn = sections(t)
            before = True
            continue
        kw = {"top": dict(zip(("material", "class", "utility"), op["top"])), "bottom": dict(zip(("material", "class", "utility"), op["bottom"])),
              "braces": {"material": op["braces"][0], "class": op["braces"][1], "utility_tens": op["braces"][2], "utility_comp": op["braces"][2]}}
        if op.get("wide"):
            kw["limit_width"] = True
        with SIM.quiet():
            count[0] = -10 ** 6
            if op.get("fault") and R.with_fault(op["fault"], lambda: t.optimize_members(**kw), "truss sizing"):
                ok("after interrupted truss sizing")
                before = True
            count[0] = 0
            t.optimize_members(**kw)
        ok("after truss sizing")
        done = count[0] < LIMIT
        SIM.probe("truss:" + ("converged" if done else "limit"))
        SIM.log("sizes", [repr(m.cross_section) for m in t.members.values()])
        if not done:
            before = True
            with SIM.quiet():
                f = analysed(plan, factors, drawn, last[0])
            for k, m in t.members.items():
                g = next((x for x in ("top", "bottom") if m in t.member_groups[x + "_chord"].members), "braces")
                with SIM.quiet():
                    sec = sections(t)[k]
                    worst = max(truss_design(f.members[k], R.RHS(*sec), lc) for lc in t.load_ids)
                    good = truss_feasible(f, keys_of(t, g, m), *op[g], t.load_ids, width(op, g, last[0], t)) if worst > op[g][2] * (1 + 1e-4) else None
                if good:
                    raise Violation("step-undersized", f"the last round of sizing chose {m.cross_section!r} for truss member {k}: utilisation {worst:.4f} with the forces found, allowed {op[g][2]}, although {good} would do")
            continue
        with SIM.quiet():
            f = analysed(plan, factors, drawn, sections(t))
        lims = {}
        for k, m in t.members.items():
            g = next((x for x in ("top", "bottom") if m in t.member_groups[x + "_chord"].members), "braces")
            lims[k] = g, op[g]
            for lc in t.load_ids:
                a, b = m.nodal_forces[lc], f.members[k].nodal_forces[lc]
                scale = max(abs(v) for q in f.members.values() for v in q.nodal_forces[lc]["N"])
                for q in ("N", "Vz", "My"):
                    tol = 1e-5 * scale * (1 if q != "My" else 1000)
                    if len(a[q]) != len(b[q]) or any(abs(x - y) > tol for x, y in zip(a[q], b[q])):
                        raise Violation("model:force", f"truss member {k}, case {lc}: {q} = {list(map(float, a[q]))}, a new truss with the chosen sections gives {list(map(float, b[q]))}")
                got, want = float(m.utilization[lc]), float(f.members[k].utilization[lc])
                if abs(got - want) > 1e-4 * max(1, want):
                    raise Violation("reported", f"truss member {k}, case {lc} after sizing: reported utilisation {got!r}, re-analysis with the chosen sections gives {want!r}")
        for k, m in t.members.items():
            g, (mat, cls, util) = lims[k]
            if m.cross_section.fy != Steel(mat).fy:
                raise Violation("grade", f"truss member {k} was to be sized in {mat} and ended with {m.cross_section!r} S{m.cross_section.fy:.0f}")
            o = R.RHS(*sections(t)[k])
            o.Ned = -1
            for what, bad in (("class", o.section_class() > cls), ("width", o.B < width(op, g, sections(t), t))):
                if not bad:
                    continue
                SIM.probe("none-enough")
                with SIM.quiet():
                    good = truss_feasible(f, keys_of(t, g, m), mat, cls, util, t.load_ids, width(op, g, sections(t), t))
                if good:
                    raise Violation(what, f"sizing ended with {m.cross_section!r} for truss member {k}, which does not respect the {what} asked for, although {good} would do")
            for lc in t.load_ids:
                want = float(f.members[k].utilization[lc])
                if want <= util * (1 + 1e-4):
                    continue
                SIM.probe("none-enough")
                keys = keys_of(t, g, m)
                with SIM.quiet():
                    good = truss_feasible(f, keys, mat, cls, util, t.load_ids, width(op, g, sections(t), t))
                if good:
                    raise Violation("undersized", f"sizing ended with {m.cross_section!r} for truss member {k}: utilisation {want:.4f} in case {lc}, allowed {util}, although {good} would do for {keys}")
        n += 1
        before = True
    return {"nontrivial": n > 0 and before, "compared": n}


def analysed(plan, factors, drawn, secs):
    f = build_truss(plan, factors, drawn)
    assign(f, secs)
    f.structural_analysis("ALL", support_method="REM", design=True)
    return f


def truss_design(mem, sec, lc):
    nf = mem.nodal_forces[lc]
    x = SteelMember(sec, mem.length(), Lcr=list(mem.lcr), mtype=mem.member.type)
    for loc, a, b, c in zip(mem.local_node_coords, nf["N"], nf["Vz"], nf["My"]):
        x.add_section(loc=loc, ned=a, vzed=b, myed=c)
    return x.design(sway=mem.sway)


def keys_of(t, g, m):
    unit = t.member_groups[g + "_chord"].members if g != "braces" else [m] + ([m.symmetry_pair] if m.symmetry_pair is not None else [])
    return [k for k, x in t.members.items() if x in unit]


def width(op, g, secs, t):
    """The least width of a chord: that of the widest brace, when that is asked for."""
    return max(secs[k][1] for k, x in t.members.items() if any(x is b for b in t.braces.values())) if op.get("wide") and g != "braces" else 0.0


def truss_feasible(f, keys, mat, cls, util, ids, wmin=0.0):
    for key, v in catalogue.rhs_profiles.items():
        o = catalogue.make_section(key, mat)
        if o.b < wmin:
            continue
        o.Ned = -1
        if v["t"] < 3.0 or o.section_class() > cls:
            continue
        p = catalogue.make_section(key)
        p.Ned = -1e5
        if p.section_class() > 3:
            continue
        ok = True
        for k in keys:
            mem = f.members[k]
            for lc in ids:
                nf = mem.nodal_forces[lc]
                x = SteelMember(catalogue.make_section(key, mat), mem.length(), Lcr=list(mem.lcr), mtype=mem.member.type)
                for loc, a, b, c in zip(mem.local_node_coords, nf["N"], nf["Vz"], nf["My"]):
                    x.add_section(loc=loc, ned=a, vzed=b, myed=c)
                if any(x.slenderness() > 5.0) or not x.design(sway=mem.sway) <= util:
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return key
    return None
