"""I01: independent models never influence one another, interleaved or on concurrent threads."""
import copy, math
import numpy as np
from sim.core import SIM, Violation, HarnessError, fork_call
from sim.threads import Baton, Recorder
from sim.simfs import SimFS
from . import f07, femlib as F, raamilib as R, optlib as O, solverlib as S, exportlib as E
from metku.raami.raami_plane_truss import SlopedTruss
from metku.raami.raami_portal_truss import PortalTruss
from metku.raami.raami_simple_truss import three_bar_truss, ten_bar_truss
from metku.raami.frame_loads import LoadIDs
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.ISection import IPE
from metku.sections.steel.wi import WISection
from metku.frame2d.frame2d import Frame2D, SteelBeam, SteelColumn, FixedSupport, PointLoad, LineLoad
from metku.structures.steel.steel_member import SteelMember
from metku.structures.steel.tapered_steel_member import WebTaperedSteelMember
from metku.structures.steel.end_plate_joint import example_1
from metku.structures.steel.fin_plate_joint import FinPlateJoint
from metku.structures.steel.plates import RectPlateWithHoles
from metku.structures.steel.stressed_skin import StressedSkin
from metku.structures.steel.column_base_joint import AnchorBolt
from metku.eurocodes.en1993.en1993_1_8.rhs_joints import RHSKTGapJoint
from metku.eurocodes.en1993.en1993_1_3.trapezoidal import TrapezoidalSheet
from metku.eurocodes.en1991.en1991 import Load, AreaLoad, ImposedLoad, SnowLoad, WindLoad
from metku.cost.workshop import Workshop
from metku.materials.steel_data import Steel
from metku.sandwich.sandwich import ruukki_panel

RUNS = {"quick": 700, "thorough": 9000}
RULE = ("2-4 users work in one process, each on models of its own: frames, roof trusses and portal trusses (often with the library's default profiles), simple trusses, Frame2D frames, calculation models, optimisation problems, "
        "deterministic optimisers, 2D frame members and their materials, steel members, joints, load definitions and workshop data. Their operations (building, editing, hinging, loading, analysing, designing, "
        "optimising, exporting, reading) are interleaved whole, or run on concurrent simulated threads that change hands at chosen statements: after random numbers of statements and at source lines that several "
        "of them execute; some users start only when another has finished. Whatever a user observes must equal what it observes alone in a fresh process. "
        "Non-trivial: at least two users overlapped or followed each other and at least six observations were compared.")
REAL = ["metku.framefem", "metku.raami frames and trusses", "metku.frame2d frames and trusses", "metku.structures.steel", "metku.optimization problems and deterministic solvers", "metku.cost.workshop", "metku exports"]
STUB = ["thread scheduler (one thread runs at a time, switched at statements of metku)", "disk (in-memory)", "the structural analysis of generated optimisation problems"]
ASSUMPTIONS = ["solvers drawing from the process-wide random stream are left out: sharing that stream is documented numpy behaviour", "statements of numpy, scipy and other libraries are not interleaved",
               "floats compared to 1e-9"]


# ------------------------------------------------------------------ sessions
class Frame:
    @staticmethod
    def gen(r, tier):
        s = R.gen_frame(r)
        while not s.stable():
            s = R.gen_frame(r)
        for m in s.mems.values():
            m["give"] = r.random() < 0.3
        init, ops = R.to_json(s), []
        for _ in range(r.randint(3, 8)):
            k = r.pick([("edit", 5), ("analyse", 3), ("design", 1), ("export", 1), ("size", 0.5)])
            if k == "edit":
                g = R.gen_edit(r, s)
                if g is None:
                    continue
                ops.append({"op": "edit", "e": g[0]})
                s = g[1]
            elif k == "export":
                e = E.gen_export(r, r.choice(["robot", "abaqus"]), None)
                e["rel"] = False
                ops.append({"op": "export", "e": e})
            else:
                ops.append({"op": k, "x": r.random(), "design": r.random() < 0.6})
        return init, ops

    def __init__(self, init, tag):
        self.s = R.from_json(init)
        self.m = E.Model({"kind": "frame", "init": init}, self.s)
        self.s, self.lv = self.m.s, self.m.lv
        self.ran = set()
        self.tag = tag

    def do(self, op):
        k, fr = op["op"], self.m.frame
        if k == "edit":
            t = copy.deepcopy(self.s)
            if not R.apply_spec(t, op["e"]) or not t.stable(1e-8):
                return "skipped"
            R.apply_live(self.lv, self.s, t, op["e"])
            self.s = self.m.s = t
            self.m.dirty = self.m.dirty or op["e"]["op"] in R.REGEN
            self.ran = set()
        elif k == "analyse":
            self.m.generate()
            for i in self.m.ids():
                fr.structural_analysis(load_id=i, support_method="REM", design=op["design"])
                self.ran.add(i)
        elif k == "design":
            for i in sorted(self.ran):
                fr.design_members(i)
        elif k == "size":
            if not self.ran:
                return "skipped"
            ms = list(fr.members.values())
            mm = ms[int(op["x"] * len(ms))]
            mm.optimum_design(prof_type="CURRENT")
            self.m.s = self.s
            self.ran = set()
        elif k == "export":
            return export(self.m, op["e"], self.tag)
        return self.m.state()


def export(m, e, tag):
    if e["what"] == "robot" and E.unnamed(m, e):
        return "skipped"
    if e["what"] == "abaqus" and m.s is not None and any(m.s.secs[x["sec"]]["k"] != "rhs" for x in m.s.mems.values()):
        return "skipped"
    m.generate()
    d = f"/sim/work/{tag}"
    if FS.read(d) is None:
        try:
            FS.mk(d)
        except FileExistsError:
            pass
    with_clock = FS
    if e["what"] == "robot":
        m.frame.to_robot(d + "/" + e["name"])
    else:
        m.frame.to_abaqus(d, e["name"], "P")
    return {p: E.unstamped(b).decode("latin-1") for p, b in sorted(files(d).items())}


def files(d):
    return {p: bytes(n) for p, n in FS.files().items() if p.startswith(d + "/")}


FS = None


class Truss:
    @staticmethod
    def gen(r, tier):
        init = {"top": r.choice(["K", "K", "N", "KT"]), "L": r.choice([6000, 9000]), "h1": r.choice([1100, 1300]), "h2": r.choice([1600, 1800]),
                "dx": r.choice([0, 0, 800]), "ndiv": r.choice([2, 2, 3]), "up": r.random() < 0.5, "nc": r.choice([1, 2]), "beams": r.random() < 0.6,
                "fem": r.choice(["no_eccentricity", "en1993"]), "q": r.choice([-15.0, -25.0]), "given": r.random() < 0.3}
        ops = []
        for _ in range(r.randint(3, 7)):
            k = r.pick([("dim", 3), ("area", 1), ("swap", 1), ("analyse", 2), ("cost", 2), ("price", 2), ("wage", 1), ("size", 0.4), ("lcr", 1), ("hinge", 1), ("joint", 1)])
            ops.append({"op": k, "g": r.choice(["top", "bottom", "brace"]), "x": r.random(), "v": r.choice([100, 120, 180, 200]), "t": r.choice([4, 6, 8]), "in": r.random() < 0.5})
        return init, ops

    def __init__(self, i, tag):
        t = SlopedTruss(L1=i["L"], L2=i["L"], h2=i["h2"], h1=i["h1"], dx1=i["dx"], dx2=i["dx"])
        t.braces_as_beams = i["beams"]
        kw = {}
        if i["given"]:
            kw = dict(top_chord_profile=RHS(150, 150, 6), bottom_chord_profile=RHS(120, 120, 6), brace_profile=RHS(80, 80, 4))
        t.generate_topology(i["top"], i["ndiv"], first_diagonal_up=i["up"], nel_chord=i["nc"], **kw)
        t.generate_supports()
        t.generate_joints()
        t.symmetry()
        t.generate_uniform_load(q=i["q"])
        self.t, self.i, self.fem = t, i, False

    def group(self, g):
        return list(self.t.top_chord if g == "top" else self.t.bottom_chord if g == "bottom" else self.t.braces.values())

    def do(self, op):
        t, k = self.t, op["op"]
        out = {}
        ms = self.group(op["g"])
        m = ms[int(op["x"] * len(ms))]
        if k == "dim":
            m.cross_section.H = op["v"]
            m.cross_section.B = op["v"]
            m.cross_section.T = op["t"]
        elif k == "area":
            m.cross_section.A = 1000.0 * op["t"]
        elif k == "swap":
            m.cross_section = RHS(op["v"], op["v"], op["t"])
        elif k == "lcr":
            if op["in"]:
                m.lcr[0] = 0.5 + 0.1 * op["t"]
            else:
                m.lcr = [0.5 + 0.1 * op["t"], 1.0]
        elif k == "hinge":
            if m.mtype in ("bar", "brace"):
                return "skipped"
            m.add_hinge(int(op["x"] * 2))
        elif k == "price":
            t.workshop.steel_price["plates"] = 0.1 * op["v"]
        elif k == "wage":
            c = t.workshop.cost_centres["painting"]
            for a in sorted(vars(c)):
                if isinstance(getattr(c, a), (int, float)) and not isinstance(getattr(c, a), bool):
                    setattr(c, a, getattr(c, a) * 1.5)
                    break
        elif k == "cost":
            out["cost"] = float(t.cost())
            out["costs"] = {a: float(b) for a, b in t.costs.items()}
        elif k == "analyse":
            t.generate_fem(model=self.i["fem"])
            t.structural_analysis(load_id=t.load_ids[0], support_method="REM")
        elif k == "size":
            t.generate_fem(model=self.i["fem"])
            t.structural_analysis(load_id=t.load_ids[0], support_method="REM")
            m.optimum_design(prof_type="RHS")
        elif k == "joint":
            js = list(t.joints.values())
            j = js[int(op["x"] * len(js))]
            if hasattr(j, "gap"):
                out["gap"] = float(j.gap)
        out["weight"] = [float(x) for x in t.weight_detailed()] + [float(t.weight())]
        out["secs"] = [[repr(x.cross_section), float(x.cross_section.A), float(x.cross_section.I[0]), list(map(bool, x.hinges)), [float(y) for y in x.lcr]] for x in t.members.values()]
        out["shop"] = {a: float(b) for a, b in t.workshop.steel_price.items()}
        out["res"] = [[{str(a): [[float(z) for z in q[n]] for n in ("N", "Vz", "My")] for a, q in x.nodal_forces.items()}, {str(a): float(b) for a, b in x.utilization.items()}] for x in t.members.values()]
        return out


class Portal:
    @staticmethod
    def gen(r, tier):
        init = {"ndiv": r.choice([2, 3]), "h1": r.choice([1200, 1500]), "h2": r.choice([1800, 2000]), "give": r.random() < 0.3, "q": r.choice([-15.0, -25.0])}
        ops = [{"op": r.choice(["analyse", "dim", "col", "weight", "lcr"]), "x": r.random(), "v": r.choice([100, 120, 180]), "t": r.choice([4, 6])} for _ in range(r.randint(2, 5))]
        return init, ops

    def __init__(self, i, tag):
        p = PortalTruss()
        p.create_truss(topology="K", ndiv=i["ndiv"], h2=i["h2"], h1=i["h1"], dx=0, nel_chord=2, nel_brace=2, first_diagonal_up=True)
        p.generate_uniform_load("truss", q=i["q"], ltype="snow")
        kw = {"profile": SHS(250, 8)} if i["give"] else {}
        p.create_columns(**kw)
        p.create_truss_to_column_joints(y_joint_node=True)
        p.generate_supports()
        p.symmetry()
        p.generate_uniform_load("column", q=9, member="left", load_id=LoadIDs["ULS"], ltype="wind")
        self.p, self.i = p, i

    def do(self, op):
        p, k = self.p, op["op"]
        ms = list(p.members.values())
        m = ms[int(op["x"] * len(ms))]
        if k == "dim" and isinstance(m.cross_section, RHS):
            m.cross_section.H = m.cross_section.B = op["v"]
        elif k == "col":
            if isinstance(p.columns[0].cross_section, RHS):
                p.columns[0].cross_section.T = op["t"] * 2
            else:
                p.columns[0].cross_section.tf = 12.0 + op["t"]
        elif k == "lcr":
            p.columns[0].lcr[0] = 0.5 + 0.1 * op["t"]
        elif k == "analyse":
            p.generate_fem(truss_eccentricity=True, column_eccentricity=True)
            p.structural_analysis(load_id=p.load_ids[0], support_method="REM")
        return [float(p.weight()), [[repr(x.cross_section), float(x.cross_section.A), [float(y) for y in x.lcr]] for x in ms],
                [{str(a): [[float(z) for z in q[n]] for n in ("N", "My")] for a, q in x.nodal_forces.items()} for x in ms]]


class Simple:
    @staticmethod
    def gen(r, tier):
        return ({"n": r.choice([3, 3, 10]), "type": r.choice(["steel", "steel", "general"]), "L": r.choice([1000, 2500])},
                [{"op": r.choice(["dim", "area", "calc", "weight"]), "x": r.random(), "v": r.choice([40, 60, 80]), "a": r.choice([500.0, 1200.0])} for _ in range(r.randint(2, 6))])

    def __init__(self, i, tag):
        ty = "steel" if i["n"] == 10 else i["type"]
        self.t = three_bar_truss(L=i["L"], truss_type=ty) if i["n"] == 3 else ten_bar_truss(L=i["L"], truss_type=ty)

    def do(self, op):
        ms = list(self.t.members.values())
        m = ms[int(op["x"] * len(ms))]
        if op["op"] == "dim":
            m.cross_section.H = m.cross_section.B = op["v"]
        elif op["op"] == "area":
            m.cross_section.A = op["a"]
        elif op["op"] == "calc":
            self.t.generate_fem()
            self.t.calculate(support_method="REM", design=False)
        return [float(self.t.weight()), [[float(x.cross_section.A), float(x.cross_section.I[0])] for x in ms],
                [{str(a): [float(z) for z in q["N"]] for a, q in x.nodal_forces.items()} for x in ms]]


class Fem:
    @staticmethod
    def gen(r, tier):
        p, _ = F.gen_history(r, r.randint(4, 9), p_edit=0.6)
        return p["init"], p["ops"]

    def __init__(self, i, tag):
        self.s = F.spec_from_json(i)
        self.lv = F.Live(self.s)

    def do(self, op):
        k = op["op"]
        if k == "analyse":
            lcs = F.lc_list(op)
            if any(x not in self.s.cases for x in lcs):
                return "skipped"
            F.do_analyse(self.lv, op)
            return [[{str(n): [float(v) for v in u] for n, u in z["u"].items()}, {str(n): f for n, f in z["f"].items()}] for z in (self.lv.results(self.s, x) for x in lcs)]
        t = copy.deepcopy(self.s)
        if not F.apply_spec(t, op):
            return "skipped"
        F.apply_live(self.lv, self.s, t, op)
        self.s = t
        return [len(self.lv.fem.elements), [[float(n.x), float(n.y)] for n in self.lv.fem.nodes]]


class Opt:
    @staticmethod
    def gen(r, tier):
        s = O.gen_problem(r, nv=r.randint(2, 4))
        for v in s["vars"]:
            v["init"] = True
        ops = []
        for _ in range(r.randint(3, 8)):
            ops.append({"op": r.choice(["sub", "obj", "cons", "lock", "unlock", "lin"]), "x": [O.rand_value(r, v) for v in s["vars"]], "k": r.randrange(8)})
        return s, ops

    def __init__(self, s, tag):
        self.s = s
        self.lv, self.ref = O.Live(s), O.Ref(s)

    def do(self, op):
        lv, ref, k = self.lv, self.ref, op["op"]
        P = lv.P
        i = op["k"] % len(lv.vars)
        out = None
        if k == "lock":
            lv.vars[i].lock(op["x"][i])
            ref.locked[i] = True
        elif k == "unlock":
            lv.vars[i].unlock()
            ref.locked[i] = False
        else:
            if not ref.free():
                return "skipped"
            x = [op["x"][j] for j in ref.free()]
            if k == "sub":
                P.substitute_variables(x)
            elif k == "obj":
                out = float(P.obj(x))
            elif k == "cons":
                out = [float(c) for c in P.eval_cons(x)]
            else:
                try:
                    out = [np.asarray(z, float).tolist() if z is not None else None for z in P.linearize(x)]
                except NotImplementedError:
                    out = "not implemented"
        return [out, [None if v.value is None else float(v.value) for v in lv.vars], repr(sorted((str(a), str(b)) for a, b in lv.model().items()))]


DET = ("SLP", "MISLP", "MMA", "SLSQP", "COBYLA", "TRC", "BnB")


class Solve:
    @staticmethod
    def gen(r, tier):
        g = r.choice(["cont", "cont", "mixed"])
        s = S.gen_spec(r, g)
        s["dt"] = 0.0
        ops = []
        for _ in range(r.randint(1, 2)):
            op = S.gen_solve(r, s, g, only=DET)
            op["maxiter"] = min(op["maxiter"], 8) + (8 if op["spec"]["k"] == "COBYLA" else 0)
            if op["spec"]["k"] == "MMA":
                op["maxiter"] = min(op["maxiter"], 2)
            while op["x0"] is None:      # a solver left to choose its start draws it from the process-wide random stream
                op["x0"] = S.gen_x0(r, s, op["spec"])
            ops.append(op)
        return s, ops

    def __init__(self, s, tag):
        self.s = s
        self.lv, self.ref = S.Live(s), O.Ref(s)

    def do(self, op):
        if not S.runnable(op["spec"], self.ref):
            return "skipped"
        sv = S.make_solver(op["spec"], self.lv)
        self.lv.t.start()
        res = S.call(sv, op, self.lv, S.start_point(op, self.ref))
        return [None if res[0] is None else float(res[0]), None if res[1] is None else [float(y) for y in res[1]], len(self.lv.t.evals),
                [None if v.value is None else float(v.value) for v in self.lv.vars]]


GRADES = ("S235", "S275", "S355", "S420", "S700MC")


class Flat:
    """2D frame members: definition, materials, weight."""
    @staticmethod
    def gen(r, tier):
        init = {"L": r.choice([4000, 7300]), "mat": r.choice(GRADES), "n": r.randint(1, 3)}
        return init, [{"op": r.choice(["fy", "E", "rho", "mat", "profile", "frame", "read", "load", "new"]), "x": r.random(), "v": r.choice([0.5, 0.9, 1.3]), "g": r.choice(GRADES)} for _ in range(r.randint(2, 7))]

    def __init__(self, i, tag):
        self.i, self.f, self.m = i, Frame2D(), []
        for j in range(i["n"]):
            self.new(i["mat"])

    def new(self, mat):
        j = len(self.m)
        cls = SteelBeam if j % 2 else SteelColumn
        x = cls([[self.i["L"] * j, 0], [self.i["L"] * j, 3000 + 100 * j]] if j % 2 == 0 else [[0, 3000 + 50 * j], [self.i["L"], 3000 + 50 * j]], profile="ipe 300", material=mat)
        self.m.append(x)

    def do(self, op):
        k, m = op["op"], self.m[int(op["x"] * len(self.m))]
        if k == "fy":
            m.fy = m.fy * op["v"]
        elif k == "E":
            m.E = m.E * op["v"]
        elif k == "rho":
            m.rho = m.rho * op["v"]
        elif k == "mat":
            m.material = op["g"]
        elif k == "profile":
            m.profile = "he 200 a" if op["v"] < 1 else "ipe 360"
        elif k == "new":
            self.new(op["g"])
        elif k == "frame":
            if m not in self.f.members.values():
                self.f.add(m)
        elif k == "load":
            if m in self.f.members.values():
                self.f.add(LineLoad(m, [-10 * op["v"], -10 * op["v"]], "y"))
        return [[[float(x.fy), float(x.E), float(x.nu), float(x.rho), str(x.profile), float(x.A), float(x.Iy), float(x.weight)] for x in self.m],
                float(self.f.weight), len(self.f.members), len(self.f.line_loads)]


class Storey:
    """Frame2D frames and pin-jointed trusses: analysis, changes of profiles and joints, sizing."""
    @staticmethod
    def gen(r, tier):
        while True:
            s = f07.gen_spec(r)
            if len(s["m"]) <= 8:
                break
        for m in s["m"]:
            m["ne"] = min(m["ne"], 3)
        ops = []
        for _ in range(r.randint(2, 6)):
            x = r.random()
            if x < 0.45:
                ops.append({"op": "calc", "how": r.choice(["ALL", "default"]), "meth": r.choice(["ZERO", "REM"])})
            elif x < 0.65:
                ops.append({"op": "prof", "x": r.random(), "prof": r.choice(f07.PROFILES)})
            elif x < 0.85:
                ops.append({"op": "Sj", "x": r.random(), "end": r.randint(0, 1), "v": f07.stiffness(r)})
            elif x < 0.93:
                ops.append({"op": r.choice(["rigid", "hinge"])})
            else:
                ops.append({"op": "size"})
        return s, ops + [{"op": "calc", "how": "ALL", "meth": "REM"}]

    def __init__(self, i, tag):
        self.f, self.m = f07.build(copy.deepcopy(i))
        self.small = len(i["m"]) <= 4

    def do(self, op):
        k = op["op"]
        if k == "calc":
            self.f.calculate({"ALL": "ALL", "default": None}[op["how"]], support_method=op["meth"])
        elif k == "prof":
            self.m[int(op["x"] * len(self.m))].profile = op["prof"]
        elif k == "Sj":
            m = self.m[int(op["x"] * len(self.m))]
            setattr(m, "Sj%d" % (op["end"] + 1), f07.val(op["v"]))
        elif k == "rigid":
            self.f.rigid_joints()
        elif k == "hinge":
            self.f.hinge_joints()
        elif k == "size" and self.small:
            self.f.optimize_members("IPE")
        return [[[str(m.profile), float(m.A), float(m.Sj1), float(m.Sj2), float(m.weight), float(m.ned), float(m.ved), float(m.med), {str(a): float(np.max(b)) for a, b in m.r.items()},
                  [[float(v) for v in n.coord[:2]] for n in m.nodes.values()]] for m in self.m], float(self.f.weight),
                [[str(a), [float(v) for v in u]] for n in self.f.f.nodes for a, u in n.u.items()]]


class Parts:
    """Small library objects built with the library's defaults."""
    KINDS = ("member", "tapered", "load", "area", "imposed", "snow", "wind", "shop", "kt", "fin", "endplate", "skin", "anchor", "steel", "panel")

    @staticmethod
    def gen(r, tier):
        kinds = [r.choice(Parts.KINDS) for _ in range(r.randint(2, 4))]
        return {"kinds": kinds}, [{"op": r.choice(["edit", "edit", "read", "new"]), "x": r.random(), "v": r.choice([0.5, 0.8, 1.5, 2.0]), "k": r.choice(kinds)} for _ in range(r.randint(3, 8))]

    def __init__(self, i, tag):
        self.p = [(k, self.make(k)) for k in i["kinds"]]

    def make(self, k):
        if k == "member":
            return SteelMember(IPE(200), 4000)
        if k == "tapered":
            return WebTaperedSteelMember(WISection(200, 6, [100, 100], [8, 8], 355, 4), 350, 4000)
        if k in ("load", "area", "imposed", "snow", "wind"):
            return {"load": Load, "area": AreaLoad, "imposed": ImposedLoad, "snow": SnowLoad, "wind": WindLoad}[k]()
        if k == "shop":
            return Workshop()
        if k == "kt":
            return RHSKTGapJoint(RHS(140, 140, 5), [RHS(80, 80, 4), RHS(60, 60, 4), RHS(80, 80, 4)], [45, 90, 45])
        if k == "fin":
            return FinPlateJoint(IPE(300), RectPlateWithHoles(100, 220, 10, 22, [50.0, 40.0], px=0, py=70, n1=3, n2=1))
        if k == "endplate":
            return example_1()
        if k == "skin":
            return StressedSkin(TrapezoidalSheet(0.8, 130, 100, 40, 70), 6000, 12000, 3)
        if k == "anchor":
            return AnchorBolt()
        if k == "steel":
            return Steel("S355")
        return ruukki_panel()

    def edit(self, k, o, v):
        if k in ("member", "tapered"):
            o.lcr[0] = o.lcr[0] * v
        elif k in ("load", "area", "imposed", "snow", "wind"):
            o.comb_factors[0] = o.comb_factors[0] * v
            o.value = o.value * v
        elif k == "shop":
            o.steel_price["plates"] = o.steel_price["plates"] * v
            o.steel_price["RHS"] = v
            c = o.cost_centres["sawing"]
            for a in sorted(vars(c)):
                z = getattr(c, a)
                if isinstance(z, dict):
                    for b in z:
                        if isinstance(z[b], (int, float)):
                            z[b] = z[b] * v
                elif isinstance(z, float):
                    setattr(c, a, z * v)
        elif k == "kt":
            o.gaps[0] = o.gaps[0] * v
        elif k == "fin":
            o.bolt.fub = o.bolt.fub * v
        elif k == "endplate":
            o.weld_f = o.weld_f * v
        elif k == "skin":
            o.seam_fastener["spacing"] = o.seam_fastener["spacing"] * v
        elif k == "anchor":
            o.washer[0] = o.washer[0] * v
            o.material.fy = o.material.fy * v
        elif k == "steel":
            o.fy = o.fy * v
        else:
            o.c[0] = o.c[0] * v
            o.fastener.d = o.fastener.d * v

    def read(self, k, o):
        if k in ("member", "tapered"):
            return [float(x) for x in o.lcr]
        if k in ("load", "area", "imposed", "snow", "wind"):
            return [float(o.value)] + [float(x) for x in o.comb_factors] + [float(o.combined(0))]
        if k == "shop":
            c = o.cost_centres
            return [{a: float(b) for a, b in o.steel_price.items()}, float(c["blasting"].cost(3000)), float(c["painting"].cost(1e6)), float(c["assembly_welding"].cost(5, 300, "fillet")),
                    float(c["cutting"].cost(10, 3000)), scalars(c["sawing"])]
        if k == "kt":
            return [float(x) for x in o.gaps]
        if k == "fin":
            return [float(o.bolt.fub), float(o.d0), float(o.e1)]
        if k == "endplate":
            return [float(o.MjRd), float(o.cost())]
        if k == "skin":
            return [float(o.seam_fastener["spacing"])]
        if k == "steel":
            return [float(o.fy), float(o.young), float(o.eps()) if callable(o.eps) else float(o.eps)]
        if k == "panel":
            return [float(x) for x in o.c] + [float(o.length), float(o.fastener.d)]
        return [float(o.d), float(o.As), float(o.material.fy)] + [float(x) for x in o.washer]

    def do(self, op):
        if op["op"] == "new":
            self.p.append((op["k"], self.make(op["k"])))
        elif op["op"] == "edit":
            k, o = self.p[int(op["x"] * len(self.p))]
            self.edit(k, o, op["v"])
        return [[k, self.read(k, o)] for k, o in self.p]


def scalars(o):
    return {k: (float(v) if isinstance(v, (int, float)) else {str(a): float(b) for a, b in v.items() if isinstance(b, (int, float))}) for k, v in sorted(vars(o).items()) if isinstance(v, (int, float, dict)) and not isinstance(v, bool)}


KINDS = {"frame": Frame, "truss": Truss, "portal": Portal, "simple": Simple, "fem": Fem, "opt": Opt, "solve": Solve, "flat": Flat, "storey": Storey, "parts": Parts}
WEIGHT = [("frame", 5), ("truss", 4), ("portal", 0.6), ("simple", 1.5), ("fem", 3), ("opt", 2), ("solve", 1.2), ("flat", 2), ("storey", 3), ("parts", 2)]


# ------------------------------------------------------------------ plans
def gen(r, i, tier):
    n = r.pick([(2, 5), (3, 3), (4, 1)])
    first = r.pick(WEIGHT)
    ses, queues = [], []
    for k in range(n):
        kind = first if k and r.random() < 0.55 else r.pick(WEIGHT) if k else first
        init, ops = KINDS[kind].gen(r, tier)
        after = r.randrange(k) if k and r.random() < 0.3 else None
        ses.append({"k": kind, "init": init, "after": after})
        queues.append(ops)
    if r.random() < 0.25 and n > 1:
        # the same definition twice: what one does is what the other one would notice
        ses[1] = dict(ses[0], after=ses[1]["after"])
        queues[1] = list(queues[0]) if r.random() < 0.5 else queues[1] if ses[1]["k"] == ses[0]["k"] and False else list(reversed(queues[0])) if ses[0]["k"] in ("truss", "portal", "simple", "flat", "parts") else list(queues[0])
    mode = r.choice(["threads", "threads", "ops"])
    ops, pos = [], [0] * n
    left = [k for k in range(n) for _ in range(len(queues[k]) + 1)]
    r.shuffle(left)
    if mode == "ops":
        # a session that comes after another one does nothing before that one has ended
        for k in range(n):
            if ses[k]["after"] is not None:
                left = [x for x in left if x != k] + [k] * (len(queues[k]) + 1)
    for k in left:
        if pos[k] == 0:
            ops.append({"s": k, "op": "build"})
        else:
            ops.append(dict(queues[k][pos[k] - 1], s=k))
        pos[k] += 1
    plan = {"mode": mode, "ses": ses, "ops": ops}
    if mode == "threads":
        style = r.choice(["long", "short", "mix", "spots"])
        hi = {"long": 20000, "short": 60, "mix": 5000, "spots": 8000}[style]
        plan["switches"] = [[r.logint(1, hi), round(r.random(), 3)] for _ in range(r.randint(1, 30))]
        plan["spots"] = [round(r.random(), 6) for _ in range(r.randint(1, 4))] if style in ("spots", "mix") else []
    return plan


def body(ses, k, ops):
    """One user's whole story; returns what it observed."""
    out = []
    obj = None
    for op in ops:
        if op["op"] == "build":
            try:
                obj = KINDS[ses[k]["k"]](ses[k]["init"], f"u{k}")
                out.append("built")
            except Exception as e:
                out.append(["failed", type(e).__name__, str(e)[:80]])
                return out
        elif obj is None:
            out.append("nothing")
        else:
            out.append(step(obj, op))
    return out


def step(obj, op):
    try:
        return obj.do(op)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return ["failed", type(e).__name__, strip(str(e))]


def strip(t):
    import re
    return re.sub(r"0x[0-9a-f]+", "0x", t)[:120]


def solo(ses, k, ops, record):
    rec = Recorder()
    if record:
        SIM.lines.scheduler = rec
        SIM.lines.enable()
    try:
        with FS:
            out = body(ses, k, ops)
    finally:
        SIM.lines.disable()
        SIM.lines.scheduler = None
    return out, rec.seen


def differs(a, b, path=""):
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-9):
            return None
        return path, a, b
    if type(a) is not type(b):
        return path, a, b
    if isinstance(a, dict):
        if list(map(str, a)) != list(map(str, b)):
            return path, list(a), list(b)
        for k in a:
            d = differs(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return path, len(a), len(b)
        for k, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, f"{path}[{k}]")
            if d:
                return d
        return None
    return None if a == b else (path, a, b)


def run(plan):
    global FS
    ses, ops = plan["ses"], plan["ops"]
    n = len(ses)
    FS = SimFS()
    mine = [[op for op in ops if op["s"] == k] for k in range(n)]
    alone, seen = [], []
    for k in range(n):
        r = fork_call(lambda: solo(ses, k, mine[k], plan["mode"] == "threads" and plan["spots"]), 120)
        if r[0] != "ok":
            raise HarnessError(f"session {k} alone: {r[0]} {str(r[1])[-1500:]}")
        alone.append(r[1][0])
        seen.append(r[1][1])
    st = {"sessions": n, "observations": 0, "failed_steps": 0, "switches": 0, "spot_lines": 0, "mode_" + plan["mode"]: 1}
    if plan["mode"] == "ops":
        got, objs = [[] for _ in range(n)], [None] * n
        with FS:
            for op in ops:
                k = op["s"]
                if op["op"] == "build":
                    try:
                        objs[k] = KINDS[ses[k]["k"]](ses[k]["init"], f"u{k}")
                        got[k].append("built")
                    except Exception as e:
                        got[k].append(["failed", type(e).__name__, str(e)[:80]])
                        objs[k] = False
                elif objs[k] is None:
                    got[k].append("nothing")
                elif objs[k] is not False:
                    got[k].append(step(objs[k], op))
    else:
        shared = {}
        for s in seen:
            for key, c in s.items():
                shared.setdefault(key, []).append(c)
        lines = sorted(key for key, c in shared.items() if len(c) > 1)
        spots = {lines[int(f * len(lines))] for f in plan["spots"]} if lines else set()
        after = [s["after"] for s in ses]
        b = Baton([(lambda k=k: body(ses, k, mine[k])) for k in range(n)], after, plan["switches"], spots)
        with FS:
            got = b.run()
        st["switches"], st["spot_lines"] = b.switches, len(lines)
        SIM.fault("thread-switch", b.switches)
        SIM.log("switches", b.trace[:12])
    for k in range(n):
        what = f"user {k} ({ses[k]['k']})"
        for j, (a, g) in enumerate(zip(alone[k], got[k])):
            d = differs(a, g)
            if d:
                name = mine[k][j]["op"] if j < len(mine[k]) else "?"
                raise Violation("influenced:" + ses[k]["k"], f"{what}, step {j} ({name}): alone {str(d[1])[:160]}, among the others {str(d[2])[:160]} at {d[0][:80]}")
            st["observations"] += 1
            if isinstance(a, list) and a[:1] == ["failed"]:
                st["failed_steps"] += 1
                SIM.probe(f"failed:{ses[k]['k']}:{mine[k][j]['op']}:{a[1]}:{a[2][:50]}")
        if len(alone[k]) != len(got[k]):
            raise Violation("influenced:" + ses[k]["k"], f"{what}: {len(alone[k])} steps alone, {len(got[k])} among the others")
        SIM.probe("kind:" + ses[k]["k"])
        SIM.log(k, len(alone[k]))
    st["nontrivial"] = n > 1 and st["observations"] >= 6 and all(len(a) > 1 for a in alone[:2])
    return st
