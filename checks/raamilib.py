"""Shared workload for the frame (Raami) checks: specification of a frame, live objects that follow it through
the library's public interface, generated edit histories and the expected results from plain mechanics."""
import copy
import numpy as np
from sim.core import SIM, Violation, HarnessError
from sim import reffem
from .femlib import with_fault, FAULTS, mirror  # noqa: F401  (re-exported)

from metku.raami.raami import Raami
from metku.raami.frame_node import FrameNode
from metku.raami.frame_member import SteelFrameMember, MemberGroup
from metku.raami.frame_loads import PointLoad, LineLoad, PWLineLoad, LoadCase, LoadCombination, LoadIDs
from metku.raami.frame_supports import FixedSupport, XYHingedSupport, XHingedSupport, YHingedSupport
from metku.sections.steel.RHS import RHS
from metku.sections.steel.ISection import IPE, HEA
from metku.sections.steel.wi import WISection
from metku.sections.steel import catalogue

SW = LoadIDs["SELF-WEIGHT"]
SUPPORT = {"fix": (FixedSupport, [0, 1, 2]), "pin": (XYHingedSupport, [0, 1]), "xr": (XHingedSupport, [0]), "yr": (YHingedSupport, [1])}
# combination factors documented in the library: variable 1.5 (ULS), permanent 1.15 (ULS), accompanying 0.7 / 0.6
ACCOMP = {"live": 0.7, "snow": 0.7, "wind": 0.6}


def comb_factor(ctype, ltype, lead):
    if ltype == "dead":
        return 1.15 if ctype == "ULS" else 1.0
    return (1.5 if ctype == "ULS" else 1.0) * (1.0 if lead else ACCOMP[ltype])


# ---------------------------------------------------------------- sections
def make_section(s):
    fy = s.get("fy", 355)
    if s["k"] == "cat":
        return catalogue.make_section(s["name"], "S%d" % fy)
    if s["k"] == "rhs":
        return RHS(s["h"], s["b"], s["t"], fy)
    if s["k"] == "wi":
        return WISection(s["h"], s["tw"], s["b"], s["tf"], fy)
    return {"ipe": IPE, "hea": HEA}[s["k"]](s["h"], fy)


def set_dim(o, s):
    if s["k"] == "rhs":
        o.H, o.B, o.T = s["h"], s["b"], s["t"]
    else:
        o.h, o.tw, o.b, o.tf = s["h"], s["tw"], s["b"], s["tf"]


def gen_section(r, kinds=(("rhs", 3), ("ipe", 2), ("hea", 1), ("wi", 2))):
    k = r.pick(list(kinds))
    if k == "rhs":
        return {"k": k, "h": r.choice([100, 120, 150, 160, 180, 200, 250]), "b": r.choice([60, 80, 100, 120]), "t": r.choice([4, 5, 6, 8])}
    if k == "wi":
        return {"k": k, "h": float(r.choice([200, 260, 300, 400])), "tw": float(r.choice([5, 6, 8])),
                "b": float(r.choice([120, 150, 200])), "tf": float(r.choice([8, 10, 12]))}
    return {"k": k, "h": r.choice([160, 200, 240, 300, 360])}


def twin_section(r, x):
    """A section that a careless comparison takes for x: equal area and other stiffness, or almost the same dimensions."""
    x = {k: v for k, v in x.items() if k != "fy"}
    how = r.choice(["area", "area", "slight"])
    if x["k"] == "rhs":
        if how == "area":
            return dict(x, h=x["b"], b=x["h"]) if x["b"] != x["h"] else dict(x, h=x["h"] + 20, b=x["b"] - 20)
        return dict(x, h=x["h"] + 10)
    if x["k"] == "wi":
        if how == "area":
            f = r.choice([1.25, 0.8])
            return dict(x, b=x["b"] / f, tf=x["tf"] * f, h=x["h"] + 2 * x["tf"] * (f - 1))
        return dict(x, h=x["h"] + 1.0)
    return gen_section(r)


_props = {}


def props(s):
    key = repr(sorted(s.items()))
    if key not in _props:
        o = make_section(s)
        _props[key] = (float(o.A), float(o.I[0]))
    return _props[key]


def q_self(s):
    return -props(s)[0] * 7850e-9 * 9.81


# ---------------------------------------------------------------- specification
class Spec:
    KEYS = ("nodes", "secs", "mems", "sups", "loads", "combs")

    def __init__(self):
        for k in self.KEYS:
            setattr(self, k, {})
        self.sw = False        # self-weight switched on
        self.swm = []          # members that carry self-weight
        self.next = 0

    def uid(self):
        self.next += 1
        return self.next

    def cases(self):
        out = []
        for l in self.loads.values():
            if l["lc"] not in out:
                out.append(l["lc"])
        if self.swm:
            out.append(SW)
        return out

    def all_ids(self):
        return self.cases() + [c["id"] for c in self.combs.values() if self.comb_loads(c)]

    def case_loads(self, lc):
        """[(load, factor)] of one load case, self-weight included."""
        out = [(l, 1.0) for l in self.loads.values() if l["lc"] == lc]
        if lc == SW:
            out += [({"k": "sw", "m": m, "lc": SW, "lt": "dead", "f": 1.0}, 1.0) for m in self.swm]
        return out

    def comb_loads(self, c):
        out = []
        for lc in c["cases"]:
            for l, _ in self.case_loads(lc):
                out.append((l, comb_factor(c["type"], l["lt"], lc == c["lead"])))
        return out

    def loads_of(self, lid):
        for c in self.combs.values():
            if c["id"] == lid:
                return self.comb_loads(c)
        return self.case_loads(lid)

    # -- expansion into plain finite elements
    def expand(self):
        nodes = {("n", u): tuple(x) for u, x in self.nodes.items()}
        els, parts = [], {}
        for u, m in self.mems.items():
            a, b = (np.array(self.nodes[x], float) for x in m["n"])
            pts = [("n", m["n"][0])]
            for i in range(1, m["nel"]):
                key = ("i", u, i)
                nodes[key] = tuple(a + (b - a) * (i / m["nel"]))
                pts.append(key)
            pts.append(("n", m["n"][1]))
            rod = m["type"] in ("brace", "bar")
            A, I = props(self.secs[m["sec"]])
            parts[u] = []
            for i, (p, q) in enumerate(zip(pts, pts[1:])):
                rel = []
                if not rod:
                    if i == 0 and m["hinges"][0]:
                        rel.append(2)
                    if i == m["nel"] - 1 and m["hinges"][1]:
                        rel.append(5)
                els.append({"uid": (u, i), "t": "rod" if rod else "beam", "n": (p, q), "E": 210000.0, "A": A, "I": I, "rel": rel})
                parts[u].append((u, i))
        sups = [(("n", s["n"]), SUPPORT[s["kind"]][1]) for s in self.sups.values()]
        return nodes, els, sups, parts

    def ref_loads(self, lid):
        out = []
        for l, fac in self.loads_of(lid):
            f = l["f"] * fac
            if l["k"] == "pt":
                out.append({"k": "pt", "n": ("n", l["n"]), "v": l["v"], "f": f})
                continue
            m = self.mems[l["m"]]
            n = m["nel"]
            for i in range(n):
                if l["k"] == "sw":
                    q = [q_self(self.secs[m["sec"]])] * 2
                    d, co = "y", "global"
                elif l["k"] == "pw":
                    q = [l["q"][0] if (i + 1) / n <= l["x"] + 1e-9 else l["q"][1]] * 2
                    d, co = l["dir"], l["co"]
                else:
                    q = [l["q"][0] + (l["q"][1] - l["q"][0]) * i / n, l["q"][0] + (l["q"][1] - l["q"][0]) * (i + 1) / n]
                    d, co = l["dir"], l["co"]
                out.append({"k": "ll", "e": (l["m"], i), "q": q, "dir": d, "co": co, "f": f})
        return out

    def solve(self, lid):
        nodes, els, sups, parts = self.expand()
        u, f, tol, w = reffem.solve_tol({"nodes": nodes, "els": els, "sups": sups, "loads": self.ref_loads(lid)}, 1e-9)
        out = {"u": {n: u[("n", n)] for n in self.nodes}, "f": {}}
        for m, ps in parts.items():
            out["f"][m] = {k: [f[p][q][0] for p in ps] + [f[ps[-1]][q][1]] for k, q in (("N", "fx"), ("Vz", "fz"), ("My", "my"))}
        return out, tol

    def stable(self, min_eig=1e-7):
        nodes, els, sups, _ = self.expand()
        try:
            return reffem.solve({"nodes": nodes, "els": els, "sups": sups, "loads": []}, False, min_eig)[2] > 0
        except reffem.Unstable:
            return False

    def weight(self):
        w = 0.0
        for m in self.mems.values():
            a, b = (np.array(self.nodes[x], float) for x in m["n"])
            w += props(self.secs[m["sec"]])[0] * float(np.linalg.norm(b - a)) * 7850e-9
        return w


def to_json(s):
    d = {k: {str(a): copy.deepcopy(b) for a, b in getattr(s, k).items()} for k in Spec.KEYS}
    d.update(next=s.next, sw=s.sw, swm=list(s.swm))
    return d


def from_json(d):
    s = Spec()
    for k in Spec.KEYS:
        setattr(s, k, {int(a): copy.deepcopy(b) for a, b in d[k].items()})
    s.next, s.sw, s.swm = d["next"], d["sw"], list(d["swm"])
    return s


# ---------------------------------------------------------------- live objects
class Live:
    def __init__(self, s, combine=True):
        self.frame = Raami()
        self.o = {}
        self.case = {}
        for u, x in s.secs.items():
            self.o[u] = make_section(x)
        for u, n in s.nodes.items():
            self.add_node(u, n)
        for u, m in s.mems.items():
            self.add_mem(u, m)
        for u, m in s.mems.items():
            if m.get("pair"):
                self.o[u].symmetry_pair = self.o[m["pair"]]
        for u, x in s.sups.items():
            self.add_sup(u, x)
        for u, l in s.loads.items():
            self.add_load(u, l)
        if s.sw:
            self.frame.self_weight = True
            for m in s.swm:
                self.o[m].add_self_weight()
        for u, c in s.combs.items():
            self.add_comb(u, c)

    def add_node(self, u, n):
        self.o[u] = FrameNode(list(n))
        self.frame.add(self.o[u])

    def add_mem(self, u, m):
        kw = {}
        if any(m["hinges"]) or m.get("give", True):
            kw["hinges"] = list(m["hinges"])
        if m.get("lcr"):
            kw["lcr"] = list(m["lcr"])
        self.o[u] = SteelFrameMember(nodes=[self.o[n] for n in m["n"]], section=self.o[m["sec"]], mem_type=m["type"], nel=m["nel"],
                                     sway=bool(m.get("sway")), **kw)
        self.frame.add(self.o[u])

    def add_sup(self, u, x):
        self.o[u] = SUPPORT[x["kind"]][0](self.o[x["n"]])
        self.frame.add(self.o[u])

    def make_load(self, l):
        if l["k"] == "pt":
            return PointLoad(self.o[l["n"]], list(l["v"]), load_id=l["lc"], ltype=l["lt"], name=l["name"], f=l["f"])
        if l["k"] == "pw":
            return PWLineLoad(self.o[l["m"]], list(l["q"]), l["x"], l["dir"], load_id=l["lc"], f=l["f"], ltype=l["lt"], name=l["name"], coord_sys=l["co"])
        return LineLoad(self.o[l["m"]], list(l["q"]), l["dir"], load_id=l["lc"], f=l["f"], ltype=l["lt"], name=l["name"], coord_sys=l["co"])

    def add_load(self, u, l):
        self.o[u] = self.make_load(l)
        how = l.get("how", "add")
        if how == "add":
            self.frame.add(self.o[u])
        elif how == "case":
            self.frame.add(LoadCase(l["lc"], [self.o[u]]))
        else:          # the same case object is given again with one more load
            c = self.frame.load_cases.get(l["lc"]) or LoadCase(l["lc"])
            c.add(self.o[u])
            self.frame.add(c)

    def add_comb(self, u, c):
        for i in c["cases"]:
            if i not in self.frame.load_cases and i != SW:
                self.frame.add(LoadCase(i))             # a case that has no loads yet
        self.o[u] = LoadCombination(comb_id=c["id"], comb_type=c["type"], load_cases=[self.frame.load_cases.get(i) or LoadCase(i) for i in c["cases"]])
        self.frame.add(self.o[u])

    def results(self, s, lid):
        out = {"u": {}, "f": {}, "d": {}}
        for n in s.nodes:
            out["u"][n] = [float(v) for v in self.o[n].fem_node.u[lid]]
        for m in s.mems:
            nf = self.o[m].nodal_forces[lid]
            out["f"][m] = {k: [float(v) for v in nf[k]] for k in ("N", "Vz", "My")}
            out["d"][m] = [[float(x) for x in v] for v in self.o[m].nodal_displacements[lid]]
        return out


# ---------------------------------------------------------------- generation
LT = ["live", "dead", "wind", "snow"]


def gen_frame(r, kind=None, kinds=None, ncases=None):
    s = Spec()
    secs = []
    for _ in range(r.randint(1, 3)):
        u = s.uid()
        s.secs[u] = gen_section(r, kinds) if kinds else gen_section(r)
        secs.append(u)
    kind = kind or r.pick([("portal", 4), ("multi", 2), ("truss", 2), ("beam", 1)])
    ints = r.random() < 0.3

    def node(x, y):
        u = s.uid()
        s.nodes[u] = [int(x), int(y)] if ints else [float(x), float(y)]
        return u

    def mem(a, b, t="beam", nel=None, hinges=(False, False)):
        u = s.uid()
        if t in ("brace", "bar"):
            nel = 1
        nel = nel or r.choice([1, 2, 2, 3, 4, 6])
        s.mems[u] = {"n": [a, b], "sec": r.choice(secs), "type": t, "nel": nel, "hinges": list(hinges), "give": r.random() < 0.7}
        if r.random() < 0.3:
            s.mems[u]["lcr"] = [r.choice([1.0, 0.9, 2.0]), r.choice([1.0, 0.8])]
        return u

    def sup(n, k):
        s.sups[s.uid()] = {"n": n, "kind": k}
    hp = [((False, False), 5), ((True, True), 1), ((True, False), 1), ((False, True), 1)]
    if kind == "portal":
        L, H = r.choice([4000, 6000, 8000]), r.choice([2500, 3500, 4500])
        a, b = node(0, 0), node(0, H)
        d, e = node(L, r.choice([H, H + 500])), node(L, 0)
        mem(a, b, "column")
        if r.random() < 0.4:
            c = node(L / 2, H + r.choice([400, 900]))
            mem(b, c, "beam", hinges=r.pick(hp))
            mem(c, d, "beam")
        else:
            mem(b, d, "beam", hinges=r.pick(hp))
        if r.random() < 0.5:
            mem(d, e, "column")
        else:
            mem(e, d, "column")
        for n in (a, e):
            sup(n, r.pick([("fix", 4), ("pin", 2)]))
    elif kind == "multi":
        bays, st = r.randint(1, 2), r.randint(1, 2)
        w, h = r.choice([3000, 5000]), r.choice([2800, 3600])
        g = {(i, j): node(i * w, j * h) for j in range(st + 1) for i in range(bays + 1)}
        for j in range(st):
            for i in range(bays + 1):
                mem(g[i, j], g[i, j + 1], "column")
        for j in range(1, st + 1):
            for i in range(bays):
                mem(g[i, j], g[i + 1, j], "beam", hinges=r.pick(hp))
        if r.random() < 0.4:
            mem(g[0, 0], g[1, 1], "brace")
        for i in range(bays + 1):
            sup(g[i, 0], "fix")
    elif kind == "beam":
        n = r.randint(2, 4)
        step = r.choice([1500, 3000, 4000])
        ns = [node(i * step, r.choice([0, 200]) * i) for i in range(n + 1)]
        for x, y in zip(ns, ns[1:]):
            mem(x, y, "beam")
        sup(ns[0], r.choice(["fix", "pin"]))
        for x in ns[1:]:
            if r.random() < 0.6 or x == ns[-1]:
                sup(x, "yr")
    else:
        n = r.randint(2, 3)
        w, h = r.choice([1500, 2000]), r.choice([1200, 1600])
        bot = [node(i * w, 0) for i in range(n + 1)]
        top = [node(i * w, h + r.choice([0, 100]) * i) for i in range(n + 1)]
        beams = r.random() < 0.6
        ct, cb = ("top_chord", "bottom_chord") if beams else ("bar", "bar")
        for i in range(n):
            mem(bot[i], bot[i + 1], cb, nel=r.choice([1, 2, 3]))
            mem(top[i], top[i + 1], ct, nel=r.choice([1, 2, 3]))
            mem(bot[i], top[i + 1], r.choice(["brace", "bar"]))
        for i in range(n + 1):
            mem(bot[i], top[i], "brace")
        sup(bot[0], "pin")
        sup(bot[-1], "yr")
    s.kind = kind
    ids = r.sample([0, 1, 2, 3, 7, 11], ncases or r.randint(1, 3))
    for i in ids:
        lt = r.choice(LT)
        for _ in range(r.randint(1, 3)):
            s.loads[s.uid()] = gen_load(r, s, i, lt)
    return s


def case_type(s, lc):
    for l in s.loads.values():
        if l["lc"] == lc:
            return l["lt"]
    return None


def gen_load(r, s, lc, lt):
    beams = [u for u, m in s.mems.items() if m["type"] not in ("brace", "bar")]
    name = r.pick([("PointLoad", 2), ("LineLoad", 2), ("Q", 1), ("snow", 1), ("wind1", 1), ("Q%d" % r.randint(1, 9), 1)])
    base = {"lc": lc, "lt": lt, "name": name, "f": r.choice([1.0, 1.0, 1.0, 1.3, 0.5]), "how": r.pick([("add", 6), ("case", 1), ("again", 1)])}
    x = r.random()
    if beams and x < 0.6:
        q = [float(r.randint(-30, 20) or 5), float(r.randint(-30, 20))]
        if r.random() < 0.5:
            q[1] = q[0]
        return dict(base, k="ll", m=r.choice(beams), q=q, dir=r.choice(["x", "y"]), co=r.choice(["local", "global"]))
    if beams and x < 0.72:
        m = r.choice(beams)
        nel = s.mems[m]["nel"]
        if nel > 1:
            return dict(base, k="pw", m=m, q=[float(r.randint(-20, 20)), float(r.randint(-20, 20))], x=r.randint(1, nel - 1) / nel,
                        dir=r.choice(["x", "y"]), co=r.choice(["local", "global"]))
    return dict(base, k="pt", n=r.choice(list(s.nodes)), v=[float(r.randint(-40, 40)) * 1e3, float(r.randint(-40, 40)) * 1e3, float(r.choice([0, 0, 4, -6])) * 1e6])


EDITS = [("move", 4), ("section", 3), ("dim", 3), ("hinge", 2), ("add_mem", 2), ("add_brace", 1), ("add_sup", 1), ("add_load", 3), ("edit_load", 2),
         ("sw_on", 2), ("sw_off", 1), ("add_comb", 1), ("lcr", 1), ("material", 1), ("pair", 1)]


def make_op(r, s, k):
    nodes, mems = list(s.nodes), list(s.mems)
    if k == "move":
        op = {"op": k, "n": r.choice(nodes), "ax": r.choice(["x", "y"]), "d": r.choice([150.5, -240.25, 400.0, 33.125, -75.0])}
        if r.random() < 0.15:
            mirror(r, op, s.nodes, [m["n"] for m in s.mems.values()])
        return op
    if k == "section":
        if r.random() < 0.4:
            return {"op": k, "m": r.choice(mems), "sec": r.choice(list(s.secs))}
        m = r.choice(mems)
        if r.random() < 0.35:
            return {"op": k, "m": m, "sec": s.next + 1, "new": twin_section(r, s.secs[s.mems[m]["sec"]])}
        return {"op": k, "m": m, "sec": s.next + 1, "new": gen_section(r)}
    if k == "dim":
        c = [u for u, x in s.secs.items() if x["k"] in ("rhs", "wi")]
        if not c:
            return None
        u = r.choice(c)
        return {"op": k, "sec": u, "to": twin_section(r, s.secs[u]) if r.random() < 0.3 else gen_section(r, ((s.secs[u]["k"], 1),))}
    if k == "pair":
        c = [m for m in mems if not s.mems[m].get("pair")]
        return dict(zip(("op", "a", "b"), [k] + r.sample(c, 2))) if len(c) > 1 else None
    if k == "hinge":
        c = [m for m in mems if s.mems[m]["type"] not in ("brace", "bar")]
        return {"op": k, "m": r.choice(c), "end": r.choice([0, 1]), "how": r.choice(["add", "list"])} if c else None
    if k == "add_mem":
        a = r.choice(nodes)
        x, y = s.nodes[a]
        return {"op": k, "n": s.next + 1, "m": s.next + 2, "a": a, "xy": [float(x + r.choice([900, -1100, 1500])), float(y + r.choice([0, 700, -500]))],
                "sec": r.choice(list(s.secs)), "nel": r.choice([1, 2, 3]), "type": "beam", "flip": r.random() < 0.4}
    if k == "add_brace":
        a, b = r.sample(nodes, 2)
        return {"op": k, "m": s.next + 1, "a": a, "b": b, "sec": r.choice(list(s.secs))}
    if k == "add_sup":
        return {"op": k, "u": s.next + 1, "n": r.choice(nodes), "kind": r.choice(list(SUPPORT))}
    if k == "add_load":
        cs = [c for c in s.cases() if c != SW]
        lc = r.choice(cs) if cs and r.random() < 0.7 else r.choice([0, 1, 2, 3, 4, 5, 7, 11])
        if any(c["id"] == lc for c in s.combs.values()):
            return None
        return {"op": k, "u": s.next + 1, "load": gen_load(r, s, lc, case_type(s, lc) or r.choice(LT))}
    if k == "edit_load":
        return {"op": k, "u": r.choice(list(s.loads)), "by": r.choice(["f", "val"]), "x": r.choice([0.5, 2.0, -1.0, 1.25])} if s.loads else None
    if k == "sw_on":
        return {"op": k}
    if k == "sw_off":
        return {"op": k} if s.sw else None
    if k == "add_comb":
        cs = s.cases()
        if not cs or len(s.combs) > 3:
            return None
        pick = r.sample(cs, r.randint(1, len(cs)))
        used = {c["id"] for c in s.combs.values()} | set(cs)
        cid = r.choice([x for x in (20, 21, 22, 23, 24, 25) if x not in used])
        return {"op": k, "u": s.next + 1, "id": cid, "type": r.choice(["ULS", "ULS", "SLS"]), "cases": pick}
    if k == "lcr":
        return {"op": k, "m": r.choice(mems), "lcr": [r.choice([0.7, 0.9, 1.0, 2.0]), r.choice([0.8, 1.0])]}
    if k == "material":
        return {"op": k, "m": r.choice(mems), "fy": r.choice([235, 355, 420])}
    raise KeyError(k)


def _lead(s, cases):
    for c in cases:
        if c != SW and case_type(s, c) not in (None, "dead"):
            return c
    return None


def rebuilt(s, u):
    """The leading case is settled when the first variable case of the combination has loads."""
    c = s.combs[u]
    if c["lead"] is None:
        c["lead"] = _lead(s, c["cases"])


def apply_spec(s, op):
    k = op["op"]
    mx = max([v for kk, v in op.items() if kk in ("n", "m", "u", "sec") and isinstance(v, int)] + [0])
    if k == "move":
        if op["n"] not in s.nodes:
            return False
        xy = [float(v) for v in s.nodes[op["n"]]]
        xy["xy".index(op["ax"])] += op["d"]
        s.nodes[op["n"]] = xy
        for m in s.mems.values():
            if np.hypot(*(np.array(s.nodes[m["n"][0]], float) - np.array(s.nodes[m["n"][1]], float))) < 300:
                return False
    elif k == "section":
        if op["m"] not in s.mems:
            return False
        if "new" in op:
            if op["sec"] in s.secs:
                return False
            s.secs[op["sec"]] = dict(op["new"])
        elif op["sec"] not in s.secs:
            return False
        s.mems[op["m"]]["sec"] = op["sec"]
        if s.mems[op["m"]].get("pair"):
            s.mems[s.mems[op["m"]]["pair"]]["sec"] = op["sec"]
    elif k == "pair":
        if op["a"] not in s.mems or op["b"] not in s.mems or s.mems[op["a"]].get("pair") or s.mems[op["b"]].get("pair"):
            return False
        s.mems[op["a"]]["pair"], s.mems[op["b"]]["pair"] = op["b"], op["a"]
    elif k == "dim":
        if op["sec"] not in s.secs or s.secs[op["sec"]]["k"] != op["to"]["k"]:
            return False
        s.secs[op["sec"]] = dict(s.secs[op["sec"]], **op["to"])
    elif k == "hinge":
        if op["m"] not in s.mems or s.mems[op["m"]]["type"] in ("brace", "bar"):
            return False
        s.mems[op["m"]]["hinges"] = list(s.mems[op["m"]]["hinges"])
        s.mems[op["m"]]["hinges"][op["end"]] = True
    elif k == "add_mem":
        if op["a"] not in s.nodes or op["sec"] not in s.secs or op["n"] in s.nodes:
            return False
        s.nodes[op["n"]] = list(op["xy"])
        s.mems[op["m"]] = {"n": [op["n"], op["a"]] if op["flip"] else [op["a"], op["n"]], "sec": op["sec"], "type": op["type"], "nel": op["nel"],
                           "hinges": [False, False], "give": False}
    elif k == "add_brace":
        if op["a"] not in s.nodes or op["b"] not in s.nodes or op["sec"] not in s.secs:
            return False
        if np.hypot(*(np.array(s.nodes[op["a"]], float) - np.array(s.nodes[op["b"]], float))) < 300:
            return False
        s.mems[op["m"]] = {"n": [op["a"], op["b"]], "sec": op["sec"], "type": "brace", "nel": 1, "hinges": [False, False], "give": False}
    elif k == "add_sup":
        if op["n"] not in s.nodes:
            return False
        s.sups[op["u"]] = {"n": op["n"], "kind": op["kind"]}
    elif k == "add_load":
        l = op["load"]
        if (l["k"] == "pt" and l["n"] not in s.nodes) or (l["k"] != "pt" and (l["m"] not in s.mems or s.mems[l["m"]]["type"] in ("brace", "bar"))):
            return False
        if l["k"] == "pw" and abs(l["x"] * s.mems[l["m"]]["nel"] % 1) > 1e-9:
            return False
        if case_type(s, l["lc"]) not in (None, l["lt"]) or any(c["id"] == l["lc"] for c in s.combs.values()):
            return False
        s.loads[op["u"]] = copy.deepcopy(l)
    elif k == "edit_load":
        if op["u"] not in s.loads:
            return False
        l = s.loads[op["u"]]
        if op["by"] == "f":
            l["f"] = l["f"] * op["x"]
        elif l["k"] == "pt":
            l["v"] = [a * op["x"] for a in l["v"]]
        else:
            l["q"] = [a * op["x"] for a in l["q"]]
    elif k == "sw_on":
        s.sw = True
        s.swm = [m for m in s.mems if s.mems[m]["type"] not in ("brace", "bar")]
        if len(s.swm) != len(s.mems):
            return False          # bars carry no transverse load in this library
    elif k == "sw_off":
        if not s.sw:
            return False
        s.sw, s.swm = False, []
    elif k == "add_comb":
        if any(c not in s.cases() and c not in op.get("empty", []) for c in op["cases"]) or any(c["id"] == op["id"] for c in s.combs.values()) or op["id"] in s.cases():
            return False
        if any(c["id"] in op.get("empty", []) for c in s.combs.values()) or op["id"] in op.get("empty", []):
            return False
        s.combs[op["u"]] = {"id": op["id"], "type": op["type"], "cases": list(op["cases"]), "lead": _lead(s, op["cases"])}
    elif k == "rebuild":
        if op["u"] not in s.combs:
            return False
        rebuilt(s, op["u"])
    elif k == "lcr":
        if op["m"] not in s.mems:
            return False
        s.mems[op["m"]]["lcr"] = list(op["lcr"])
    elif k == "material":
        if op["m"] not in s.mems:
            return False
        u = s.mems[op["m"]]["sec"]
        s.secs[u] = dict(s.secs[u], fy=op["fy"])
    else:
        raise KeyError(k)
    s.next = max(s.next, mx)
    return True


REGEN = {"hinge", "add_mem", "add_brace", "add_sup", "add_load", "edit_load", "sw_on", "sw_off", "add_comb", "rebuild"}
LOADCHANGE = {"add_load", "edit_load", "sw_on", "sw_off"}


def apply_live(lv, before, after, op):
    k, o, fr = op["op"], lv.o, lv.frame
    if k == "move":
        setattr(o[op["n"]], op["ax"], after.nodes[op["n"]]["xy".index(op["ax"])])
    elif k == "section":
        if "new" in op:
            o[op["sec"]] = make_section(op["new"])
        o[op["m"]].cross_section = o[op["sec"]]
    elif k == "pair":
        o[op["a"]].symmetry_pair, o[op["b"]].symmetry_pair = o[op["b"]], o[op["a"]]
    elif k == "dim":
        set_dim(o[op["sec"]], op["to"])
    elif k == "hinge":
        if op["how"] == "add":
            o[op["m"]].add_hinge(op["end"])
        else:
            o[op["m"]].hinges = list(after.mems[op["m"]]["hinges"])
    elif k == "add_mem":
        lv.add_node(op["n"], op["xy"])
        lv.add_mem(op["m"], after.mems[op["m"]])
    elif k == "add_brace":
        lv.add_mem(op["m"], after.mems[op["m"]])
    elif k == "add_sup":
        lv.add_sup(op["u"], after.sups[op["u"]])
    elif k == "add_load":
        lv.add_load(op["u"], op["load"])
    elif k == "edit_load":
        l, n = o[op["u"]], after.loads[op["u"]]
        if op["by"] == "f":
            l.f = n["f"]
        elif n["k"] == "pt":
            l.v = np.array(n["v"])
        else:
            l.values = np.array(n["q"])
    elif k == "sw_on":
        fr.add_self_weight()
    elif k == "sw_off":
        fr.remove_self_weight()
    elif k == "add_comb":
        lv.add_comb(op["u"], after.combs[op["u"]])
    elif k == "rebuild":
        o[op["u"]].combine_loads()
    elif k == "lcr":
        o[op["m"]].lcr = list(op["lcr"])
    elif k == "material":
        o[op["m"]].material = "S%d" % op["fy"] if op["fy"] != 420 else "S420"


def gen_edit(r, s, weights=None):
    for _ in range(10):
        op = make_op(r, s, r.pick(weights or EDITS))
        if op is None:
            continue
        t = copy.deepcopy(s)
        if apply_spec(t, op) and t.stable():
            return op, t
    return None


# ---------------------------------------------------------------- comparison
def compare(a, b, what, cls, rel=1e-6):
    fm = max([abs(x) for f in b["f"].values() for q in ("N", "Vz") for x in f[q]] + [0])
    mm = max([abs(x) for f in b["f"].values() for x in f["My"]] + [0])
    us = max([abs(v) for x in b["u"].values() for v in x[:2]] + [0])
    rs = max([abs(x[2]) for x in b["u"].values()] + [0])
    for n in b["u"]:
        for i in range(3):
            if not abs(a["u"][n][i] - b["u"][n][i]) <= rel * (us if i < 2 else rs) + 1e-9:
                raise Violation(cls + ":displacement", f"{what}: joint {n} dof {i}: {a['u'][n][i]!r} vs {b['u'][n][i]!r}")
    for m in b["f"]:
        for q in ("N", "Vz", "My"):
            t = rel * (fm if q != "My" else max(mm, 1000 * fm)) + 1e-6
            if len(a["f"][m][q]) != len(b["f"][m][q]):
                raise Violation(cls + ":diagram", f"{what}: member {m} {q} diagram has {len(a['f'][m][q])} values, expected {len(b['f'][m][q])}")
            for i, (x, y) in enumerate(zip(a["f"][m][q], b["f"][m][q])):
                if not abs(x - y) <= t:
                    raise Violation(cls + ":force", f"{what}: member {m} {q}[{i}]: {x!r} vs {y!r}")
        for i, (x, y) in enumerate(zip(a["d"][m], b["d"][m])):
            for j in range(3):
                if not abs(x[j] - y[j]) <= rel * (us if j < 2 else rs) * 10 + 1e-9:
                    raise Violation(cls + ":member-displacement", f"{what}: member {m} point {i} dof {j}: {x[j]!r} vs {y[j]!r}")


def against_ref(res, s, lid, what, cls="mechanics"):
    try:
        ref, tol = s.solve(lid)
    except reffem.Unstable:
        SIM.probe("ref:unstable-skip")
        return False
    for n in ref["u"]:
        for i in range(3):
            t = tol["u"] if i < 2 else tol["r"]
            if not abs(res["u"][n][i] - ref["u"][n][i]) <= t:
                raise Violation(cls + ":displacement", f"{what}: joint {n} dof {i}: {res['u'][n][i]!r}, mechanics gives {ref['u'][n][i]!r} (tol {t:.1e})")
    for m in ref["f"]:
        for q, e in (("N", "fx"), ("Vz", "fz"), ("My", "my")):
            if len(res["f"][m][q]) != len(ref["f"][m][q]):
                raise Violation(cls + ":diagram", f"{what}: member {m} {q} diagram has {len(res['f'][m][q])} values, expected {len(ref['f'][m][q])}")
            for i, (x, y) in enumerate(zip(res["f"][m][q], ref["f"][m][q])):
                if not abs(x - y) <= tol[e]:
                    raise Violation(cls + ":force", f"{what}: member {m} {q}[{i}]: {x!r}, mechanics gives {y!r} (tol {tol[e]:.1e})")
    return True


def log_results(res, tag):
    SIM.log(tag, [(n, [float("%.5g" % x) for x in v]) for n, v in res["u"].items()],
            [(m, [[float("%.4g" % x) for x in f[q]] for q in ("N", "Vz", "My")]) for m, f in res["f"].items()])


def design_summary(mem, lid):
    """Design values a member reports for one case."""
    return mem.NEd[lid], mem.VzEd[lid], mem.MyEd[lid]
