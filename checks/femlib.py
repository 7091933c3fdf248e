"""Shared workload for the plane FEM checks: a specification of a model, the live objects of the code under
test that follow it, and generated edit histories."""
import copy
import numpy as np
from sim.core import SIM, Violation
from sim import reffem

from metku.framefem import FrameFEM, BeamSection, PointLoad, LineLoad, Support
from metku.framefem.elements import EBBeam, Rod
from metku.sections.steel.RHS import RHS
from metku.sections.steel.wi import WISection

E0 = 210000.0


# ---------------------------------------------------------------- sections
def make_section(s):
    if s["k"] == "beam":
        return BeamSection(s["A"], s["I"])
    if s["k"] == "rhs":
        return RHS(s["h"], s["b"], s["t"])
    return WISection(s["h"], s["tw"], s["b"], s["tf"])


def set_dim(obj, s):
    if s["k"] == "beam":
        obj.A = s["A"]
        obj.I[0] = s["I"]
    elif s["k"] == "rhs":
        obj.H, obj.B, obj.T = s["h"], s["b"], s["t"]
    else:
        obj.h, obj.tw, obj.b, obj.tf = s["h"], s["tw"], s["b"], s["tf"]


def gen_section(r):
    k = r.pick([("beam", 2), ("rhs", 2), ("wi", 1)])
    if k == "beam":
        return {"k": k, "A": float(r.randrange(15, 120) * 100), "I": float(r.randrange(5, 200)) * 1e6}
    if k == "rhs":
        return {"k": k, "h": r.choice([100, 120, 150, 200, 250]), "b": r.choice([80, 100, 120, 150]), "t": r.choice([4, 5, 6, 8])}
    return {"k": k, "h": r.choice([200, 260, 300, 400]), "tw": r.choice([5, 6, 8]), "b": r.choice([120, 150, 200]), "tf": r.choice([8, 10, 12])}


def perturb_section(r, s):
    """Same kind, other dimensions."""
    if r.random() < 0.3:
        # equal area and other stiffness, or almost the same
        if s["k"] == "beam":
            return dict(s, I=s["I"] * r.choice([0.5, 2.0, 1.02])) if r.random() < 0.7 else dict(s, A=s["A"] * r.choice([0.7, 1.02]))
        if s["k"] == "rhs" and s["h"] != s["b"]:
            return dict(s, h=s["b"], b=s["h"])
    for _ in range(50):
        q = gen_section(r)
        if q["k"] == s["k"] and q != s:
            return q
    return dict(s)


def section_props(s):
    """A, I for the reference; taken from a new object (section formulas are not the subject of these checks)."""
    if s["k"] == "beam":
        return s["A"], s["I"]
    o = make_section(s)
    return float(o.A), float(o.I[0])


# ---------------------------------------------------------------- specification
class Spec:
    def __init__(self):
        self.nodes = {}      # uid -> [x, y]
        self.els = {}        # uid -> {t,n,sec,mat,rel}
        self.secs = {}       # uid -> section dict
        self.mats = {}       # uid -> E
        self.sups = {}       # uid -> {sid, n, dof}
        self.loads = {}      # uid -> {...}
        self.cases = {}      # load id -> support id
        self.next = 0

    def uid(self):
        self.next += 1
        return self.next

    def ref(self, lc):
        sid = self.cases[lc]
        els = []
        for u, e in self.els.items():
            A, I = section_props(self.secs[e["sec"]])
            els.append({"uid": u, "t": e["t"], "n": e["n"], "E": self.mats[e["mat"]], "A": A, "I": I, "rel": e["rel"]})
        return {"nodes": self.nodes, "els": els,
                "sups": [(s["n"], s["dof"]) for s in self.sups.values() if s["sid"] == sid],
                "loads": [l for l in self.loads.values() if l["sid"] == lc]}

    def solve(self, lc):
        return reffem.solve_tol(self.ref(lc))

    def stable(self, lcs, min_eig=1e-6):
        try:
            return all(reffem.solve(self.ref(l), False, min_eig)[2] > 0 for l in lcs)
        except reffem.Unstable:
            return False


class Live:
    """Objects of the code under test built from a Spec and edited along with it."""

    def __init__(self, spec):
        self.fem = FrameFEM()
        self.o = {}
        for u, s in spec.secs.items():
            self.add_sec(u, s)
        for u, m in spec.mats.items():
            self.o[u] = self.fem.add_material(m, 0.3, 7850e-9)
        for u, n in spec.nodes.items():
            self.o[u] = self.fem.add_node(n[0], n[1])
        for u, e in spec.els.items():
            self.add_el(u, e)
        for u, s in spec.sups.items():
            self.add_sup(u, s)
        for u, l in spec.loads.items():
            self.add_load(u, l)
        for lc, sid in spec.cases.items():
            self.fem.add_loadcase(supp_id=sid, load_id=lc)

    def add_sec(self, u, s):
        self.o[u] = make_section(s)
        self.fem.add_section(self.o[u])

    def add_el(self, u, e):
        cls = Rod if e["t"] == "rod" else EBBeam
        el = cls(self.o[e["n"][0]], self.o[e["n"][1]], self.o[e["sec"]], self.o[e["mat"]])
        self.o[u] = el
        self.fem.add_element(el)
        if e["rel"]:
            self.fem.add_release(self.fem.elements.index(el), list(e["rel"]))

    def add_sup(self, u, s):
        self.fem.add_support(s["sid"], self.fem.nodes.index(self.o[s["n"]]), list(s["dof"]))
        self.o[u] = self.fem.supports[-1]

    def add_load(self, u, l):
        if l["k"] == "pt":
            o = PointLoad(l["sid"], self.o[l["n"]], list(l["v"]), l["f"])
        else:
            o = LineLoad(l["sid"], self.o[l["e"]], [0, 1], list(l["q"]), l["dir"], l["co"])
            o.f = l["f"]
        self.o[u] = o
        self.fem.add_load(o)

    # -- results
    def results(self, spec, lc, order=1):
        out = {"u": {}, "f": {}}
        for n in spec.nodes:
            out["u"][n] = np.array((self.o[n].u if order == 1 else self.o[n].u2)[lc], dtype=float).copy()
        for e in spec.els:
            fi = (self.o[e].fint if order == 1 else self.o[e].fint2)[lc]
            out["f"][e] = {q: [float(v) for v in fi[q]] for q in ("fx", "fz", "my")}
        return out


def snapshot(res):
    return repr([(k, [repr(float(x)) for x in v]) for k, v in sorted(res["u"].items())] + sorted(res["f"].items()))


# ---------------------------------------------------------------- generation
def gen_frame(r, kind=None):
    """Initial stable structure as a Spec."""
    s = Spec()
    nsec = r.randint(1, 3)
    secs = []
    for _ in range(nsec):
        u = s.uid()
        s.secs[u] = gen_section(r)
        secs.append(u)
    mats = []
    for _ in range(r.randint(1, 2)):
        u = s.uid()
        s.mats[u] = r.choice([210000.0, 200000.0, 70000.0])
        mats.append(u)
    kind = kind or r.pick([("frame", 4), ("beam", 2), ("truss", 2)])

    def node(x, y):
        u = s.uid()
        s.nodes[u] = [x, y]
        return u

    def el(a, b, t="beam", rel=()):
        u = s.uid()
        s.els[u] = {"t": t, "n": [a, b], "sec": r.choice(secs), "mat": r.choice(mats), "rel": list(rel)}
        return u
    ints = r.random() < 0.3

    def c(v):
        return int(v) if ints else float(v)
    sup = []
    if kind == "beam":
        n = r.randint(2, 5)
        step = r.choice([800, 1500, 2500])
        ns = [node(c(i * step), c(r.choice([0, 0, 300]) * i)) for i in range(n)]
        for a, b in zip(ns, ns[1:]):
            el(a, b)
        sup = [(ns[0], [0, 1, 2]) if r.random() < 0.5 else (ns[0], [0, 1]), (ns[-1], [1])]
    elif kind == "frame":
        bays, st = r.randint(1, 2), r.randint(1, 2)
        w, h = r.choice([3000, 4200, 6000]), r.choice([2500, 3600])
        g = {}
        for j in range(st + 1):
            for i in range(bays + 1):
                g[i, j] = node(c(i * w + (r.choice([0, 250]) if j else 0)), c(j * h))
        for j in range(st):
            for i in range(bays + 1):
                el(g[i, j], g[i, j + 1])
        for j in range(1, st + 1):
            for i in range(bays):
                el(g[i, j], g[i + 1, j], rel=r.pick([((), 3), ((2,), 1), ((5,), 1), ((2, 5), 1)]))
        if r.random() < 0.4:
            el(g[0, 0], g[1, 1], "rod")
        for i in range(bays + 1):
            sup.append((g[i, 0], [0, 1, 2]))
    else:
        n = r.randint(2, 4)
        w, h = r.choice([1500, 2000]), r.choice([1200, 1800])
        bot = [node(c(i * w), c(0)) for i in range(n + 1)]
        top = [node(c(i * w), c(h)) for i in range(n + 1)]
        chord = r.choice(["rod", "beam"])
        for i in range(n):
            el(bot[i], bot[i + 1], chord)
            el(top[i], top[i + 1], chord)
            el(bot[i], top[i + 1], "rod")
        for i in range(n + 1):
            el(bot[i], top[i], "rod")
        sup = [(bot[0], [0, 1]), (bot[-1], [1])]
    sid = r.choice([1, 2])
    for n, d in sup:
        s.sups[s.uid()] = {"sid": sid, "n": n, "dof": d}
    ncase = r.randint(1, 3)
    ids = r.sample([0, 1, 2, 3, 5, 10], ncase)
    for lc in ids:
        s.cases[lc] = sid
    s.kind = kind
    for lc in ids:
        for _ in range(r.randint(1, 3)):
            u = s.uid()
            s.loads[u] = gen_load(r, s, lc)
    return s


def gen_load(r, s, lc):
    beams = [u for u, e in s.els.items() if e["t"] == "beam"]
    if beams and r.random() < 0.55:
        q1 = float(r.randint(-30, 30) or 7)
        q2 = q1 if r.random() < 0.5 else float(r.randint(-30, 30))
        return {"k": "ll", "sid": lc, "e": r.choice(beams), "q": [q1, q2], "dir": r.choice(["x", "y"]),
                "co": r.choice(["local", "global"]), "f": r.choice([1.0, 1.0, 1.5, 0.35])}
    return {"k": "pt", "sid": lc, "n": r.choice(list(s.nodes)),
            "v": [float(r.randint(-40, 40)) * 1e3, float(r.randint(-40, 40)) * 1e3, float(r.choice([0, 0, 5, -8])) * 1e6],
            "f": r.choice([1.0, 1.0, 1.35, 0.5])}


def spec_to_json(s):
    return {k: {str(a): b for a, b in getattr(s, k).items()} for k in ("nodes", "els", "secs", "mats", "sups", "loads", "cases")} | {"next": s.next}


def spec_from_json(d):
    s = Spec()
    for k in ("nodes", "els", "secs", "mats", "sups", "loads", "cases"):
        setattr(s, k, {int(a): copy.deepcopy(b) for a, b in d[k].items()})
    s.next = d["next"]
    return s


EDITS = [("add_member", 3), ("split_brace", 1), ("add_el", 2), ("del_el", 3), ("move", 3), ("section", 3), ("dim", 3), ("release", 3),
         ("material", 1), ("add_sup", 2), ("del_sup", 2), ("add_load", 3), ("del_load", 3), ("edit_load", 3),
         ("add_case", 1), ("new_sec", 1), ("sup_case", 1), ("young", 1)]


def gen_edit(r, s, weights=None, keep_stable=True):
    """One edit of spec ``s`` (applied to a copy to see that it stays stable).  Returns (op, new spec) or None."""
    for _ in range(8):
        k = r.pick(weights or EDITS)
        op = make_op(r, s, k)
        if op is None:
            continue
        t = copy.deepcopy(s)
        if not apply_spec(t, op):
            continue
        if keep_stable and not t.stable(list(t.cases)):
            continue
        return op, t
    return None


def mirror(r, op, nodes, pairs):
    """Move the joint to the other side of a neighbour: a member keeps its length, but not its direction."""
    i = "xy".index(op["ax"])
    ds = [2 * (nodes[b][i] - nodes[a][i]) for p in pairs for a, b in (p, p[::-1]) if a == op["n"]]
    ds = [float(d) for d in ds if abs(d) > 1]
    if ds:
        op["d"] = r.choice(ds)


def make_op(r, s, k):
    els, nodes = list(s.els), list(s.nodes)
    if k == "add_member":
        a = r.choice(nodes)
        x, y = s.nodes[a]
        return {"op": k, "n": s.next + 1, "e": s.next + 2, "a": a, "xy": [float(x + r.choice([700, -900, 1300, 0])), float(y + r.choice([800, 1100, -600]))],
                "sec": r.choice(list(s.secs)), "mat": r.choice(list(s.mats)), "flip": r.random() < 0.3}
    if k == "split_brace":
        e = r.choice(els)
        if s.els[e]["t"] != "beam" or s.els[e]["rel"] or any(l["k"] == "ll" and l["e"] == e for l in s.loads.values()):
            return None
        return {"op": k, "old": e, "n": s.next + 1, "e1": s.next + 2, "e2": s.next + 3, "t": r.choice([0.25, 0.5, 0.625])}
    if k == "add_el":
        if len(nodes) < 3:
            return None
        a, b = r.sample(nodes, 2)
        return {"op": k, "e": s.next + 1, "a": a, "b": b, "t": r.choice(["beam", "rod"]),
                "sec": r.choice(list(s.secs)), "mat": r.choice(list(s.mats)), "rel": r.pick([([], 3), ([2], 1), ([5], 1), ([2, 5], 1)])}
    if k == "del_el":
        return {"op": k, "e": r.choice(els)} if len(els) > 1 else None
    if k == "move":
        op = {"op": k, "n": r.choice(nodes), "ax": r.choice(["x", "y"]), "d": r.choice([120.5, -260.25, 410.0, 33.125])}
        if r.random() < 0.2:
            mirror(r, op, s.nodes, [e["n"] for e in s.els.values()])
        return op
    if k == "section":
        return {"op": k, "e": r.choice(els), "sec": r.choice(list(s.secs))}
    if k == "dim":
        u = r.choice(list(s.secs))
        return {"op": k, "sec": u, "to": perturb_section(r, s.secs[u])}
    if k == "release":
        beams = [e for e in els if s.els[e]["t"] == "beam"]
        if not beams:
            return None
        return {"op": k, "e": r.choice(beams), "rel": r.pick([([], 3), ([2], 2), ([5], 2), ([2, 5], 2)]), "how": r.choice(["add_release", "attr"])}
    if k == "material":
        return {"op": k, "e": r.choice(els), "mat": r.choice(list(s.mats))}
    if k == "young":
        return {"op": k, "mat": r.choice(list(s.mats)), "E": r.choice([210000.0, 205000.0, 70000.0, 160000.0])}
    if k == "add_sup":
        return {"op": k, "u": s.next + 1, "n": r.choice(nodes), "sid": r.choice(list(s.cases.values())), "dof": r.pick([([0], 1), ([1], 2), ([0, 1], 2), ([0, 1, 2], 1), ([2], 1)])}
    if k == "del_sup":
        return {"op": k, "u": r.choice(list(s.sups))} if len(s.sups) > 1 else None
    if k == "add_load":
        return {"op": k, "u": s.next + 1, "load": gen_load(r, s, r.choice(list(s.cases)))}
    if k == "del_load":
        return {"op": k, "u": r.choice(list(s.loads))} if s.loads else None
    if k == "edit_load":
        if not s.loads:
            return None
        return {"op": k, "u": r.choice(list(s.loads)), "by": r.choice(["f", "val"]), "x": r.choice([0.5, 2.0, -1.0, 1.25])}
    if k == "add_case":
        lc = r.choice([4, 6, 7, 8])
        if lc in s.cases:
            return None
        return {"op": k, "lc": lc, "sid": r.choice(list(s.cases.values())), "u": s.next + 1, "load": gen_load(r, s, lc)}
    if k == "new_sec":
        e = r.choice(els)
        return {"op": k, "u": s.next + 1, "sec": perturb_section(r, s.secs[s.els[e]["sec"]]) if r.random() < 0.4 else gen_section(r), "e": e}
    if k == "sup_case":
        # a further support condition with a load case of its own
        if len(set(s.cases.values())) > 1:
            return None
        sid = 7
        lc = 9
        if lc in s.cases:
            return None
        base = [(u, x) for u, x in s.sups.items()]
        return {"op": k, "sid": sid, "lc": lc, "sups": [{"u": s.next + 1 + i, "n": x["n"], "dof": r.choice([x["dof"], [0, 1], [0, 1, 2]])} for i, (u, x) in enumerate(base)],
                "lu": s.next + 1 + len(base), "load": gen_load(r, s, lc)}
    raise KeyError(k)


def apply_spec(s, op):
    """Apply to the specification; False if the op does not make sense in this state (after minimisation)."""
    k = op["op"]
    mx = max([v for kk, v in op.items() if kk in ("n", "e", "e1", "e2", "u", "lu") and isinstance(v, int)] + [0])
    if k in ("add_member",):
        if op["a"] not in s.nodes or op["sec"] not in s.secs or op["mat"] not in s.mats:
            return False
        s.nodes[op["n"]] = list(op["xy"])
        n = [op["n"], op["a"]] if op["flip"] else [op["a"], op["n"]]
        s.els[op["e"]] = {"t": "beam", "n": n, "sec": op["sec"], "mat": op["mat"], "rel": []}
    elif k == "split_brace":
        if op["old"] not in s.els:
            return False
        e = s.els[op["old"]]
        if e["t"] != "beam" or e["rel"] or any(l["k"] == "ll" and l["e"] == op["old"] for l in s.loads.values()):
            return False
        a, b = (np.array(s.nodes[i]) for i in e["n"])
        s.nodes[op["n"]] = [float(v) for v in a + op["t"] * (b - a)]
        del s.els[op["old"]]
        s.els[op["e1"]] = dict(e, n=[e["n"][0], op["n"]], rel=[])
        s.els[op["e2"]] = dict(e, n=[op["n"], e["n"][1]], rel=[])
    elif k == "add_el":
        if op["a"] not in s.nodes or op["b"] not in s.nodes or s.nodes[op["a"]] == s.nodes[op["b"]]:
            return False
        s.els[op["e"]] = {"t": op["t"], "n": [op["a"], op["b"]], "sec": op["sec"], "mat": op["mat"], "rel": list(op["rel"]) if op["t"] == "beam" else []}
    elif k == "del_el":
        if op["e"] not in s.els or len(s.els) < 2:
            return False
        s.loads = {u: l for u, l in s.loads.items() if not (l["k"] == "ll" and l["e"] == op["e"])}
        n2 = set(s.els.pop(op["e"])["n"])
        used = {n for e in s.els.values() for n in e["n"]}
        for n in n2 - used:
            s.loads = {u: l for u, l in s.loads.items() if not (l["k"] == "pt" and l["n"] == n)}
            s.sups = {u: x for u, x in s.sups.items() if x["n"] != n}
            del s.nodes[n]
    elif k == "move":
        if op["n"] not in s.nodes:
            return False
        s.nodes[op["n"]] = list(s.nodes[op["n"]])
        s.nodes[op["n"]]["xy".index(op["ax"])] += op["d"]
        for e in s.els.values():
            if np.hypot(*(np.array(s.nodes[e["n"][0]]) - np.array(s.nodes[e["n"][1]]))) < 100:
                return False
    elif k == "section":
        if op["e"] not in s.els or op["sec"] not in s.secs:
            return False
        s.els[op["e"]]["sec"] = op["sec"]
    elif k == "dim":
        if op["sec"] not in s.secs or s.secs[op["sec"]]["k"] != op["to"]["k"]:
            return False
        s.secs[op["sec"]] = dict(op["to"])
    elif k == "release":
        if op["e"] not in s.els or s.els[op["e"]]["t"] != "beam":
            return False
        old = s.els[op["e"]]["rel"] if op["how"] != "attr" else []    # add_release adds to what is released already
        s.els[op["e"]]["rel"] = sorted({*old, *op["rel"]})
    elif k == "material":
        if op["e"] not in s.els or op["mat"] not in s.mats:
            return False
        s.els[op["e"]]["mat"] = op["mat"]
    elif k == "young":
        if op["mat"] not in s.mats:
            return False
        s.mats[op["mat"]] = op["E"]
    elif k == "add_sup":
        if op["n"] not in s.nodes:
            return False
        s.sups[op["u"]] = {"sid": op["sid"], "n": op["n"], "dof": list(op["dof"])}
    elif k == "del_sup":
        if op["u"] not in s.sups:
            return False
        del s.sups[op["u"]]
    elif k in ("add_load", "add_case"):
        l = op["load"]
        if (l["k"] == "pt" and l["n"] not in s.nodes) or (l["k"] == "ll" and (l["e"] not in s.els or s.els[l["e"]]["t"] != "beam")):
            return False
        if k == "add_case":
            if op["lc"] in s.cases:
                return False
            s.cases[op["lc"]] = op["sid"]
        elif l["sid"] not in s.cases:
            return False
        s.loads[op["u"]] = copy.deepcopy(l)
    elif k == "del_load":
        if op["u"] not in s.loads:
            return False
        del s.loads[op["u"]]
    elif k == "edit_load":
        if op["u"] not in s.loads:
            return False
        l = s.loads[op["u"]]
        if op["by"] == "f":
            l["f"] = l["f"] * op["x"]
        elif l["k"] == "pt":
            l["v"] = [a * op["x"] for a in l["v"]]
        else:
            l["q"] = [a * op["x"] for a in l["q"]]
    elif k == "new_sec":
        if op["e"] not in s.els:
            return False
        s.secs[op["u"]] = dict(op["sec"])
        s.els[op["e"]]["sec"] = op["u"]
    elif k == "sup_case":
        if op["lc"] in s.cases:
            return False
        l = op["load"]
        if (l["k"] == "pt" and l["n"] not in s.nodes) or (l["k"] == "ll" and (l["e"] not in s.els or s.els[l["e"]]["t"] != "beam")):
            return False
        for x in op["sups"]:
            if x["n"] not in s.nodes:
                return False
            s.sups[x["u"]] = {"sid": op["sid"], "n": x["n"], "dof": list(x["dof"])}
            mx = max(mx, x["u"])
        s.cases[op["lc"]] = op["sid"]
        s.loads[op["lu"]] = copy.deepcopy(l)
    else:
        raise KeyError(k)
    s.next = max(s.next, mx)
    return True


def apply_live(lv, before, after, op):
    """Perform the same edit through the library's own objects."""
    k, fem, o = op["op"], lv.fem, lv.o
    if k == "add_member":
        o[op["n"]] = fem.add_node(op["xy"][0], op["xy"][1])
        lv.add_el(op["e"], after.els[op["e"]])
    elif k == "split_brace":
        fem.elements.remove(o[op["old"]])
        o[op["n"]] = fem.add_node(*after.nodes[op["n"]])
        lv.add_el(op["e1"], after.els[op["e1"]])
        lv.add_el(op["e2"], after.els[op["e2"]])
    elif k == "add_el":
        lv.add_el(op["e"], after.els[op["e"]])
    elif k == "del_el":
        for u in before.loads:
            if u not in after.loads:
                fem.loads.remove(o[u])
        fem.elements.remove(o[op["e"]])
        for u in before.sups:
            if u not in after.sups:
                fem.supports.remove(o[u])
        for n in before.nodes:
            if n not in after.nodes:
                i = fem.nodes.index(o[n])
                del fem.nodes[i]
                del fem.nodal_coords[i]
    elif k == "move":
        setattr(o[op["n"]], op["ax"], after.nodes[op["n"]]["xy".index(op["ax"])])
    elif k == "section":
        o[op["e"]].section = o[op["sec"]]
    elif k == "dim":
        set_dim(o[op["sec"]], op["to"])
    elif k == "release":
        if op["how"] == "attr":
            o[op["e"]].releases = list(op["rel"])
        else:
            fem.add_release(fem.elements.index(o[op["e"]]), list(op["rel"]))
    elif k == "material":
        o[op["e"]].material = o[op["mat"]]
    elif k == "young":
        o[op["mat"]].young = op["E"]
    elif k == "add_sup":
        lv.add_sup(op["u"], after.sups[op["u"]])
    elif k == "del_sup":
        fem.supports.remove(o[op["u"]])
    elif k == "add_load":
        lv.add_load(op["u"], op["load"])
    elif k == "add_case":
        fem.add_loadcase(supp_id=op["sid"], load_id=op["lc"])
        lv.add_load(op["u"], op["load"])
    elif k == "del_load":
        fem.loads.remove(o[op["u"]])
    elif k == "edit_load":
        l = o[op["u"]]
        n = after.loads[op["u"]]
        if op["by"] == "f":
            l.f = n["f"]
        elif n["k"] == "pt":
            l.v = list(n["v"])
        else:
            l.qval = list(n["q"])
    elif k == "new_sec":
        lv.add_sec(op["u"], op["sec"])
        o[op["e"]].section = o[op["u"]]
    elif k == "sup_case":
        for x in op["sups"]:
            lv.add_sup(x["u"], after.sups[x["u"]])
        fem.add_loadcase(supp_id=op["sid"], load_id=op["lc"])
        lv.add_load(op["lu"], op["load"])


# ---------------------------------------------------------------- comparison
def compare(a, b, spec, what, cls, rel=1e-6):
    """Two result sets of the library (same order of assembly)."""
    for grp, key in (("u", None), ("f", None)):
        if grp == "u":
            sc = [max([abs(v[i]) for v in b["u"].values()] + [0]) for i in range(3)]
            tol = [rel * max(sc[0], sc[1]) + 1e-9, rel * max(sc[0], sc[1]) + 1e-9, rel * sc[2] + 1e-12]
            for n in b["u"]:
                for i in range(3):
                    if not abs(a["u"][n][i] - b["u"][n][i]) <= tol[i]:
                        raise Violation(cls + ":displacement", f"{what}: node {n} {spec.nodes[n]} dof {i}: {a['u'][n][i]!r} vs {b['u'][n][i]!r}")
        else:
            fm = max([abs(x) for f in b["f"].values() for q in ("fx", "fz") for x in f[q]] + [0])
            mm = max([abs(x) for f in b["f"].values() for x in f["my"]] + [0])
            for e in b["f"]:
                for q in ("fx", "fz", "my"):
                    t = rel * (fm if q != "my" else max(mm, 1000 * fm)) + 1e-6
                    for i in range(2):
                        if not abs(a["f"][e][q][i] - b["f"][e][q][i]) <= t:
                            raise Violation(cls + ":force", f"{what}: element {e} {q}[{i}]: {a['f'][e][q][i]!r} vs {b['f'][e][q][i]!r}")


def against_ref(res, spec, lc, what, cls="mechanics"):
    """Library results against the independent reference; returns False if the case is too ill-conditioned."""
    try:
        u, f, tol, w = spec.solve(lc)
    except reffem.Unstable:
        SIM.probe("ref:unstable-skip")
        return False
    sup = {(x["n"], d) for x in spec.sups.values() if x["sid"] == spec.cases[lc] for d in x["dof"]}
    for n in u:
        # a joint whose every beam end is released has no rotation of its own
        for i in range(3):
            t = tol["u"] if i < 2 else tol["r"]
            got = res["u"][n][i]
            if (n, i) in sup and abs(got) > 1e-12:
                raise Violation(cls + ":support-moves", f"{what}: supported dof {i} of node {n} reported {got!r}")
            if not abs(got - u[n][i]) <= t:
                raise Violation(cls + ":displacement", f"{what}: node {n} dof {i}: {got!r}, mechanics gives {u[n][i]!r} (tol {t:.2e})")
    for e in f:
        for q in ("fx", "fz", "my"):
            for i in range(2):
                got = res["f"][e][q][i]
                if not abs(got - f[e][q][i]) <= tol[q]:
                    raise Violation(cls + ":force", f"{what}: element {e} {q}[{i}]: {got!r}, mechanics gives {f[e][q][i]!r} (tol {tol[q]:.2e})")
    return True


def log_results(res, tag):
    SIM.log(tag, [(n, [float("%.5g" % x) for x in v]) for n, v in res["u"].items()],
            [(e, [[float("%.5g" % x) for x in f[q]] for q in ("fx", "fz", "my")]) for e, f in res["f"].items()])


# ---------------------------------------------------------------- histories
from sim.core import SimInterrupt, SimMemoryError, fork_call, HarnessError  # noqa: E402

FAULTS = [("interrupt", 5), ("memory", 2), ("solve:LinAlgError", 2), ("solve:MemoryError", 1)]


def with_fault(fault, fn, what):
    """Run fn with one injected fault.  Returns True if the fault fired (and the error reached us)."""
    kind = fault["kind"]
    if kind.startswith("solve:"):
        SIM.solve_fault = f = {"n": fault.get("n", 1), "kind": kind.split(":")[1], "fired": False}
        try:
            fn()
        except (MemoryError, np.linalg.LinAlgError) as e:
            if not f["fired"]:
                raise
            return True
        finally:
            SIM.solve_fault = None
        if f["fired"]:
            raise Violation("fault-swallowed", f"{what}: injected {kind} never reached the caller")
        SIM.probe("fault-not-reached")
        return False

    def count():
        with SIM.lines.counting() as c:
            fn()
        return c.count
    r = fork_call(count, 60)
    if r[0] != "ok":
        if r[0] == "timeout":
            raise HarnessError("dry run timed out")
        # the call fails even without the injected fault: let the caller see it
        fn()
        raise HarnessError("dry run failed but the real run did not: " + str(r[1])[-300:])
    at = 1 + int(fault["at"] * r[1])
    if r[1] == 0:
        fn()
        return False
    at = min(at, r[1])
    exc = SimInterrupt("simulated Ctrl-C") if kind == "interrupt" else SimMemoryError("simulated")
    with SIM.lines.counting(fire_at=at, exc=exc) as c:
        try:
            fn()
        except BaseException as e:
            if c.fired is None:
                raise
            if e is not exc and kind == "interrupt" and not isinstance(e, KeyboardInterrupt):
                raise Violation("fault-masked", f"{what}: interruption at {c.fired} surfaced as {type(e).__name__}: {e}")
            SIM.fault(kind)
            SIM.log("fault", kind, at, c.fired)
            SIM.probe("interrupted-in:" + c.fired[1].split(".")[-1])
            return True
    if c.fired is None:
        raise HarnessError(f"statement {at} of {r[1]} never reached")
    raise Violation("fault-swallowed", f"{what}: {kind} injected at {c.fired} never reached the caller")


def gen_history(r, n_ops, edits=None, kind=None, p_edit=0.7, p_fault=0.0, cont_cases=True, buckle=0.0, broken=0.0):
    s = gen_frame(r, kind)
    tries = 0
    while not s.stable(list(s.cases)) and tries < 30:
        s = gen_frame(r, kind)
        tries += 1
    plan = {"init": spec_to_json(s), "kind": s.kind, "ops": []}
    cur = copy.deepcopy(s)
    for _ in range(n_ops):
        x = r.random()
        if x < p_edit:
            g = gen_edit(r, cur, edits)
            if g is None:
                continue
            plan["ops"].append(g[0])
            cur = g[1]
        elif r.random() < buckle:
            plan["ops"].append({"op": "buckle", "lc": r.choice(list(cur.cases)), "k": r.choice([1, 2, 4])})
        elif r.random() < broken:
            plan["ops"].append({"op": "broken", "how": r.choice(["no-supports", "section-none", "short-load", "bad-case", "loose-node"]),
                                "lc": r.choice(list(cur.cases)), "m": r.choice(["REM", "ZERO"]), "pick": r.random()})
        else:
            plan["ops"].append(gen_analyse(r, cur, p_fault))
    return plan, cur


def gen_analyse(r, s, p_fault=0.0):
    lcs = list(s.cases)
    sid = r.choice(list(s.cases.values()))
    same = [l for l in lcs if s.cases[l] == sid]
    k = r.randint(1, len(same))
    pick = r.sample(same, k)
    op = {"op": "analyse", "lcs": pick if (k > 1 or r.random() < 0.3) else pick[0], "m": r.choice(["REM", "ZERO", "DEF"])}
    if r.random() < p_fault:
        op["fault"] = {"kind": r.pick(FAULTS), "at": r.random()}
        # land near the end of the call often: results are being stored there
        if r.random() < 0.5:
            op["fault"]["at"] = 0.5 + 0.5 * r.random()
    return op


def do_analyse(lv, op):
    lcs = op["lcs"]
    if op["m"] == "DEF":
        lv.fem.linear_statics(lcase=lcs)
    else:
        lv.fem.linear_statics(lcase=lcs, support_method=op["m"])


def lc_list(op):
    return op["lcs"] if isinstance(op["lcs"], list) else [op["lcs"]]


def fresh_results(spec, lc, m="REM"):
    """The final model built from scratch and analysed once."""
    lv = Live(spec)
    lv.fem.linear_statics(lcase=lc, support_method=m)
    return lv.results(spec, lc)


def do_broken(lv, s, op):
    """Provoke a failing analysis through a user mistake or an unstable structure, then undo its cause."""
    fem = lv.fem
    how = op["how"]
    if op["lc"] not in s.cases:
        return False
    undo = None
    if how == "no-supports":
        keep = list(fem.supports)
        fem.supports[:] = []
        undo = lambda: fem.supports.extend(keep)
    elif how == "section-none":
        e = lv.o[sorted(s.els)[int(op["pick"] * len(s.els))]]
        sec = e.section
        e.section = None

        def undo():
            e.section = sec
    elif how == "short-load":
        n = lv.o[sorted(s.nodes)[int(op["pick"] * len(s.nodes))]]
        ld = PointLoad(op["lc"], n, [1000.0], 1.0)
        fem.add_load(ld)
        undo = lambda: fem.loads.remove(ld)
    elif how == "bad-case":
        op = dict(op, lc=99991)
    elif how == "loose-node":
        # a beam hanging in the air, not connected to anything
        from metku.framefem.elements import EBBeam as B
        a, b = fem.add_node(-9000.0, -9000.0), fem.add_node(-8000.0, -9000.0)
        any_el = lv.o[sorted(s.els)[0]]
        el = B(a, b, any_el.section, any_el.material)
        fem.add_element(el)

        def undo():
            fem.elements.remove(el)
            for x in (b, a):
                i = fem.nodes.index(x)
                del fem.nodes[i]
                del fem.nodal_coords[i]
    err = None
    try:
        fem.linear_statics(lcase=op["lc"], support_method=op["m"])
    except Exception as ex:
        err = type(ex).__name__
    if how in ("section-none", "short-load", "bad-case") and err is None:
        raise Violation("error-hidden", f"analysis of a model with {how} reported no error")
    SIM.log("broken", how, err)
    SIM.fault("broken-model:" + how)
    if err:
        SIM.probe("analysis-failed-by-model")
    if undo:
        undo()
    return True
