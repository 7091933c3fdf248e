"""T01: a roof truss is analysed as it is currently defined, in every joint model."""
import copy
import numpy as np
from . import raamilib as R
from sim import reffem
from sim.core import SIM, Violation
from metku.raami.raami_plane_truss import SlopedTruss, TubularKGapJoint
from metku.raami.raami_truss_opt import minimize_eccentricity
from metku.raami.frame_loads import PointLoad, LoadCase, LoadCombination
from metku.sections.steel.RHS import RHS

RUNS = {"quick": 600, "thorough": 8000}
RULE = ("A run generates a roof truss (K, N or KT, 1-4 divisions, with or without end offsets - also unequal ones - edge verticals, bar or beam braces, 1-3 elements per member) and performs 4-14 operations: "
        "new profiles for chords and braces, eccentricities and offsets of joints (one by one or substituted through the library's eccentricity problem), moving the bottom chord, uniform and zoned loads, joint loads, "
        "scaling and removing loads, self-weight, load combinations, regenerating the calculation model in one of the three joint models or moving its joint nodes after a change, and analyses of one or all cases, some generations and analyses cut short. "
        "The generated geometry must be a connected truss that mirrors itself when its parameters do. Every analysis must equal an independent mechanics reference built from the truss' definition (nodes, member lines, joint "
        "eccentricities, zone loads), and a truss with the same definition built afresh; intersection points and gaps of joints must follow from their settings. Non-trivial: an analysis was compared after an edit that followed an "
        "earlier analysis or after a change of joint model.")
REAL = ["metku.raami.raami_plane_truss", "metku.raami.raami_truss_opt (problem, not its solution)", "metku.raami analysis and loads", "metku.framefem", "metku steel sections"]
STUB = ["interruption and memory faults at chosen statements"]
ASSUMPTIONS = ["in the eccentric joint models a change of joint settings or node positions needs regenerating the model or moving its joint nodes (update_fem_joint_nodes); profiles take effect at once",
               "an element that a load zone ends in carries the larger of the two zone loads; where a zone ends inside the gap of a joint the gap carries the larger one",
               "joint loads only at joints the joint model has a node for (otherwise the library refuses); self-weight only with beam braces"]

MODELS = ("no_eccentricity", "en1993", "ecc_elements")
CASES = (0, 1, 2)
LT = ("live", "dead", "wind")


# ---------------------------------------------------------------- specification
class Spec:
    """Definition of a truss, told by its user's calls."""

    def __init__(self, d):
        self.d = d
        self.nodes = []           # coordinates
        self.mem = {}             # key -> {"k": top|bottom|brace, "n": (i, j)}
        self.top, self.bot = [], []
        self.sec = {}             # key -> [H, B, T]
        self.J = {}               # node -> {"k", "chords", "braces", "x", "y", "ridge"}
        self.loads = []
        self.sw = False
        self.combs = []
        self.mirror = {}

    def side(self, i):
        return 1.0 if i in self.top else -1.0

    def axis(self, i):
        """Direction of the joint's first chord, and the unit vector away from the braces."""
        c = self.J[i]["chords"][0]
        a, b = (np.array(self.nodes[q]) for q in self.mem[c]["n"])
        t = (b - a) / np.linalg.norm(b - a)
        n = np.array([-t[1], t[0]])
        return t, n * self.side(i) * np.sign(n[1])

    def xp(self, i):
        j, p = self.J[i], np.array(self.nodes[i], float)
        if j["k"] != "K":
            return p
        if j["ridge"]:
            return p + np.array([0, j["y"]])
        t, n = self.axis(i)
        return p + j["x"] * t + j["y"] * n

    def other(self, b, i):
        n = self.mem[b]["n"]
        return n[1] if n[0] == i else n[0]

    def h0(self, i):
        return self.sec[self.J[i]["chords"][0]][0]

    def ordered(self, i):
        return sorted(self.J[i]["braces"], key=lambda b: self.nodes[self.other(b, i)][0])

    def face(self, i, right):
        """Intersection of a brace's centre line with the chord face, and its projection on the chord's centre line."""
        j, p = self.J[i], np.array(self.nodes[i], float)
        b = self.ordered(i)[1 if right else 0]
        t, n = self.axis(i)
        if j["ridge"]:
            c = next(c for c in j["chords"] if (self.nodes[self.other(c, i)][0] > p[0]) == right)
            q = np.array(self.nodes[self.other(c, i)], float)
            al = self.axis(i)[0]
            t = (q - p) / np.linalg.norm(q - p)
            f = p - np.array([0, 0.5 * self.h0(i) / al[0]])
        else:
            f = p - 0.5 * self.h0(i) * n
        a = self.xp(i)
        v = self.xp(self.other(b, i)) - a
        s = np.linalg.solve(np.column_stack([v, -t]), f - a)
        x = a + s[0] * v
        return b, x, p + np.dot(x - p, t) * t

    def gap(self, i):
        """Clear distance of the brace toes along the chord face."""
        (b1, x1, _), (b2, x2, _) = self.face(i, False), self.face(i, True)
        t, _ = self.axis(i)
        g = float(np.dot(x2 - x1, t))
        for b in (b1, b2):
            v = self.xp(self.other(b, i)) - self.xp(i)
            g -= 0.5 * self.sec[b][0] / abs(t[0] * v[1] - t[1] * v[0]) * np.linalg.norm(v)
        return g

    # -- finite elements of a joint model
    def coords(self, model):
        c = {}
        for i, p in enumerate(self.nodes):
            p = np.array(p, float)
            j = self.J.get(i)
            if model == "no_eccentricity" or j is None or j["k"] != "K":
                c["c", i] = p
                continue
            if model == "en1993":
                c["p", i] = self.xp(i)
                t, _ = self.axis(i)
                c["c", i] = p if j["ridge"] else p + np.dot(self.xp(i) - p, t) * t
                if np.linalg.norm(c["p", i] - c["c", i]) < 1e-6:
                    c["p", i] = c["c", i]
            else:
                for right in (False, True):
                    _, c["f", i, right], c["h", i, right] = self.face(i, right)
                if j["ridge"]:
                    c["c", i] = p
        for m in self.mem:
            e = self.ends(m, model)
            n = self.nel(m, model)
            a, b = (np.array(self.nodes[q], float) for q in self.mem[m]["n"])
            if model != "no_eccentricity" and (self.mem[m]["k"] == "brace" or model == "ecc_elements"):
                a, b = c[e[0]], c[e[1]]
            for k in range(1, n):
                c["i", m, k] = a + (b - a) * k / n
        return c

    def nel(self, m, model):
        if self.mem[m]["k"] == "brace":
            return self.d["nb"] if self.d["beams"] else 1
        return self.d["nc"]

    def ends(self, m, model):
        out = []
        for a, i in enumerate(self.mem[m]["n"]):
            j = self.J.get(i)
            if model == "no_eccentricity" or j is None or j["k"] != "K":
                out.append(("c", i))
            elif self.mem[m]["k"] == "brace":
                out.append(("p", i) if model == "en1993" else ("f", i, self.ordered(i).index(m) == 1))
            elif model == "en1993":
                out.append(("c", i))
            else:          # the chord ends where the brace on its side meets it
                out.append(("h", i, self.nodes[self.other(m, i)][0] > self.nodes[i][0]))
        return out

    def zone(self, x, q, z):
        return q[sum(1 for b in z if x > b)]

    def loads_of(self, lc):
        """[(load, factor)] of a load case or combination."""
        for c in self.combs:
            if c["id"] == lc:
                return [(l, R.comb_factor(c["type"], l["lt"], q == c["lead"])) for q in c["cases"] for l in self.loads if l["lc"] == q]
        return [(l, 1.0) for l in self.loads if l["lc"] == lc]

    def sw_factor(self, lc):
        for c in self.combs:
            if c["id"] == lc:
                return R.comb_factor(c["type"], "dead", False) if self.sw and R.SW in c["cases"] else 0.0
        return 1.0 if self.sw and lc == R.SW else 0.0

    def chord_q(self, m, lc, a, b):
        """Load of an element of a chord member between two relative positions of the member."""
        u, v = (self.nodes[q][0] for q in self.mem[m]["n"])
        out = 0.0
        for l, f in self.loads_of(lc):
            f *= l["f"]
            if l["k"] == "u":
                out += f * l["q"] if l["on"] == self.mem[m]["k"] else 0.0
            elif l["k"] == "z" and self.mem[m]["k"] == "top":
                x1, x2 = max(u, u + (v - u) * a), min(v, u + (v - u) * b)
                w = [self.zone(x1 + 1e-6, l["q"], l["z"]), self.zone(x2 - 1e-6, l["q"], l["z"])]
                w += [q for b_, q in zip(l["z"], l["q"][1:]) if x1 + 1e-6 < b_ < x2 - 1e-6]
                out += f * max(w, key=abs)
        return out

    def solve(self, model, lc, coords, zoned):
        A = {m: R.props({"k": "rhs", "h": s[0], "b": s[1], "t": s[2]}) for m, s in self.sec.items()}
        used, els, parts, loads = {}, [], {}, []

        def node(k):
            used.setdefault(k, tuple(coords[k]))
            return k
        for m, x in self.mem.items():
            n = self.nel(m, model)
            e = self.ends(m, model)
            pts = [node(e[0])] + [node(("i", m, k)) for k in range(1, n)] + [node(e[1])]
            rod = x["k"] == "brace" and not self.d["beams"]
            parts[m] = []
            p0, p1 = coords[e[0]], coords[e[1]]
            for k, (p, q) in enumerate(zip(pts, pts[1:])):
                rel = [2] * (x["k"] == "brace" and k == 0) + [5] * (x["k"] == "brace" and k == n - 1)
                els.append({"uid": (m, k), "t": "rod" if rod else "beam", "n": (p, q), "E": 210000.0, "A": A[m][0], "I": A[m][1], "rel": [] if rod else rel})
                parts[m].append((m, k))
                w = 0.0
                if x["k"] != "brace":
                    w += self.chord_q(m, lc, self.rel(m, zoned[p]), self.rel(m, zoned[q]))
                w -= self.sw_factor(lc) * A[m][0] * 7850e-9 * 9.81
                if w:
                    loads.append({"k": "ll", "e": (m, k), "q": [w, w], "dir": "y", "co": "global"})
        ipe = R.props({"k": "cat", "name": "IPE 500", "fy": 355}) if model != "no_eccentricity" else None

        def stiff(uid, p, q, sec):
            if float(np.linalg.norm(coords[p] - coords[q])) < 1e-6:
                same.append((p, q))
                return
            els.append({"uid": uid, "t": "beam", "n": (node(p), node(q)), "E": 210000.0, "A": sec[0], "I": sec[1], "rel": []})
        same = []
        for i, j in self.J.items():
            if j["k"] != "K" or model == "no_eccentricity":
                continue
            if model == "en1993":
                stiff(("e", i), ("p", i), ("c", i), ipe)
                continue
            for right in (False, True):
                stiff(("e", i, right), ("f", i, right), ("h", i, right), ipe)
            sec = A[j["chords"][0]]
            if j["ridge"]:
                gaps = [(("g", i, 0), ("h", i, False), ("c", i)), (("g", i, 1), ("c", i), ("h", i, True))]
            else:
                gaps = [(("g", i), ("h", i, False), ("h", i, True))]
            for uid, p, q in gaps:
                stiff(uid, p, q, sec)
            ws = [0.0, 0.0]
            for c in j["chords"]:
                if self.nodes[self.other(c, i)][0] < self.nodes[i][0]:
                    ws[0] = self.chord_q(c, lc, 1 - 1e-6, 1)
                else:
                    ws[1] = self.chord_q(c, lc, 0, 1e-6)
            own = -self.sw_factor(lc) * A[j["chords"][0]][0] * 7850e-9 * 9.81
            ws = ws if j["ridge"] else [max(ws, key=abs)]
            for (uid, p, q), w in zip(gaps, ws):
                if w + own:
                    loads.append({"k": "ll", "e": uid, "q": [w + own] * 2, "dir": "y", "co": "global"})
        for l, f in self.loads_of(lc):
            if l["k"] == "p":
                loads.append({"k": "pt", "n": node(("c", l["n"])), "v": l["v"], "f": f * l["f"]})
        sups = [(("c", self.support(0)), [0, 1]), (("c", self.support(1)), [1])]
        if same:
            sub = {p: q for p, q in same}
            for e in els:
                e["n"] = tuple(sub.get(p, p) for p in e["n"])
            used = {k: v for k, v in used.items() if k not in sub}
        u, f, tol, w = reffem.solve_tol({"nodes": used, "els": els, "sups": sups, "loads": loads}, 1e-10)
        out = {"f": {}, "d": {}}
        sub = dict(same)
        for m, ps in parts.items():
            out["f"][m] = {k: [f[p][q][0] for p in ps] + [f[ps[-1]][q][1]] for k, q in (("N", "fx"), ("Vz", "fz"), ("My", "my"))}
            e = self.ends(m, model)
            keys = [e[0]] + [("i", m, k) for k in range(1, self.nel(m, model))] + [e[1]]
            out["d"][m] = [u[sub.get(k, k)] for k in keys]
        return out, tol

    def rel(self, m, x):
        a, b = (np.array(self.nodes[q], float) for q in self.mem[m]["n"])
        return float(np.dot(x - a, b - a) / np.dot(b - a, b - a))

    def support(self, right):
        on = self.top if self.d["dx2" if right else "dx1"] > 0 else self.bot
        return on[-1 if right else 0]

    def has_node(self, i, model):
        j = self.J.get(i)
        return model != "ecc_elements" or j is None or j["k"] != "K" or j["ridge"]

    def can(self, model):
        """Joint models this truss can be analysed in."""
        if model == "no_eccentricity":
            return True
        if any(i not in self.J for m, x in self.mem.items() if x["k"] != "brace" for i in x["n"]):
            return False
        if model == "en1993":
            return True
        if not all(self.has_node(self.support(r), model) for r in (0, 1)):
            return False
        if any(not self.has_node(l["n"], model) for l in self.loads if l["k"] == "p"):
            return False
        # a chord member ends on the side of its joint
        c = self.coords(model)
        for m, x in self.mem.items():
            if x["k"] != "brace":
                a, b = (c[e] for e in self.ends(m, model))
                if b[0] - a[0] < 50 * self.d["nc"]:
                    return False
        return all(c["h", i, True][0] - c["h", i, False][0] > 5 for i, j in self.J.items() if j["k"] == "K")

    def ids(self):
        out = []
        for l in self.loads:
            if l["lc"] not in out:
                out.append(l["lc"])
        return out + [R.SW] * self.sw + [c["id"] for c in self.combs if self.sw_factor(c["id"]) or self.loads_of(c["id"])]


# ---------------------------------------------------------------- the live truss
def build(d):
    t = SlopedTruss(L1=d["L"], L2=d["L"], dx1=d["dx1"], dx2=d["dx2"], **d["h"])
    t.braces_as_beams = d["beams"]
    kw = {"%s_profile" % k: RHS(*d["sec"][k]) for k in ("top_chord", "bottom_chord", "brace")}
    t.generate_topology(d["topo"], d["ndiv"], first_diagonal_up=d["up"], edge_verticals=d["edge"], nel_chord=d["nc"], nel_brace=d["nb"], **kw)
    if d["order"] == "sym-first" and d["sym"]:
        t.symmetry()
    t.generate_supports()
    t.generate_joints()
    if d["sym"]:
        t.symmetry()
    return t


def describe(d, t):
    """Definition of the generated truss, checked to be what its parameters say."""
    s = Spec(d)
    idx = {id(n): i for i, n in enumerate(t.nodes)}
    s.nodes = [[float(n.x), float(n.y)] for n in t.nodes]
    s.top, s.bot = [idx[id(n)] for n in t.top_nodes], [idx[id(n)] for n in t.bottom_nodes]

    def bad(what):
        raise Violation("geometry", f"{d['topo']} truss {d}: {what}")
    if sorted(s.top + s.bot) != list(range(len(s.nodes))):
        bad("nodes of the chords are not the nodes of the truss")
    rise = d["h"]["h2"] - d["h"]["h1"] if "slope" not in d["h"] else d["L"] * np.tan(np.radians(d["h"]["slope"]))
    h1 = d["h"].get("h1", 0) or d["h"]["h2"] - rise
    for on, y, x1, x2 in ((s.top, lambda x: rise * (1 - abs(x - d["L"]) / d["L"]), 0.0, 2 * d["L"]), (s.bot, lambda x: -h1, d["dx1"], 2 * d["L"] - d["dx2"])):
        xs = [s.nodes[i][0] for i in on]
        if any(b - a < 1 for a, b in zip(xs, xs[1:])) or abs(xs[0] - x1) > 1e-3 or abs(xs[-1] - x2) > 1e-3:
            bad(f"chord nodes at x = {xs}")
        for i in on:
            if not abs(s.nodes[i][1] - y(s.nodes[i][0])) <= 1e-3:
                bad(f"node at {s.nodes[i]} is off its chord line")
    for name, on, ms in (("top", s.top, t.top_chord), ("bottom", s.bot, t.bottom_chord)):
        if [tuple(idx[id(n)] for n in m.nodes) for m in ms] != list(zip(on, on[1:])):
            bad(f"{name} chord members do not join consecutive nodes")
    for k, m in t.members.items():
        kind = "top" if m in t.top_chord else "bottom" if m in t.bottom_chord else "brace"
        s.mem[k] = {"k": kind, "n": tuple(idx[id(n)] for n in m.nodes)}
        s.sec[k] = list(d["sec"][{"top": "top_chord", "bottom": "bottom_chord", "brace": "brace"}[kind]])
        if kind == "brace" and len(set(s.mem[k]["n"]) & set(s.top)) != 1:
            bad(f"brace {k} does not join the chords")
    br = [frozenset(x["n"]) for x in s.mem.values() if x["k"] == "brace"]
    if len(set(br)) != len(br):
        bad("two braces in one place")
    for i in range(len(s.nodes)):
        cs = [k for k, x in s.mem.items() if x["k"] != "brace" and i in x["n"]]
        bs = [k for k, x in s.mem.items() if x["k"] == "brace" and i in x["n"]]
        if len(bs) > 3:
            bad("four braces at a node")
        if bs:
            s.J[i] = {"k": {1: "Y", 2: "K", 3: "KT"}[len(bs)], "chords": cs, "braces": bs, "x": 0.0, "y": 0.25 * s.sec[cs[0]][0],
                      "ridge": i in s.top and abs(s.nodes[i][0] - d["L"]) < 1e-3 and rise != 0}
    if d["dx1"] == d["dx2"]:
        m = {}
        for i, (x, y) in enumerate(s.nodes):
            o = [k for k, (a, b) in enumerate(s.nodes) if abs(a + x - 2 * d["L"]) < 1e-3 and abs(b - y) < 1e-3]
            if len(o) != 1:
                bad(f"node at {s.nodes[i]} has no mirror image")
            m[i] = o[0]
        at = {frozenset(x["n"]): k for k, x in s.mem.items()}
        for k, x in s.mem.items():
            o = at.get(frozenset(m[i] for i in x["n"]))
            if o is None:
                bad(f"member {k} has no mirror image")
            if d["sym"]:
                s.mirror[k] = o
                s.mirror.update({("n", i): m[i] for i in m})
    return s


class Live:
    def __init__(self, d, s=None):
        self.t = build(d)
        self.combs, self.of = [], {}
        self.s = s if s is not None else describe(d, self.t)
        t = self.t
        if s is not None:        # another definition of the same truss
            for i, p in enumerate(s.nodes):
                if abs(float(t.nodes[i].y) - p[1]) > 1e-9:
                    t.nodes[i].y = p[1]
            for k, x in s.sec.items():
                t.members[k].cross_section = RHS(*x)
            for i in s.J:
                if s.J[i]["k"] == "K":
                    self.joint(i).yloc = s.J[i]["y"]
                    if not s.J[i]["ridge"]:
                        self.joint(i).xloc = s.J[i]["x"]
            for l in s.loads:
                self._add_load(l, l["f"])
            if s.sw:
                t.add_self_weight()
            for c in s.combs:
                self.add_comb(c)

    def joint(self, i):
        return next(j for j in self.t.joints.values() if j.node is self.t.nodes[i])

    def add_comb(self, c):
        t = self.t
        self.combs.append(LoadCombination(comb_id=c["id"], comb_type=c["type"], load_cases=[t.load_cases.get(i) or LoadCase(i) for i in c["cases"]]))
        self.combs[-1].lead_variable_load = next((x for x in self.combs[-1].load_cases if x.load_id == c["lead"]), None)
        t.add(self.combs[-1])
        self.combs[-1].combine_loads()

    def add_load(self, l, f=1.0):
        t = self.t
        before = {id(x) for x in t.loads.values()}
        self._add_load(l, f)
        self.of[len(self.of)] = [x for x in t.loads.values() if id(x) not in before]
        l["u"] = len(self.of) - 1

    def _add_load(self, l, f):
        t = self.t
        if l["k"] == "u":
            t.generate_uniform_load(l["q"] * f, l["on"], load_id=l["lc"], ltype=l["lt"])
        elif l["k"] == "z":
            t.generate_piecewise_uniform_load([q * f for q in l["q"]], list(l["z"]), load_id=l["lc"], ltype=l["lt"])
        else:
            t.add(PointLoad(t.nodes[l["n"]], list(l["v"]), load_id=l["lc"], ltype=l["lt"], f=f))

    def results(self, lc):
        out = {"f": {}, "d": {}}
        for k, m in self.t.members.items():
            nf = m.nodal_forces[lc]
            out["f"][k] = {q: [float(v) for v in nf[q]] for q in ("N", "Vz", "My")}
            out["d"][k] = [[float(x) for x in v] for v in m.nodal_displacements[lc]]
        return out


def compare(a, b, tol, what, cls):
    for m in b["f"]:
        for q, e in (("N", "fx"), ("Vz", "fz"), ("My", "my")):
            x, y = a["f"][m][q], b["f"][m][q]
            if len(x) != len(y):
                raise Violation(cls + ":diagram", f"{what}: member {m}: {q} diagram has {len(x)} values, expected {len(y)}")
            for i, (v, w) in enumerate(zip(x, y)):
                if not abs(v - w) <= tol[e]:
                    raise Violation(cls + ":force", f"{what}: member {m} {q}[{i}]: {v!r}, expected {w!r} (tol {tol[e]:.1e})")
        x, y = a["d"][m], b["d"][m]
        if len(x) != len(y):
            raise Violation(cls + ":diagram", f"{what}: member {m}: displacements at {len(x)} points, expected {len(y)}")
        for i, (v, w) in enumerate(zip(x, y)):
            for c in (0, 1):
                if not abs(v[c] - w[c]) <= tol["u"]:
                    raise Violation(cls + ":displacement", f"{what}: member {m} point {i} dof {c}: {v[c]!r}, expected {w[c]!r} (tol {tol['u']:.1e})")


# ---------------------------------------------------------------- generation
def gen(r, i, tier):
    topo = r.choice(["K", "K", "N", "KT"])
    dx = r.choice([0, 800, 1000, 1400])
    h = r.choice([{"h1": 1100, "h2": 1700}, {"h1": 1400, "h2": 1600}, {"h1": 1200, "slope": 4.0}, {"h2": 1800, "slope": 3.0}, {"h1": 1300, "h2": 1300}])
    d = {"topo": topo, "L": r.choice([6000, 8000, 9500]), "dx1": dx, "dx2": dx if dx == 0 or r.random() < 0.8 else r.choice([700, 900]), "h": h,
         "ndiv": r.pick([(1, 0.5), (2, 3), (3, 2), (4, 0.7)]), "up": r.random() < 0.5, "edge": r.random() < 0.75, "nc": r.randint(1, 3), "nb": 1, "beams": r.random() < 0.6,
         "sec": {"top_chord": sec(r, 120, 160), "bottom_chord": sec(r, 110, 150), "brace": sec(r, 60, 90)}, "order": r.choice(["", "sym-first"])}
    if d["beams"]:
        d["nb"] = r.choice([1, 1, 2, 3])
    if d["ndiv"] == 1 and (topo != "K" or dx == 0):
        d["ndiv"] = 2
    if d["ndiv"] == 1:       # a single bottom node on each half: the offsets cannot differ
        d["dx2"] = d["dx1"]
    d["sym"] = d["dx1"] == d["dx2"] and r.random() < 0.7
    ops = [gen_load(r, d)]
    if r.random() < 0.4:
        ops.append(gen_load(r, d))
    ops.append({"op": "gen", "m": r.choice(MODELS)})
    pf = r.choice([0, 0, 0.25])
    for _ in range(r.randint(3, 12 if tier == "quick" else 26)):
        ops.append(gen_op(r, d, pf))
    ops.append({"op": "analyse", "lc": r.random(), "all": r.random() < 0.5, "design": r.random() < 0.3, "s": r.choice(["REM", "ZERO"])})
    return {"d": d, "ops": ops}


def sec(r, lo, hi):
    h = r.randrange(lo, hi + 1, 10)
    return [h, h if r.random() < 0.7 else h - 20, r.choice([4, 5, 6])]


def gen_load(r, d):
    lc = r.choice(CASES)
    x = r.random()
    if x < 0.5:
        return {"op": "load", "k": "u", "q": -float(r.choice([4, 10, 25])), "on": r.choice(["top", "top", "top", "bottom"]), "lc": lc, "lt": LT[lc]}
    if x < 0.75:
        n = r.randint(1, 3)
        z = sorted(r.sample(range(5, 100, 5), n))
        return {"op": "load", "k": "z", "q": [r.choice([-3.0, -8.0, -20.0, 5.0]) for _ in range(n + 1)], "z": [2 * d["L"] * v / 100 + r.choice([0, 0, 13]) for v in z], "lc": lc, "lt": LT[lc]}
    return {"op": "load", "k": "p", "n": r.random(), "v": [r.choice([0, 3e3]), -r.choice([5e3, 2e4]), 0], "lc": lc, "lt": LT[lc]}


def gen_op(r, d, pf):
    k = r.pick([("analyse", 6), ("gen", 3), ("prof", 3), ("joint", 3), ("eccproblem", 1), ("load", 2), ("scale", 1), ("sw", 1), ("dy", 0.8), ("update", 3), ("remove", 0.6), ("comb", 0.8)])
    if k == "analyse":
        op = {"op": k, "lc": r.random(), "all": r.random() < 0.4, "design": r.random() < 0.3, "s": r.choice(["REM", "REM", "ZERO"])}
    elif k == "gen":
        op = {"op": k, "m": r.choice(MODELS)}
    elif k == "prof":
        op = {"op": k, "on": r.choice(["top", "bottom", "brace", "brace"]), "x": r.random(), "how": r.choice(["group", "truss", "each"])}
        op["sec"] = sec(r, *{"top": (120, 180), "bottom": (110, 160), "brace": (50, 100)}[op["on"]])
    elif k == "joint":
        op = {"op": k, "x": r.random(), "what": r.choice(["y", "y", "x"]), "v": r.choice([0.0, 10.0, 25.0, -15.0, 40.0, -30.0, 0.0]) if r.random() < 0.8 else round(r.uniform(-60, 60), 1)}
    elif k == "eccproblem":
        op = {"op": k, "v": [r.random() for _ in range(12)]}
    elif k == "load":
        return gen_load(r, d)
    elif k == "scale":
        op = {"op": k, "lc": r.random(), "f": r.choice([0.5, 1.5, 2.0, -1.0])}
    elif k == "remove":
        op = {"op": k, "x": r.random()}
    elif k == "comb":
        op = {"op": k, "x": r.random(), "rev": r.choice([1, -1]), "t": r.choice(["ULS", "ULS", "SLS"])}
    elif k == "dy":
        op = {"op": k, "v": r.choice([-50.0, 30.0, 75.0])}
    else:
        op = {"op": k}
    if k in ("analyse", "gen") and r.random() < pf:
        op["fault"] = {"kind": r.pick(R.FAULTS if k == "analyse" else [("interrupt", 2), ("memory", 1)]), "at": r.random(), "n": 1}
    return op


# ---------------------------------------------------------------- run
def run(plan):
    d = plan["d"]
    with SIM.quiet():
        lv = Live(d)
    s, t = lv.s, lv.t
    state = {"model": None, "coords": None, "dirty": True, "geo": False, "zoned": None}
    n, analysed, changed = 0, False, False
    check_joints(lv, "generated truss")
    SIM.probe("topo:" + d["topo"])

    def regen(model, fault=None):
        if not s.can(model):
            return False
        if fault and R.with_fault(fault, lambda: t.generate_fem(model=model), "generate_fem"):
            state.update(model=None, dirty=True)
            return False
        for x in lv.combs:       # combinations follow the load cases when they are combined again
            x.combine_loads()
        t.generate_fem(model=model)
        c = s.coords(model)
        state.update(model=model, coords=c, zoned=c, dirty=False, geo=False)
        return True
    for op in plan["ops"]:
        k = op["op"]
        if k == "analyse":
            with SIM.quiet():
                if state["model"] is None:
                    regen("no_eccentricity")
                elif state["dirty"] or state["geo"]:
                    if not regen(state["model"]) and not regen("no_eccentricity"):
                        continue
                ids = s.ids()
                if not ids:
                    continue
                lc = ids[int(op["lc"] * len(ids))]
                todo = ids if op["all"] else [lc]
                if state["model"] == "no_eccentricity":
                    state["coords"] = state["zoned"] = s.coords("no_eccentricity")
                refs = {}
                try:
                    for x in todo:
                        refs[x] = s.solve(state["model"], x, state["coords"], state["zoned"])
                except reffem.Unstable:
                    SIM.probe("ref:unstable-skip")
                    continue

                def call():
                    t.structural_analysis(load_id="ALL" if op["all"] else lc, support_method=op["s"], design=op["design"])
                if op.get("fault"):
                    if R.with_fault(op["fault"], call, "structural_analysis"):
                        analysed = changed = True
                        continue
                else:
                    call()
                for x in todo:
                    res = lv.results(x)
                    what = f"{d['topo']} truss, {state['model']}, case {x}"
                    compare(res, refs[x][0], refs[x][1], what, "mechanics")
                    R.log_results({"u": {}, "f": res["f"]}, x)
                if changed and n % 3 == 0:
                    f = Live(d, s)
                    if s.can(state["model"]):
                        f.t.generate_fem(model=state["model"])
                        f.t.structural_analysis(load_id=todo[0], support_method=op["s"], design=False)
                        if not stale_geometry(state["coords"], state["model"], s) and not stale_geometry(state["zoned"], state["model"], s):
                            compare(lv.results(todo[0]), f.results(todo[0]), refs[todo[0]][1], f"{what}, against the same truss built afresh", "fresh")
            n += analysed and changed
            SIM.probe("analysed:" + state["model"])
            analysed, changed = True, False
            continue
        with SIM.quiet():
            done = apply(lv, op, state, regen)
        if done:
            changed = True
            SIM.log("edit", k)
            SIM.probe("edit:" + k)
            check_joints(lv, f"after {k}")
    return {"nontrivial": n > 0, "compared_after_change": n}


def stale_geometry(coords, model, s):
    c = s.coords(model)
    return set(c) != set(coords) or any(np.linalg.norm(c[k] - coords[k]) > 1e-6 for k in c)


def apply(lv, op, state, regen):
    s, t = lv.s, lv.t
    k = op["op"]
    if k == "gen":
        return regen(op["m"], op.get("fault"))
    if k == "load":
        l = {q: v for q, v in op.items() if q != "op"}
        l["f"] = 1.0
        if l["k"] == "p":
            l["n"] = int(l["n"] * len(s.nodes))
        s.loads.append(l)
        if not s.can(state["model"] or "no_eccentricity"):
            s.loads.pop()
            if l["k"] == "p" and state["model"] == "ecc_elements" and not s.has_node(l["n"], "ecc_elements"):
                refused(lv, l, state)
            return False
        lv.add_load(l)
        state["dirty"] = True
    elif k == "scale":
        ids = [x for x in s.ids() if x in CASES]
        if not ids:
            return False
        lc = ids[int(op["lc"] * len(ids))]
        for l in s.loads:
            if l["lc"] == lc:
                l["f"] *= op["f"]
        for l in t.load_cases[lc].loads:
            l.f *= op["f"]
        state["dirty"] = True
    elif k == "remove":
        if not s.loads:
            return False
        l = s.loads.pop(int(op["x"] * len(s.loads)))
        for x in lv.of[l["u"]]:
            t.remove_load(x)
        state["dirty"] = True
    elif k == "comb":
        cs = [x for x in s.ids() if x in CASES + (R.SW,)]
        if not cs or len(s.combs) > 2:
            return False
        cs = cs[:1 + int(op["x"] * len(cs))][::op["rev"]]
        c = {"id": 20 + len(s.combs), "type": op["t"], "cases": cs, "lead": next((x for x in cs if x in CASES and LT[x] != "dead"), None)}
        s.combs.append(c)
        lv.add_comb(c)
        state["dirty"] = True
    elif k == "sw":
        if not lv.s.d["beams"]:
            return False
        s.sw = not s.sw
        if not s.can(state["model"] or "no_eccentricity"):
            s.sw = not s.sw
            return False
        (t.add_self_weight if s.sw else t.remove_self_weight)()
        state["dirty"] = True
    elif k == "prof":
        new = lambda: RHS(*op["sec"])
        if op["on"] == "brace":
            b = [m for m, x in s.mem.items() if x["k"] == "brace"]
            m = b[int(op["x"] * len(b))]
            t.members[m].cross_section = new()
            for x in {m, s.mirror.get(m, m)}:
                s.sec[x] = list(op["sec"])
        else:
            ms = [m for m, x in s.mem.items() if x["k"] == op["on"]]
            if op["how"] == "group":
                t.member_groups[op["on"] + "_chord"].cross_section = new()
            elif op["how"] == "truss":
                setattr(t, op["on"] + "_chord_profile", new())
            else:
                for m in ms:
                    t.members[m].cross_section = new()
            for m in ms:
                s.sec[m] = list(op["sec"])
    elif k == "joint":
        ks = [i for i, j in s.J.items() if j["k"] == "K"]
        if not ks:
            return False
        i = ks[int(op["x"] * len(ks))]
        if op["what"] == "x" and s.J[i]["ridge"]:
            return False
        set_joint(s, i, op["what"], op["v"])
        setattr(lv.joint(i), op["what"] + "loc", op["v"])
        state["geo"] = state["model"] != "no_eccentricity"
    elif k == "eccproblem":
        if not all(j["k"] == "K" for i, j in s.J.items() if i in s.top and abs(s.nodes[i][0] - s.d["L"]) < 1e-3):
            return False
        ecc_problem(lv, op)
        state["geo"] = state["model"] != "no_eccentricity"
    elif k == "dy":
        if s.nodes[s.bot[0]][1] + op["v"] > -900:
            return False
        t.bottom_chord_dy(op["v"])
        for i in s.bot:
            s.nodes[i][1] += op["v"]
        state["dirty"] = state["dirty"] or state["model"] not in (None, "no_eccentricity")
    elif k == "update":
        if state["model"] != "ecc_elements" or state["dirty"] or not s.can("ecc_elements"):
            return False
        t.update_fem_joint_nodes()
        state["coords"] = s.coords("ecc_elements")
        state["geo"] = False
    return True


def refused(lv, l, state):
    """A load at a joint the model has no node for is an error; it is never left out of the results."""
    t = lv.t
    x = PointLoad(t.nodes[l["n"]], list(l["v"]), load_id=77, ltype=l["lt"])
    t.add(x)
    SIM.probe("load without node")
    state.update(model=None, dirty=True)
    try:
        t.generate_fem(model="ecc_elements")
    except ValueError:
        t.remove_load(x)
        return
    t.structural_analysis(load_id=77, support_method="ZERO", design=False)
    big = max(abs(v) for m in t.members.values() for v in m.nodal_forces[77]["N"])
    if not big > 1:
        raise Violation("lost-load", f"load {l['v']} at joint {t.nodes[l['n']]} was accepted in the model with eccentricity elements and is not in its results")
    t.remove_load(x)


def set_joint(s, i, what, v):
    s.J[i][what] = v
    o = s.mirror.get(("n", i))
    if o is not None and o != i and not s.J[i]["ridge"]:
        s.J[o][what] = v if what == "y" else -v


def ecc_problem(lv, op):
    """The library's eccentricity problem works on the joints of the truss: substituting a design sets them."""
    s, t = lv.s, lv.t
    P, x0 = minimize_eccentricity(t)
    x = [v.lb + (0.25 + 0.5 * op["v"][i % len(op["v"])]) * (v.ub - v.lb) for i, v in enumerate(P.vars)]
    idx = {id(n): i for i, n in enumerate(t.nodes)}
    for v, val in zip(P.vars, x):
        if v.target["property"] == "xloc":
            continue
        set_joint(s, idx[id(v.target["objects"][0].node)], "y", val)
    for v, i in zip(P.vars, range(len(x))):
        if v.target["property"] == "xloc":
            x[i] = 0.5 * x[i] * (abs(x[i]) < 120)
            set_joint(s, idx[id(v.target["objects"][0].node)], "x", x[i])
    P.substitute_variables(np.array(x))
    for c in P.cons:
        if c.name.startswith("Gap"):
            key = int(c.name.split()[-1])
            i = idx[id(t.joints[key].node)]
            if s.J[i]["ridge"]:
                continue
            b0 = s.sec[s.J[i]["chords"][0]][1]
            bs = [s.sec[b] for b in s.J[i]["braces"]]
            beta = sum(b[0] + b[1] for b in bs) / (4 * b0)
            g = s.gap(i)
            want = g - 1.5 * b0 * (1 - beta) if "upper" in c.name else max(0.5 * b0 * (1 - beta), 20, sum(b[2] for b in bs)) - g
            got = float(c(x))
            if not abs(got - want) <= 1e-4 * (1 + abs(want)):
                raise Violation("gap", f"constraint {c.name!r} at {x}: {got!r}, the joint geometry gives {want!r}")


def check_joints(lv, what):
    s, t = lv.s, lv.t
    for i, j in s.J.items():
        x = lv.joint(i)
        if j["k"] != "K":
            continue
        if not np.linalg.norm(np.array(x.xp_coord, float) - s.xp(i)) <= 1e-6:
            raise Violation("joint", f"{what}: braces of the joint at {s.nodes[i]} with xloc {j['x']}, yloc {j['y']} meet at {list(map(float, x.xp_coord))}, expected {s.xp(i).tolist()}")
        if not j["ridge"]:
            got, want = float(x.calc_gap()), s.gap(i)
            if not abs(got - want) <= 1e-6 * (1 + abs(want)):
                raise Violation("gap", f"{what}: gap of the joint at {s.nodes[i]} is {got!r}, the geometry gives {want!r}")
    for k, m in t.members.items():
        if [m.cross_section.H, m.cross_section.B, m.cross_section.T] != s.sec[k]:
            raise Violation("section", f"{what}: member {k} carries {m.cross_section!r}, defined as {s.sec[k]}")
