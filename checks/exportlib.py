"""Shared workload of the export checks: frames and trusses, export calls on a simulated disk, independent readers of the
exported files, and fault placement."""
import copy, re
import numpy as np
from sim.core import SIM, Violation, HarnessError, SimInterrupt, SimCrash
from sim.simfs import SimFS
from . import raamilib as R

from metku.raami.raami_plane_truss import SlopedTruss
from metku.raami.exports import AbaqusOptions
from metku.sections.steel.RHS import RHS


# ---------------------------------------------------------------- models
def sound_truss(m):
    if m["nb"] > 1:
        m["beams"] = True         # a chain of bar elements is a mechanism
    if m["fem"] == "ecc_elements" and m["dx"] == 0:
        m["dx"] = 800             # joints at the truss ends are not available in this model
    return m


def gen_model(r, what=None, odd=0.0):
    if r.random() < (0.3 if what != "abaqus" else 0.55):
        return sound_truss({"kind": "truss", "top": r.choice(["K", "K", "N", "KT"]), "L": r.choice([6000, 9000]), "h1": r.choice([1100, 1300]), "h2": r.choice([1600, 1800]),
                "dx": r.choice([0, 0, 800, 1000]), "ndiv": r.choice([2, 2, 3]), "up": r.random() < 0.5, "nc": r.choice([1, 2, 3]), "nb": r.choice([1, 1, 2]),
                "beams": r.random() < 0.7, "fem": r.choice(["no_eccentricity", "en1993", "ecc_elements"]), "q": r.choice([-15.0, -25.0]),
                "t": r.choice([4, 5, 6]), "b": r.choice([70, 80, 90])})
    kinds = (("rhs", 1),) if what == "abaqus" or r.random() < 0.4 else (("rhs", 3), ("ipe", 2), ("hea", 1))
    if r.random() < odd and what == "robot":
        kinds += (("wi", 1),)
    s = R.gen_frame(r, kinds=kinds)
    while not s.stable():
        s = R.gen_frame(r, kinds=(("rhs", 1),))
    return {"kind": "frame", "init": R.to_json(s), "shape": s.kind}


class Model:
    """A live frame or truss; ``again()`` builds an identically defined one."""

    def __init__(self, m, spec=None):
        self.m = m
        self.dirty = True
        if m["kind"] == "frame":
            self.s = copy.deepcopy(spec) if spec is not None else R.from_json(m["init"])
            self.lv = R.Live(self.s)
            self.frame = self.lv.frame
        else:
            self.s, self.lv = None, None
            t = SlopedTruss(L1=m["L"], L2=m["L"], h2=m["h2"], h1=m["h1"], dx1=m["dx"], dx2=m["dx"])
            t.braces_as_beams = m["beams"]
            t.generate_topology(m["top"], m["ndiv"], top_chord_profile=RHS(140, 140, m["t"]), bottom_chord_profile=RHS(120, 120, m["t"]),
                                brace_profile=RHS(m["b"], m["b"], 4), first_diagonal_up=m["up"], nel_chord=m["nc"], nel_brace=m["nb"])
            t.generate_supports()
            t.generate_joints()
            t.symmetry()
            t.generate_uniform_load(q=m["q"])
            self.frame = t

    def again(self):
        return Model(self.m, self.s)

    def again_ready(self, op):
        g = self.again()
        ready(g, op)
        return g

    def ids(self):
        return self.s.all_ids() if self.s is not None else list(self.frame.load_ids)

    def generate(self):
        if self.dirty:
            if self.s is not None:
                for u in self.s.combs:
                    self.lv.o[u].combine_loads()
                self.frame.generate_fem()
            else:
                self.frame.generate_fem(model=self.m["fem"])
            self.dirty = False

    def analyse(self):
        self.generate()
        for i in self.ids():
            self.frame.structural_analysis(load_id=i, support_method="REM")

    def state(self):
        """What a user can observe of the definition and the results."""
        f = self.frame
        out = {"nodes": [[float(x) for x in n.coords] for n in f.nodes], "weight": float(f.weight()),
               "members": [(str(k), [f.nodes.index(n) for n in m.nodes], repr(m.cross_section), float(m.cross_section.A), float(m.cross_section.I[0]), str(m.material),
                            list(map(bool, m.hinges)), [float(x) for x in m.lcr]) for k, m in f.members.items()],
               "supports": [(type(s).__name__, f.nodes.index(s.node)) for s in f.supports.values()],
               "loads": [(str(k), sorted(map(repr, ((type(l).__name__, getattr(l, "f", None), np.array(getattr(l, "v", getattr(l, "values", 0))).tolist()) for l in c.loads))))
                         for k, c in f.load_cases.items()]}
        res = []
        for m in f.members.values():
            res.append({str(k): [[float(x) for x in v[q]] for q in ("N", "Vz", "My")] for k, v in m.nodal_forces.items()})
            res.append({str(k): float(u) for k, u in m.utilization.items()})
        out["results"] = res
        if f.fem is not None:
            out["fem"] = [[float(x) for x in n.coord] for n in f.fem.nodes], [[n.nid for n in e.nodes] + [list(e.releases)] for e in f.fem.elements]
        return out


def diff_state(a, b):
    for k in a:
        if a[k] != b.get(k):
            return f"{k}: {str(a[k])[:160]} became {str(b.get(k))[:160]}"
    return None


# ---------------------------------------------------------------- export calls
def gen_export(r, what, m, fault=0.0):
    op = {"op": "export", "what": what, "name": r.choice(["frame", "f", "A.B", "Raami_1", "run.2026"]), "sub": r.choice(["", "out", "out/deep"]), "clock": r.choice([0, 61.0, 86400.0])}
    op["rel"] = r.random() < 0.4
    if what == "abaqus":
        op["part"] = r.choice(["P", "Frame"])
        op["opts"] = {"give": r.random() < 0.7, "n_mon": r.choice([1, 2, 3]), "x": r.random(), "inc": r.random(), "reuse": r.random() < 0.6}
        if r.random() < 0.5:
            op["opts"]["user"] = {k: r.random() for k in USER if r.random() < 0.5}
    if what == "util":
        op["details"] = r.random() < 0.5
    if r.random() < fault:
        op["fault"] = gen_fault(r)
    return op


def gen_fault(r):
    k = r.pick([("enospc", 3), ("eio", 2), ("eacces", 2), ("short", 2), ("short_enospc", 2), ("eintr", 1), ("interrupt", 2), ("crash", 2), ("full", 2), ("line-interrupt", 2), ("obstacle", 1)])
    f = {"kind": k, "at": r.random(), "part": r.random()}
    if k not in ("full", "line-interrupt", "obstacle") and r.random() < 0.5:
        f["on"] = [r.choice(["open", "write", "close", "mkdir"])]
    return f


USER = ("mpc", "ecc", "sets", "load_sets", "load_nsets", "gaps")


def some(seq, x, most):
    """Some of the items, decided by the fraction x alone."""
    seq = list(seq)
    n = 1 + int(x * 9973) % most
    step = 1 + int(x * 7919) % 3
    a = int(x * len(seq))
    return list(dict.fromkeys(seq[(a + step * i) % len(seq)] for i in range(min(n, len(seq)))))


def user_groups(model, u):
    """Constraints, element and node groups a user adds to the export of the present calculation model."""
    f, fem = model.frame, model.frame.fem
    kw = {}
    frame = model.m["kind"] == "frame"
    if "mpc" in u and len(fem.nodes) > 1 and (frame or model.m["fem"] != "ecc_elements"):
        sl = some([n.nid + 1 for n in fem.nodes], u["mpc"], min(4, len(fem.nodes) - 1))
        free = [n.nid + 1 for n in fem.nodes if n.nid + 1 not in sl]
        kw["mpc"] = [[a, free[int(u["mpc"] * 31 * (i + 1)) % len(free)]] for i, a in enumerate(sl)]
    if "ecc" in u and frame and len(fem.elements) > 3:
        kw["ecc_elements"] = some(fem.elements, u["ecc"], 2)
    if "sets" in u:
        own = [e for m in f.members.values() for e in m.fem_elements]
        kw["elsets"] = {"User_set": some(own, u["sets"], 40)}
        if u["sets"] < 0.5:
            kw["elsets"]["Other.set"] = some(own, 1 - u["sets"], 3)
    if "load_sets" in u:
        kw["load_elsets"] = {"Loads1": some(fem.elements, u["load_sets"], 40), "Loads2": [] if u["load_sets"] < 0.4 else some(fem.elements, 1 - u["load_sets"], 17)}
    if "load_nsets" in u:
        kw["load_nsets"] = {"PLoads": some(fem.nodes, u["load_nsets"], 40), "PLoads2": some(fem.nodes, 1 - u["load_nsets"], 3)}
    if "gaps" in u and frame:
        kw["top_gap_elements"] = some(fem.elements, u["gaps"], 3)
        if u["gaps"] < 0.6:
            kw["bottom_gap_elements"] = some(fem.elements, 1 - u["gaps"], 20)
    return kw


def make_options(model, op):
    if op["what"] != "abaqus" or not op["opts"]["give"]:
        return None
    o, f = op["opts"], model.frame
    xs = [n.x for n in f.nodes]
    kw = {"x_monitor": float(min(xs) + o["x"] * (max(xs) - min(xs))), "n_monitored": o["n_mon"]}
    if model.m["kind"] == "frame":
        names = list(f.members)
        kw["included_members"] = [n for i, n in enumerate(names) if (i * 7 + int(o["inc"] * 97)) % 3] or names[:1]
    if o.get("user"):
        kw.update(user_groups(model, o["user"]))
    return AbaqusOptions(**kw)


def options_state(o):
    if o is None:
        return None
    return {k: (list(map(repr, v)) if isinstance(v, list) else {a: list(map(repr, b)) for a, b in v.items()} if isinstance(v, dict) else v) for k, v in vars(o).items()}


def dirname(op):
    return "/sim/work" + ("/" + op["sub"] if op["sub"] else "")


def unnamed(model, op):
    """The format has no name for a section of the model."""
    return op["what"] == "robot" and model.s is not None and any(model.s.secs[m["sec"]]["k"] == "wi" for m in model.s.mems.values())


def prepare(fs, op):
    p = "/sim/work"
    for part in [x for x in op["sub"].split("/") if x]:
        p += "/" + part
        if fs.read(p) is None:
            try:
                fs.mk(p)
            except FileExistsError:
                pass


def call(model, op, options=None):
    d = dirname(op)
    at = "" if op.get("rel") and not op["sub"] else op["sub"] + "/" if op.get("rel") else d + "/"     # the working directory is /sim/work
    if op["what"] == "robot":
        model.frame.to_robot(at + op["name"])
    elif op["what"] == "util":
        model.frame.print_member_utilization(at + op["name"] + ".txt", details=op["details"])
    else:
        kw = {} if options is None else {"options": options}
        model.frame.to_abaqus(d, op["name"], op["part"], **kw)


def targets(op):
    d = dirname(op)
    if op["what"] == "robot":
        return [d + "/" + op["name"] + ".str"]
    if op["what"] == "util":
        return [d + "/" + op["name"] + ".txt"]
    p = d + "/" + op["name"] + "_ABAQUS/" + op["name"]
    return [p + ".inp", p + "_Sections.txt", p + "_Materials_Elastic.txt"]


def ready(model, op):
    if op["what"] == "util":
        model.analyse()
    elif op["what"] == "abaqus":
        model.generate()


def golden(model, op):
    """Files an identically defined model writes on a healthy, empty disk at this moment."""
    g = model.again()
    ready(g, op)
    fs = SimFS()
    prepare(fs, op)
    with fs:
        call(g, op, make_options(g, op))
    out = {}
    for p in targets(op):
        out[p] = fs.read(p)
        if out[p] is None:
            raise Violation("missing-file", f"export {op['what']} did not write {p}; it wrote {sorted(fs.files())}")
    if fs.open_handles():
        raise Violation("unclosed", f"export {op['what']} left {fs.open_handles()} open")
    return out, fs


STAMP = re.compile(rb"Date: \d\d/\d\d/\d\d\d\d +\d\d:\d\d")


def unstamped(b):
    return STAMP.sub(b"Date: -", b)


# ---------------------------------------------------------------- independent readers
def num(x):
    return float(x)


def read_robot(text):
    lines = text.split("\n")
    if not lines[-1] == "END":
        raise Violation("robot:end", f"the file ends with {lines[-1]!r}")
    sec, cur = {}, None
    heads = {"NODes", "ELEments", "PROperties", "SUPports", "RELeases", "UNIts"}
    count = None
    for ln in lines:
        w = ln.split()
        if not w or ln.startswith(";"):
            continue
        if w[0] == "NODes" and len(w) == 4 and w[2] == "ELEments":
            count = int(w[1]), int(w[3])
        elif w[0] in heads and len(w) == 1:
            cur = w[0]
            sec[cur] = []
        elif cur and w[0] != "END":
            sec[cur].append(ln.strip())
    out = {"count": count, "plane": "FRAme PLAne" in text}
    out["nodes"] = {int(l.split()[0]): tuple(num(x) for x in l.split()[1:]) for l in sec["NODes"]}
    out["elements"] = {int(l.split()[0]): tuple(int(x) for x in l.split()[1:]) for l in sec["ELEments"]}
    props, mat = {}, None
    for l in sec["PROperties"]:
        if l.startswith('"'):
            mat = l.strip('"')
        else:
            i, name = l.split(None, 1)
            props[int(i)] = (mat, name.strip())
    out["props"] = props
    out["supports"] = [(int(l.split()[0]), tuple(x.strip(",") for x in l.split()[1:])) for l in sec["SUPports"]]
    out["releases"] = {}
    for l in sec["RELeases"]:
        w = l.split()
        if w[0] != "ELEments":
            raise Violation("robot:release-record", f"unexpected record {l!r}")
        ends = [x for x in w[2:]]
        out["releases"][int(w[1])] = ("ORIgin" in ends, "END" in ends)
    if len(out["nodes"]) != len(sec["NODes"]) or len(out["elements"]) != len(sec["ELEments"]):
        raise Violation("robot:duplicate-number", "a node or element number occurs twice")
    return out


def section_name(sec):
    t = type(sec).__name__
    if t in ("RHS", "SHS"):
        return f"RRHS {sec.H:.0f}x{sec.B:.0f}x{sec.T:.1f}"
    return None


DOF = {"FixedSupport": (), "XYHingedSupport": ("RY",), "XHingedSupport": ("UZ", "RY"), "YHingedSupport": ("UX", "RY")}


def check_robot(model, op, files):
    d = read_robot(files[targets(op)[0]].decode())
    f = model.frame
    nodes = list(model.s.nodes.values()) if model.s is not None else [[n.x, n.y] for n in f.nodes]
    if d["count"] != (len(nodes), len(f.members)):
        raise Violation("robot:count", f"header says {d['count']}, the frame has {len(nodes)} nodes and {len(f.members)} members")
    if len(d["nodes"]) != len(nodes) or any(abs(a - b) > 1e-9 * max(1, abs(b)) for i, xy in enumerate(nodes) for a, b in zip(d["nodes"].get(i + 1, (np.nan,) * 2), xy)):
        raise Violation("robot:nodes", f"node records {d['nodes']}, frame nodes {nodes}")
    order = {u: i + 1 for i, u in enumerate(model.s.nodes)} if model.s is not None else {n: i + 1 for i, n in enumerate(f.nodes)}
    if model.s is not None:
        want = {i + 1: tuple(order[n] for n in m["n"]) for i, m in enumerate(model.s.mems.values())}
    else:
        want = {m.mem_id + 1: tuple(order[n] for n in m.nodes) for m in f.members.values()}
    if d["elements"] != want:
        raise Violation("robot:elements", f"element records {d['elements']}, members {want}")
    for i, m in zip(want, f.members.values()):
        if i not in d["props"]:
            raise Violation("robot:properties", f"no section record for element {i}")
        mat, name = d["props"][i]
        if model.s is not None:
            u = list(model.s.mems)[i - 1]
            sec = model.s.secs[model.s.mems[u]["sec"]]
            exp = "RRHS %dx%dx%.1f" % (sec["h"], sec["b"], sec["t"]) if sec["k"] == "rhs" else "IPE %d" % sec["h"] if sec["k"] == "ipe" else "HEA %d" % sec["h"]
            want_mat = "S%d" % sec.get("fy", 355)
        else:
            exp, want_mat = section_name(m.cross_section), str(m.material)
        if name != exp or mat != want_mat:
            raise Violation("robot:properties", f"element {i} written as {mat} {name!r}, the member has {want_mat} {exp!r}")
    if len(d["props"]) != len(want):
        raise Violation("robot:properties", f"{len(d['props'])} section records for {len(want)} members")
    if model.s is not None:
        sup = [(order[x["n"]], DOF[R.SUPPORT[x["kind"]][0].__name__]) for x in model.s.sups.values()]
        rel = {i + 1: tuple(map(bool, m["hinges"])) for i, m in enumerate(model.s.mems.values()) if any(m["hinges"])}
    else:
        sup = [(order[s.node], DOF[type(s).__name__]) for s in f.supports.values()]
        rel = {m.mem_id + 1: (True, True) for m in f.braces.values()}
        rel.update({m.mem_id + 1: tuple(map(bool, m.hinges)) for m in f.members.values() if any(m.hinges) and m not in f.braces.values()})
    if sorted(d["supports"]) != sorted(sup):
        raise Violation("robot:supports", f"support records {d['supports']}, supports {sup}")
    if d["releases"] != rel:
        raise Violation("robot:releases", f"release records {d['releases']}, hinged members {rel}")


def read_cards(text):
    cards = []
    for ln in text.split("\n"):
        if ln.startswith("**") or not ln.strip():
            continue
        if ln.startswith("*"):
            parts = [p.strip() for p in ln[1:].split(",")]
            cards.append({"key": parts[0].lower(), "par": {p.split("=")[0].strip().lower(): p.split("=")[1].strip() for p in parts[1:] if "=" in p}, "data": []})
        elif cards:
            cards[-1]["data"].append([x.strip() for x in ln.split(",") if x.strip()])
    return cards


def flat(c):
    return [int(x) for row in c["data"] for x in row]


def check_abaqus(model, op, files, options):
    inp, secs, mats = (files[p].decode() for p in targets(op))
    f, fem = model.frame, model.frame.fem
    o = options or AbaqusOptions()
    C = read_cards(inp)

    def get(key, **par):
        return [c for c in C if c["key"] == key and all(c["par"].get(k) == v for k, v in par.items())]
    if not inp.rstrip().endswith("*End Step"):
        raise Violation("abaqus:end", f"the input file ends with {inp[-40:]!r}")
    nodes = get("node")[0]["data"]
    want = [(n.nid + 1, n.x / 1000, n.y / 1000) for n in fem.nodes]
    got = [(int(r[0]), float(r[1]), float(r[3])) for r in nodes]
    if len(got) != len(want) or any(a[0] != b[0] or abs(a[1] - b[1]) > 1e-9 or abs(a[2] - b[2]) > 1e-9 for a, b in zip(got, want)):
        raise Violation("abaqus:nodes", f"node records {got[:4]}..., calculation model {want[:4]}...")
    truss = model.m["kind"] == "truss"
    ecc, slaves = set(o.ecc_elements), [tuple(x) for x in o.mpc]
    if truss and model.m["fem"] == "ecc_elements":
        for j in f.joints.values():
            fe = getattr(j, "fem_elements", {})
            if fe.get("left_ecc") is not None and fe.get("ecc") is None:
                ecc |= {fe["left_ecc"], fe["right_ecc"]}
                for e, b in ((fe["left_ecc"], j.left_brace), (fe["right_ecc"], j.right_brace)):
                    a, z = e.nodes
                    slaves.append((a.nid + 1, z.nid + 1) if a in b.fem_nodes else (z.nid + 1, a.nid + 1))
    els = {int(r[0]): (int(r[1]), int(r[2])) for r in get("element")[0]["data"]}
    want = {i + 1: (e.nodes[0].nid + 1, e.nodes[1].nid + 1) for i, e in enumerate(fem.elements) if e not in ecc}
    if els != want:
        raise Violation("abaqus:elements", f"{len(els)} element records, {len(want)} expected; first difference {next((i for i in want if els.get(i) != want[i]), None)}")
    num_of = {e: i + 1 for i, e in enumerate(fem.elements)}
    sets = {}
    for c in get("elset"):
        n = c["par"]["elset"]
        if "instance" not in c["par"]:
            if n in sets:
                raise Violation("abaqus:elset", f"element set {n} written twice")
            sets[n] = flat(c)
            if len(set(sets[n])) != len(sets[n]):
                raise Violation("abaqus:elset", f"element set {n} lists an element twice: {sets[n]}")
    inc = [k for k, m in f.members.items() if (m in f.braces.values() if truss else k in o.included_members)]
    for k in inc:
        if sets.get(str(k)) != [num_of[e] for e in f.members[k].fem_elements]:
            raise Violation("abaqus:elset", f"element set of member {k}: {sets.get(str(k))}, its elements {[num_of[e] for e in f.members[k].fem_elements]}")
    owned = [str(k) for k in inc]
    if truss:
        gaps = []
        for j in f.joints.values():
            fe = getattr(j, "fem_elements", {})
            g = fe.get("gap") if model.m["fem"] == "ecc_elements" and fe.get("ecc") is None and fe.get("left_ecc") is not None else None
            if g is not None:
                gaps += [(j.chord, e) for e in (g if isinstance(g, list) else [g])]
        half = f.span / 2
        for nm, chord, ch in (("Top_chord", f.top_chord, "top"), ("Bottom_chord", f.bottom_chord, "bottom")):
            allel = [e for m in chord for e in m.fem_elements] + [e for c, e in gaps if c == ch]
            for side, pick in (("_left", lambda e: all(n.x <= half for n in e.nodes)), ("_right", lambda e: not all(n.x <= half for n in e.nodes))):
                w = sorted(num_of[e] for e in allel if pick(e))
                if sorted(sets.get(nm + side, [])) != w:
                    raise Violation("abaqus:elset", f"element set {nm + side}: {sorted(sets.get(nm + side, []))}, expected {w}")
                if w:
                    owned.append(nm + side)
    for nm, els in o.elsets.items():
        if sets.get(nm) != [num_of[e] for e in els]:
            raise Violation("abaqus:elset", f"element set {nm}: {sets.get(nm)}, the user asked for {[num_of[e] for e in els]}")
        owned.append(nm)
    gt, gb = list(o.top_gap_elements), list(o.bottom_gap_elements)
    if truss:
        gt, gb = gt + [e for c, e in gaps if c == "top"], gb + [e for c, e in gaps if c == "bottom"]
    for nm, els in (("TopChordGaps", gt), ("BottomChordGaps", gb)):
        if len(els) > 1 and sorted(sets.get(nm, [])) != sorted(num_of[e] for e in els):
            raise Violation("abaqus:elset", f"gap element set {nm}: {sets.get(nm)}, gap elements {sorted(num_of[e] for e in els)}")
    asm = {c["par"]["elset"]: flat(c) for c in get("elset") if "instance" in c["par"]}
    for nm, els in o.load_elsets.items():
        if asm.get(nm, []) != [num_of[e] for e in els]:
            raise Violation("abaqus:load-set", f"load element set {nm}: {asm.get(nm)}, the user asked for {[num_of[e] for e in els]}")
    asm = {c["par"]["nset"]: flat(c) for c in get("nset")}
    for nm, ns in o.load_nsets.items():
        if asm.get(nm, []) != [n.nid + 1 for n in ns]:
            raise Violation("abaqus:load-set", f"load node set {nm}: {asm.get(nm)}, the user asked for {[n.nid + 1 for n in ns]}")
    if any(asm):
        SIM.probe("user-groups:" + ",".join(k for k in ("mpc", "ecc_elements", "elsets", "load_elsets", "load_nsets", "top_gap_elements") if getattr(o, k)))
    exp = {"S1Release": sorted(num_of[e] for e in fem.elements if 2 in e.releases and e not in ecc), "S2Release": sorted(num_of[e] for e in fem.elements if 5 in e.releases and e not in ecc)}
    for k, w in exp.items():
        if sorted(sets.get(k, [])) != w:
            raise Violation("abaqus:releases", f"release set {k}: {sorted(sets.get(k, []))}, released elements {w}")
    if model.s is not None:
        for n, m in zip(f.members, model.s.mems.values()):
            fm = f.members[n]
            for end, k, e in ((0, "S1Release", fm.fem_elements[0]), (1, "S2Release", fm.fem_elements[-1])):
                if m["type"] not in ("brace", "bar") and e not in ecc and bool(m["hinges"][end]) != (num_of[e] in sets.get(k, [])):
                    raise Violation("abaqus:releases", f"member {n} end {end}: hinged {m['hinges'][end]}, but {k} is {sets.get(k)}")
    # sections and materials of every set
    S, M = read_cards(secs), read_cards(mats)
    if not secs.endswith("**"):
        raise Violation("abaqus:end", f"the section file ends with {secs[-30:]!r}")
    bs = [c["par"]["elset"] for c in S if c["key"] == "beam section"]
    if sorted(bs) != sorted(owned):
        raise Violation("abaqus:sections", f"section records for {sorted(bs)}, element sets {sorted(owned)}")
    mt = [c["par"]["name"] for c in M if c["key"] == "material"]
    if not {b + "_Mat" for b in owned} <= set(mt) or len(set(mt)) != len(mt):
        raise Violation("abaqus:materials", f"materials {mt}, element sets {owned}")
    blocks = secs.split("** Cross-section dimensions")[1:]
    for blk in blocks:
        name = re.search(r"elset=([^,]+),", blk).group(1)
        k = next((k for k in f.members if str(k) == name), None)
        sec = f.members[k].cross_section if k is not None else o.elsets[name][0].section if name in o.elsets else (f.top_chord if name.startswith("Top") else f.bottom_chord)[0].cross_section
        for lab, v in (("WIDTH", sec.B), ("HEIGHT", sec.H), ("THICKNESS", sec.T)):
            x = float(re.search(lab + r" = (\S+)", blk).group(1))
            if abs(x - v * 1e-3) > 1e-9:
                raise Violation("abaqus:sections", f"set {name}: {lab} {x}, section has {v} mm")
    incl = [c["par"]["input"] for c in get("include")]
    if sorted(incl) != sorted([targets(op)[1], targets(op)[2]]):
        raise Violation("abaqus:include", f"included files {incl}")
    # constraints
    mpc = [tuple(int(x.rsplit(".", 1)[1]) for x in row[1:]) for c in get("mpc") for row in c["data"]]
    mpc = [(int(a), int(b)) for a, b in mpc]
    if sorted(mpc) != sorted(slaves):
        raise Violation("abaqus:mpc", f"constraints {sorted(mpc)}, eccentricity elements {sorted(slaves)}")
    nsets = {c["par"]["nset"]: flat(c) for c in get("nset")}
    sl = {a for a, _ in slaves}
    if sorted(nsets["BC_Y_symm_nodes"]) != [n.nid + 1 for n in fem.nodes if n.nid + 1 not in sl]:
        raise Violation("abaqus:out-of-plane", f"out-of-plane node set {nsets['BC_Y_symm_nodes']}")
    mon = nsets["Monitored_Nodes"]
    dist = {n.nid + 1: abs(n.x - o.x_monitor) for n in fem.nodes}
    if len(mon) != min(o.n_monitored, len(dist)) or any(x not in dist for x in mon) or max(dist[x] for x in mon) > sorted(dist.values())[len(mon) - 1] + 1e-6:
        raise Violation("abaqus:monitored", f"monitored nodes {mon} at x = {[dist.get(x) for x in mon]} from the point asked for; the closest are {sorted(dist.values())[:len(mon)]}")
    name = {"FixedSupport": ("fixed", "ENCASTRE"), "XYHingedSupport": ("hinged", "PINNED"), "YHingedSupport": ("y_supp", "3"), "XHingedSupport": ("x_supp", "XSYMM")}
    want = {}
    for s in f.supports.values():
        want.setdefault(name[type(s).__name__], []).append(s.node.fem_node.nid + 1)
    bnd = sorted(tuple(row) for c in get("boundary") for row in c["data"])
    if bnd != sorted(want) or any(sorted(nsets.get(k[0], [])) != sorted(v) for k, v in want.items()):
        raise Violation("abaqus:supports", f"boundary records {bnd} with sets { {k[0]: nsets.get(k[0]) for k in want} }, supports {want}")


def read_util(text):
    out, cur = {}, None
    for ln in text.split("\n"):
        m = re.search(r"Member +(\d+): (.*)$", ln)
        c = re.match(r"  Load case (\S+): ([-\d.naif]+)$", ln)
        d = re.match(r"  (Length|Buckling Length Factor, .-axis) *= *([-\d.]+)", ln)
        if m:
            cur = out.setdefault(int(m.group(1)), {"sec": m.group(2), "U": {}, "det": {}})
        elif c:
            cur["U"][c.group(1)] = c.group(2)
        elif d:
            cur["det"][d.group(1)] = float(d.group(2))
    return out


def check_util(model, op, files):
    text = files[targets(op)[0]].decode()
    d = read_util(text)
    mems = model.frame.members
    if sorted(d) != sorted(m.mem_id for m in mems.values()):
        raise Violation("util:members", f"report lists members {sorted(d)}")
    for m in mems.values():
        e = d[m.mem_id]
        if e["sec"] != repr(m.cross_section):
            raise Violation("util:section", f"member {m.mem_id} reported with {e['sec']}, has {m.cross_section!r}")
        for i in model.ids():
            if i not in m.utilization:
                continue
            if e["U"].get(str(i)) != f"{m.utilization[i]:4.3f}".strip():
                raise Violation("util:value", f"member {m.mem_id} case {i}: reported {e['U'].get(str(i))}, utilisation is {m.utilization[i]}")
        if op["details"] and abs(e["det"].get("Length", -1) - m.length()) > 0.51:
            raise Violation("util:length", f"member {m.mem_id}: reported length {e['det'].get('Length')}, is {m.length()}")


def check_content(model, op, files, options):
    if op["what"] == "robot":
        check_robot(model, op, files)
    elif op["what"] == "abaqus":
        check_abaqus(model, op, files, options)
    else:
        check_util(model, op, files)
