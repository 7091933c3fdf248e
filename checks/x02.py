"""X02: exporting never changes the model, and the file depends only on the model."""
import copy
from . import exportlib as E, raamilib as R
from .x01 import edit, describe
from sim.core import SIM, Violation
from sim.simfs import SimFS

RUNS = {"quick": 1500, "thorough": 9000}
RULE = ("A run draws a frame or a roof truss with one of its three joint models and 3-9 operations: edits, edits undone, analyses, exports of all kinds (some with an options object used "
        "again and again, some interrupted) and exports of an unrelated second model in between. Around every export the model's definition, results and the options are compared; the files are "
        "compared with those of an identically defined new frame (time stamps apart) and read by independent readers and compared record by record with the model. "
        "Non-trivial: at least two exports were compared.")
REAL = ["metku.raami exports", "metku.raami trusses and frames", "Python text and buffer layers"]
STUB = ["disk (in-memory)", "clock"]
ASSUMPTIONS = ["Abaqus export of hollow sections only, as the library supports", "Robot files carry no loads: the library writes none"]
KINDS = ("rhs", "ipe", "hea")


def gen(r, i, tier):
    what = r.choice(["robot", "abaqus", "util", "mix", "mix"])
    m = E.gen_model(r, "abaqus" if what in ("mix", "abaqus") else what, 0.12)
    plan = {"model": m, "other": E.gen_model(r, "abaqus"), "ops": []}
    s = R.from_json(m["init"]) if m["kind"] == "frame" else None
    for _ in range(r.randint(3, 9 if tier == "quick" else 18)):
        x = r.random()
        if s is not None and x < 0.3:
            g = R.gen_edit(r, s, EDITS_RHS if what in ("abaqus", "mix") else None)
            if g and (any(z["k"] not in KINDS for z in s.secs.values()) or all(z["k"] in KINDS for z in g[1].secs.values())):
                plan["ops"].append(g[0])
                s = g[1]
        elif s is not None and x < 0.4:
            plan["ops"].append({"op": "undo", "n": r.random(), "d": r.choice([120.0, -333.5]), "w": what if what != "mix" else r.choice(["robot", "abaqus", "util"]), "mid": r.random() < 0.6})
        elif s is None and x < 0.3:
            f = r.choice(["no_eccentricity", "en1993", "ecc_elements"])
            if f == "ecc_elements" and m["dx"] == 0:
                f = "en1993"
            plan["ops"].append({"op": "joints", "fem": f})
        elif x < 0.5:
            plan["ops"].append({"op": "analyse"})
        elif x < 0.6:
            plan["ops"].append({"op": "other", "e": E.gen_export(r, r.choice(["robot", "abaqus", "util"]), plan["other"])})
        else:
            e = E.gen_export(r, what if what != "mix" else r.choice(["robot", "abaqus", "util"]), m)
            e["times"] = r.choice([1, 1, 2, 3])
            e["cut"] = r.random() if r.random() < 0.2 else None
            plan["ops"].append(e)
    plan["ops"].append(E.gen_export(r, what if what != "mix" else r.choice(["robot", "abaqus", "util"]), m))
    return plan


EDITS_RHS = [("move", 4), ("hinge", 2), ("add_sup", 1), ("add_load", 2), ("dim", 3), ("add_brace", 1), ("add_mem", 1)]


def run(plan):
    model = E.Model(plan["model"])
    other = None
    fs = SimFS()
    held = None          # options object the user keeps
    n = 0
    for op in plan["ops"]:
        k = op["op"]
        if k == "analyse":
            model.analyse()
            SIM.log("analyse")
        elif k == "joints":
            if op["fem"] != model.m["fem"]:
                SIM.probe(f"joint-model:{model.m['fem']}->{op['fem']}")
            model.m = dict(model.m, fem=op["fem"])
            model.dirty = True
        elif k == "undo":
            undo(model, op, fs)
        elif k == "other":
            if other is None:
                other = E.Model(plan["other"])
            E.ready(other, op["e"])
            E.prepare(fs, op["e"])
            with fs:
                E.call(other, op["e"], E.make_options(other, op["e"]))
            SIM.probe("other-model-exported")
        elif k != "export":
            edit(model, op)
            held = None
        else:
            if op["what"] == "abaqus" and op["opts"]["give"]:
                E.ready(model, op)
                if held is not None and held[2] is not model.frame.fem:
                    held = None       # its element groups belong to an older calculation model
                if held is None or not op["opts"]["reuse"] or held[0]["opts"] is None:
                    held = (op, E.make_options(model, op), model.frame.fem)
                else:
                    SIM.probe("options-used-again")
                n += export(model, dict(op, opts=held[0]["opts"]), fs, held[1])
            else:
                n += export(model, op, fs, None)
    return {"nontrivial": n > 1, "exports_compared": n}


def undo(model, op, fs):
    nodes = list(model.s.nodes)
    u = nodes[int(op["n"] * len(nodes))]
    node, x = model.lv.o[u], model.s.nodes[u][0]
    node.x = x + op["d"]
    if op["mid"]:
        E_op = {"op": "export", "what": op["w"], "name": "mid", "sub": "", "clock": 0, "part": "P", "opts": {"give": False}, "details": True}
        model.dirty = True
        E.ready(model, E_op)
        if not E.unnamed(model, E_op):
            with fs:
                E.call(model, E_op)
    node.x = x
    model.dirty = True
    SIM.probe("edit-undone")


def export(model, op, fs, options):
    E.ready(model, op)
    E.prepare(fs, op)
    if E.unnamed(model, op):
        return refused(model, op, fs)
    for rep in range(op.get("times", 1)):
        SIM.clock.advance(op["clock"] + 60 * rep)
        before, ob = model_state(model), E.options_state(options)
        if op.get("cut") is not None and rep == 0:
            cut_short(model, op, fs, options)
            same(before, model, "an interrupted export")
            if E.options_state(options) != ob:
                raise Violation("options-changed", f"an interrupted {op['what']} export changed the options: {ob} became {E.options_state(options)}")
        with fs:
            E.call(model, op, options)
        same(before, model, f"{op['what']} export")
        if E.options_state(options) != ob:
            raise Violation("options-changed", f"{op['what']} export changed the user's options: {diff(ob, E.options_state(options))}")
        files = {p: fs.read(p) for p in E.targets(op)}
        gold, _ = E.golden(model, op)
        for p in gold:
            a, b = E.unstamped(files[p] or b""), E.unstamped(gold[p])
            if op["what"] == "util":
                a, b = norm_util(a), norm_util(b)
            if a != b:
                raise Violation("depends-on-history", f"{op['what']} export ({p}) differs from that of an identically defined frame: " + describe(a, b))
        E.check_content(model, op, files, options)
        SIM.log("export", op["what"], [len(E.unstamped(v)) for v in gold.values()])
        SIM.probe(f"compared:{op['what']}:{plan_kind(model)}")
    return op.get("times", 1)


def refused(model, op, fs):
    """A section the format cannot name: the export may refuse, but not write something else instead."""
    before = model_state(model)
    try:
        with fs:
            E.call(model, op)
    except Exception as e:
        SIM.probe("refused:" + type(e).__name__)
    else:
        d = E.read_robot(fs.read(E.targets(op)[0]).decode())
        bad = [n for mat, n in d["props"].values() if n in ("None", "", "nan")]
        if bad:
            raise Violation("robot:properties", f"a member with a section unknown to the format is written as {bad[0]!r}")
    same(before, model, "robot export")
    return 1


def plan_kind(model):
    return "frame" if model.s is not None else "truss-" + model.m["fem"]


def norm_util(b):
    """Order of the cases within a member, and last-digit rounding, are not part of the property."""
    out = {}
    for i, e in E.read_util(b.decode()).items():
        out[i] = (e["sec"], sorted((c, "%.2f" % (float(u) + 1e-9)) for c, u in e["U"].items()), sorted(e["det"].items()))
    return repr(sorted(out.items())).encode()


def model_state(model):
    return model.state()


def same(before, model, what):
    d = E.diff_state(before, model.state())
    if d:
        raise Violation("model-changed", f"{what} changed the model: {d}")


def diff(a, b):
    return next((f"{k}: {a[k]} became {b[k]}" for k in a if a[k] != b[k]), "?")


def cut_short(model, op, fs, options):
    """The export is stopped by the user at some statement."""
    from sim.core import SimInterrupt, fork_call, HarnessError

    def dry():
        with fs:
            with SIM.lines.counting() as c:
                E.call(model, op, options)
        return c.count
    r = fork_call(dry, 60)
    if r[0] != "ok":
        with fs:
            E.call(model, op, options)
        raise HarnessError("dry run failed: " + str(r[1])[-300:])
    with fs:
        with SIM.lines.counting(fire_at=1 + int(op["cut"] * r[1]), exc=SimInterrupt()) as c:
            try:
                E.call(model, op, options)
            except KeyboardInterrupt:
                SIM.fault("interrupt")
            except Exception:
                if not c.fired:
                    raise
