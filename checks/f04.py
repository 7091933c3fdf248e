"""F04: repeating an analysis of an unchanged model gives the same answer."""
import numpy as np
from . import femlib as L
from sim.core import SIM, Violation

RUNS = {"quick": 1400, "thorough": 18000}
RULE = ("A run draws a structure of beam elements, adds compression, and a sequence of static analyses and buckling analyses with different numbers of modes under "
        "changing random-number states, some interrupted. Repeats must agree with the first answer, with a model built afresh in another entropy state, and with the "
        "definition (K + a KG) v = 0; static results must survive buckling analyses. Non-trivial: at least two buckling analyses of one case were compared.")
REAL = ["metku.framefem (linear_statics, linear_buckling)", "scipy ARPACK eigenvalue solver", "numpy"]
STUB = ["global and OS random state (re-seeded between repeats)", "interruption faults"]
ASSUMPTIONS = ["critical factors above 1e5 count as no buckling mode (rounding noise of a shift-and-invert about 1); below, the tolerance grows with the factor"]


def gen(r, i, tier):
    s = L.gen_frame(r, r.choice(["frame", "beam", "frame"]))
    while not s.stable(list(s.cases)):
        s = L.gen_frame(r, r.choice(["frame", "beam", "frame"]))
    for _ in range(r.randint(1, 4)):
        g = L.gen_edit(r, s, [("split_brace", 1)])
        if g:
            s = g[1]
    top = max(s.nodes, key=lambda n: (s.nodes[n][1], s.nodes[n][0]))
    for lc in list(s.cases):
        for n in {top, r.choice(list(s.nodes))}:
            s.loads[s.uid()] = {"k": "pt", "sid": lc, "n": n, "v": [-float(r.randint(10, 300)) * 1e3, -float(r.randint(50, 900)) * 1e3, 0.0], "f": 1.0}
    ops = []
    lcs = list(s.cases)
    for _ in range(r.randint(4, 10)):
        x = r.random()
        lc = r.choice(lcs)
        if x < 0.35:
            o = L.gen_analyse(r, s, r.choice([0, 0.2]))
            ops.append(o)
        elif x < 0.9:
            o = {"op": "buckle", "lc": lc, "k": r.choice([1, 2, 3, 4])}
            if r.random() < 0.1:
                o["fault"] = {"kind": "interrupt", "at": r.random()}
            ops.append(o)
        else:
            ops.append({"op": "entropy", "s": r.randrange(1000)})
    lc = r.choice(lcs)
    ops += [{"op": "buckle", "lc": lc, "k": 2}, {"op": "entropy", "s": 1}, {"op": "buckle", "lc": lc, "k": 2}]
    return {"init": L.spec_to_json(s), "ops": ops}


def clean(w, modes):
    """Sorted factors; an eigenproblem with fewer modes than asked for (non-finite modes) has no defined answer."""
    if not (np.all(np.isfinite(w)) and np.all(np.isfinite(modes))):
        return ("refused", "too few modes")
    return sorted(float(x) for x in w if abs(x) < 1e5)


def ltol(w):
    return 1e-6 * abs(w) + 1e-9 * (w - 1) ** 2 + 1e-9


def eig_ok(lv, s, lc, w, what):
    """The modes stored at the nodes satisfy (K + w KG) v = 0 for the matrices of the current model."""
    fem = lv.fem
    K, KG = fem.global_stiffness_matrix(), fem.global_geometric_stiffness_matrix(lc)
    fixed = {int(n.dofs[d]) for n, d in supported(lv, s, lc)}
    free = [i for i in range(K.shape[0]) if i not in fixed]
    for i in range(len(w)):
        v = np.zeros(K.shape[0])
        for node in fem.nodes:
            for d, x in zip(node.dofs, np.atleast_2d(node.v)[i]):
                if d >= 0:
                    v[d] = x
        if not (np.all(np.isfinite(v)) and np.isfinite(w[i])):
            SIM.probe("buckling-nonfinite-mode")
            continue
        if fixed and np.max(np.abs(v[sorted(fixed - {-1})]), initial=0) != 0:
            raise Violation("buckling:support-moves", f"{what}: mode {i} moves a support")
        if not np.any(v):
            raise Violation("buckling:zero-mode", f"{what}: mode {i} is zero at every node")
        a, b = (K @ v)[free], w[i] * (KG @ v)[free]
        ref = np.linalg.norm(a) + np.linalg.norm(b)
        if abs(w[i]) < 1e5 and not np.linalg.norm(a + b) <= 1e-4 * ref:
            raise Violation("buckling:residual", f"{what}: factor {w[i]!r} and its mode leave a residual of {np.linalg.norm(a + b) / ref:.2e}")


def supported(lv, s, lc):
    sid = lv.fem.loadcases[lc].support
    return [(x.node, d) for x in lv.fem.supports if x.sid == sid for d in x.dof]


def run(plan):
    s = L.spec_from_json(plan["init"])
    lv = L.Live(s)
    static, buck, have = {}, {}, set()
    nb = ns = 0
    for j, op in enumerate(plan["ops"]):
        if op["op"] == "entropy":
            SIM.seed_libs(op["s"])
            continue
        SIM.seed_libs(f"{plan['_seed']}/{j}")
        if op["op"] == "analyse":
            lcs = L.lc_list(op)
            if op.get("fault"):
                if L.with_fault(op["fault"], lambda: L.do_analyse(lv, op), "linear_statics"):
                    have -= set(lcs)
                    continue
            else:
                L.do_analyse(lv, op)
            for lc in lcs:
                check_static(lv, s, lc, static, "repeated static analysis")
                have.add(lc)
                ns += 1
            continue
        lc, k = op["lc"], op["k"]
        if op.get("fault"):
            have.discard(lc)
            try:
                if L.with_fault(op["fault"], lambda: lv.fem.linear_buckling(lcase=lc, k=k), "linear_buckling"):
                    continue
            except (Violation, L.HarnessError):
                raise
            except Exception as e:
                SIM.probe("buckling-refused")
                continue
            continue
        out = attempt(lv.fem, lc, k)
        check_static(lv, s, lc, static, "static results after buckling analysis") if (out[0] == "ok" or lc in have) else None
        if out[0] == "ok":
            have.add(lc)
        for other in sorted(have):
            check_static(lv, s, other, static, "static results after buckling analysis of another case")
        if out[0] == "ok":
            w, modes, KG = out[1]
            eig_ok(lv, s, lc, w, f"case {lc}")
            ws = clean(w, modes)
            if np.any(np.array(lv.fem.load_factors) != w):
                raise Violation("buckling:stored", "stored load factors differ from the returned ones")
            SIM.log("buckle", lc, k, ["%.6g" % x for x in ws] if isinstance(ws, list) else ws)
        else:
            ws = out
            SIM.log("buckle", lc, k, out)
        if (lc, k) in buck:
            same(buck[lc, k], ws, f"repeat of buckling of case {lc}, {k} modes")
            nb += 1
        else:
            buck[lc, k] = ws
            SIM.seed_libs(f"{plan['_seed']}/fresh/{j}")
            o2 = attempt(L.Live(s).fem, lc, k)
            same(clean(o2[1][0], o2[1][1]) if o2[0] == "ok" else o2, ws, f"buckling of case {lc}, {k} modes, on an identical new model")
    return {"nontrivial": nb >= 1, "buckling_repeats": nb, "static_repeats": ns}


def attempt(fem, lc, k):
    try:
        return ("ok", fem.linear_buckling(lcase=lc, k=k))
    except np.linalg.LinAlgError as e:
        return ("refused", type(e).__name__)
    except Exception as e:
        m = type(e).__name__
        if "Arpack" in m or isinstance(e, (ValueError, RuntimeError)) or (isinstance(e, TypeError) and "k >= N" in str(e)):
            SIM.probe("buckling-refused:" + m)
            return ("refused", "eigen")
        raise


def same(a, b, what):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if a != b:
            raise Violation("buckling:not-repeatable", f"{what}: {a} then {b}")
        return
    if len(a) != len(b) or any(abs(x - y) > ltol(x) for x, y in zip(a, b)):
        raise Violation("buckling:not-repeatable", f"{what}: load factors {a} vs {b}")


def check_static(lv, s, lc, static, what):
    res = lv.results(s, lc)
    if lc not in static:
        static[lc] = L.fresh_results(s, lc)
    L.compare(res, static[lc], s, f"{what} (case {lc})", "static-not-repeatable")
