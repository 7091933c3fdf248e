"""Small independent reference for linear statics of plane frames: direct stiffness assembly where every
released end force gets a degree of freedom of its own (no condensation), consistent line loads.

model: nodes {uid: (x, y)}, els [{uid,t,n:(a,b),E,A,I,rel,P (optional, compression),spr (optional, {local rotation: spring to the node})}], sups [(node uid, [dofs])],
       loads [{k:'pt',n,v,f} | {k:'ll',e,q,dir,co,f}]
"""
import numpy as np


def _fixed_end(q1, q2, L):
    return np.array([7 * q1 + 3 * q2, 3 * q1 + 7 * q2]) * L / 20, \
        np.array([(3 * q1 + 2 * q2), -(2 * q1 + 3 * q2)]) * L * L / 60


class Unstable(Exception):
    pass


def solve(model, round_len=False, min_eig=1e-9):
    nodes = model["nodes"]
    dof = {}

    def d(key):
        return dof.setdefault(key, len(dof))
    els = model["els"]
    info = []
    springs = []        # (stiffness, rotation of the element end, rotation of the node)
    for e in els:
        (xa, ya), (xb, yb) = nodes[e["n"][0]], nodes[e["n"][1]]
        L = float(np.hypot(xb - xa, yb - ya))
        if round_len:
            L = round(L, 3)
        c, s = (xb - xa) / L, (yb - ya) / L
        rod = e["t"] == "rod"
        rows = []           # local dof -> list of (global dof, coefficient)
        for end, n in enumerate(e["n"]):
            ux, uy = d((n, 0)), d((n, 1))
            rows.append([(ux, c), (uy, s)])
            if not rod:
                rows.append([(ux, -s), (uy, c)])
                rows.append([(d((n, 2)), 1.0)])
        if not rod:
            for r in e.get("rel") or []:
                rows[r] = [(d((e["uid"], "r", r)), 1.0)]
            for r, ks in (e.get("spr") or {}).items():
                springs.append((ks, d((e["uid"], "r", r)), rows[r][0][0]))
                rows[r] = [(d((e["uid"], "r", r)), 1.0)]
        EA = e["E"] * e["A"] / L
        if rod:
            k = EA * np.array([[1.0, -1], [-1, 1]])
        else:
            EI = e["E"] * e["I"]
            k = np.zeros((6, 6))
            for i, j, v in [(0, 0, EA), (3, 3, EA), (0, 3, -EA)]:
                k[i, j] = k[j, i] = v
            b = EI / L ** 3
            for i, j, v in [(1, 1, 12 * b), (1, 2, 6 * L * b), (1, 4, -12 * b), (1, 5, 6 * L * b),
                            (2, 2, 4 * L * L * b), (2, 4, -6 * L * b), (2, 5, 2 * L * L * b),
                            (4, 4, 12 * b), (4, 5, -6 * L * b), (5, 5, 4 * L * L * b)]:
                k[i, j] = k[j, i] = v
            if e.get("P"):
                # consistent geometric stiffness of a compressed element
                g = e["P"] / L
                for i, j, v in [(1, 1, 1.2), (1, 2, L / 10), (1, 4, -1.2), (1, 5, L / 10), (2, 2, 2 * L * L / 15), (2, 4, -L / 10),
                                (2, 5, -L * L / 30), (4, 4, 1.2), (4, 5, -L / 10), (5, 5, 2 * L * L / 15)]:
                    k[i, j] -= g * v
                    if i != j:
                        k[j, i] -= g * v
        info.append((rows, k, L, c, s))
    n = len(dof)
    K = np.zeros((n, n))
    P = np.zeros(n)
    feq = {}
    for e, (rows, k, L, c, s) in zip(els, info):
        B = np.zeros((len(rows), n))
        for i, r in enumerate(rows):
            for g, v in r:
                B[i, g] += v
        K += B.T @ k @ B
        feq[e["uid"]] = (np.zeros(len(rows)), B)
    for ks, i, j in springs:
        K[i, i] += ks
        K[j, j] += ks
        K[i, j] -= ks
        K[j, i] -= ks
    byuid = {e["uid"]: (e, i) for e, i in zip(els, info)}
    for ld in model["loads"]:
        f = ld.get("f", 1.0)
        if ld["k"] == "pt":
            for i in range(3):
                if (ld["n"], i) in dof:
                    P[dof[(ld["n"], i)]] += f * ld["v"][i]
        else:
            e, (rows, k, L, c, s) = byuid[ld["e"]]
            q1, q2 = f * ld["q"][0], f * ld["q"][1]
            if ld["co"] == "local":
                ax, ay = (1.0, 0.0) if ld["dir"] == "x" else (0.0, 1.0)
            else:
                ax, ay = (c, -s) if ld["dir"] == "x" else (s, c)
            v, m = _fixed_end(q1 * ay, q2 * ay, L)
            a = np.array([(2 * q1 + q2) / 6, (q1 + 2 * q2) / 6]) * L * ax
            fl = np.array([a[0], v[0], m[0], a[1], v[1], m[1]])
            fe, B = feq[e["uid"]]
            fe += fl
            P += B.T @ fl
    fixed = set()
    for nn, ds in model["sups"]:
        for q in ds:
            if (nn, q) in dof:
                fixed.add(dof[(nn, q)])
    free = np.array([i for i in range(n) if i not in fixed], dtype=int)
    if len(free) == 0:
        raise Unstable("no free dofs")
    Kf = K[np.ix_(free, free)]
    dg = np.diag(Kf).copy()
    if np.any(dg <= 0):
        raise Unstable("zero diagonal")
    S = 1 / np.sqrt(dg)
    Ks = Kf * S[:, None] * S[None, :]
    w = np.linalg.eigvalsh(Ks)
    if w[0] < min_eig:
        raise Unstable(f"min eigenvalue {w[0]:.1e}")
    u = np.zeros(n)
    u[free] = S * np.linalg.solve(Ks, S * P[free])
    un = {}
    for nn in nodes:
        un[nn] = np.array([u[dof[(nn, i)]] if (nn, i) in dof else 0.0 for i in range(3)])
    fe_out = {}
    for e, (rows, k, L, c, s) in zip(els, info):
        fl, B = feq[e["uid"]]
        R = k @ (B @ u) - fl
        if e["t"] == "rod":
            fe_out[e["uid"]] = {"fx": [-R[0], R[1]], "fz": [0, 0], "my": [0, 0]}
        else:
            fe_out[e["uid"]] = {"fx": [-R[0], R[3]], "fz": [R[1], -R[4]], "my": [-R[2], R[5]]}
    return un, fe_out, float(w[0])


def solve_tol(model, min_eig=1e-8):
    """Exact solution and, per quantity kind, the scale and the sensitivity to rounding element lengths to
    1/1000 mm (the library stores lengths so rounded)."""
    u, f, w = solve(model, False, min_eig)
    u2, f2, _ = solve(model, True, min_eig)
    ut = max((float(np.max(np.abs(u[k][:2] - u2[k][:2]))) for k in u), default=0)
    rt = max((float(abs(u[k][2] - u2[k][2])) for k in u), default=0)
    ft = {}
    for q in ("fx", "fz", "my"):
        ft[q] = max((abs(a - b) for k in f for a, b in zip(f[k][q], f2[k][q])), default=0)
    us = max((float(np.max(np.abs(u[k][:2]))) for k in u), default=0)
    rs = max((float(abs(u[k][2])) for k in u), default=0)
    fs = {q: max((abs(a) for k in f for a in f[k][q]), default=0) for q in ft}
    fmax = max(fs["fx"], fs["fz"])
    tol = {"u": 30 * ut + 1e-5 * us + 1e-9, "r": 30 * rt + 1e-5 * rs + 1e-12,
           "fx": 30 * ft["fx"] + 1e-5 * fmax + 1e-6, "fz": 30 * ft["fz"] + 1e-5 * fmax + 1e-6,
           "my": 30 * ft["my"] + 1e-5 * max(fs["my"], 1000 * fmax) + 1e-3}
    return u, f, tol, w
