"""Runs a property check: seeded search over simulated runs, minimisation, replay, evidence.

A run is a pure function of (plan, PYTHONHASHSEED, code).  Every run happens in a fork of a pristine
imported image, so no run sees what another left behind.
"""
import importlib, json, os, random, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
NWORK = int(os.environ.get("VERIF_WORKERS", "8"))
HASHSEEDS = 8                     # run i executes under PYTHONHASHSEED = i % 8, whatever the worker count
RUN_TIMEOUT = float(os.environ.get("VERIF_RUN_TIMEOUT", "60"))
CAP = {"quick": 300.0, "thorough": 780.0}
BUDGET = 30_000_000
_mono = time.monotonic


def child_env(hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONPATH=VERIF, TZ="UTC", LC_ALL="C.UTF-8")
    env.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
    if not os.path.isdir(env["MPLCONFIGDIR"]):
        env.pop("MPLCONFIGDIR")
    return env


def load(pid):
    """Import the code under test and the check module with all seams installed."""
    import warnings
    warnings.filterwarnings("ignore")
    from . import core
    repo = core.REPO
    if repo not in sys.path:
        sys.path.insert(0, repo)
    core.fresh_source_loader()
    import numpy, scipy.optimize, scipy.sparse.linalg, matplotlib.pyplot, pandas  # noqa: real libraries
    core.SIM.install()
    mod = importlib.import_module("checks." + pid.lower())
    import metku
    got = os.path.realpath(os.path.dirname(metku.__file__)) + os.sep
    if got != core.REPO_PREFIX:
        raise core.HarnessError(f"imported metku from {got}")
    numpy.seterr(all="ignore")
    return mod


def plan_for(mod, pid, seed, tier, i):
    from .core import Rng
    rng = Rng(f"{seed}/{pid}/{i}")
    plan = mod.gen(rng, i, tier)
    plan["_seed"] = f"{seed}/{pid}/{i}"
    return json.loads(json.dumps(plan))


def from_repo(tb):
    from .core import REPO_PREFIX
    last = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO_PREFIX):
            last = f
    return last


def execute(mod, plan, budget=None):
    """Body of one run (inside a forked child)."""
    from .core import SIM, Violation, HarnessError
    import gc
    gc.disable()
    SIM.reset(plan["_seed"])
    random.seed(0)
    try:
        if budget:
            with SIM.quiet(), SIM.lines.counting(budget=budget):
                st = mod.run(plan) or {}
        else:
            with SIM.quiet():
                st = mod.run(plan) or {}
    except (Violation, HarnessError):
        raise
    except BaseException as e:
        f = from_repo(e.__traceback__)
        if f is not None:
            raise Violation(f"unexpected-error:{type(e).__name__}",
                            f"{type(e).__name__}: {str(e)[:200]} at {f.filename}:"
                            f"{f.name}:{f.lineno}", traceback.format_exc()[-1800:])
        raise
    return {"nontrivial": bool(st.pop("nontrivial", True)), "stats": st, "faults": SIM.faults,
            "probes": SIM.probes, "digest": SIM.digest(), "sim_s": SIM.clock.covered,
            "events": len(SIM.events)}


def one(mod, plan, timeout=RUN_TIMEOUT):
    from .core import fork_call
    r = fork_call(lambda: execute(mod, plan), timeout)
    if r[0] == "timeout":
        # a wall timeout alone decides nothing: confirm by a deterministic statement budget
        r2 = fork_call(lambda: execute(mod, plan, BUDGET), timeout * 6)
        if r2[0] == "violation":
            return r2
        return ("error", f"run exceeded {timeout}s wall time without exhausting the statement budget ({r2[0]})")
    return r


# ------------------------------------------------------------------ worker
def worker_main(argv):
    pid, tier, seed, hs, nruns, cap = argv[0], argv[1], int(argv[2]), [int(x) for x in argv[3].split(",")], int(argv[4]), float(argv[5])
    t0 = _mono()
    mod = load(pid)
    out = sys.stdout
    for i in range(nruns):
        if i % HASHSEEDS not in hs:
            continue
        if _mono() - t0 > cap:
            break
        try:
            plan = plan_for(mod, pid, seed, tier, i)
        except Exception:
            rec = {"i": i, "kind": "error", "val": "gen: " + traceback.format_exc()[-1500:]}
        else:
            kind, val = one(mod, plan)
            rec = {"i": i, "kind": kind, "val": val}
            if kind != "ok" or i < 3:
                rec["plan"] = plan
        out.write(json.dumps(rec, default=str) + "\n")
        out.flush()
    out.write(json.dumps({"done": True}) + "\n")
    out.flush()


def plan_main(argv):
    """Execute one plan file: prints one JSON record."""
    pid, path = argv
    mod = load(pid)
    plan = json.load(open(path))
    kind, val = one(mod, plan)
    print(json.dumps({"kind": kind, "val": val}, default=str))


# ------------------------------------------------------------------ minimisation
def candidates(plan):
    ops = plan.get("ops")
    if isinstance(ops, list):
        n = len(ops)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                if size == n and n == 1:
                    pass
                q = dict(plan)
                q["ops"] = ops[:a] + ops[a + size:]
                yield q
            size = size // 2
    for k in ("faults", "switches"):
        fl = plan.get(k)
        if isinstance(fl, list) and fl:
            size = len(fl)
            while size >= 1:
                for a in range(0, len(fl), size):
                    q = dict(plan)
                    q[k] = fl[:a] + fl[a + size:]
                    yield q
                size //= 2
    for key in ("ops",):
        if isinstance(ops, list):
            for j, op in enumerate(ops):
                if isinstance(op, dict) and "fault" in op and op["fault"]:
                    q = dict(plan)
                    o2 = dict(op)
                    o2["fault"] = None
                    q["ops"] = ops[:j] + [o2] + ops[j + 1:]
                    yield q


def min_main(argv):
    pid, path, out, cap = argv[0], argv[1], argv[2], float(argv[3])
    mod = load(pid)
    rec = json.load(open(path))
    best, cls = rec["plan"], rec["val"]["cls"]
    t0 = _mono()
    tried = 0
    improved = True
    val = rec["val"]
    while improved and _mono() - t0 < cap:
        improved = False
        gens = [candidates(best)]
        if hasattr(mod, "shrink"):
            gens.append(mod.shrink(best))
        for g in gens:
            for q in g:
                if _mono() - t0 > cap:
                    break
                q = json.loads(json.dumps(q))
                if q == best:
                    continue
                tried += 1
                kind, v = one(mod, q, 30)
                if kind == "violation" and v["cls"] == cls:
                    best, val, improved = q, v, True
                    break
            if improved:
                break
    json.dump({"plan": best, "val": val, "tried": tried}, open(out, "w"))


# ------------------------------------------------------------------ parent
def sub(args, hashseed, **kw):
    return subprocess.Popen([PY, "-X", "faulthandler", "-c",
                             "import sys; from sim import runner; getattr(runner, sys.argv[1])(sys.argv[2:])"] + args,
                            env=child_env(hashseed), cwd=VERIF, stdin=subprocess.DEVNULL, **kw)


def run_plan(pid, plan, hashseed):
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as fh:
        json.dump(plan, fh)
    try:
        p = sub(["plan_main", pid, fh.name], hashseed, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        o, e = p.communicate(timeout=600)
    finally:
        os.unlink(fh.name)
    try:
        return json.loads(o.strip().splitlines()[-1])
    except Exception:
        return {"kind": "error", "val": (o + e)[-2000:]}


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid]


def search(pid, tier, seed, nruns, cap, on_rec):
    import selectors
    nw = min(NWORK, HASHSEEDS)
    procs = []
    sel = selectors.DefaultSelector()
    # one interpreter per hash seed; with fewer workers several waves of interpreters are used
    todo = list(range(HASHSEEDS))
    t0 = _mono()
    errs = []

    def start(h):
        left = max(5.0, cap - (_mono() - t0))
        p = sub(["worker_main", pid, tier, str(seed), str(h), str(nruns), str(left)], h,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=False)
        os.set_blocking(p.stdout.fileno(), False)
        p.buf = b""
        p.done = False
        sel.register(p.stdout, selectors.EVENT_READ, p)
        procs.append(p)
    active = 0
    while todo and active < nw:
        start(todo.pop(0))
        active += 1
    stop = False
    while active:
        for key, _ in sel.select(timeout=5):
            p = key.data
            chunk = p.stdout.read()
            if chunk is None:
                continue
            if chunk == b"":
                sel.unregister(p.stdout)
                active -= 1
                err = p.stderr.read().decode(errors="replace")
                p.wait()
                if not p.done and not stop:
                    errs.append(f"worker ended early rc={p.returncode}: {err[-1500:]}")
                if todo and not stop:
                    start(todo.pop(0))
                    active += 1
                continue
            p.buf += chunk
            while b"\n" in p.buf:
                line, p.buf = p.buf.split(b"\n", 1)
                try:
                    rec = json.loads(line)
                except Exception:
                    continue
                if rec.get("done"):
                    p.done = True
                elif not stop and on_rec(rec):
                    stop = True
        if stop or _mono() - t0 > cap + 200:
            if not stop:
                errs.append("workers did not finish within the wall cap")
                stop = True
            for q in procs:
                if q.poll() is None:
                    q.kill()
    return errs


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write index:digest lines here (determinism test)")
    a = ap.parse_args(argv)
    pid = a.pid
    t0 = _mono()
    if a.replay:
        rp = json.load(open(a.replay))
        r = run_plan(pid, rp["plan"], rp["hashseed"])
        print(json.dumps(r)[:4000])
        if r["kind"] == "violation":
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        return 0 if r["kind"] == "ok" else 2
    sys.path.insert(0, VERIF)
    mp = subprocess.run([PY, "-c", "import sys,json\nfrom sim import runner\nm=runner.load(sys.argv[1])\n"
                         "print('META '+json.dumps({k:getattr(m,k) for k in ('RUNS','RULE','REAL','STUB','ASSUMPTIONS') if hasattr(m,k)}))", pid],
                        env=child_env(0), cwd=VERIF, capture_output=True, text=True, check=False)
    ml = [x for x in mp.stdout.splitlines() if x.startswith("META ")]
    if not ml:
        print("HARNESS: cannot import the code under test:", (mp.stdout + mp.stderr)[-1500:])
        return 2
    meta = json.loads(ml[-1][5:])
    nruns = a.runs or meta["RUNS"][a.tier]
    cap = a.cap or CAP[a.tier]
    agg = {"ok": 0, "faults": {}, "probes": {}, "sim_s": 0.0, "digests": set(), "nontriv": set(), "events": 0,
           "stats": {}, "samples": [], "dig": {}}
    errors, viols, known_hits = [], [], {}
    findings = known_findings(pid)

    def on_rec(rec):
        k = rec["kind"]
        if k == "ok":
            v = rec["val"]
            agg["ok"] += 1
            for d in ("faults", "probes"):
                for n, c in v[d].items():
                    agg[d][n] = agg[d].get(n, 0) + c
            for n, c in v["stats"].items():
                if isinstance(c, (int, float)):
                    agg["stats"][n] = agg["stats"].get(n, 0) + c
            agg["sim_s"] += v["sim_s"]
            agg["events"] += v["events"]
            agg["digests"].add(v["digest"])
            agg["dig"][rec["i"]] = v["digest"]
            if v["nontrivial"]:
                agg["nontriv"].add(v["digest"])
            if "plan" in rec and len(agg["samples"]) < 3:
                agg["samples"].append(rec["plan"])
            return False
        if k == "violation":
            cls = rec["val"]["cls"]
            for f in findings:
                if f.get("class") and f["class"] == cls and matches(f, rec["val"]):
                    known_hits[f["id"]] = known_hits.get(f["id"], 0) + 1
                    return False
            viols.append(rec)
            return True
        errors.append(rec)
        return len(errors) > 20

    werrs = search(pid, a.tier, a.seed, nruns, cap, on_rec)
    # fixed histories of recorded findings
    for f in findings:
        if "plan" in f:
            r = run_plan(pid, f["plan"], f.get("hashseed", 0))
            if r["kind"] == "violation" and r["val"]["cls"] == f["class"]:
                print(f"KNOWN-FINDING: property={pid} {f['what']}")
            elif r["kind"] == "violation":
                viols.append({"i": -1, "plan": f["plan"], "val": r["val"], "kind": "violation"})
            elif r["kind"] == "error":
                errors.append({"i": -1, "kind": "error", "val": r["val"]})
            else:
                print(f"note: recorded finding {f['id']} no longer occurs")
        elif known_hits.get(f["id"]):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    rc = 0
    replay = None
    if viols:
        import tempfile
        viols.sort(key=lambda r: r["i"])
        v = viols[0]
        hs = v["i"] % HASHSEEDS if v["i"] >= 0 else 0
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, f"{pid}-seed{a.seed}-run{v['i']}.json")
        tmp_in = tempfile.mktemp(suffix=".json")
        tmp_out = tempfile.mktemp(suffix=".json")
        json.dump({"plan": v["plan"], "val": v["val"]}, open(tmp_in, "w"))
        p = sub(["min_main", pid, tmp_in, tmp_out, "60"], hs, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        try:
            p.communicate(timeout=240)
        except subprocess.TimeoutExpired:
            p.kill()
        best = {"plan": v["plan"], "val": v["val"], "tried": 0}
        if os.path.exists(tmp_out):
            best = json.load(open(tmp_out))
            os.unlink(tmp_out)
        os.unlink(tmp_in)
        r = run_plan(pid, best["plan"], hs)
        if not (r["kind"] == "violation" and r["val"]["cls"] == best["val"]["cls"]):
            best = {"plan": v["plan"], "val": v["val"], "tried": best["tried"]}
            r = run_plan(pid, best["plan"], hs)
        same = r["kind"] == "violation" and r["val"]["cls"] == best["val"]["cls"]
        json.dump({"property": pid, "verif_seed": a.seed, "run": v["i"], "hashseed": hs, "plan": best["plan"],
                   "violation": r["val"] if same else best["val"], "original_ops": len(v["plan"].get("ops", []) or []),
                   "minimised_ops": len(best["plan"].get("ops", []) or []), "tried": best["tried"],
                   "replays_exactly": same}, open(replay, "w"), indent=1)
        if same:
            print(f"{pid}: [{r['val']['cls']}] {r['val']['msg']}")
            print(f"  seed {a.seed} run {v['i']} hashseed {hs}; minimised {len(v['plan'].get('ops', []) or [])} -> "
                  f"{len(best['plan'].get('ops', []) or [])} ops; replay: python check.py {pid} --replay {replay}")
            print(f"VIOLATION property={pid} replay={replay}")
            rc = 1
        else:
            print(f"HARNESS: violation {best['val']} of run {v['i']} did not reproduce: {r}")
            rc = 2
    elif errors or werrs:
        for e in errors[:3]:
            print("HARNESS:", e["i"], str(e["val"])[-1800:])
        for e in werrs:
            print("HARNESS:", e)
        rc = 2
    elif agg["ok"] == 0:
        print("HARNESS: no run completed")
        rc = 2
    wall = _mono() - t0
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {
              "evaluations": agg["ok"] + len(viols), "distinct_nontrivial": len(agg["nontriv"]),
              "rule": meta.get("RULE", ""), "samples": agg["samples"] or [viols[0]["plan"]] if (agg["samples"] or viols) else [],
              "runs_planned": nruns, "runs_completed": agg["ok"],
              "runs_per_hour": round(3600 * agg["ok"] / max(wall, 1e-9)), "seeds_per_hour": round(3600 * agg["ok"] / max(wall, 1e-9)),
              "simulated_seconds": round(agg["sim_s"], 3), "events_recorded": agg["events"],
              "faults_fired": dict(sorted(agg["faults"].items())), "rare_condition_probes": dict(sorted(agg["probes"].items())),
              "distinct_event_traces": len(agg["digests"]),
              "distinct_measure": "SHA-256 of the full event log of a run (operations, faults with the statement they hit, results)",
              "totals": {k: round(v, 3) for k, v in agg["stats"].items()},
              "components_real": meta.get("REAL", []), "components_stubbed": meta.get("STUB", []),
              "known_finding_hits": known_hits, "harness_errors": len(errors) + len(werrs), "replay": replay},
          "assumptions": meta.get("ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if a.digests:
        with open(a.digests, "w") as fh:
            for i in sorted(agg["dig"]):
                fh.write(f"{i}:{agg['dig'][i]}\n")
    print(f"{pid} {a.tier}: {agg['ok']}/{nruns} runs, {len(agg['nontriv'])} distinct non-trivial, "
          f"faults {sum(agg['faults'].values())}, {wall:.1f}s, rc={rc}")
    return rc


def matches(f, val):
    """A recorded finding matches a violation only by its class and, if given, a text of the message."""
    return f.get("match", "") in (val.get("msg") or "")
