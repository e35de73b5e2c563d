#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--only substring] [--replay file] [-v]

Generates and discharges the obligations of one property from /repo's current source.  Exit 0: every obligation discharged
(or, where stated, its bounded stand-in held); exit 1 with VIOLATION lines otherwise."""
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ["PYTHONHASHSEED"] == "0" and not os.environ.get("VF_REEXEC"):
    os.environ["VF_REEXEC"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, HERE)
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import pickle  # noqa: E402
import random  # noqa: E402
import signal  # noqa: E402
import subprocess  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402

warnings.filterwarnings("ignore", category=RuntimeWarning, message=".*os.fork.*")
warnings.filterwarnings("ignore", category=DeprecationWarning)


def parse():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--only", default=None)
    p.add_argument("--replay", default=None)
    p.add_argument("--jobs", type=int, default=int(os.environ.get("VF_JOBS", "8")))
    p.add_argument("-v", action="store_true")
    return p.parse_args()


ARGS = parse()
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = ARGS.tier == "thorough"
BUDGET = 780 if THOROUGH else 600


def sym_task(h):
    from vf import engine, solve
    t0 = time.time()
    limit = h.opts.get("time", 90) * (4 if THOROUGH else 1)
    if THOROUGH:
        solve.OPT["cvc5"] = True
        solve.OPT["cross"] = 40
    solve.OPT["feas_ms"] = h.opts.get("feas_ms", 1500)
    solve.OPT["timeout_ms"] = h.opts.get("timeout_ms", 6000) * (3 if THOROUGH else 1)
    run = engine.Run(h.fn, h.args, t0 + min(limit, BUDGET * 0.8), ARGS.tier, h.opts.get("max_paths", 5000), seed=SEED)
    run.explore()
    res = {"harness": h.name, "kind": "sym", "paths": run.paths, "ended": run.ended, "vacuous": run.vacuous, "funcs": sorted(run.funcs), "assumed": sorted(run.assumed),
           "unsupported": run.unsupported[:5], "n_unsupported": len(run.unsupported), "exceptions": run.exceptions[:5], "complete": run.complete,
           "notes": run.notes, "canary": run.canary, "obs": [], "violations": [], "unconfirmed": [], "replays": 0,
           "missing": [x for x in h.opts.get("expect", []) if x not in run.obs]}
    todo = []
    for o in run.obs.values():
        res["obs"].append({"label": o.label, "soft": o.soft, "n": o.n, "proved": o.proved, "backends": o.backends, "refuted": len(o.refuted),
                           "unknown": o.unknown[:3], "n_unknown": len(o.unknown), "time": round(o.time, 3)})
        if o.refuted:
            todo.append((o.label, o.soft, [r for r in o.refuted if r["env"] is not None]))
        elif o.unknown and getattr(o, "unknown_env", None):
            e, c = o.unknown_env
            todo.append((o.label, True, [{"env": {k: (v if isinstance(v, (bool, int)) else float(v)) for k, v in e.items()}, "choices": c, "goal": "(undecided)"}]))
    for ex in run.exceptions[:6]:
        todo.append(("no exception: " + ex["exc"], True, [{"env": ex["env"], "choices": ex["choices"], "goal": ex["where"]}]))
    tr = time.time()
    for label, soft, refs in todo:
        hit = None
        for r in refs[:3]:
            hit = replay(h, r["env"], r["choices"], 12 if not soft else 5, res)
            if hit or time.time() - tr > 60:
                break
        if hit:
            hit["obligation"] = label
            hit["goal"] = r["goal"]
            res["violations"].append(hit)
            if len(res["violations"]) >= 3:
                break
        elif not soft:
            res["unconfirmed"].append({"obligation": label, "env": refs[0]["env"] if refs else {}, "choices": refs[0]["choices"] if refs else {},
                                       "goal": refs[0]["goal"] if refs else ""})
    res["stats"] = dict(solve.STATS)
    res["time"] = time.time() - t0
    return res


def replay(h, env, choices, seconds, res):
    """counterexample -> real code, then its neighbourhood, then random inputs with the same choices"""
    from vf import engine
    t0 = time.time()
    rng = random.Random(SEED * 7919 + 13)
    i = 0
    while time.time() - t0 < seconds and i < 400:
        e = dict(env)
        if i == 1:
            e = {k: (v if isinstance(v, (bool, int)) else round(v * 8) / 8) for k, v in env.items()}
        elif i > 1:
            for k in env:
                u = rng.random()
                if u < (0.25 if i % 3 else 0.7):
                    e.pop(k)
                elif not isinstance(env[k], (bool, int)) and u < 0.5:
                    e[k] = env[k] * (1 + rng.gauss(0, 0.2)) + (rng.gauss(0, 0.1) if i % 2 else 0)
        r = engine.concrete(h.fn, h.args, SEED * 100003 + i, e, choices if i % 4 != 3 else None, ARGS.tier, h.opts.get("isolate"))
        res["replays"] += 1
        if r["status"] == "fail" and again(h, r):
            return r
        i += 1
    return None


def again(h, r):
    """reproducible from its recorded input alone"""
    from vf import engine
    r2 = engine.concrete(h.fn, h.args, r["seed"], r["env"], r["choices"], ARGS.tier, h.opts.get("isolate"))
    return r2["status"] == "fail"


def con_task(h):
    from vf import engine
    t0 = time.time()
    n = h.opts.get("samples", 60) * (10 if THOROUGH else 1)
    cap = h.opts.get("con_time", 12) * (6 if THOROUGH else 1)
    res = {"harness": h.name, "kind": "con", "runs": 0, "skipped": 0, "labels": {}, "violations": [], "why": [], "example": None}
    i = 0
    while i < n * (4 if res["runs"] else 40) and res["runs"] < n and time.time() - t0 < cap:
        r = engine.concrete(h.fn, h.args, SEED * 1000003 + i, tier=ARGS.tier, isolate=h.opts.get("isolate"))
        i += 1
        if r["status"] == "ok":
            res["runs"] += 1
            for lb in r["labels"]:
                res["labels"][lb] = res["labels"].get(lb, 0) + 1
            if res["example"] is None:
                res["example"] = {"env": {k: v for k, v in list(r["env"].items())[:12]}, "choices": r["choices"]}
        elif r["status"] == "skip":
            res["skipped"] += 1
            if r.get("why"):
                res["why"] = [r["why"]]
                if i > 20 and not res["runs"]:
                    break
        elif again(h, r):
            r["obligation"] = r["label"]
            r["goal"] = "(random concrete input)"
            res["violations"].append(r)
            break
    res["time"] = time.time() - t0
    return res


def spawn(task):
    kind, h = task
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
            if not ARGS.v:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            try:
                out = sym_task(h) if kind == "sym" else con_task(h)
            except BaseException:  # noqa: BLE001
                out = {"harness": h.name, "kind": kind, "crash": traceback.format_exc()[-3000:]}
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def run_pool(tasks, hard):
    import select
    live = {}
    out = []
    tasks = list(tasks)
    t_end = time.time() + BUDGET
    while tasks or live:
        while tasks and len(live) < ARGS.jobs:
            t = tasks.pop(0)
            if time.time() > t_end:
                out.append({"harness": t[1].name, "kind": t[0], "crash": "check time budget used up before this harness"})
                continue
            pid, fd = spawn(t)
            live[fd] = (pid, t, time.time(), [])
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for fd in list(live):
            pid, t, st, buf = live[fd]
            done = False
            if fd in rd:
                b = os.read(fd, 1 << 20)
                if b:
                    buf.append(b)
                else:
                    done = True
            cap = hard(t)
            if not done and (now - st > cap or now > t_end + 60):
                for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
                    try:
                        f()
                    except OSError:
                        pass
                out.append({"harness": t[1].name, "kind": t[0], "crash": "killed after %d s" % (now - st)})
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                continue
            if done:
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                try:
                    out.append(pickle.loads(b"".join(buf)))
                except Exception:  # noqa: BLE001
                    out.append({"harness": t[1].name, "kind": t[0], "crash": "worker ended without a result"})
    return out


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("finding: property=%s " % prop):
                key = ln.split("key=", 1)[1].split()[0]
                out.append((key, ln.strip().split(" ", 2)[2]))
    return out


def main():
    t0 = time.time()
    prop = ARGS.prop
    from vf import registry
    import numpy, scipy.integrate, scipy.spatial, pint, pydantic  # noqa: F401,E401
    import vf.engine  # noqa: F401
    try:
        import jax  # noqa: F401
    except Exception:  # noqa: BLE001
        pass
    try:
        import safe_autonomy_dynamics.base_models as bm
        assert os.path.realpath(bm.__file__).startswith(os.path.realpath(REPO)), bm.__file__
    except AssertionError:
        raise
    except Exception:  # noqa: BLE001
        traceback.print_exc()
    importlib.import_module("contracts." + prop.lower())
    hs = [h for h in registry.REG if (THOROUGH or h.opts.get("tier") != "thorough") and (not ARGS.only or ARGS.only in h.name)]
    if ARGS.replay:
        return do_replay(hs, ARGS.replay)
    if not hs:
        print("no harness")
        return 3
    order = sorted(hs, key=lambda h: -h.opts.get("time", 90))
    tasks = [("sym", h) for h in order if not h.opts.get("bounded")] + [("con", h) for h in order if h.opts.get("samples", 1)]

    def hard(t):
        h = t[1]
        if t[0] == "con":
            return (h.opts.get("con_time", 12) * (6 if THOROUGH else 1)) + 60
        return h.opts.get("time", 90) * (4 if THOROUGH else 1) + 120
    res = run_pool(tasks, hard)
    return report(prop, hs, res, t0)


def report(prop, hs, res, t0):
    out = os.path.join(HERE, "out", prop)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    known = known_findings(prop)
    viol, unconf, und, bounded, funcs = [], [], [], [], set()
    assumed = set()
    obl = dis = 0
    back = {}
    st = {"z3": 0.0, "ring": 0.0, "feas": 0.0}
    paths = runs = replays = 0
    labels = set()
    samples = []
    byname = {h.name: h for h in hs}
    proved_labels = {}
    wd = []
    cc = 0
    for r in res:
        nm = r["harness"]
        if r.get("crash"):
            und.append("%s (%s): %s" % (nm, r["kind"], r["crash"].strip().splitlines()[-1]))
            if ARGS.v:
                print(r["crash"])
            continue
        if r["kind"] == "con":
            runs += r["runs"]
            for v in r["violations"]:
                viol.append((nm, v))
            if not r["runs"] and not r["violations"]:
                und.append("%s: no concrete run possible (%s)" % (nm, "; ".join(map(str, r["why"])) or "all samples rejected"))
            if r["example"] and len(samples) < 3:
                samples.append({"harness": nm, **r["example"]})
            if byname[nm].opts.get("bounded"):
                bounded.append({"harness": nm, "reason": byname[nm].opts["bounded"], "runs": r["runs"], "checks": sum(r["labels"].values())})
            continue
        funcs |= set(r["funcs"])
        assumed |= set(r["assumed"])
        paths += r["paths"]
        replays += r["replays"]
        st["z3"] += r["stats"]["z3_time"]
        st["ring"] += r["stats"]["ring_time"]
        st["feas"] += r["stats"]["feas_time"]
        cc += r["stats"].get("cvc5_confirmed", 0)
        for v in r["violations"]:
            viol.append((nm, v))
        for v in r["unconfirmed"]:
            unconf.append((nm, v))
        for u in r["unsupported"][:2]:
            und.append("%s: outside the supported subset: %s" % (nm, u))
        for e in r["exceptions"][:2]:
            und.append("%s: exception in symbolic run: %s at %s" % (nm, e["exc"], e["where"]))
        for n in r["notes"]:
            und.append("%s: %s" % (nm, n))
        if r["vacuous"] and not r["paths"]:
            und.append("%s: every path is contradictory" % nm)
        if r["canary"] is False:
            und.append("%s: canary obligation `False` was discharged (contradictory assumptions)" % nm)
        if r["missing"]:
            und.append("%s: obligations never reached: %s" % (nm, r["missing"]))
        nobs = 0
        for o in r["obs"]:
            nobs += o["n"]
            obl += o["n"]
            dis += o["proved"]
            for b, k in o["backends"].items():
                back[b] = back.get(b, 0) + k
            labels.add((nm, o["label"]))
            if o["n_unknown"]:
                und.append("%s: %s: %d undecided (%s)" % (nm, o["label"], o["n_unknown"], o["unknown"][0]))
            if o["refuted"] and o["soft"]:
                und.append("%s: %s: auxiliary obligation refuted" % (nm, o["label"]))
            if o["label"].startswith("wd: "):
                wd.append(o["label"])
        if not nobs:
            und.append("%s: no obligation was generated" % nm)
        if ARGS.v:
            print("== %s: paths %d (+%d ended) %.1fs z3 %.1f ring %.1f feas %.1f(%d)" % (nm, r["paths"], r["ended"], r["time"], r["stats"]["z3_time"], r["stats"]["ring_time"], r["stats"]["feas_time"], r["stats"]["feas"]))
            for o in r["obs"]:
                print("   %-60s n=%d proved=%d %s ref=%d unk=%s t=%.2f" % (o["label"], o["n"], o["proved"], o["backends"], o["refuted"], o["unknown"][:1], o["time"]))
            for e in r["exceptions"][:2]:
                print(e["tb"])
    lines = []
    seen = set()
    kf = set()

    def is_known(nm, v):
        for key, text in known:
            if key == nm + ":" + v["obligation"].replace(" ", "_"):
                kf.add(text)
                return True
        return False
    n = 0
    for nm, v in viol:
        if is_known(nm, v) or nm in seen:
            continue
        seen.add(nm)
        n += 1
        path = os.path.join(out, "v%d.json" % n)
        json.dump({"property": prop, "harness": nm, "obligation": v["obligation"], "failing_check": v["label"], "input": v["env"], "choices": v["choices"],
                   "seed": v.get("seed", 0), "goal": v.get("goal"), "detail": v.get("detail", ""),
                   "rerun": "cd /verif && ./check.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("failed obligation: %s: %s (real code: %s) input %s" % (nm, v["obligation"], v["label"], json.dumps(v["env"], default=str)[:600]))
    if not lines:
        for nm, v in unconf:
            if is_known(nm, v) or nm in seen:
                continue
            seen.add(nm)
            n += 1
            path = os.path.join(out, "u%d.json" % n)
            json.dump({"property": prop, "harness": nm, "obligation": v["obligation"], "counter_model": v["env"], "choices": v["choices"], "goal": v["goal"],
                       "solver": "z3: negated obligation satisfiable under the path condition; no failing input found on the real code"},
                      open(path, "w"), indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
            print("failed obligation: %s: %s (no failing input found on the real code)" % (nm, v["obligation"]))
    for t in sorted(kf):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    mod = sys.modules["contracts." + prop.lower()]
    repo_funcs = []
    try:
        from vf.universe import all_functions
        repo_funcs = all_functions()
    except Exception:  # noqa: BLE001
        pass
    ev = {
        "property": prop, "tier": ARGS.tier, "seed": SEED, "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": obl, "discharged": dis, "checker_cmd": "./check.py %s --tier %s" % (prop, ARGS.tier),
            "trusted_base": getattr(mod, "TRUST", []) + TRUST,
            "distinct_obligation_labels": len(labels), "by_backend": back, "cvc5_cross_confirmed": cc, "solver_seconds": {k: round(v, 2) for k, v in st.items()},
            "paths": paths, "functions_under_contract": sorted(funcs & set(repo_funcs)), "functions_in_repo": len(repo_funcs),
            "undecided": und, "bounded_stand_ins": bounded, "concrete_conformance_runs": runs, "counterexample_replays": replays,
            "well_definedness_labels": sorted(set(wd)), "samples": samples,
            "evaluations": obl + runs, "harnesses": len(hs),
        },
        "assumptions": getattr(mod, "ASSUME", []) + sorted(assumed) + ASSUME,
        "wall_s": round(time.time() - t0, 2), "violations": len(lines),
    }
    if not ARGS.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    for u in und[:40]:
        print("UNDECIDED " + u)
    for b in bounded:
        print("BOUNDED %s: %d runs, %d checks (%s)" % (b["harness"], b["runs"], b["checks"], b["reason"]))
    print("%s: %d obligations, %d discharged %s, %d paths, %d functions executed, %d concrete runs, %.1f s" % (
        prop, obl, dis, back, paths, len(funcs), runs, time.time() - t0))
    for ln in lines[:5]:
        print(ln)
    if not lines and not obl and not runs:
        print("nothing was checked")
        return 3
    return 1 if lines else 0


TRUST = ["z3 5.3 (obligations and path feasibility)", "vf ring normaliser and symbolic executor (vf/terms.py, vf/engine.py, vf/sym.py)",
         "NumPy/SciPy/pint/pydantic contract models (vf/npshim.py, vf/shims.py), cross-checked by the concrete runs", "CPython semantics of the executed subset"]
ASSUME = ["machine arithmetic is treated as exact real arithmetic (decimal value of every literal); float32/float64 rounding and overflow are outside the proofs and are met only by the concrete runs",
          "sin, cos, tan, sqrt, exp and fractional powers are the real functions, known to the solver through their defining identities only"]


def do_replay(hs, path):
    from vf import engine
    d = json.load(open(path))
    env = d.get("input", d.get("counter_model", {}))
    h = [h for h in hs if h.name == d["harness"]]
    if not h:
        print("harness %s not found" % d["harness"])
        return 3
    r = engine.concrete(h[0].fn, h[0].args, d.get("seed", 0), env, d.get("choices"), ARGS.tier)
    print(json.dumps(r, indent=1, default=str))
    if r["status"] == "fail":
        print("VIOLATION property=%s replay=%s" % (ARGS.prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
