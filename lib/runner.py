"""Runs the configurations of one property in parallel, decides the exit code, writes the evidence."""
import os, sys, json, time, importlib, hashlib, traceback, signal
import multiprocessing as mpc
from . import env
VERIF = env.VERIF

LEVEL = "model_checking"
ASSUME = [
    "Exact real arithmetic: floating-point rounding is covered only by the stated tolerances and by the concrete replays.",
    "CasADi, numpy and scipy are trusted to build the expressions they document; z3 is trusted (cvc5 re-checks unsat answers in the thorough tier).",
    "User functions are arbitrary values of their arguments (uninterpreted); arguments within 1e-5 of each other count as equal.",
]

def load(prop):
    from props import REGISTRY
    mod = importlib.import_module("props." + REGISTRY[prop])
    return mod.CHECKS[prop]

def _work(args):
    prop, i, cfg, tier, deadline = args
    from . import symcore
    symcore.CROSS = (tier == "thorough")
    chk = load(prop)
    t0 = time.monotonic()
    devnull = os.open(os.devnull, os.O_WRONLY)
    so, se = os.dup(1), os.dup(2)
    os.dup2(devnull, 1); os.dup2(devnull, 2)
    try:
        r = symcore.explore(chk.harness, cfg, max_paths=cfg.get("max_paths", chk.max_paths), deadline=deadline,
                            timeout_ms=60000 if tier == "thorough" else 20000, replays=cfg.get("replays", 1))
    except BaseException as e:
        r = {"violations": [], "inconclusive": ["engine error: " + "".join(traceback.format_exception(e))[-1500:]], "functions": [], "paths": 0,
             "validated": 0, "stats": symcore.Stats().asdict(), "asserts_on_paths": 0, "samples": [], "vacuous": False}
    finally:
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(so, 1); os.dup2(se, 2)
        for f in (devnull, so, se): os.close(f)
    r["cfg"] = cfg; r["wall"] = time.monotonic() - t0
    return i, r

class Check:
    def __init__(self, harness, quick, thorough=None, bounds="", max_paths=3000, assumptions=()):
        self.harness, self.quick, self.thorough = harness, quick, thorough or quick
        self.bounds, self.max_paths, self.assumptions = bounds, max_paths, list(assumptions)

def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("fixed:") or l.startswith("#"): continue
            k = json.loads(l)
            if k["property"] == prop: out.append(k)
    return out

def matches(k, v):
    """A listed finding names the configuration and the assertion that fails."""
    if not v["label"].startswith(k["label"]): return False
    for key, val in k.get("cfg", {}).items():
        if v["cfg"].get(key) != val: return False
    for key, val in k.get("choices", {}).items():
        if v["choices"].get(key) != val: return False
    if "detail" in k and k["detail"] not in v["detail"]: return False
    return True

def main(prop, tier):
    t0 = time.monotonic()
    chk = load(prop)
    cfgs = chk.thorough() if tier == "thorough" else chk.quick()
    limit = 840 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "3400"))
    deadline = t0 + limit
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    results = [None] * len(cfgs)
    # big configurations first
    order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get("cost", 1))
    args = [(prop, i, cfgs[i], tier, deadline) for i in order]
    if jobs == 1 or len(args) == 1:
        for a in args:
            i, r = _work(a); results[i] = r
    else:
        ctx = mpc.get_context("fork")
        with ctx.Pool(min(jobs, len(args)), maxtasksperchild=20) as pool:
            for i, r in pool.imap_unordered(_work, args):
                results[i] = r
                if os.environ.get("VERIF_STOP") and r["violations"]:     # used by the mutation sweep only
                    pool.terminate(); break
        results = [r for r in results if r is not None]
    viol, incon, fns, kf = [], [], set(), []
    tot = dict(queries=0, qtime=0.0, unknown=0, decisions=0, paths=0, forced=0, cross=0, asserts=0)
    kinds, validated, asserts, samples = {}, 0, 0, []
    findings = known(prop)
    for r in results:
        for v in r["violations"]:
            k = next((k for k in findings if matches(k, v)), None)
            if k: kf.append(k)
            else: viol.append(v)
        incon += [(str(r["cfg"])[:300], x) for x in r["inconclusive"]]
        if r.get("vacuous") and not r["violations"] and not r["inconclusive"]:
            incon.append((str(r["cfg"])[:300], "vacuous: no assertion was reached"))
        fns |= set(r["functions"])
        for k in tot: tot[k] += r["stats"].get(k, 0)
        for k, n in r["stats"].get("kinds", {}).items(): kinds[k] = kinds.get(k, 0) + n
        validated += r["validated"]; asserts += r["asserts_on_paths"]
        samples += r["samples"]
    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": env.SEED, "level": LEVEL,
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"] + tot["forced"] + tot["asserts"],
            "traces_validated_against_impl": validated, "samples": samples[:6],
            "states_meaning": "complete symbolic execution paths of the real code over all configurations",
            "transitions_meaning": "solver-decided branch points plus assertions evaluated on those paths",
            "configurations": len(cfgs), "assertions_on_paths": asserts, "branch_decisions": tot["decisions"],
            "solver_queries": tot["queries"], "solver_queries_by_kind": kinds, "solver_seconds": round(tot["qtime"], 3),
            "solver_unknown": tot["unknown"], "cvc5_confirmed_unsat": tot["cross"],
            "functions_encoded": sorted(fns), "bounds": chk.bounds,
            "configurations_run": [env_short(r["cfg"]) for r in results][:80],
            "inconclusive": len(incon), "known_findings_seen": len(kf),
        },
        "assumptions": ASSUME + chk.assumptions, "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for k in kf:
        if k["what"] not in seen:
            seen.add(k["what"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: configs=%d paths=%d decisions=%d asserts=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (
        prop, tier, len(cfgs), tot["paths"], tot["decisions"], asserts, tot["queries"], tot["qtime"], validated, wall))
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"])[:12]: print("  %.1fs paths=%d %s" % (r["wall"], r["paths"], env_short(r["cfg"])))
    if incon and (os.environ.get("VERIF_DEBUG") or not viol):
        for c, x in incon[:int(os.environ.get("VERIF_DEBUG") or 8)]: print("INCONCLUSIVE", c, x)
        for r in results:
            for e in r.get("exceptions", [])[:1]: print(e)
    if viol:
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        for n, v in enumerate(viol[:5]):
            h = hashlib.sha1(json.dumps([v["cfg"], v["label"]], sort_keys=True, default=str).encode()).hexdigest()[:10]
            p = os.path.join(d, "%s_%s.json" % (prop, h))
            json.dump(dict(property=prop, **v), open(p, "w"), indent=1, default=str)
            print("  " + v["label"] + ": " + v["detail"] + "  cfg=" + str(env_short(v["cfg"])))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if incon:
        # nothing failed; the answer stands for what was decided when that is most of the configurations
        undecided = {str(r["cfg"]) for r in results if r["inconclusive"] or (r.get("vacuous") and not r["violations"])}
        print("%d of %d configurations undecided" % (len(undecided), len(cfgs)))
        return 2 if 2 * len(undecided) > len(cfgs) else 0
    return 0

def env_short(cfg):
    return {k: v for k, v in cfg.items() if k not in ("cost",)}

def replay(path):
    from . import symcore
    d = json.load(open(path))
    chk = load(d["property"])
    c, s = symcore.conc_run(chk.harness, d["cfg"], d["values"], d["choices"])
    print("replayed on the real code:", s)
    for p in c.problems: print("  FAILS", p["label"], p["detail"])
    if getattr(c, "exc", None): print(c.exc)
    return 1 if c.problems else 0
