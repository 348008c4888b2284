#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only NAME] [--replay FILE] [-v]"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
EVID = os.path.join(HERE, "evidence")


ASSUMPTIONS = [
    "floating point numbers are modelled as exact reals: rounding, overflow and cancellation are outside the claim",
    "jit-compiled functions are encoded with their Python semantics (NUMBA_DISABLE_JIT=1)",
    "each obligation's 'bounds' field states the array sizes and input ranges it covers; nothing outside them is claimed",
    "'states' counts explored paths, 'transitions' counts symbolic branch decisions",
]


def known_findings(prop):
    """{obligation: text} from KNOWN_FINDINGS (lines 'finding: property=..')."""
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from symx import target

    target.load()
    from symx import harness

    importlib.import_module(f"symx.props.{prop.lower()}")
    target._patch_modules()
    obs = harness.REGISTRY[prop]

    if a.replay:
        d = json.load(open(a.replay))
        ob = next(o for o in obs if o.name == d["obligation"])
        r = harness.run_concrete(ob, harness.dec(d["values"]))
        print(r)
        return 1 if r[0] == "fail" else 0

    if a.tier == "quick":
        obs = [o for o in obs if o.tier == "quick"]
    if a.only:
        obs = [o for o in obs if a.only in o.name]
    thorough = a.tier != "quick"
    results = harness.run_all(
        obs, a.tier, seed, a.jobs,
        budget=1500 if thorough else 150, total=12000 if thorough else 600,
    )
    confirm(prop, results)
    return report(prop, a, obs, results, t0, seed)


def confirm(prop, results):
    """A violation counts when its input fails again in a process of its own."""
    import subprocess
    import tempfile

    for r in results:
        v = r.get("violation")
        if not v:
            continue
        with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
            json.dump({"obligation": r["obligation"], "values": v["values"]}, f)
            f.flush()
            try:
                rc = subprocess.run([sys.executable, os.path.abspath(__file__), prop, "--replay", f.name],
                                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200).returncode
            except subprocess.TimeoutExpired:
                rc = None
        if rc != 1:
            r["violation"] = None
            r["unreproduced"].append(f"fails in the run but not on its own: {v['label']}: {v['detail']}")


def report(prop, a, obs, results, t0, seed):
    known = known_findings(prop)
    viol, knownhit, inconcl = [], [], []
    tot = dict(paths=0, branches=0, queries=0, unsat=0, sat=0, unknown=0, solver_time=0.0,
               normalised=0, proved=0)
    solvers, samples, functions = {}, [], set()
    detail = []
    witness_ok = 0
    for r in results:
        name = r["obligation"]
        if "error" in r:
            inconcl.append((name, r["error"]))
            detail.append({"obligation": name, "status": "inconclusive", "why": r["error"]})
            if a.v:
                print(r.get("trace", ""))
            continue
        st = r["stats"]
        for k in tot:
            tot[k] += st[k]
        for k, v in st["fallback_used"].items():
            solvers[k] = solvers.get(k, 0) + v
        functions.update(r["functions"])
        witness_ok += r["witness_ok"]
        status = "proved"
        why = []
        if r["violation"]:
            status = "violated"
            key = name
            if key in known:
                status = "known finding"
                knownhit.append((name, known[key]))
            else:
                viol.append(r)
        else:
            for k in ("unreproduced", "unknown", "unsupported", "undefined"):
                if r[k]:
                    why.append(f"{k}: {sorted(set(r[k]))[:4]}")
            if r["truncated"]:
                why.append(r["truncated"])
            if not r["reached"]:
                why.append("no path reached the end of the harness")
            elif not (st["normalised"] or st["proved"]):
                why.append("nothing was asserted")
            if why:
                status = "inconclusive"
                inconcl.append((name, "; ".join(why)))
        entry = {
            "obligation": name, "status": status, "functions": r["functions"], "bounds": r["bounds"],
            "paths": st["paths"], "queries": st["queries"], "solver_seconds": round(st["solver_time"], 3),
            "assertions_closed_by_normal_form": st["normalised"], "assertions_closed_by_solver": st["proved"],
            "path_models_run_on_real_code": r["witness_ok"], "wall": r["wall"],
        }
        if why:
            entry["why"] = why
        if r["assumed_domains"]:
            entry["assumed"] = r["assumed_domains"]
        detail.append(entry)
        for s in r["samples"][:1]:
            if len(samples) < 5:
                samples.append(f"{name}: {json.dumps(s)[:400]}")
    for r in viol:
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        fn = "".join(c if c.isalnum() else "_" for c in f"{prop}-{r['obligation']}")[:80] + ".json"
        path = os.path.join(d, fn)
        json.dump(
            {"property": prop, "obligation": r["obligation"], "values": r["violation"]["values"],
             "label": r["violation"]["label"], "detail": r["violation"]["detail"],
             "why": r["violation"]["why"],
             "rerun": f"cd {HERE} && ./check.py {prop} --replay {path}"},
            open(path, "w"), indent=1)
        r["path"] = path
    if a.v or viol:
        for d in detail:
            print(json.dumps({k: d[k] for k in d if k not in ("functions", "bounds")}))
    for name, text in knownhit:
        print(f"KNOWN-FINDING: property={prop} {text} [{name}]")
    for name, why in inconcl:
        print(f"INCONCLUSIVE property={prop} obligation={name}: {why}")
    wall = time.time() - t0
    n_proved = sum(d["status"] == "proved" for d in detail)
    if not a.no_evidence and not a.only:
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": prop, "tier": "thorough" if a.tier != "quick" else "quick",
            "seed": seed, "wall_s": round(wall, 2), "violations": len(viol),
            "level": "model_checking",
            "assumptions": ASSUMPTIONS,
            "coverage": {
                "states": tot["paths"],
                "transitions": tot["branches"],
                "traces_validated_against_impl": witness_ok,
                "samples": samples or ["(no model sampled)"],
                "obligations": len(results),
                "discharged": n_proved,
                "obligations_inconclusive": len(inconcl),
                "solver_queries": tot["queries"],
                "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"],
                "assertions_closed_by_normal_form": tot["normalised"],
                "assertions_closed_by_solver": tot["proved"],
                "solver_seconds": round(tot["solver_time"], 2),
                "solvers": solvers,
                "functions_encoded": sorted(functions),
                "detail": detail,
            },
        }
        json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    print(
        f"{prop}: {n_proved}/{len(results)} obligations proved, {tot['paths']} paths, "
        f"{tot['queries']} queries ({tot['unsat']} unsat, {tot['sat']} sat, {tot['unknown']} unknown), "
        f"{tot['solver_time']:.1f} s solver, {wall:.1f} s"
    )
    if viol:
        for r in viol:
            print(f"VIOLATION property={prop} replay={r['path']}")
            print(f"  {r['obligation']}: {r['violation']['label']}: {r['violation']['detail']}")
        return 1
    if not n_proved and not knownhit:
        print(f"{prop}: nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
