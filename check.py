#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--task NAME] [--list]

Decides one property by bounded exhaustive exploration of the code in /repo."""

import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["TQDM_DISABLE"] = "1"

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KOMM_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))

import argparse
import importlib
import json
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--task")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    from mc import core

    known_all = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    known = [k for k in known_all if k["property"] == a.prop and k["status"] == "known"]
    limit = 700 if tier == "quick" else 7000
    try:
        import komm

        assert os.path.realpath(komm.__file__).startswith(os.path.realpath(REPO)), komm.__file__
        mod = importlib.import_module(f"mc.{a.prop.lower()}")
        tasks = mod.tasks(tier)
    except Exception as e:  # the tree does not even import / build its objects
        traceback.print_exc()
        results = [core._dead("setup", f"{type(e).__name__}: {e}")]
        mod, tasks = None, []
    else:
        if a.replay:
            names = {v["task"] for v in json.load(open(a.replay))["violations"]}
            tasks = [t for t in tasks if t[0] in names]
        if a.task:
            tasks = [t for t in tasks if a.task in t[0]]
        if a.list:
            print("\n".join(t[0] for t in tasks))
            return 0
        results = core.run_tasks(a.prop, tasks, tier, known, limit, a.jobs)

    wall = time.time() - t0
    nviol = sum(r["n_violations"] for r in results)
    known_hit = sorted({k for r in results for k in r["known_hit"]})
    outcomes = {(r["name"], o) for r in results for o in r["outcomes"]}
    evidence = {
        "property": a.prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["traces"] for r in results),
            "distinct_outcomes": len(outcomes),
            "exhaustive": all(r["states"] > 0 for r in results) and nviol == 0,
            "samples": [{"task": r["name"], "case": s} for r in results for s in r["samples"][:1]][:24],
            "tasks": {
                r["name"]: {
                    "states": r["states"],
                    "transitions": r["transitions"],
                    "traces": r["traces"],
                    "outcomes": len(r["outcomes"]),
                    "bounds": r["bounds"],
                    "wall_s": round(r["wall"], 2),
                }
                for r in sorted(results, key=lambda r: r["name"])
            },
            "counting": "states: distinct cases or machine states enumerated; transitions: operations of the "
            "real code executed and judged (where a task does not count operations: comparisons made); traces: complete executions compared with the reference model.",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "known_findings_seen": known_hit,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    if not (a.task or a.replay):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for r in sorted(results, key=lambda r: -r["wall"]):
        if a.verbose:
            print(f"  {r['name']}: states={r['states']} transitions={r['transitions']} traces={r['traces']} "
                  f"outcomes={len(r['outcomes'])} viol={r['n_violations']} {r['wall']:.1f}s")
    for k in known:
        if k["id"] in known_hit:
            print(f"KNOWN-FINDING: property={a.prop} {k['id']}: {k['what']}")
        elif not (a.task or a.replay):
            print(f"note: listed finding {k['id']} was not seen on this tree")
    c = evidence["coverage"]
    print(f"{a.prop} {tier}: states={c['states']} transitions={c['transitions']} "
          f"traces={c['traces_validated_against_impl']} outcomes={c['distinct_outcomes']} "
          f"violations={nviol} wall={wall:.1f}s")
    vacuous = [r["name"] for r in results if not r["n_violations"] and (r["states"] == 0 or r["traces"] == 0)]
    if vacuous:
        print("vacuous tasks:", vacuous)
        return 3
    if nviol:
        path = a.replay or os.path.join(HERE, "replays", f"{a.prop}-{tier}.json")
        if not a.replay:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": a.prop,
                        "how": f"check.py {a.prop} --tier {tier} --replay <this file>",
                        "violations": [dict(v, task=r["name"]) for r in results for v in r["violations"]],
                    },
                    f, indent=1,
                )
        shown, seen = 0, set()
        for r in results:
            for v in r["violations"]:
                kind = (r["name"], v["message"][:25])
                if shown < 20 and kind not in seen:
                    seen.add(kind)
                    print(f"  [{r['name']}] {v['key']}: {v['message'][:600]}")
                    shown += 1
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
