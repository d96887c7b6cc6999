"""Entry point: python -m vmc.run C01 --tier quick [--replay file]"""
import argparse
import ast
import importlib
import json
import os
import sys
import time
import traceback

from vmc import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--unit")
    ap.add_argument("--procs", type=int)
    args = ap.parse_args()
    pid = args.pid
    t0 = time.time()
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(core.ROOT, "replays"), exist_ok=True)
    import_violation = None
    mod = None
    try:
        mod = importlib.import_module(f"vmc.checks.{pid}")
    except Exception as e:  # the code under test cannot even be loaded
        if core._through_source(sys.exc_info()[2]):
            import_violation = {
                "unit": "import", "case": "None", "key": "import", "trail": [],
                "message": f"the code cannot be loaded: {type(e).__name__}: {e}",
                "trace": traceback.format_exc(),
            }
        else:
            traceback.print_exc()
            sys.exit(2)

    findings = [f for f in core.load_known() if f["property"] == pid]

    def is_known(v):
        return any(f["unit"] == v["unit"] and f["key"] == v["key"]
                   and f.get("case", v["case"]) == v["case"] for f in findings)

    if args.replay:
        r = json.load(open(args.replay))
        unit = {u.name: u for u in mod.UNITS}[r["unit"]]
        s, t, v, e = core.run_case(unit, ast.literal_eval(r["case"]))
        print(json.dumps({"violation": v, "harness_error": e}, indent=1))
        sys.exit(1 if v else (2 if e else 0))

    totals, violations, known, error = [], [], [], None
    if import_violation:
        violations = [import_violation]
    else:
        units = [u for u in mod.UNITS if not args.unit or u.name == args.unit]
        totals, violations, known, error = core.explore(
            units, args.tier, nproc=args.procs or getattr(mod, "NPROC", None), is_known=is_known)
    wall = time.time() - t0

    evidence = {
        "property": pid,
        "tier": args.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": sum(t["states"] for t in totals),
            "transitions": sum(t["transitions"] for t in totals),
            "traces_validated_against_impl": sum(t["cases"] for t in totals),
            "exhaustive": not violations and error is None and not args.unit,
            "rule": "every case of every unit below is enumerated and executed on the real code; "
                    "states: distinct model states visited; transitions: observations of the real code "
                    "compared with the reference model; traces: complete histories/cases replayed",
            "units": [{k: t[k] for k in ("name", "rule", "cases", "states", "transitions")} for t in totals],
            "samples": [{"unit": t["name"], "case": s} for t in totals for s in t["samples"]][:20],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if evidence["level"] != "model_checking":
        evidence["coverage"]["evaluations"] = evidence["coverage"]["traces_validated_against_impl"]
        evidence["coverage"]["distinct_nontrivial"] = sum(t["states"] for t in totals)
    with open(os.path.join(core.ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for f in findings:
        if any(v["unit"] == f["unit"] and v["key"] == f["key"] for v in known):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    if violations:
        for i, v in enumerate(violations[:5]):
            path = os.path.join(core.ROOT, "replays", f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"  {v['unit']}: {v['message']}"[:800])
            print(f"    case: {v['case'][:500]}")
            print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if error:
        print(error, file=sys.stderr)
        sys.exit(2)
    c = evidence["coverage"]
    print(f"{pid} OK: {c['traces_validated_against_impl']} traces, {c['states']} states, "
          f"{c['transitions']} transitions, {wall:.1f}s")
    sys.exit(0)


if __name__ == "__main__":
    main()
