"""Decide one property:  check.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED=<int>)

  check.py C01 --replay evidence/replay/C01.json   re-execute a recorded violation
  check.py C01 --one INDEX                          execute one run and print its trace
Exit 0: held; 1: violated (prints the replay file); anything else: the check itself failed.
"""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import core  # noqa: E402

core.setup_paths()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--digests", help="write index -> digest to this file (determinism self-test)")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    prop = core.load_prop(a.prop)
    if a.replay:
        return replay(prop, a.replay)
    if a.one is not None:
        spec = core.make_spec(prop, a.seed, a.one, a.tier)
        o = core.run_spec(prop, spec, keep_trace=True)
        print("\n".join(o.trace))
        print(json.dumps(core.summary(o), indent=1, default=str)[:6000])
        return 0
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    return check(prop, a.seed, tier, a)


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    o = core.run_spec(prop, rec["spec"], keep_trace=True)
    print("\n".join(o.trace[-40:]))
    same = o.digest == rec["digest"]
    print("digest", o.digest, "identical to the recorded execution" if same else "DIFFERS from the recorded execution")
    for v in o.violations:
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        print(" ", v["kind"], "-", v["detail"])
        return 1
    return 0


def check(prop, seed, tier, a):
    t0 = time.monotonic()
    plan = prop.PLAN[tier] if hasattr(prop, "PLAN") else {"quick": {"runs": 200}, "thorough": {"runs": 2000}}[tier]
    runs = a.runs or plan["runs"]
    guard = plan.get("guard", 600 if tier == "quick" else 840)
    results, complete = core.sweep(prop.ID, seed, tier, runs, a.workers, guard)
    if a.digests:
        core.write_json(a.digests, {str(i): results[i].get("digest") for i in sorted(results)})
    errors = [r for r in results.values() if r.get("error")]
    done = [results[i] for i in sorted(results) if not results[i].get("error")]
    known = core.known_findings()
    found = {}
    for r in done:
        for f in r["findings"]:
            found.setdefault(f["key"], []).append((r["index"], f["detail"]))
    unknown = [k for k in found if (prop.ID, k) not in known]
    bad = [r for r in done if r["violations"] or any(f["key"] in unknown for f in r["findings"])]
    status = 0
    violations = 0
    replay_path = None
    if bad:
        status, violations = 1, len(bad)
        replay_path = report(prop, seed, tier, bad[0])
    write_evidence(prop, seed, tier, runs, done, found, violations, complete, errors, time.monotonic() - t0, replay_path, a.workers)
    for k in sorted(found):
        if k not in unknown:
            print("KNOWN-FINDING: property=%s %s" % (prop.ID, known[prop.ID, k]))
    print("%s %s seed=%d: %d of %d executions, %d evaluations, %d distinct interleavings, %d violating, %.1f s" % (
        prop.ID, tier, seed, len(done), runs, sum(r["evaluations"] for r in done),
        len(set().union(*[r["orders"] for r in done]) if done else ()), violations, time.monotonic() - t0))
    if status == 1:
        return 1
    if errors:
        print("ERROR of the check (run %d):" % errors[0]["index"])
        print(errors[0]["error"])
        return 3
    if not complete or len(done) < runs:
        print("ERROR: %d of %d executions finished within the time guard" % (len(done), runs))
        return 4
    need = getattr(prop, "NEEDS", {})
    tot = {}
    for r in done:
        for k, v in list(r["counters"].items()) + list(r["faults"].items()):
            tot[k] = tot.get(k, 0) + v
    if not any(r["nontrivial"] for r in done):
        print("ERROR: no execution reached a situation the property speaks about")
        return 5
    for k, v in need.items():
        if tot.get(k, 0) < v * runs:
            print("ERROR: coverage of '%s' is %s, expected at least %s" % (k, tot.get(k, 0), v * runs))
            return 5
    return 0


def report(prop, seed, tier, r):
    spec = core.make_spec(prop, seed, r["index"], tier)
    kinds = [v["kind"] for v in r["violations"]]
    if not kinds:
        spec_min, o = spec, core.run_spec(prop, spec, keep_trace=True)
        tried = 0
        kind = "finding " + r["findings"][0]["key"]
        detail = r["findings"][0]["detail"]
    else:
        kind = kinds[0]
        try:
            spec_min, tried = core.minimise(prop, spec, kind)
        except Exception:
            spec_min, tried = spec, 0
        o = core.run_spec(prop, spec_min, keep_trace=True)
        detail = next((v["detail"] for v in o.violations if v["kind"] == kind), r["violations"][0]["detail"])
    path = os.path.join(core.EVIDENCE, "replay", "%s.json" % prop.ID)
    core.write_json(path, {"property": prop.ID, "seed": seed, "index": r["index"], "kind": kind, "detail": detail,
                           "reductions_tried": tried, "digest": o.digest, "trace_tail": o.trace[-30:], "spec": spec_min})
    print("VIOLATION property=%s replay=%s" % (prop.ID, path))
    print("  run %d: %s" % (r["index"], kind))
    print("  %s" % detail)
    return path


def write_evidence(prop, seed, tier, runs, done, found, violations, complete, errors, wall, replay_path, workers):
    orders, counters, faults = set(), {}, {}
    for r in done:
        orders.update(r["orders"])
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
    samples = []
    for r in done[:3]:
        samples.append({"index": r["index"], "digest": r["digest"], "evaluations": r["evaluations"],
                        "counters": r["counters"], "faults": r["faults"]})
    ev = {
        "property": prop.ID, "tier": tier, "seed": seed, "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in done),
            "distinct_nontrivial": len(orders),
            "rule": getattr(prop, "RULE", ""),
            "samples": samples,
            "executions": len(done),
            "executions_planned": runs,
            "executions_nontrivial": sum(1 for r in done if r["nontrivial"]),
            "distinct_executions": len({r["digest"] for r in done}),
            "executions_per_hour": round(3600 * len(done) / wall) if wall else 0,
            "simulated_minutes": round(sum(r["sim_minutes"] for r in done), 2),
            "faults": faults,
            "counters": counters,
            "known_findings": {k: len(v) for k, v in found.items()},
            "complete": complete, "errors": len(errors), "workers": workers,
            "components": getattr(prop, "COMPONENTS", {}),
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "violations": violations,
        "wall_s": round(wall, 2),
    }
    if replay_path:
        ev["coverage"]["replay"] = replay_path
    core.write_json(os.path.join(core.EVIDENCE, "%s.json" % prop.ID), ev)


if __name__ == "__main__":
    sys.exit(main())
