"""Writes MANIFEST.json from the property modules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import core  # noqa: E402

core.setup_paths()
NOTES = {
    "C01": "random histories of the traffic simulator at and next to the headway boundary on generated and shipped railways; sound for the histories judged, no exhaustion",
    "C02": "as C01, for opposing movements on one track",
    "C03": "as C01, for station tracks incl. turning stock; arrivals on a track where another train has ended for good are outside the rule",
    "C04": "as C01, for movements over common switches",
    "C05": "as C01, for earliest departures, running, stopping and turnover times",
    "C06": "safe simulated runs must be feasible and never better than the optimum, compared where the exact search finishes within its node limit; one documented finding",
    "C07": "random injection sequences against a reference, and all 13 shipped experiments; documented findings for trains missing in shipped timetables",
    "C08": "random plans of the simulated solvers, objective and published contributions recomputed independently",
    "C09": "random answer batches of the simulated services, verdicts recomputed on the railway rules",
    "C10": "random answer batches, arrival orders, ties and service failures",
    "C11": "the constrained problem received by the service compared with the linear one on 14 randomly drawn assignments per call, and at the optimum where the exact search finishes",
    "C12": "8 randomly drawn plans per call; the least energy over auxiliary bits is exact for each, plans whose auxiliary bits form a connected part of more than 13 are skipped and counted; no exhaustion over plans",
    "C13": "five solver outcomes (optimal, limit with and without a plan, infeasible, crash) at randomly drawn instances of the real scripts",
    "C14": "kill states: the files are inspected before every file operation of each simulated run, with three prefixes of unflushed data (none, half, all); executed faults: in about a third of the runs (not the KO_GLC script) a kill and two kinds of failing write at every file operation, one write fraction per run, elsewhere three randomly drawn operations; scripts, methods and older files are drawn at random",
    "C15": "random interleavings of two or three scripts in one directory, with kills",
    "C16": "random plans with tolerance noise, published from memory, by the scripts and after a restart",
    "C17": "random latencies, clock steps and parameters of the quantum and hybrid calls; durations in the linear solver's KO_GLC series in one run of twenty (times the other scripts only print are not judged)",
    "C18": "random damage of generated input files, shipped files read intact; documented findings for repeated train numbers",
    "C19": "random interleavings and repetitions of preparation steps, permutations of the input rows, the third shipped series",
    "C20": "random simulated runs of the six trains, half of them at or just below one boundary, and plans from random solver decisions, against the problem built by the running script; the line's data are written out in the check; one documented finding (a train without penalty weight)",
    "C21": "randomly drawn plans published by the real script on small railways, read by the real tools alone or interleaved with another publication that may be killed; plans whose times run backwards are not judged; kilometres of two segments are written out in the check; of the drawing itself (gnuplot, matplotlib) only the given values are judged",
    "C22": "one recorded series per solver on small railways, the files of the other lines and parameters made of its records; drawn alone or interleaved with another recording that may be killed; styles are not judged",
}


def main():
    checks = []
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(x)["id"] for x in f]
    for pid in ids:
        prop = core.load_prop(pid)
        checks.append({
            "property": pid,
            "quick_cmd": "/opt/venv/bin/python check.py %s" % pid,
            "thorough_cmd": "/opt/venv/bin/python check.py %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "deterministic simulation with fault injection",
            "level": getattr(prop, "LEVEL", "exploration"),
            "level_note": NOTES[pid],
        })
    data = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": [],
            "notes": "Checks need no build: they import /repo's working tree directly. VERIF_SEED and VERIF_TIER select seed and depth; "
                     "check.py <id> --replay evidence/replay/<id>.json re-executes a reported violation. No hooks were added to /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


main()
