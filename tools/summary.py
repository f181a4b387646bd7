"""Markdown table of what the last run of each check reached, from evidence/: tools/summary.py"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| id | executions | per hour | evaluations | orders | simulated hours | faults delivered |")
print("|---|---|---|---|---|---|---|")
for name in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
    with open(name) as f:
        c = json.load(f)["coverage"]
    faults = sum(c["faults"].values())
    print("| %s | %d (%d distinct) | %d | %d | %d | %d | %d of %d kinds |" % (
        os.path.basename(name)[:-5], c["executions"], c["distinct_executions"], c["executions_per_hour"], c["evaluations"],
        c["distinct_nontrivial"], c.get("simulated_minutes", 0) / 60, faults, len(c["faults"])))
