"""Applies each planted change to /repo, runs the check of its property and puts /repo back.

python tools/sensitivity.py [--all] [id ...]      --all: every check on every change
Not used by any check."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def git(*a):
    return subprocess.run(("git", "-C", "/repo") + a, check=True, stdout=subprocess.PIPE, universal_newlines=True).stdout


def main():
    every = "--all" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    if git("status", "--porcelain").strip():
        sys.exit("/repo is not clean")
    for i in ids:
        with open(os.path.join(SEEDED, i, "meta.json")) as f:
            own = json.load(f)["property"]
        git("apply", os.path.join(SEEDED, i, "patch.diff"))
        try:
            for p in ["C%02d" % k for k in range(1, 20)] if every else [own]:
                t = time.time()
                r = subprocess.run(["/opt/venv/bin/python", "check.py", p], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   universal_newlines=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                hit = r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout
                if hit or p == own:
                    print("%-34s %s %s exit %d, %.0f s  %s" % (i, own, p, r.returncode, time.time() - t,
                                                            [x[:150] for x in r.stdout.strip().split("\n")][-2:]), flush=True)
        finally:
            git("checkout", "--", ".")


main()
