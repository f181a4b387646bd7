"""Executes the same runs in several ways and compares the digests.

python tools/determinism.py [runs] [id ...]      default 24 runs of every check
Ways: 8 workers twice, 3 workers with another hash seed, 1 worker with a third one."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WAYS = [("8", "0"), ("8", "0"), ("3", "4711"), ("1", "random")]


def main():
    args = sys.argv[1:]
    runs = args.pop(0) if args and args[0].isdigit() else "24"
    bad = 0
    for p in args or ["C%02d" % k for k in range(1, 20)]:
        got = []
        for workers, hashseed in WAYS:
            with tempfile.TemporaryDirectory() as d:
                out = os.path.join(d, "digests.json")
                subprocess.run(["/opt/venv/bin/python", "check.py", p, "--runs", runs, "--workers", workers, "--seed", "5", "--digests", out], cwd=HERE,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED=hashseed))
                with open(out) as f:
                    got.append(json.load(f))
        diff = sorted(set(k for g in got[1:] for k in set(g) | set(got[0]) if g.get(k) != got[0].get(k)), key=int)
        bad += bool(diff)
        print("%s %d runs, %d ways, %s" % (p, len(got[0]), len(WAYS), "differ: %s" % diff if diff else "all digests equal"), flush=True)
    return bad


sys.exit(main())
