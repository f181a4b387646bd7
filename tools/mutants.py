"""Small changes of the repository's code, made automatically, against the checks.

    tools/mutants.py FILE... [--limit N] [--seed S] [--workers W] [--checks C01,C02] [--lines A-B] [--out LOG]

FILE is relative to the repository.  Each change is made in a copy of /repo in a scratch
directory; changes the repository's own tests notice are left out.  A change counts as
noticed when a check reports a violation; what remains is printed for reading (many of
them change nothing that can be observed).
"""
import argparse
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable
RAIL = [("C06", 40), ("C03", 40), ("C04", 30), ("C01", 30), ("C02", 30), ("C05", 30)]
ANSWERS = [("C09", 60), ("C10", 60), ("C12", 60), ("C11", 60), ("C08", 60), ("C17", 60)]
FILES = [("C16", 80), ("C13", 9), ("C14", 12), ("C15", 24), ("C07", 24)]
DATA = [("C18", 150), ("C19", 25)]
BATTERY = {
    "linear_solver.py": RAIL + [("C08", 40), ("C20", 20)], "helpers_functions.py": RAIL + [("C16", 60), ("C20", 20)],
    "results_manipulation.py": ANSWERS + [("C16", 60)], "converter_bqm.py": ANSWERS, "converter_cqm.py": ANSWERS, "d_wave_solves.py": ANSWERS,
    "helpers.py": [("C16", 80), ("C06", 30), ("C08", 60)] + ANSWERS + FILES[1:] + DATA + RAIL[1:], "make_J_taus.py": RAIL + DATA,
    "utils.py": RAIL + DATA + [("C08", 60)], "scheduling_tools.py": [("C08", 80), ("C07", 40)] + RAIL + DATA,
    "new_time_tables.py": DATA + RAIL, "time_table_check.py": DATA + RAIL,
    "make_switch_set.py": RAIL + DATA,
    "solve_KO_GLC_problems.py": FILES + [("C17", 60), ("C19", 25)], "solve_real_problem.py": FILES + [("C17", 60), ("C08", 60)],
    "wisla_problems.py": [("C20", 40), ("C17", 60)] + FILES,
}
BATTERY.update((n, [("C21", 60)]) for n in ("train_utils.py", "railway_lines.py", "echo_gnuplot_file.py", "read_quantum_pickle.py", "visualise_statistics.py"))
BATTERY.update((n, [("C22", 12)]) for n in ("fast_plot.py", "fast_plot_lim.py", "tmin_plot.py", "tmin_plot_rev.py"))
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in"}
TEXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in",
        ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutations(src):
    """(start, end, replacement, line) for every change."""
    tree = ast.parse(src)
    lines = src.split("\n")
    start = [0]
    for x in lines:
        start.append(start[-1] + len(x) + 1)

    def pos(line, col):
        return start[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def between(a, b, old, new, line):
        i = src.find(old, a, b)
        if i >= 0:
            out.append((i, i + len(old), new, line))

    data = {id(c) for n in ast.walk(tree) if isinstance(n, (ast.Dict, ast.List, ast.Tuple)) for c in ast.iter_child_nodes(n)}
    for n in ast.walk(tree):
        if id(n) in data and isinstance(n, ast.Constant):
            continue                # a number of an experiment, nothing to compare it with
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                if type(op) in SWAP:
                    between(span(left)[1], span(right)[0], TEXT[type(op)], SWAP[type(op)], n.lineno)
                left = right
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH:
            between(span(n.left)[1], span(n.right)[0], TEXT[type(n.op)], ARITH[type(n.op)], n.lineno)
        elif isinstance(n, ast.AugAssign) and type(n.op) in ARITH:
            between(span(n.target)[1], span(n.value)[0], TEXT[type(n.op)], ARITH[type(n.op)], n.lineno)
        elif isinstance(n, ast.BoolOp):
            old, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(span(n.values[0])[1], span(n.values[1])[0], old, new, n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            out.append((a, span(n.operand)[0], "", n.lineno))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, b = span(n)
            out.append((a, b, repr(n.value + 1), n.lineno))
            if n.value:
                out.append((a, b, repr(n.value - 1), n.lineno))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = span(n)
            out.append((a, b, repr(not n.value), n.lineno))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = span(n.test)
            out.append((a, b, "True", n.lineno))
            out.append((a, b, "False", n.lineno))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Assert, ast.Raise)):
            a, b = span(n)
            if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or src[a:b].startswith("print(")):
                continue
            out.append((a, b, "pass", n.lineno))
        elif isinstance(n, ast.Name) and n.id in ("max", "min"):
            a, b = span(n)
            out.append((a, b, "min" if n.id == "max" else "max", n.lineno))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and all(isinstance(x, ast.Name) for x in n.args[-2:]):
            (a, b), (c, d) = span(n.args[-2]), span(n.args[-1])
            out.append((a, d, src[c:d] + src[b:c] + src[a:b], n.lineno))
    return sorted(set(out))


RUN = '''
import sys
sys.path.insert(0, %r)
from sim import core
core.setup_paths()
pid, n = sys.argv[1], int(sys.argv[2])
prop = core.load_prop(pid)
known = core.known_findings()
tot = {}
for i in range(n):
    r = core._work((pid, 1, i, "quick"))
    if r.get("error"):
        print("ERROR", i, r["error"].strip().splitlines()[-1][:150]); sys.exit(3)
    if r["violations"]:
        print("VIOLATION", i, r["violations"][0]["kind"]); sys.exit(1)
    new = [f["key"] for f in r["findings"] if (pid, f["key"]) not in known]
    if new:
        print("VIOLATION", i, new[0]); sys.exit(1)
    for k, v in list(r["counters"].items()) + list(r["faults"].items()):
        tot[k] = tot.get(k, 0) + v
low = [k for k, v in getattr(prop, "NEEDS", {}).items() if tot.get(k, 0) < v * n * 0.3]
print("QUIET", ("coverage low: %%s" %% low) if low else "")
'''


def one(job):
    rel, k, m, src, checks = job
    a, b, new, line = m
    what = "%s:%d  %r -> %r" % (rel, line, src[a:b][:70], new[:70])
    with tempfile.TemporaryDirectory(dir=SCRATCH) as d:
        r = os.path.join(d, "repo")
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        changed = src[:a] + new + src[b:]
        try:
            compile(changed, rel, "exec")
        except SyntaxError:
            return "not python", what, ""
        with open(os.path.join(r, rel), "w", newline="") as f:
            f.write(changed)
        env = dict(os.environ, VERIF_REPO=r, PYTHONDONTWRITEBYTECODE="1", TMPDIR=d)
        if rel.startswith("data_formatting/"):
            t = subprocess.run(["timeout", "200", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=os.path.join(r, "data_formatting"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(env, PYTHONPATH=""))
            if t.returncode:
                return "tests", what, ""
        notes = []
        for pid, n in checks:
            t = subprocess.run(["timeout", "400", PY, "-c", RUN % HERE, pid, str(n)], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            said = (t.stdout.decode(errors="replace").strip().splitlines() or [""])[-1]
            if t.returncode == 1 and said.startswith("VIOLATION"):
                return "noticed", what, pid + " " + said
            if t.returncode != 0:
                notes.append("%s exit %d %s" % (pid, t.returncode, said[:160]))
            elif "low" in said:
                notes.append(pid + " " + said)
        return ("survived" if not any("exit" in x for x in notes) else "unclear"), what, "; ".join(notes)


def main():
    global SCRATCH
    p = argparse.ArgumentParser()
    p.add_argument("files", nargs="+")
    p.add_argument("--limit", type=int, default=0)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--workers", type=int, default=8)
    p.add_argument("--checks")
    p.add_argument("--lines")
    p.add_argument("--out")
    a = p.parse_args()
    jobs = []
    for rel in a.files:
        with open(os.path.join(REPO, rel), newline="") as f:
            src = f.read()
        ms = mutations(src)
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            ms = [m for m in ms if lo <= m[3] <= hi]
        checks = [(c, dict(RAIL + ANSWERS + FILES + DATA + [("C20", 40)])[c]) for c in a.checks.split(",")] if a.checks else BATTERY[os.path.basename(rel)]
        jobs += [(rel, k, m, src, checks) for k, m in enumerate(ms)]
    random.Random(a.seed).shuffle(jobs)
    if a.limit:
        jobs = jobs[:a.limit]
    SCRATCH = tempfile.mkdtemp()
    tally = {}
    log = open(a.out, "w") if a.out else sys.stdout
    try:
        with multiprocessing.Pool(a.workers) as pool:
            for kind, what, note in pool.imap_unordered(one, jobs):
                tally[kind] = tally.get(kind, 0) + 1
                print("%-9s %s   %s" % (kind, what, note), file=log, flush=True)
    finally:
        shutil.rmtree(SCRATCH)
        print(json.dumps(tally), file=log, flush=True)


if __name__ == "__main__":
    main()
