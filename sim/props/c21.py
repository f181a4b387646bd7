"""Diagrams, listings and statistics of published timetables."""
import ast
import datetime
import os
import re

from .. import clock, core, drivers, ref, services

ID = "C21"
PLAN = {"quick": {"runs": 240, "guard": 700}, "thorough": {"runs": 1400, "guard": 860}}
NEEDS = {"diagram compared": 0.15, "train drawn": 0.3, "list compared": 0.05, "statistics compared": 0.02, "published meanwhile": 0.1,
         "realisation other than the first": 0.05}
RULE = "one interleaving = tool, method, order of the operations of the publishing and the reading process, and who was killed where"
COMPONENTS = {
    "real": ["solutions_quantum/data4diagrams: echo_gnuplot_file.py, read_quantum_pickle.py, visualise_statistics.py, railway_lines.py, train_utils.py",
             "solve_real_problem.py with everything it imports from the repository", "pandas, numpy"],
    "simulated": ["solvers and services", "processes and their interleaving, kills", "file system operations (real files in a scratch directory)", "matplotlib (keeps what is drawn)"],
}
ASSUMPTIONS = ["kilometres of the two segments documented as meaningful, written out in the check", "the published file itself is judged by C16"]

SEGMENTS = {
    "137138GLYKZ": [("GLC", 0.0), ("ZZ", 8.18), ("RSl", 12.5), ("RCB", 15.36), ("CB", 20.94), ("KTC", 24.19), ("KO", 26.71), ("KO(STM)", 27.21), ("KZ", 29.43)],
    "138139KZTY": [("KZ", 0.0), ("KO(STM)", 2.21), ("KO", 2.71), ("Bry", 6.6), ("KL", 8.8), ("KtP", 10.47), ("Mc", 16.76), ("Ty", 19.69)],
}
UNCOUNTED = ("KO", "KO(STM)")
TOOLS = "solutions_quantum/data4diagrams/"
CONSIDERED = ["KO(STM)", "KO", "CB", "KL", "MJ"]


def gen(rng, index, tier):
    tool = rng.choice(["diagram", "diagram", "diagram", "list", "list", "statistics", "statistics"])
    names = [n for n, _ in SEGMENTS["137138GLYKZ"]] + [n for n, _ in SEGMENTS["138139KZTY"]] + ["MJ", "Gt"]
    if tool == "statistics":
        w = drivers.small(rng, rng.choice([5, 6]), n_stations=5, window=rng.choice([5, 20]), p_special=0.0)
        new = CONSIDERED[:]
    else:
        w = drivers.small(rng, rng.choice([2, 3, 4]), n_stations=rng.choice([2, 3, 4]), window=rng.choice([1, 5]), p_pair9=rng.choice([0.0, 0.9]), p_special=0.0)
        seg = rng.choice(sorted(SEGMENTS))
        new = [n for n, _ in SEGMENTS[seg]]
        if rng.random() < 0.3:
            new = sorted(set(names))
    rng.shuffle(new)
    for s, n in zip(w["stations"], new):
        s[0] = n
    method = rng.choice(["lp", "cqm", "cqm", "bqm", "sim", "real"])
    spec = {"tool": tool, "world": w, "method": method, "seed": rng.randrange(1 << 30), "runs": rng.choice([1, 2, 3]),
            "segment": seg if tool != "statistics" else "", "race": rng.choice(["none", "publish", "publish", "kill"]),
            "fixed": [t["no"] for t in w["trains"] if rng.random() < 0.2], "noise": rng.choice([0.0, 3e-7])}
    spec["realisation"] = rng.choice([0] + list(range(1, spec["runs"] + 2)))    # 0 = not given
    return spec


def hub(spec, n, ck):
    return services.SimHub(spec["seed"] + n, {"kinds": ["opt", "feas", "feas", "rand"], "rows": 3, "noise": spec["noise"]}, ck, None)


def lp_args():
    return ["--case", "0", "--solve_lp", "PULP_CBC_CMD", "--show_timetable", "1"]


def q_args(method, runs):
    return ["--case", "0", "--solve_quantum", method, "--runs", str(runs)]


def process(d, ck, *a, **k):
    sim = drivers.Simulation(d, ck)
    p = sim.add(*a, **k)
    sim.run()
    return p


def publish(spec, d, ck, n, method=None):
    """Solve and publish once; the name of the published file, or None if there was no plan."""
    method = method or spec["method"]
    if method == "lp":
        h = hub(spec, n, ck)
        p = process(d, ck, "solve_real_problem.py", lp_args(), h)
        ok = p.exit == "ok" and h.calls and "x" in h.calls[-1]
    else:
        p = process(d, ck, "solve_real_problem.py", q_args(method, spec["runs"]), hub(spec, n, ck))
        if p.exit == "ok":
            p = process(d, ck, "solve_real_problem.py", q_args(method, spec["runs"]) + ["--show_timetable", "1"], hub(spec, n, ck))
        ok = p.exit == "ok"
    names = [x for x in drivers.results(d) if x.startswith(TOOLS)]
    return names[0] if ok and len(names) == 1 else None


def execute(spec, o):
    ck = clock.SimClock()
    with drivers.scratch() as d:
        drivers.lay_out(d, real=spec["world"])
        if spec["tool"] == "statistics":
            return statistics(spec, o, d, ck)
        name = publish(spec, d, ck, 0)
        if name is None:
            o.counters["nothing published (C13, C16)"] += 1
            return
        versions = [drivers.results(d)[name]]
        rng = core.rng_for("diagram", spec["seed"])
        sim = drivers.Simulation(d, ck, rng)
        if spec["tool"] == "diagram":
            a = ["--segment", spec["segment"], name] + (["--realisation", str(spec["realisation"])] if spec["realisation"] else [])
            a += ["--fixedtrains", ",".join(map(str, spec["fixed"]))] if spec["fixed"] else []
            script = TOOLS + "echo_gnuplot_file.py"
        else:
            a, script = [name] + ([str(spec["realisation"])] if spec["method"] != "lp" else []), TOOLS + "read_quantum_pickle.py"
        p = sim.add(script, a, hub(spec, 0, ck))
        other = None
        if spec["race"] != "none":
            args = lp_args()
            if spec["method"] != "lp":
                process(d, ck, "solve_real_problem.py", q_args(spec["method"], spec["runs"]), hub(spec, 7, ck))
                args = q_args(spec["method"], spec["runs"]) + ["--show_timetable", "1"]
            faults = {}
            if spec["race"] == "kill":
                faults = {rng.randint(1, 25): ("kill", rng.choice([0.0, 0.5, 1.0]))}
            other = sim.add("solve_real_problem.py", args, hub(spec, 7, ck), faults)
        sim.run()
        after = drivers.results(d).get(name)
    if other is not None:
        o.counters["published meanwhile"] += 1
        if other.exit == "killed":
            o.faults["publishing process killed"] += 1
    if after is not None and after != versions[0]:
        versions.append(after)
        o.counters["file replaced meanwhile"] += 1
    o.evaluations += 1
    o.nontrivial = True
    out = p.out.getvalue()
    ended = p.exit if isinstance(p.exit, str) else core.describe(p.exit) if isinstance(p.exit, Exception) else "exit"
    o.order(spec["tool"], spec["method"], tuple(sim.schedule), spec["race"], other and (other.exit == "killed", other.ops))
    o.event(spec["tool"], spec["method"], ended, out, sim.schedule, core.fingerprint(b"".join(versions)))
    tables = [drivers.load(v) for v in versions]
    if any(isinstance(t, Exception) for t in tables):
        o.counters["published file unreadable (C14)"] += 1
        return
    k = spec["realisation"] or 1
    where = "%s of %s, realisation %s of %d" % (spec["tool"], name.split("/")[-1], spec["realisation"] or "not given", spec["runs"])
    if spec["method"] != "lp":
        if k > spec["runs"] or (spec["tool"] == "list" and not spec["realisation"]):
            o.counters["realisation that does not exist"] += 1
            if p.exit == "ok":
                o.fail("diagram of a realisation that does not exist", where)
            return
        tables = [t[k] for t in tables]
        if k > 1:
            o.counters["realisation other than the first"] += 1
    if p.exit != "ok":
        o.fail("not shown", "%s: %s" % (where, ended))
        return
    rail = ref.Rail(spec["world"], 1)
    if any(backwards(t, rail) for t in tables):
        o.counters["times of an infeasible plan run backwards"] += 1
        return
    if spec["tool"] == "diagram":
        wanted = [diagram(t, rail, spec) for t in tables]
        try:
            got = parse(out)
        except (ValueError, KeyError, IndexError, AttributeError) as e:
            o.fail("diagram cannot be read", "%s: %s" % (where, e))
            return
        o.counters["diagram compared"] += 1
        o.counters["train drawn"] += len(got)
    else:
        wanted = [listing(t, rail) for t in tables]
        got = parse_list(out)
        o.counters["list compared"] += 1
    if got not in wanted:
        o.fail("%s differs from the timetable" % spec["tool"], "%s: %s" % (where, first_difference(got, wanted[-1])))


def first_difference(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return "entry %d is %s instead of %s" % (i, a, b)
    return "%d entries instead of %d" % (len(got), len(want))


def times(entry, status):
    pre = "conflicted_" if status == "conflicted" else ""
    return entry.get(pre + "arrive"), entry.get(pre + "departure")


def backwards(table, rail):
    """Does an (infeasible) plan let a train arrive somewhere before it arrived at the station before?"""
    for no in table:
        a = [t for t in (times(table[no][s], "resolved")[0] for s in rail.trains[no].path) if t is not None]
        if a != sorted(a):
            return True
    return False


def diagram(table, rail, spec):
    """Lines that have to be drawn: (style, points, labels)."""
    km = {n.upper(): v for n, v in SEGMENTS[spec["segment"]]}
    out = []
    for no in table:
        route = rail.trains[no].path
        if len([s for s in route if s.upper() in km and s not in UNCOUNTED]) < 2 and no not in spec["fixed"]:
            continue
        for status, style in (("resolved", 1), ("conflicted", 2)):
            points, labels, prev = [], [], None
            for s in route:
                if s.upper() not in km:
                    continue
                x = km[s.upper()]
                arr, dep = times(table[no][s], status)
                points += [(round(x, 3), t.strftime("%H:%M")) for t in (arr, dep) if t is not None]
                if arr is not None and prev is not None:
                    labels.append((round(prev[0] + (x - prev[0]) / 2, 3), (prev[1] + (arr - prev[1]) / 2).strftime("%H:%M"), str(no)))
                if dep is not None:
                    prev = (x, dep)
            out.append((style, points, labels))
    return out


def parse(text):
    blocks = {}
    for n, body in re.findall(r"^\$(\w+) << EOD\n(.*?)^EOD$", text, re.S | re.M):
        rows = [x.split() for x in body.strip().split("\n") if x.strip()]
        if n in blocks:
            raise ValueError("data of %s given twice" % n)
        blocks[n] = [tuple([round(float(r[0]), 3)] + r[1:]) for r in rows]
    m = re.search(r"^ *plot (.*)$", text, re.M)
    out = []
    for part in (m.group(1).split(",") if m else ()):
        a = re.match(r" *\$(\w+) using 1:2 with lines .*ls (\d)", part)
        if a:
            out.append([int(a.group(2)), blocks[a.group(1)], None])
        a = re.match(r" *\$(\w+) using 1:2:3 with labels", part)
        if a:
            out[-1][2] = blocks[a.group(1)]
    return [tuple(x) for x in out]


def listing(table, rail):
    out = []
    for no in table:
        two = []
        for status in ("conflicted", "resolved"):
            two.append((status, [(s, *[str(t) if t is not None else "-" for t in times(table[no][s], status)]) for s in rail.trains[no].path]))
        out.append((str(no), sorted(two)))
    return out


def parse_list(text):
    out = []
    stamp = r"(NaT|None|\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(?:\.\d+)?)"
    for block in text.split("\n-----")[:-1]:
        no, two = None, []
        for line in block.split("\n"):
            m = re.match(r"^(\d+) / (\w+)$", line)
            if m:
                no = m.group(1)
                two.append((m.group(2), []))
                continue
            m = re.match(r"^\d+ +(.*?) +" + stamp + " +" + stamp + "$", line)
            if m and two:
                two[-1][1].append((m.group(1), *["-" if t in ("NaT", "None") else t for t in m.groups()[1:]]))
        out.append((no, sorted(two)))
    return out


# -- statistics ---------------------------------------------------------------------------

def quantile(v, q):
    v = sorted(v)
    x = (len(v) - 1) * q
    i = int(x)
    return v[i] if i + 1 == len(v) else v[i] + (v[i + 1] - v[i]) * (x - i)


def statistics(spec, o, d, ck):
    """Ten files of each kind under the names the script expects, several plans among them."""
    rng = core.rng_for("statistics", spec["seed"])
    pool = {"cqm": [], "lp": []}
    for kind in pool:
        for n in range(2):
            name = publish(spec, d, ck, n, kind)
            if name is None:
                o.counters["nothing published (C13, C16)"] += 1
                return
            path = os.path.join(d, name)
            with open(path, "rb") as f:
                pool[kind].append(f.read())
            os.remove(path)
    files = []
    for kind, form in (("cqm", "cqm5_case%d_Integer.pkl"), ("lp", "PULP_CBC_CMD_case%d_Integer.pkl")):
        for k in range(10):
            b = rng.choice(pool[kind])
            files.append((kind, drivers.load(b)))
            with open(os.path.join(d, form % k), "wb") as f:
                f.write(b)
    wanted = []
    for kind, t in files:
        at = {}
        for run in (t.values() if kind == "cqm" else [t]):
            for stations in run.values():
                for s, e in stations.items():
                    if e.get("secondary delay", "") != "":
                        at.setdefault(s, []).append(float(e["secondary delay"]))
        if any(s not in at for s in CONSIDERED):
            o.counters["no delays at a station considered"] += 1
            return
        v = [at[s] for s in CONSIDERED]
        wanted.append([[max(x) for x in v], [quantile(x, 0.75) for x in v], [sum(x) / len(x) for x in v], [quantile(x, 0.25) for x in v], [min(x) for x in v]])
    p = process(d, ck, TOOLS + "visualise_statistics.py", [], hub(spec, 0, ck))
    out = p.out.getvalue()
    o.evaluations += 1
    o.nontrivial = True
    o.event("statistics", out, p.exit if isinstance(p.exit, str) else core.describe(p.exit))
    o.order("statistics", spec["runs"], core.fingerprint(out.encode()))
    if p.exit != "ok":
        o.fail("no statistics", core.describe(p.exit))
        return
    got = []
    for block in re.split(r"^stations .*$", out, flags=re.M)[1:]:
        rows = []
        for key in ("max delay", "quantile 75", "mean", "quantile 25", "min"):
            m = re.search(r"^%s (\[.*\])$" % key, block, re.M)
            rows.append(ast.literal_eval(m.group(1)) if m else None)
        got.append(rows)
    o.counters["statistics compared"] += 1
    if len(got) != len(wanted):
        o.fail("statistics", "%d tables instead of %d" % (len(got), len(wanted)))
        return
    for i, (a, b) in enumerate(zip(got, wanted)):
        for row, want in zip(a, b):
            if row is None or len(row) != len(want) or any(abs(x - y) > 1e-6 for x, y in zip(row, want)):
                o.fail("statistics", "table %d: %s instead of %s" % (i, row, want))
                return
    for i, want in enumerate(wanted):
        if i % 10 in (0, 4, 7):
            name = "%sstatistics_case%d.pdf" % ("classical_" if i >= 10 else "", i % 10)
            figs = [[c for calls in ax for c in calls] for n, ax in p.figures if n == name]
            o.counters["figure of statistics"] += 1
            if len(figs) != 1 or not drawn(figs[0], want):
                o.fail("figure of statistics", "%s: %s does not show %s" % (name, figs, want))
                return


def near(a, b):
    return len(a) == len(b) and all(abs(float(x) - float(y)) <= 1e-6 for x, y in zip(a, b))


def drawn(calls, want):
    """Bars from the least to the largest delay through the mean, and both quantiles."""
    largest, q75, mean, q25, least = want
    calls = [(n, a, k) for n, a, k in calls if n in ("plot", "errorbar") and len(a) >= 2 and list(a[0]) == CONSIDERED]
    bars = any(n == "errorbar" and near(a[1], mean) and near(k["yerr"][0], [x - y for x, y in zip(mean, least)])
               and near(k["yerr"][1], [x - y for x, y in zip(largest, mean)]) for n, a, k in calls)
    left = [a[1] for n, a, k in calls if n == "plot"]
    for q in (q25, q75):
        hit = next((y for y in left if near(y, q)), None)
        if hit is None:
            return False
        left.remove(hit)
    return bars


def shrink(spec):
    if spec["race"] != "none":
        yield dict(spec, race="none")
    if spec["noise"]:
        yield dict(spec, noise=0.0)
    if spec["runs"] > 1:
        yield dict(spec, runs=spec["runs"] - 1)
    if spec["fixed"]:
        yield dict(spec, fixed=[])
    t = spec["world"]["trains"]
    for i in range(len(t)):
        if len(t) > 1:
            yield dict(spec, world=dict(spec["world"], trains=t[:i] + t[i + 1:]))
