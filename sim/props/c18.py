"""Input files read intact, and input files damaged in ways that can be noticed."""
import os

from .. import clock, core, disk, drivers, ref, services, world as W

ID = "C18"
PLAN = {"quick": {"runs": 1400, "guard": 700}, "thorough": {"runs": 4000, "guard": 860}}
NEEDS = {"intact": 0.1, "broken": 0.5, "damaged but connected": 0.03, "table compared": 0.15, "continuity asked": 2, "damage: heading": 0.05}
RULE = "one interleaving = kind of damage, its place in the listing (which row of the train, which train) and the stage that noticed"
COMPONENTS = {
    "real": ["solve_real_problem.py with everything it imports from the repository, reading real files"],
    "simulated": ["damage of the files, failing reads (sim/disk.py)", "LP solver, clock, libraries of sim/stubs", "railways and timetables"],
}
ASSUMPTIONS = ["a cut between the listings of two trains leaves a valid file of fewer trains and cannot be noticed"]

DAMAGE = ["none", "none", "cut row", "cut row", "cut byte", "lost row", "lost row", "twice", "swapped", "letter", "other block", "blank",
          "network row", "read error", "meeting", "heading", "heading"]


def gen(rng, index, tier):
    if index < 7:
        # the shipped files, intact
        return {"kind": "shipped", "key": sorted(W.SHIPPED)[index]}
    damage = rng.choice(DAMAGE)
    over = {}
    if damage == "meeting":
        over = dict(p_pair9=1.0, p_outer=0.0, n_trains=4)
    w = drivers.small(rng, over.pop("n_trains", rng.choice([1, 2, 3, 4])), max_blocks=rng.choice([1, 2, 4]), numbers=rng.choice(["related", "plain", "big"]), **over)
    return {"kind": "world", "world": w, "damage": damage, "at": [rng.random() for _ in range(4)]}


# -- damage -------------------------------------------------------------------------

def listing_rows(rows):
    """(train position, role) of every row; roles: head, type, number, name, from, block, to."""
    out = []
    t, n = -1, 0
    for r in rows:
        if r[0] == "####":
            t, n = t + 1, 0
        role = ("head", "type", "number", "name", "from")[n] if n < 5 else "to" if r[0][:2] in ("to", "te") else "block"
        out.append((t, role))
        n += 1
    return out


def pick(seq, x):
    return seq[int(x * len(seq))] if seq else None


def apply(spec):
    """-> (csv text, net, description, broken, world as listed in the damaged file or None)

    broken: the listing of some train is cut off, or cannot be driven, or stock cannot be handed over.
    """
    w = spec["world"]
    d, at = spec["damage"], spec["at"]
    rows = W.csv_rows(w)
    net = list(w["net"])
    roles = listing_rows(rows)
    blocks = [i for i, (_, r) in enumerate(roles) if r == "block"]
    text = None
    desc = d
    trains = [dict(t, rows=[list(r) for r in t["rows"]]) for t in w["trains"]]
    where = {}                  # row index -> (train position, row position)
    for i in blocks:
        where[i] = (roles[i][0], i - min(k for k in blocks if roles[k][0] == roles[i][0]))
    if d in ("cut row", "cut byte"):
        inside = [i for i, (_, r) in enumerate(roles) if r in ("name", "from", "block", "to")]
        i = pick(inside, at[0])         # first row that is not completely there
        text = W.csv_text(rows[:i])
        desc = "%s before row %s of train %s" % (d, roles[i][1], w["trains"][roles[i][0]]["no"])
        if d == "cut byte":
            full = W.csv_text(rows[:i + 1])
            tail = full[len(text):]
            keep = int(at[1] * (len(tail) - 1))
            if roles[i][1] == "to":
                keep = min(keep, 1)
            text += tail[:keep]
            desc += ", %d characters kept" % keep
        return text, net, desc, True, None
    if d == "heading":
        i = pick([i for i, (_, r) in enumerate(roles) if r in ("number", "from", "to")], at[0])
        no = w["trains"][roles[i][0]]["no"]
        if at[1] < 0.5 or roles[i][1] == "to":
            desc = "heading: %s row of train %s lost" % (roles[i][1], no)
            del rows[i]
        else:
            desc = "heading: %s row of train %s damaged" % (roles[i][1], no)
            x = rows[i][0]
            k = int(at[2] * min(4, len(x)))
            rows[i] = [x[:k] + "#" + x[k + 1:]] + rows[i][1:]
        return W.csv_text(rows), net, desc, True, None
    if d in ("lost row", "twice", "letter", "other block", "blank", "swapped"):
        i = pick(blocks, at[0])
        t, k = where[i]
        r = trains[t]["rows"]
        desc = "%s: row %d of %d of train %s" % (d, k, len(r), trains[t]["no"])
        if d == "lost row":
            del r[k]
        elif d == "twice":
            r.insert(k, list(r[k]))
        elif d == "letter":
            b = r[k][0]
            j = 1 + int(at[1] * (len(b) - 2))
            r[k][0] = b[:j] + ("#" if b[j] != "#" else "@") + b[j + 1:]
        elif d == "other block":
            every = sorted({x for n in net for x in n[:2]} - {r[k][0]})
            r[k][0] = pick(every, at[1])
        elif d == "blank":
            r[k] = ["", "", None, None, None, None]
        elif d == "swapped" and k + 1 < len(r):
            r[k], r[k + 1] = r[k + 1], r[k]
    elif d == "network row":
        used = sorted({frozenset((a[0], b[0])) for t in trains for a, b in zip(t["rows"], t["rows"][1:])}, key=sorted)
        row = pick(used, at[0])
        net = [n for n in net if frozenset(n[:2]) != row]
        desc = "network row %s lost" % sorted(row)
    elif d == "meeting":
        # a train of a pair does not reach the block where its stock changes the number
        nos = {t["no"]: t for t in trains}
        ends = []
        for n in sorted(nos):
            m = nos.get(n * 10 + 9)
            if m is None:
                continue
            a = nos[n]
            if a["rows"][0][0] == m["rows"][-1][0]:
                ends += [(a, 0), (m, -1)]
            elif m["rows"][0][0] == a["rows"][-1][0]:
                ends += [(m, 0), (a, -1)]
        e = pick(ends, at[0])
        if e is None or len(e[0]["rows"]) < 4:
            desc = "none"
        else:
            desc = "meeting: %s row of train %s lost" % ("first" if e[1] == 0 else "last", e[0]["no"])
            del e[0]["rows"][e[1]]
    known = {frozenset(n[:2]) for n in net}
    broken = not drivable(trains, known)
    stock = meet(trains)
    damaged = {"trains": trains, "stations": w["stations"], "net": net, "tref": w["tref"]}
    return W.csv_text(W.csv_rows(damaged)), net, desc, broken or not stock, None if broken else damaged


def drivable(trains, known):
    return all(frozenset((a[0], b[0])) in known for t in trains for a, b in zip(t["rows"], t["rows"][1:])) and all(t["rows"] for t in trains)


def meet(trains):
    nos = {t["no"]: [r[0] for r in t["rows"]] for t in trains}
    for n, b in nos.items():
        m = nos.get(n * 10 + 9)
        if m and b and m[0] != b[-1] and b[0] != m[-1]:
            return False
    return True


# -- execution ------------------------------------------------------------------------

def execute(spec, o):
    if spec["kind"] == "shipped":
        shipped(spec, o)
        return
    text, net, desc, broken, listed = apply(spec)
    w = dict(spec["world"], net=net)
    ck = clock.SimClock()
    faults = {}
    if spec["damage"] == "read error":
        faults = {int(spec["at"][0] * 3): ("eio", spec["at"][1])}
    with drivers.scratch() as d:
        drivers.lay_out(d, real=w)
        with disk._open(os.path.join(d, "data/trains_schedules.csv"), "w", encoding="utf-8") as f:
            f.write(text)
        sim = drivers.Simulation(d, ck)
        p = sim.add("solve_real_problem.py", ["--case", "0", "--solve_lp", "PULP_CBC_CMD", "--show_timetable", "1"],
                    services.SimHub(1, {}, ck, None), faults=faults)
        sim.run()
        files = drivers.results(d)
    ended = p.exit if isinstance(p.exit, str) else core.describe(p.exit)
    hit = bool(p.hit)
    o.event(desc, broken, ended, sorted(files))
    o.evaluations += 1
    o.nontrivial = True
    (o.counters if desc.startswith("none") else o.faults)["damage: " + desc.split(":")[0].split(" before")[0].split(" '")[0].split(" [")[0]] += 1
    stage = "ran" if p.exit == "ok" else ended.split("(")[-1]
    o.order(spec["damage"], desc.split(",")[0], stage, broken)
    continuity(spec, o, text, net, listed)
    if o.violations:
        return
    if hit:
        o.counters["read failed"] += 1
        if p.exit == "ok":
            o.fail("read error passed over", "%s at %s" % (p.hit, desc))
        elif set(files) - {"update_tables.pkl"}:
            o.fail("plan in spite of a read error", "%s: %s" % (p.hit, sorted(files)))
        return
    if broken:
        o.counters["broken"] += 1
        if p.exit == "ok" or p.problems:
            o.fail("damaged timetable was prepared", "%s: run ended %s, files %s" % (desc, ended, sorted(files)))
        elif set(files) - {"update_tables.pkl"} or files and listed is None:
            o.fail("files of a damaged timetable", "%s: %s" % (desc, sorted(files)))
        return
    o.counters["intact" if spec["damage"] == "none" or desc == "none" else "damaged but connected"] += 1
    if p.exit != "ok" and "update_tables.pkl" not in files:
        o.fail("readable timetable refused", "%s: %s" % (desc, ended))
        return
    table = drivers.load(files.get("update_tables.pkl", b""))
    if isinstance(table, Exception):
        o.fail("prepared table", "%s: cannot be read: %s" % (desc, table))
        return
    compare(o, desc, table, listed)


def text_of(x):
    return "" if x is None or x != x else str(x)


def compare(o, desc, table, w):
    """The prepared table against the file, row by row."""
    o.counters["table compared"] += 1
    last = {t["no"]: t for t in w["trains"]}
    if set(table) != set(last):
        o.fail("trains lost or added", "%s: %s instead of %s" % (desc, sorted(table), sorted(last)))
        return
    rail = None
    for no, t in last.items():
        info, df = table[no]
        o.evaluations += 1
        if [str(x) for x in info] != [t["type"], t["name"], t["frm"], t["to"]]:
            o.fail("heading of a train", "%s: train %s: %s instead of %s" % (desc, no, info, [t["type"], t["name"], t["frm"], t["to"]]))
            return
        if len(df) != len(t["rows"]):
            o.fail("rows of a train", "%s: train %s: %d instead of %d" % (desc, no, len(df), len(t["rows"])))
            return
        for col, k in (("path", 0), ("speed", 1), ("Arr", 2), ("Dep", 3), ("Approx_enter", 4)):
            got = [text_of(x) for x in df[col].tolist()]
            want = [text_of(r[k]) for r in t["rows"]]
            if got != want:
                o.fail("column of a train", "%s: train %s, %s: %s instead of %s" % (desc, no, col, got, want))
                return
        got = [None if x != x else float(x) for x in df["Turnaround_time_minutes"].tolist()]
        want = [None if r[5] is None else float(r[5]) for r in t["rows"]]
        if got != want:
            o.fail("column of a train", "%s: train %s, turnaround: %s instead of %s" % (desc, no, got, want))
            return
        rail = rail or times(w)
        got = [None if x != x else float(x) for x in df["passing_time"].tolist()]
        if got != rail(t):
            o.fail("passing times", "%s: train %s: %s instead of %s" % (desc, no, got, rail(t)))
            return
        st = {}
        for name, bl in w["stations"]:
            for b in bl:
                st.setdefault(b, name)
        got = [None if x != x else str(x) for x in df["important_station"].tolist()]
        want = [st.get(r[0]) for r in t["rows"]]
        if got != want:
            o.fail("stations of a train", "%s: train %s: %s instead of %s" % (desc, no, got, want))
            return


def times(w):
    rows = {}
    for n in w["net"]:
        rows.setdefault(frozenset(n[:2]), n)

    def f(t):
        out = []
        for r, q in zip(t["rows"], t["rows"][1:]):
            n = rows[frozenset((r[0], q[0]))]
            ab = n[0] == r[0]
            out.append((n[4] if ab else n[6]) if r[1] == "R" else (n[3] if ab else n[5]))
        return out + [None]
    return f


def continuity(spec, o, text, net, listed):
    """The repository's own check of a path against the network."""
    import pandas as pd
    from data_formatting.data_formatting import check_path_continuity
    frame = pd.DataFrame([n[:2] for n in net], columns=["previous_block", "next_block"])
    known = {frozenset(n[:2]) for n in net}
    trains = [dict(t, rows=[list(r) for r in t["rows"]]) for t in spec["world"]["trains"]]
    if listed is None and spec["damage"] not in ("cut row", "cut byte", "blank", "heading"):
        trains = broken_trains(spec) or trains
    for t in trains:
        path = [r[0] for r in t["rows"]]
        want = all(frozenset(x) in known and x[0] != x[1] for x in zip(path, path[1:]))
        try:
            with core.quiet():
                check_path_continuity(pd.Series(path), frame)
            got = True
        except AssertionError:
            got = False
        o.evaluations += 1
        o.counters["continuity asked"] += 1
        if got != want:
            o.fail("continuity check", "train %s with damage %s: %s instead of %s for %s" % (t["no"], spec["damage"], got, want, path))
            return


def broken_trains(spec):
    """Trains of the damaged file, where it still has complete listings."""
    rows = []
    for line in W.csv.reader(apply(spec)[0].splitlines()[1:], delimiter=";"):
        rows.append(line)
    out = []
    for i, r in enumerate(rows):
        if r[0].isdigit():
            k = i + 3
            body = []
            while k < len(rows) and rows[k][0][:2] not in ("to", "te"):
                body.append([rows[k][0]])
                k += 1
            out.append({"no": int(r[0]), "rows": body})
    return out


def shipped(spec, o):
    """The shipped files are read completely."""
    import helpers as h
    p = W.shipped_paths(spec["key"], core.REPO)
    w = W.read_files(*p, "16:00")
    with core.quiet():
        net = h.load_data_paths(p[1])
        st = h.load_important_stations(p[2])
        table = h.build_timetables(p[0], False, st, net)
    o.nontrivial = True
    o.counters["intact"] += 1
    o.order("shipped", spec["key"])
    o.event("shipped", spec["key"], sorted(table))
    nos = [t["no"] for t in w["trains"]]
    known = core.known_findings()
    for n in sorted(set(nos)):
        if nos.count(n) > 1:
            key = "%s-%d" % (spec["key"], n)
            if (ID, key) in known:
                o.finding(key, "two trains %d in %s" % (n, p[0]))
            else:
                o.fail("train lost", "%s lists %d trains with number %d" % (p[0], nos.count(n), n))
                return
    compare(o, spec["key"], table, w)


def shrink(spec):
    if spec["kind"] != "world":
        return
    t = spec["world"]["trains"]
    for i in range(len(t)):
        if len(t) > 1:
            yield dict(spec, world=dict(spec["world"], trains=t[:i] + t[i + 1:]))
    for k in range(len(spec["at"])):
        if spec["at"][k] > 0.01:
            a = list(spec["at"])
            a[k] = round(a[k] / 2, 3)
            yield dict(spec, at=a)
