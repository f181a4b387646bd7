"""Synthetic railways: generation from a seeded generator, and files for the real code.

A world is plain JSON data:
  stations  [[name, [track block, ...]], ...]            order = order in the station file
  net       [[prev, next, switches, ic_ab, r_ab, ic_ba, r_ba], ...]
  trains    [{no, type, name, frm, to, rows: [[block, speed, arr, dep, approx, turn], ...]}, ...]
  tref      "HH:MM"
"""
import csv
import io
import os
import zipfile
from xml.sax.saxutils import escape

import numpy as np

TYPES = ["KS - Os", "PR - R", "KS - OsP", "IC - TLK", "IC - IC", "IC - EIP", "IC - EIC"]

# station name pools; some pairs of names have a special meaning in the rules
PLAIN = ["A", "B", "C", "D", "E", "AB", "Ty", "TyM", "Mi", "GLC", "ZZ", "RCB", "KL"]
SPECIAL = ["KO", "KO(STM)", "KO(IC)", "KO(KS)", "KZ", "CB", "CM"]


def hhmm(minute):
    minute = int(minute) % 1440
    return "%02d:%02d" % (minute // 60, minute % 60)


def minutes(text):
    h, m = text.split(":")
    return int(h) * 60 + int(m)


class Options(dict):
    """Generation knobs, drawn per run (swarm) and stored in the replay."""
    __getattr__ = dict.__getitem__


def draw_options(rng, **over):
    o = Options(
        n_stations=rng.choice([2, 2, 3, 3, 4, 5]),
        n_trains=rng.choice([2, 3, 4, 5, 6, 7]),
        p_single=rng.choice([0.0, 0.3, 0.7, 1.0]),
        p_third=rng.choice([0.0, 0.3]),
        max_blocks=rng.choice([1, 2, 3, 5]),
        p_zero_blocks=rng.choice([0.0, 0.0, 0.25]),
        tracks=rng.choice([1, 2, 2, 3]),
        p_wrong_track=rng.choice([0.0, 0.15, 0.4]),
        switch_pool=rng.choice([2, 4, 8]),
        p_special=rng.choice([0.0, 0.4, 0.9]),
        p_pair9=rng.choice([0.0, 0.3, 0.8]),
        p_turn_mid=rng.choice([0.0, 0.3]),
        p_turn_first=rng.choice([0.0, 0.3]),
        p_outer=rng.choice([0.0, 0.3, 0.6]),
        p_dep=rng.choice([0.3, 0.7, 1.0]),
        p_first_dep=rng.choice([0.4, 0.8, 1.0]),
        p_mixed_speed=rng.choice([0.0, 0.2]),
        grid=rng.choice([1, 2, 4]),
        window=rng.choice([10, 40, 120]),
        numbers=rng.choice(["plain", "related", "related", "big"]),
        same_od=rng.choice([0.0, 0.4, 0.8]),
    )
    o.update(over)
    return o


class _Gen:
    def __init__(self, rng, opt):
        self.rng = rng
        self.o = opt
        self.net = []
        self.rows = set()
        self.stations = {}
        self.edges = {}   # (a, b) a<b by index -> list of tracks, each list of blocks a->b
        self.adj = {}
        self.outer = {}

    # -- infrastructure ---------------------------------------------------
    def time(self, lo=1, hi=16):
        return self.rng.randint(lo, hi) * (4 // self.o.grid) / 4.0 if self.o.grid < 4 else self.rng.randint(lo, hi) / 4.0

    def connect(self, a, b, switches):
        key = frozenset((a, b))
        if key in self.rows:
            return
        self.rows.add(key)
        t = [self.time(1, 16 if self.o.grid == 4 else (8 if self.o.grid == 2 else 4)) for _ in range(4)]
        if self.rng.random() < 0.3:
            t = [t[0]] * 4
        if self.rng.random() < 0.5:
            a, b = b, a
        self.net.append([a, b, switches] + t)

    def switch_cell(self, pool):
        r = self.rng
        n = r.choice([1, 1, 2, 2, 3])
        ids = r.sample(pool, min(n, len(pool)))
        form = r.random()
        if len(ids) == 1:
            if form < 0.35:
                return ids[0]              # an integer cell
            return str(ids[0])
        if len(ids) == 2 and form < 0.3 and ids[1] % 10 != 0:
            return float("%d.%d" % (ids[0], ids[1]))   # "4,7" typed as a decimal number
        return ",".join(map(str, ids))

    def build(self):
        r, o = self.rng, self.o
        names = []
        pool_plain = PLAIN[:]
        r.shuffle(pool_plain)
        if r.random() < o.p_special:
            sp = r.choice([["KO(STM)", "KO"], ["KO", "KO(STM)"], ["KO(STM)", "KZ"], ["CB", "CM"], ["KO(IC)", "KO"],
                           ["KO(KS)", "KO(STM)"], ["KZ", "KO(STM)"], ["KO(IC)", "KO(STM)"], ["CM", "CB"],
                           ["KTC-CB", "via Gt"], ["via Gt", "KTC-CB"]])
            names = sp[:o.n_stations]
            if o.n_stations >= 3 and r.random() < 0.6:
                more = [x for x in SPECIAL if x not in names]
                names.append(r.choice(more))
        while len(names) < o.n_stations:
            names.append(pool_plain.pop())
        self.names = names
        swbase = 1
        for i, n in enumerate(names):
            k = r.randint(1, o.tracks)
            blocks = []
            for t in range(k):
                kind = "ST"
                no = t + 1
                if n == "KO(STM)":
                    kind, no = "ST-M", r.choice([1113, 1114, 1118, 901 + t]) if r.random() < 0.5 else 901 + t
                b = '"%s", "%s", %d, "(%d)"' % ("KO" if n == "KO(STM)" else n, kind, no, t + 1)
                if no > 1000:
                    b = '"KO", "ST-M", %d, "(N/A)"' % no
                if b not in blocks:
                    blocks.append(b)
            self.stations[n] = blocks
            self.adj[n] = []
        pools = {}
        for n in names:
            size = o.switch_pool
            pools[n] = [swbase + x for x in range(size)]
            swbase += size if r.random() < 0.7 else 0    # ids may repeat at other stations
        order = names[:]
        for i in range(1, len(order)):
            a = order[i - 1] if r.random() < 0.7 or i == 1 else r.choice(order[:i])
            b = order[i]
            self.adj[a].append(b)
            self.adj[b].append(a)
            self.edges[(a, b)] = tracks = []
            if r.random() < o.p_zero_blocks:
                tracks.append([])
                for x in self.stations[a]:
                    for y in self.stations[b]:
                        self.connect(x, y, self.switch_cell(pools[a] if r.random() < 0.5 else pools[b]))
                continue
            nt = 1 if r.random() < o.p_single else (3 if r.random() < o.p_third else 2)
            for t in range(nt):
                nb = r.randint(1, o.max_blocks)
                blocks = ['"%s-%s-%d", "SBL", %d, "%d", "(%d)"' % (a, b, x + 1, t + 1, x + 1, nb) for x in range(nb)]
                tracks.append(blocks)
                for x in self.stations[a]:
                    self.connect(x, blocks[0], self.switch_cell(pools[a]))
                for x, y in zip(blocks, blocks[1:]):
                    self.connect(x, y, None)
                for y in self.stations[b]:
                    self.connect(blocks[-1], y, self.switch_cell(pools[b]))
        for n in names:
            k = r.choice([0, 1, 2])
            blocks = ['"%s-X-%d", "SBL", 1, "%d", "(%d)"' % (n, x, x, k) for x in range(k)]
            self.outer[n] = blocks
            if blocks:
                for x in self.stations[n]:
                    self.connect(x, blocks[0], self.switch_cell(pools[n]) if r.random() < 0.5 else None)
                for x, y in zip(blocks, blocks[1:]):
                    self.connect(x, y, None)

    def tracks_between(self, a, b):
        if (a, b) in self.edges:
            return [list(t) for t in self.edges[(a, b)]], 0
        return [list(reversed(t)) for t in self.edges[(b, a)]], 1

    # -- trains -----------------------------------------------------------
    def simple_path(self, start, length):
        path = [start]
        while len(path) < length:
            nxt = [x for x in self.adj[path[-1]] if x not in path]
            if not nxt:
                break
            path.append(self.rng.choice(nxt))
        return path

    def path_blocks(self, path, first_track=None, last_track=None, lead=False, tail=False, tracks=None):
        r, o = self.rng, self.o
        out = []
        if lead:
            out += list(reversed(self.outer[path[0]]))
        for i, s in enumerate(path):
            if i == 0 and first_track:
                tb = first_track
            elif i == len(path) - 1 and last_track:
                tb = last_track
            elif tracks and tracks.get(s):
                tb = tracks[s]
            else:
                tb = r.choice(self.stations[s])
            out.append(tb)
            if i + 1 < len(path):
                ts, d = self.tracks_between(s, path[i + 1])
                if len(ts) == 1:
                    out += ts[0]
                else:
                    pick = d if r.random() >= o.p_wrong_track else r.randrange(len(ts))
                    out += ts[min(pick, len(ts) - 1)]
        if tail:
            out += self.outer[path[-1]]
        return out

    def number(self, used):
        r = self.rng
        for _ in range(200):
            mode = self.o.numbers
            if mode == "plain":
                n = r.randint(1, 60)
            elif mode == "big":
                n = r.randint(10000, 99999)
            else:
                if used and r.random() < 0.7:
                    b = r.choice(sorted(used))
                    n = r.choice([int("%d%d" % (r.randint(1, 9), b)), int("%d%d" % (b, r.randint(0, 8))),
                                  int("%d0%d" % (r.randint(1, 9), b)), b + 1, b // 10 or 7])
                else:
                    n = r.choice([1, 3, 5, 11, 21, 101, 401, 6401, 4602, 14006, 94766, 4006, r.randint(1, 9999)])
            if n > 10 ** 7 or n <= 0 or n in used:
                continue
            if n % 10 == 9 and n // 10 in used or n * 10 + 9 in used:
                continue
            return n
        n = 200
        while n in used or n * 10 + 9 in used or (n % 10 == 9 and n // 10 in used):
            n += 1
        return n

    def rows_for(self, blocks, start, base_speed, turn_first=None):
        """Table rows with plausible times; start in minutes of day."""
        r, o = self.rng, self.o
        st = {b: n for n, bl in self.stations.items() for b in bl}
        rows = []
        t = float(start)
        first = True
        for i, b in enumerate(blocks):
            sp = base_speed if r.random() >= o.p_mixed_speed else r.choice(["R", "IC"])
            arr = dep = approx = turn = None
            if b in st:
                if first:
                    x = r.random()
                    if x < o.p_first_dep:
                        dep = hhmm(t)
                    elif x < o.p_first_dep + 0.7 * (1 - o.p_first_dep):
                        approx = hhmm(t)
                    if r.random() < 0.3:
                        arr = hhmm(t - 1)
                    if turn_first is not None:
                        turn = turn_first
                    elif r.random() < o.p_turn_first:
                        turn = r.randint(1, 8)
                else:
                    if r.random() < 0.5:
                        arr = hhmm(t)
                    if i + 1 < len(blocks) and r.random() < o.p_dep:
                        t += r.choice([0, 0, 1, 2, 5, 9])
                        dep = hhmm(t)
                    if i + 1 < len(blocks) and r.random() < o.p_turn_mid:
                        turn = r.randint(1, 8)
                first = False
            elif r.random() < 0.15:
                arr = dep = hhmm(t)
            rows.append([b, sp, arr, dep, approx, turn])
            t += r.choice([0, 1, 1, 2, 3])
        return rows

    def make_trains(self):
        r, o = self.rng, self.o
        trains = []
        used = set()
        base = 16 * 60 + r.choice([-60, -10, 0, 0, 5, 30])
        last_path = None
        while len(trains) < o.n_trains:
            if last_path and r.random() < o.same_od:
                path = last_path if r.random() < 0.5 else list(reversed(last_path))
            else:
                path = self.simple_path(r.choice(self.names), r.randint(2, len(self.names)))
            if len(path) < 2:
                continue
            last_path = path
            no = self.number(used)
            used.add(no)
            lead = r.random() < o.p_outer
            tail = r.random() < o.p_outer
            pair = r.random() < o.p_pair9 and len(trains) + 1 < o.n_trains and no * 10 + 9 not in used
            if pair and (no * 10 + 9) * 10 + 9 in used:
                pair = False
            kind = r.choice([0, 1]) if pair else None
            if kind == 0:
                tail = False          # ends on the station track where the stock turns
            if kind == 1:
                lead = False
            blocks = self.path_blocks(path, lead=lead, tail=tail)
            start = base + r.randint(0, o.window)
            typ = r.choice(TYPES)
            speed = "R" if typ[:2] in ("KS", "PR") else "IC"
            rows = self.rows_for(blocks, start, speed, r.randint(1, 9) if kind == 1 else None)
            main = dict(no=no, type=typ, name=r.choice(["S1", "S5", "BOLKO", "Wanda"]), frm="from " + path[0],
                        to=r.choice(["to ", "terminates in "]) + path[-1], rows=rows)
            if not pair:
                trains.append(main)
                continue
            no9 = no * 10 + 9
            used.add(no9)
            st = {b for bl in self.stations.values() for b in bl}
            if kind == 0:
                s = path[-1]
                sub = self.simple_path(s, r.choice([2, 2, 3]))
                tail9 = r.random() < o.p_outer
                b9 = self.path_blocks(sub, first_track=blocks[-1], tail=tail9)
                if len(sub) < 2 or b9[-1] == blocks[0]:
                    used.discard(no9)
                    trains.append(main)
                    continue
                rows9 = self.rows_for(b9, start + r.randint(5, 40), speed, r.randint(1, 9))
            else:
                s = path[0]
                sub = list(reversed(self.simple_path(s, r.choice([2, 2, 3]))))
                lead9 = r.random() < o.p_outer
                b9 = self.path_blocks(sub, last_track=blocks[0], lead=lead9)
                if len(sub) < 2 or b9[0] == blocks[-1]:
                    used.discard(no9)
                    trains.append(main)
                    continue
                rows9 = self.rows_for(b9, start - r.randint(5, 40), speed, None)
            t9 = dict(no=no9, type=r.choice(TYPES), name="shunt", frm="departure from " + sub[0], to="to " + sub[-1], rows=rows9)
            trains += [main, t9] if r.random() < 0.5 else [t9, main]
        r.shuffle(trains)
        return trains


def generate(rng, opt):
    g = _Gen(rng, opt)
    g.build()
    trains = g.make_trains()
    stations = [[n, list(b)] for n, b in g.stations.items()]
    rng.shuffle(stations)
    for _, b in stations:
        rng.shuffle(b)
    net = list(g.net)
    rng.shuffle(net)
    # shipped networks mix numeric and text switch lists; a text cell is always present
    net.append(['"end", "X", 0, "(N/A)"', '"end", "X", 1, "(N/A)"', "1,2,3", 1.0, 1.0, 1.0, 1.0])
    t0 = rng.choice(["16:00", "16:00", "14:00", "15:37", "18:30"])
    return {"stations": stations, "net": net, "trains": trains, "tref": t0}


# -- files -----------------------------------------------------------------

CSV_HEADER = ["", "speed", "Arr", "Dep", "Approx_enter", "Label", "Shunting", "Turnaround_time_minutes"]
NET_HEADER = ["previous_block", "next_block", "direction", "default_A-B", "default_B-A", "switches",
              "time_inter_city_A-B", "time_regional_train_A-B", "time_inter_city_B-A", "time_regional_train_B-A"]


def csv_rows(world):
    out = []
    for t in world["trains"]:
        for x in ("####", t["type"], str(t["no"]), t["name"], t["frm"]):
            out.append([x] + [""] * 7)
        for b, sp, arr, dep, approx, turn in t["rows"]:
            out.append([b, sp, arr or "", dep or "", approx or "", "", "", "" if turn is None else str(turn)])
        out.append([t["to"]] + [""] * 7)
    return out


def csv_text(rows):
    f = io.StringIO()
    w = csv.writer(f, delimiter=";", lineterminator="\n")
    w.writerow(CSV_HEADER)
    for r in rows:
        w.writerow(r)
    return f.getvalue()


def write_ods(path, header, rows):
    def cell(x):
        if x is None or x == "":
            return "<table:table-cell/>"
        if isinstance(x, (int, float)):
            return '<table:table-cell office:value-type="float" office:value="%r"><text:p>%r</text:p></table:table-cell>' % (x, x)
        return '<table:table-cell office:value-type="string"><text:p>%s</text:p></table:table-cell>' % escape(x)

    body = "".join("<table:table-row>%s</table:table-row>" % "".join(map(cell, r)) for r in [header] + rows)
    content = (
        '<?xml version="1.0" encoding="UTF-8"?><office:document-content '
        'xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0" '
        'xmlns:table="urn:oasis:names:tc:opendocument:xmlns:table:1.0" '
        'xmlns:text="urn:oasis:names:tc:opendocument:xmlns:text:1.0" office:version="1.2">'
        '<office:body><office:spreadsheet><table:table table:name="Sheet1">%s</table:table>'
        '</office:spreadsheet></office:body></office:document-content>' % body)
    manifest = (
        '<?xml version="1.0" encoding="UTF-8"?><manifest:manifest '
        'xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0">'
        '<manifest:file-entry manifest:full-path="/" manifest:media-type="application/vnd.oasis.opendocument.spreadsheet"/>'
        '<manifest:file-entry manifest:full-path="content.xml" manifest:media-type="text/xml"/></manifest:manifest>')
    with zipfile.ZipFile(path, "w") as z:
        zi = zipfile.ZipInfo("mimetype", (2020, 1, 1, 0, 0, 0))
        z.writestr(zi, "application/vnd.oasis.opendocument.spreadsheet")
        z.writestr(zipfile.ZipInfo("META-INF/manifest.xml", (2020, 1, 1, 0, 0, 0)), manifest)
        z.writestr(zipfile.ZipInfo("content.xml", (2020, 1, 1, 0, 0, 0)), content)


def net_rows(world):
    return [[p, n, "dir", "Y", "N", sw, ic_ab, r_ab, ic_ba, r_ba] for p, n, sw, ic_ab, r_ab, ic_ba, r_ba in world["net"]]


def write_files(world, directory, csv_name="trains.csv", ods_name="net.ods", npz_name="stations.npz"):
    """Write the three input files; returns their paths."""
    p = [os.path.join(directory, x) for x in (csv_name, ods_name, npz_name)]
    for x in p:
        os.makedirs(os.path.dirname(x), exist_ok=True)
    with open(p[0], "w", encoding="utf-8") as f:
        f.write(csv_text(csv_rows(world)))
    write_ods(p[1], NET_HEADER, net_rows(world))
    np.savez(p[2], {n: list(b) for n, b in world["stations"]})
    return p


def read_files(p_csv, p_ods, p_npz, tref):
    """World of files in the shipped format (own reader, no code under test)."""
    import pandas as pd
    stations = np.load(p_npz, allow_pickle=True)["arr_0"][()]
    net = []
    for _, r in pd.read_excel(p_ods, engine="odf").iterrows():
        sw = r["switches"]
        if isinstance(sw, float) and sw != sw:
            sw = None
        elif not isinstance(sw, (str, float)):
            sw = int(sw)
        net.append([r["previous_block"], r["next_block"], sw] + [None if r[c] == "X" else float(r[c]) for c in (
            "time_inter_city_A-B", "time_regional_train_A-B", "time_inter_city_B-A", "time_regional_train_B-A")])
    with open(p_csv, encoding="utf-8", newline="") as f:
        table = list(csv.reader(f, delimiter=";"))
    head, table = table[0], table[1:]
    col = {name: i for i, name in enumerate(head)}
    trains = []
    i = 0
    while i < len(table):
        if table[i] and table[i][0].isdigit():
            t = dict(no=int(table[i][0]), type=table[i - 1][0], name=table[i + 1][0], frm=table[i + 2][0], rows=[])
            i += 3
            while table[i][0][:2] not in ("to", "te"):
                x = table[i]
                turn = x[col["Turnaround_time_minutes"]]
                t["rows"].append([x[0], x[col["speed"]], x[col["Arr"]] or None, x[col["Dep"]] or None,
                                  x[col["Approx_enter"]] or None, float(turn) if turn else None])
                i += 1
            t["to"] = table[i][0]
            trains.append(t)
        i += 1
    return {"stations": [[n, [str(b) for b in bl]] for n, bl in stations.items()], "net": net, "trains": trains, "tref": tref}


SHIPPED = {
    "A": ("trains_schedules.csv", "important_stations.npz"),
    "Gt": ("trains_schedules_Gt.csv", "important_stations_Gt.npz"),
    "1track": ("trains_schedules_1track.csv", "important_stations.npz"),
    "1track_Gt": ("trains_schedules_1track_Gt.csv", "important_stations_Gt.npz"),
    "KO_GLC_1": ("KO_GLC/trains_schedules_KO_GLC.csv", "KO_GLC/important_stations_KO_GLC.npz"),
    "KO_GLC_2": ("KO_GLC/trains_schedules_KO_RCB_ZZ_GLC.csv", "KO_GLC/important_stations_KO_GLC_R.npz"),
    "KO_GLC_3": ("KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv", "KO_GLC/important_stations_KO_GLC_R.npz"),
}


def shipped_paths(key, repo):
    d = os.path.join(repo, "data")
    c, n = SHIPPED[key]
    return [os.path.join(d, c), os.path.join(d, "network_paths.ods"), os.path.join(d, n)]


def resolve(world, repo):
    """The world itself, or the shipped data set it names."""
    if "shipped" in world:
        return read_files(*shipped_paths(world["shipped"], repo), world["tref"])
    return world
