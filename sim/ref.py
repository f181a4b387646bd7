"""Reference model of the railway, independent of the code under test.

Works on blocks, station tracks, switches and minutes.  Times are exact
multiples of a quarter of a minute.  `Rail` derives the static data of a world,
`judge` decides whether a history of departures respects the rules.

Rule families: headway (C01), single (C02), track (C03), switch (C04),
causal (C05: earliest departure, running + stopping, turnover).
"""
from .world import minutes

RES = 1.0
TOL = 1e-6
DEPOTS = ("KO(KS)", "KO(IC)")
UNTRACKED_BLOCKS = ('"KO", "ST-M", 1114, "(N/A)"', '"KO", "ST-M", 1113, "(N/A)"', '"KO", "ST-M", 1118, "(N/A)"')
SAME_BLOCK_LINES = [{"KO(STM)", "KZ"}, {"CB", "CM"}, {"KTC-CB", "via Gt"}]
WEIGHTS = {"KS - Os": 1, "PR - R": 1, "KS - OsP": 1, "IC - TLK": 1.5, "IC - IC": 1.5, "IC - EIP": 1.75, "IC - EIC": 1.75}


def switch_set(cell):
    """Set of switch numbers of a network row ("4,7", 4.7 and 4 are all in use)."""
    if cell is None or cell == "":
        return frozenset()
    if isinstance(cell, float):
        cell = repr(cell).replace(".", ",")
    if isinstance(cell, int):
        return frozenset([cell])
    return frozenset(int(x) for x in cell.split(","))


class Train:
    pass


class Rail:
    def __init__(self, world, r=0):
        self.r = r
        self.tref = minutes(world["tref"])
        st = {}
        for name, blocks in world["stations"]:
            for b in blocks:
                st.setdefault(b, name)
        self.station_of = st
        rows = {}
        for row in world["net"]:
            rows[frozenset(row[:2])] = row
        self.rows = rows
        self.trains = {}
        for t in world["trains"]:
            self.trains[t["no"]] = self._train(t)
        self.order = list(self.trains)      # a number given twice: the last one counts
        # rolling stock: successor/predecessor
        self.succ = {}
        self.pred = {}
        self.shunt = set()
        for n in self.order:
            m = n * 10 + 9
            if m in self.trains:
                a, b = self.trains[n], self.trains[m]
                self.shunt.add(m)
                if a.blocks[0] == b.blocks[-1]:
                    self.succ[m], self.pred[n] = n, m
                elif b.blocks[0] == a.blocks[-1]:
                    self.succ[n], self.pred[m] = m, n
        self._pairs()

    def rnd(self, x):
        return float(round(x)) if self.r else x

    def _train(self, t):
        T = Train()
        T.no = t["no"]
        T.type = t["type"]
        T.blocks = [r[0] for r in t["rows"]]
        T.pt = []
        for i, row in enumerate(t["rows"]):
            if i + 1 == len(t["rows"]):
                T.pt.append(0.0)
                continue
            net = self.rows[frozenset((row[0], t["rows"][i + 1][0]))]
            ab = net[0] == row[0]
            if row[1] == "R":
                T.pt.append(net[4] if ab else net[6])
            else:
                T.pt.append(net[3] if ab else net[5])
        T.at = {}
        T.path = []
        for i, b in enumerate(T.blocks):
            s = self.station_of.get(b)
            if s is not None:
                T.path.append(s)
                T.at[s] = i
        T.track = {s: T.blocks[i] for s, i in T.at.items()}
        T.ends_on_track = T.blocks[-1] in self.station_of
        T.nxt = dict(zip(T.path, T.path[1:]))
        T.prv = dict(zip(T.path[1:], T.path))
        T.line, T.line_t, T.run = {}, {}, {}
        for s, n in T.nxt.items():
            i, k = T.at[s], T.at[n]
            T.line[s] = T.blocks[i + 1:k]
            T.line_t[s] = T.pt[i + 1:k]
            T.run[s] = self.rnd(sum(T.line_t[s]))
        T.sched, T.stop, T.turn = {}, {}, {}
        for s, i in T.at.items():
            row = t["rows"][i]
            if row[3]:
                T.sched[s] = float(minutes(row[3]) - self.tref)
            T.turn[s] = float(row[5] or 0)
            T.stop[s] = self.rnd(T.pt[i] + (T.turn[s] if s != T.path[0] else 0.0))
        row = t["rows"][T.at[T.path[0]]]
        e = row[3] or row[4]
        T.entry = float(minutes(e) - self.tref) if e else 0.0
        # stations a departure is decided for
        T.leaves = [s for s in T.path if not (T.ends_on_track and s == T.path[-1])]
        # switches of the ways between two stations
        T.sw_in, T.sw_out = {}, {}
        for s, i in T.at.items():
            T.sw_in[s] = T.sw_out[s] = frozenset()
            if s != T.path[0]:
                T.sw_in[s] = switch_set(self.rows[frozenset(T.blocks[i - 1:i + 1])][2])
            if s != T.path[-1]:
                T.sw_out[s] = switch_set(self.rows[frozenset(T.blocks[i:i + 2])][2])
        return T

    def same_stock(self, a, b):
        return self.succ.get(a) == b or self.succ.get(b) == a

    # -- static conflict structure -----------------------------------------
    def headway(self, lead, follow, s):
        """Least separation of departures at s, block by block."""
        L, F = self.trains[lead], self.trains[follow]
        n = len(L.line[s])
        if n == 0:
            return 0.0
        k = 1 if {s, L.nxt[s]} in SAME_BLOCK_LINES else 2
        cum_l = [0.0]
        cum_f = [0.0]
        for a, b in zip(L.line_t[s], F.line_t[s]):
            cum_l.append(cum_l[-1] + a)
            cum_f.append(cum_f[-1] + b)
        best = None
        for x in range(n):
            need = cum_l[min(x + k, n)] - cum_f[x]
            best = need if best is None else max(best, need)
        if self.r and abs(abs(best - int(best)) - 0.5) < TOL and any(x * 4 % 1 for x in L.line_t[s] + F.line_t[s]):
            # half a minute up to the last digit of inexact times: either rounding is right
            self.ambiguous.add((lead, follow, s))
            return float(int(best))
        return self.rnd(best)

    def _pairs(self):
        self.ambiguous = set()
        self.p_headway = []   # (a, b, s, h_ab, h_ba)
        self.p_single = []    # (a, s, b, s2): a leaves s for s2, b leaves s2 for s
        self.p_track = []     # (a, b, s)
        self.p_switch = []    # (a, 'in'/'out', b, 'in'/'out', s)
        for x, a in enumerate(self.order):
            for b in self.order[x + 1:]:
                A, B = self.trains[a], self.trains[b]
                stock = self.same_stock(a, b)
                for s in A.path:
                    if s in A.nxt and s in B.nxt and A.nxt[s] == B.nxt[s] and A.line[s] == B.line[s]:
                        if A.line[s]:
                            self.p_headway.append((a, b, s, self.headway(a, b, s), self.headway(b, a, s)))
                    if s in A.nxt and not stock:
                        n = A.nxt[s]
                        if B.nxt.get(n) == s and A.line[s] and A.line[s] == B.line[n][::-1]:
                            self.p_single.append((a, s, b, n))
                    if s in B.track and not stock and s not in DEPOTS and A.track[s] == B.track[s] \
                            and A.track[s] not in UNTRACKED_BLOCKS:
                        self.p_track.append((a, b, s))
                    if s in B.track and not stock and s not in DEPOTS:
                        for ka, sa in (("in", A.sw_in[s]), ("out", A.sw_out[s])):
                            for kb, sb in (("in", B.sw_in[s]), ("out", B.sw_out[s])):
                                if sa & sb and not self._counted_elsewhere(A, ka, s) and not self._counted_elsewhere(B, kb, s):
                                    self.p_switch.append((a, ka, b, kb, s))
        # opposing trains meeting on different tracks whose ways share switches at both ends:
        # the problem orders both meetings by one variable (documented finding)
        sw = set()
        for a, ka, b, kb, s in self.p_switch:
            if ka != kb:
                sw.add((a, ka, b, s) if ka == "out" else (b, kb, a, s))   # (leaving train, out, entering train, station)
        self.p_coupled = []
        for (a, _, b, s) in sorted(sw, key=str):
            A, B = self.trains[a], self.trains[b]
            n = A.nxt.get(s)
            if n is None or B.nxt.get(n) != s:
                continue
            if (b, "out", a, n) in sw and (A.line[s] != B.line[n][::-1] or not A.line[s]):
                if str(s) < str(n) or (b, "out", a, n) not in sw:
                    self.p_coupled.append((a, s, b, n))

    def _counted_elsewhere(self, T, kind, s):
        """Movements between the two parts of the main station count at KO only."""
        if s != "KO(STM)":
            return False
        return (T.prv.get(s) if kind == "in" else T.nxt.get(s)) == "KO"

    # -- dynamics ------------------------------------------------------------
    def earliest(self, dist):
        """Earliest departures of every train running alone; dist: train -> minutes."""
        E = {}
        for no, T in self.trains.items():
            for i, s in enumerate(T.path):
                if i == len(T.path) - 1 and T.ends_on_track:
                    break
                if i == 0:
                    t = T.entry + dist.get(no, 0)
                else:
                    p = T.path[i - 1]
                    t = E[no, p] + T.run[p] + T.stop[s]
                E[no, s] = max(t, T.sched.get(s, float("-inf")))
        return E

    def goal(self, no):
        T = self.trains[no]
        return T.path[-2] if T.ends_on_track else T.path[-1]

    def weight(self, no):
        return 0 if no in self.shunt else WEIGHTS[self.trains[no].type]


class Times:
    """Event times of a history (dep given) of a disturbed railway."""

    def __init__(self, rail, dist, dep):
        self.rail, self.dep = rail, dep
        self.E = rail.earliest(dist)

    def arr(self, no, s):
        """Arrival at s; for a train's first station the moment it shows up there."""
        T = self.rail.trains[no]
        p = T.prv.get(s)
        if p is None:
            return self.E[no, s]
        return self.dep[no, p] + T.run[p]

    def way(self, no, kind, s):
        return self.arr(no, s) if kind == "in" else self.dep[no, s]

    def occupied(self, no, s):
        """Interval on the station track; end None if the train and its stock end there."""
        rail = self.rail
        T = rail.trains[no]
        start = self.arr(no, s)
        if s == T.path[0] and no in rail.pred:
            start = self.arr(rail.pred[no], s)
        if s == T.path[-1] and no in rail.succ:
            return start, self.dep[rail.succ[no], s]
        return start, self.dep.get((no, s))


def follows(rail, tm, lead, follow, s, h):
    """Follower's block entries against the leader's block clearances."""
    L, F = rail.trains[lead], rail.trains[follow]
    dl, df = tm.dep[lead, s], tm.dep[follow, s]
    if rail.r:
        return df - dl >= h - TOL
    k = 1 if {s, L.nxt[s]} in SAME_BLOCK_LINES else 2
    n = len(L.line[s])
    clear = []
    t = dl
    for x in L.line_t[s]:
        t += x
        clear.append(t)
    t = df
    for x in range(n):
        if t < clear[min(x + k - 1, n - 1)] - TOL:
            return False
        t += F.line_t[s][x]
    return True


def judge(rail, dist, dep, d_max):
    """-> (violations [(family, text)], loose [(reason, text)]).

    violations empty and loose empty: the problem must accept the history.
    violations non-empty: it must reject it.
    otherwise: outside what the rules decide.
    """
    tm = Times(rail, dist, dep)
    bad, loose = [], []
    for (no, s), d in dep.items():
        delay = d - tm.E[no, s]
        if delay < -TOL:
            bad.append(("causal", "%s leaves %s at %s before %s" % (no, s, d, tm.E[no, s])))
        if delay > d_max + TOL:
            loose.append(("limit", "%s at %s delayed by %s" % (no, s, delay)))
    for no, T in rail.trains.items():
        for s in T.leaves[1:]:
            p = T.prv[s]
            if dep[no, s] < dep[no, p] + T.run[p] + T.stop[s] - TOL:
                bad.append(("causal", "%s leaves %s at %s, arrival %s + stop %s" % (no, s, dep[no, s], dep[no, p] + T.run[p], T.stop[s])))
    for a, b in rail.succ.items():
        s = rail.trains[a].path[-1]
        if dep[b, s] < tm.arr(a, s) + rail.trains[b].turn[s] - TOL:
            bad.append(("causal", "stock of %s as %s leaves %s at %s, arrival %s + turnover %s" % (
                a, b, s, dep[b, s], tm.arr(a, s), rail.trains[b].turn[s])))
    for a, b, s, hab, hba in rail.p_headway:
        if not follows(rail, tm, a, b, s, hab) and not follows(rail, tm, b, a, s, hba):
            bad.append(("headway", "%s and %s leave %s at %s and %s, headways %s/%s" % (
                a, b, s, dep[a, s], dep[b, s], hab, hba)))
        elif rail.ambiguous:
            more = [h + ((x, y, s) in rail.ambiguous) for x, y, h in ((a, b, hab), (b, a, hba))]
            if not follows(rail, tm, a, b, s, more[0]) and not follows(rail, tm, b, a, s, more[1]):
                loose.append(("rounding", "headway of %s and %s at %s" % (a, b, s)))
    for a, s, b, n in rail.p_single:
        if dep[a, s] < tm.arr(b, s) - TOL and dep[b, n] < tm.arr(a, n) - TOL:
            bad.append(("single", "%s leaves %s at %s, %s leaves %s at %s" % (a, s, dep[a, s], b, n, dep[b, n])))
    for a, b, s in rail.p_track:
        (a0, a1), (b0, b1) = tm.occupied(a, s), tm.occupied(b, s)
        if (a1 is not None and b0 >= a1 - TOL) or (b1 is not None and a0 >= b1 - TOL):
            continue
        if a1 is None and b1 is None:
            continue
        if (a1 is None and b0 >= a0 - TOL) or (b1 is None and a0 >= b0 - TOL):
            continue      # comes in beside a train standing on its final track: outside the rule
        if a1 is None or b1 is None:
            q = rail.trains[a].prv.get(s)
            own = (a if b1 is None else b, s) in dep         # leaves under its own number
            if own and q is not None and q == rail.trains[b].prv.get(s) and rail.trains[a].line[q] and rail.trains[a].line[q] == rail.trains[b].line[q]:
                # the two come over the same line, so they keep their order
                bad.append(("track", "%s [%s, %s] and %s [%s, %s] come from %s to one track of %s" % (a, a0, a1, b, b0, b1, q, s)))
                continue
            # ends on a track that is still in use: outside the rule as well, but the order of the
            # two may be forced by other rules, so nothing is claimed
            loose.append(("final track", "%s and %s at %s" % (a, b, s)))
            continue
        bad.append(("track", "%s [%s, %s] and %s [%s, %s] on one track of %s" % (a, a0, a1, b, b0, b1, s)))
    for a, ka, b, kb, s in rail.p_switch:
        ta, tb = tm.way(a, ka, s), tm.way(b, kb, s)
        if abs(ta - tb) < RES - TOL:
            bad.append(("switch", "%s (%s) and %s (%s) over a switch of %s at %s and %s" % (a, ka, b, kb, s, ta, tb)))
    for a, s, b, n in rail.p_coupled:
        if (dep[a, s] < tm.arr(b, s)) != (tm.arr(a, n) < dep[b, n]):
            loose.append(("opposing order", "%s leaves %s %s / %s arrives %s; %s leaves %s %s / %s arrives %s" % (
                a, s, dep[a, s], b, tm.arr(b, s), b, n, dep[b, n], a, tm.arr(a, n))))
    return bad, loose


def objective(rail, dist, dep, d_max):
    E = rail.earliest(dist)
    v = 0.0
    for no in rail.order:
        g = rail.goal(no)
        v += rail.weight(no) * (dep[no, g] - E[no, g]) / d_max
    return v
