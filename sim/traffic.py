"""Simulated traffic: trains as processes competing for lines, tracks and switches.

`dispatch` is an event-driven run: at every step one of the trains that could
move next is granted its departure at the first moment the interlocking allows.
A fault makes the interlocking ignore one family of rules for one pair or for
all, or lets a train leave a little early.  The history produced is judged
afterwards by the monitors of the reference model; the dispatcher itself is
never trusted.
"""
import math

from . import ref

RES = ref.RES


class Deadlock(Exception):
    pass


class Run:
    def __init__(self, rail, dist, rng, step, policy, faults, dwell):
        self.rail, self.rng, self.step = rail, rng, step
        self.E = rail.earliest(dist)
        self.dist = dist
        self.policy, self.faults, self.dwell = policy, faults, dwell
        self.dep = {}
        self.tm = ref.Times(rail, dist, self.dep)
        self.pos = {no: 0 for no in rail.order}
        self.pairs = {no: [] for no in rail.order}
        for a, b, s, hab, hba in rail.p_headway:
            self.pairs[a].append(("headway", s, b, hba, hab))
            self.pairs[b].append(("headway", s, a, hab, hba))
        for a, s, b, n in rail.p_single:
            self.pairs[a].append(("single", s, b, n))
            self.pairs[b].append(("single", n, a, s))
        for a, b, s in rail.p_track:
            self.pairs[a].append(("track", s, b))
            self.pairs[b].append(("track", s, a))
        for a, ka, b, kb, s in rail.p_switch:
            self.pairs[a].append(("switch", s, ka, b, kb))
            self.pairs[b].append(("switch", s, kb, a, ka))

    def ignored(self, fam, a, b):
        return any(f["family"] == fam and (f.get("pair") is None or set(f["pair"]) == {a, b}) for f in self.faults)

    def up(self, no, s, t):
        """Round a moment up to the dispatcher's time step counted from the earliest departure."""
        e = self.E[no, s]
        return e + max(0.0, math.ceil((t - e) / self.step - 1e-9)) * self.step

    def ready(self, no, s):
        T = self.rail.trains[no]
        t = self.E[no, s]
        p = T.prv.get(s)
        if p is not None:
            t = max(t, self.dep[no, p] + T.run[p] + T.stop[s])
        elif no in self.rail.pred:
            q = self.rail.pred[no]
            qs = self.rail.trains[q].prv[s]
            if (q, qs) not in self.dep:
                return None
            t = max(t, self.tm.arr(q, s) + T.turn[s])
        return t + self.dwell.get((no, s), 0)

    def grant(self, no, s):
        """First moment no may leave s given the movements granted so far; None: must wait."""
        rail = self.rail
        T = rail.trains[no]
        t = self.ready(no, s)
        if t is None:
            return None
        t = self.up(no, s, t)
        n = T.nxt.get(s)
        for _ in range(400):
            new = t
            for p in self.pairs[no]:
                fam, st, other = p[0], p[1], (p[3] if p[0] == "switch" else p[2])
                if fam == "headway" and st == s and (other, s) in self.dep:
                    d = self.dep[other, s]
                    behind, ahead = p[3], p[4]
                    if not (t >= d + behind - 1e-9 or t + ahead <= d + 1e-9) and not self.ignored(fam, no, other):
                        new = max(new, d + behind)
                elif fam == "single" and st == s and (other, p[3]) in self.dep:
                    od = self.dep[other, p[3]]
                    oa = od + rail.trains[other].run[p[3]]
                    if not (t >= oa - 1e-9 or od >= t + T.run[s] - 1e-9) and not self.ignored(fam, no, other):
                        new = max(new, oa)
                elif fam == "switch":
                    kind, ok = p[2], p[4]
                    if (kind == "out" and st == s) or (kind == "in" and st == n):
                        mine = t if kind == "out" else t + T.run[s]
                        O = rail.trains[other]
                        src = st if ok == "out" else O.prv[st]
                        if (other, src) in self.dep:
                            theirs = self.dep[other, src] + (0 if ok == "out" else O.run[src])
                            if abs(mine - theirs) < RES - 1e-9 and not self.ignored(fam, no, other):
                                new = max(new, t + (theirs + RES - mine))
                elif fam == "track" and st == n:
                    w = self.track_wait(no, n, other, t + T.run[s])
                    if w is None:
                        if not self.ignored(fam, no, other):
                            return None
                    elif w > t + T.run[s] + 1e-9 and not self.ignored(fam, no, other):
                        new = max(new, w - T.run[s])
                elif fam == "track" and st == s and s == T.path[0] and no not in rail.pred:
                    pass   # the moment of showing up is given, nothing to decide
            new = self.up(no, s, new)
            if new <= t + 1e-9:
                return t
            t = new
        raise Deadlock()

    def track_wait(self, no, s, other, arrive):
        """Earliest moment the track of s is free of `other` for an arrival; None: unknown yet."""
        rail = self.rail
        O = rail.trains[other]
        T = rail.trains[no]
        start = self.E[other, s] if s == O.path[0] else None
        if s == O.path[0] and other in rail.pred:
            q = rail.pred[other]
            qs = rail.trains[q].prv[s]
            start = self.dep[q, qs] + rail.trains[q].run[qs] if (q, qs) in self.dep else None
            if start is None:
                return arrive          # not there yet; it will wait for us
        elif s != O.path[0]:
            p = O.prv[s]
            if (other, p) not in self.dep:
                return arrive          # not under way yet; it will wait for us
            start = self.dep[other, p] + O.run[p]
        if (other, s) in self.dep:
            if start >= arrive - 1e-9 and self.ends(no, s):
                return arrive
            return max(arrive, self.dep[other, s])
        if self.ends(other, s):
            return arrive              # stands on its final track: outside the rule
        if s == O.path[0] and other not in rail.pred and start > arrive + 60:
            return arrive              # shows up much later
        return None

    def ends(self, no, s):
        T = self.rail.trains[no]
        return T.ends_on_track and s == T.path[-1]

    def run(self):
        rail, rng = self.rail, self.rng
        todo = {no: list(T.leaves) for no, T in rail.trains.items()}
        while any(todo.values()):
            cand = []
            for no in rail.order:
                if todo[no]:
                    t = self.grant(no, todo[no][0])
                    if t is not None:
                        cand.append((t, no))
            if not cand:
                raise Deadlock()
            cand.sort()
            if self.policy == "fifo":
                pick = cand[0]
            elif self.policy == "random":
                pick = rng.choice(cand)
            else:
                near = [c for c in cand if c[0] <= cand[0][0] + 12]
                pick = rng.choice(near)
            t, no = pick
            s = todo[no].pop(0)
            self.dep[no, s] = t
        return self.dep


def dispatch(rail, dist, rng, step=1.0, policy="near", faults=(), dwell=None):
    """-> departures; raises Deadlock."""
    return Run(rail, dist, rng, step, policy, faults, dwell or {}).run()


class Sequential:
    """Trains admitted one after another, each fitted behind the movements already granted.

    A train that cannot be placed on its first track yet is admitted late, so the
    disturbances grow (in whole minutes).
    """

    def __init__(self, rail, dist, order, step, extra, faults):
        self.rail, self.step = rail, step
        self.faults = faults
        self.dist = {no: dist.get(no, 0) for no in rail.order}
        self.extra = extra
        self.dep = {}
        self.done = []
        self.rules = Run(rail, dist, None, step, "", (), {}).pairs
        for no in order:
            if no not in self.done and no not in rail.pred:
                chain = [no]
                while chain[-1] in rail.succ:
                    chain.append(rail.succ[chain[-1]])
                self.admit(chain)

    def admit(self, chain):
        rail = self.rail
        low = {}
        for _ in range(3000):
            E = rail.earliest(self.dist)
            dep = {}
            for no in chain:
                T = rail.trains[no]
                for s in T.leaves:
                    t = max(E[no, s], low.get((no, s), float("-inf")))
                    p = T.prv.get(s)
                    if p is not None:
                        t = max(t, dep[no, p] + T.run[p] + T.stop[s])
                    elif no in rail.pred and no != chain[0]:
                        q = rail.pred[no]
                        qs = rail.trains[q].prv[s]
                        t = max(t, dep[q, qs] + rail.trains[q].run[qs] + T.turn[s])
                    t += self.extra.get((no, s), 0.0)
                    dep[no, s] = E[no, s] + math.ceil((t - E[no, s]) / self.step - 1e-9) * self.step
            push = self.conflict(chain, dep)
            if push is None:
                self.dep.update(dep)
                self.done += chain
                return
            kind, no, s, t = push
            if kind == "entry":
                self.dist[no] += max(1, math.ceil(t - E[no, s] - 1e-9))
            else:
                low[no, s] = max(t, dep[no, s] + self.step / 2)
        raise Deadlock()

    def ignored(self, fam, a, b):
        for f in self.faults:
            if f["family"] == fam and (f.get("pair") is None or set(f["pair"]) == {a, b}):
                return True
        return False

    def conflict(self, chain, dep):
        rail = self.rail
        both = dict(self.dep)
        both.update(dep)
        tm = ref.Times(rail, self.dist, both)
        for no in chain:
            T = rail.trains[no]
            for p in self.rules[no]:
                fam, s = p[0], p[1]
                other = p[3] if fam == "switch" else p[2]
                if other not in self.done or self.ignored(fam, no, other):
                    continue
                if fam == "headway":
                    d, behind, ahead = both[other, s], p[3], p[4]
                    if not (dep[no, s] >= d + behind - 1e-9 or dep[no, s] + ahead <= d + 1e-9):
                        return "dep", no, s, d + behind
                elif fam == "single":
                    n = p[3]
                    if dep[no, s] < tm.arr(other, s) - 1e-9 and both[other, n] < tm.arr(no, n) - 1e-9:
                        return "dep", no, s, tm.arr(other, s)
                elif fam == "switch":
                    kind, ok = p[2], p[4]
                    mine, theirs = tm.way(no, kind, s), tm.way(other, ok, s)
                    if abs(mine - theirs) < RES - 1e-9:
                        src = s if kind == "out" else T.prv[s]
                        return "dep", no, src, dep[no, src] + theirs + RES - mine
                elif fam == "track":
                    (a0, a1), (b0, b1) = tm.occupied(no, s), tm.occupied(other, s)
                    if b1 is None or (a1 is not None and b0 >= a1 - 1e-9) or a0 >= b1 - 1e-9:
                        continue
                    first = no
                    if s == T.path[0] and no in rail.pred:
                        first = rail.pred[no]
                    q = rail.trains[first].prv.get(s)
                    if q is None:
                        return "entry", first, s, b1
                    return "dep", first, q, b1 - rail.trains[first].run[q]
        return None


def sequential(rail, dist, order, step=1.0, extra=None, faults=()):
    """-> (disturbances, departures)"""
    q = Sequential(rail, dist, order, step, extra or {}, faults)
    return q.dist, q.dep


# -- constructed meetings -------------------------------------------------------

class Layout:
    """Free runs of all trains, placed in time unit by unit (a unit shares rolling stock)."""

    def __init__(self, rail, delays, extra, base=3000.0, gap=4000.0, order=None):
        self.rail = rail
        self.delays = delays          # (no, s) -> wait of this departure beyond the minimum (negative: too early)
        self.rel = {}                 # (no, s) -> departure relative to the unit start
        self.first = {}               # no -> relative earliest departure at the first station
        self.unit = {}
        heads = [no for no in rail.order if no not in rail.pred]
        if order:
            heads = [heads[i % len(heads)] for i in order if i < len(heads)] or heads
        seen = []
        for h in heads:
            if h not in seen:
                seen.append(h)
        for h in rail.order:
            if h not in rail.pred and h not in seen:
                seen.append(h)
        self.heads = seen
        for h in self.heads:
            start = 0.0
            no = h
            while no is not None:
                self.unit[no] = h
                self._run(no, start)
                nx = rail.succ.get(no)
                if nx is not None:
                    T = rail.trains[no]
                    s = T.path[-1]
                    arr = self.rel[no, T.prv[s]] + T.run[T.prv[s]]
                    start = arr + rail.trains[nx].turn[s] + extra.get(nx, 0.0)
                no = nx
        self.offset = {h: base + gap * i for i, h in enumerate(self.heads)}

    def _run(self, no, start):
        T = self.rail.trains[no]
        self.first[no] = start
        prev = None
        for s in T.leaves:
            if prev is None:
                t = start
            else:
                t = self.rel[no, prev] + T.run[prev] + T.stop[s]
            self.rel[no, s] = t + self.delays.get((no, s), 0.0)
            prev = s

    def dep_rel(self, no, s):
        return self.rel[no, s]

    def arr_rel(self, no, s):
        T = self.rail.trains[no]
        p = T.prv.get(s)
        return self.first[no] if p is None else self.rel[no, p] + T.run[p]

    def place(self, mover, fixed, difference):
        """Shift the mover's unit so that (mover event) - (fixed event) = difference in relative terms."""
        self.offset[self.unit[mover]] = self.offset[self.unit[fixed]] + difference

    def result(self):
        """-> (disturbances, departures)"""
        dist, dep = {}, {}
        for no, T in self.rail.trains.items():
            o = self.offset[self.unit[no]]
            dist[no] = o + self.first[no] - T.entry
            for s in T.leaves:
                dep[no, s] = o + self.rel[no, s]
        return dist, dep


def meetings(rail):
    """All rule instances a pair of trains can meet at: (family, payload)."""
    out = [("headway", x) for x in rail.p_headway]
    out += [("single", x) for x in rail.p_single]
    out += [("track", x) for x in rail.p_track]
    out += [("switch", x) for x in rail.p_switch]
    return out


def boundary(rail, lay, fam, x, side):
    """(mover, fixed, difference of unit offsets) putting the pair exactly on the boundary."""
    if fam == "headway":
        a, b, s, hab, hba = x
        if side:
            return b, a, lay.dep_rel(a, s) + hab - lay.dep_rel(b, s)
        return b, a, lay.dep_rel(a, s) - hba - lay.dep_rel(b, s)
    if fam == "single":
        a, s, b, n = x
        if side:    # a goes first, b leaves n when a has arrived there
            return b, a, lay.arr_rel(a, n) - lay.dep_rel(b, n)
        return b, a, lay.dep_rel(a, s) - lay.arr_rel(b, s)
    if fam == "track":
        a, b, s = x
        ua, ub = _span(rail, lay, a, s), _span(rail, lay, b, s)
        if side and ua[1] is not None:
            return b, a, ua[1] - ub[0]
        if ub[1] is not None:
            return b, a, ua[0] - ub[1]
        return None
    if fam == "switch":
        a, ka, b, kb, s = x
        ta = lay.arr_rel(a, s) if ka == "in" else lay.dep_rel(a, s)
        tb = lay.arr_rel(b, s) if kb == "in" else lay.dep_rel(b, s)
        return b, a, ta - tb + (RES if side else -RES)
    raise ValueError(fam)


def _span(rail, lay, no, s):
    T = rail.trains[no]
    start = lay.arr_rel(no, s)
    if s == T.path[0] and no in rail.pred:
        start = lay.arr_rel(rail.pred[no], s)
    return start, lay.rel.get((no, s))
