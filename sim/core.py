"""Seeds, outcomes, workers, minimisation, replay and evidence."""
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import sys
import time
import traceback
from collections import Counter

from . import fresh

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
STUBS = os.path.join(VERIF, "sim", "stubs")
EVIDENCE = os.path.join(VERIF, "evidence")
_real_monotonic = time.monotonic


def rng_for(*parts):
    """Independent generator for a labelled purpose of a seed."""
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def fingerprint(data):
    """Short hash of the content of a file."""
    return hashlib.sha256(data).hexdigest()[:12]


class HarnessError(Exception):
    """The simulation itself is at fault; never reported as a violation."""


class Incomplete(Exception):
    """A result of the code under test lacks an entry that the check reads."""


class Record(dict):
    """A result of the code under test: a missing entry is its fault, not the harness's."""

    def __missing__(self, key):
        raise Incomplete("no entry %r among %s" % (key, sorted(map(str, self))[:12]))


def record(x):
    if type(x) is dict:
        return Record((k, record(v)) for k, v in x.items())
    return x


class Outcome:
    """What one simulated execution produced."""

    def __init__(self):
        self.violations = []      # dicts: kind, detail
        self.findings = []        # dicts: key, detail (documented defects that are not repaired)
        self.counters = Counter()
        self.faults = Counter()
        self.orders = set()       # hashes of distinct interleavings
        self.sim_minutes = 0.0
        self.evaluations = 0
        self.nontrivial = False
        self._h = hashlib.sha256()
        self.trace = []
        self.keep_trace = False

    def event(self, *parts):
        line = repr(parts)
        self._h.update(line.encode())
        self._h.update(b"\n")
        if self.keep_trace:
            self.trace.append(line)

    def order(self, *parts):
        self.orders.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:16])

    def fail(self, kind, detail):
        self.event("VIOLATION", kind, detail)
        self.violations.append({"kind": kind, "detail": detail})

    def finding(self, key, detail):
        self.event("FINDING", key, detail)
        self.findings.append({"key": key, "detail": detail})

    @property
    def digest(self):
        return self._h.hexdigest()


@contextlib.contextmanager
def quiet():
    """Swallow the prints of the code under test."""
    old = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = old


def describe(exc):
    """Stable one-line description of an exception raised by the code under test."""
    tb = traceback.extract_tb(exc.__traceback__)
    where = "?"
    for fr in reversed(tb):
        if fr.filename.startswith(REPO):
            where = "%s in %s" % (os.path.relpath(fr.filename, REPO), fr.name)
            break
    return "%s: %s (%s)" % (type(exc).__name__, str(exc)[:120], where)


def from_repo(exc):
    """Was the exception raised while code of the repository was running?"""
    return any(fr.filename.startswith(REPO + "/") for fr in traceback.extract_tb(exc.__traceback__))


def setup_paths():
    sys.dont_write_bytecode = True
    for p in (REPO, STUBS, VERIF):
        if p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [VERIF, STUBS, REPO]


def load_prop(pid):
    return importlib.import_module("sim.props." + pid.lower())


# -- running -----------------------------------------------------------------

def make_spec(prop, seed, index, tier):
    return prop.gen(rng_for(prop.ID, seed, index), index, tier)


def run_spec(prop, spec, keep_trace=False):
    o = Outcome()
    o.keep_trace = keep_trace
    with fresh.Session().active():      # nothing of an execution outlives it
        try:
            prop.execute(spec, o)
        except Incomplete as e:
            o.fail("result incomplete", str(e))
    return o


def summary(o):
    return {
        "violations": o.violations, "findings": o.findings, "counters": dict(o.counters), "faults": dict(o.faults),
        "orders": sorted(o.orders), "sim_minutes": o.sim_minutes, "evaluations": o.evaluations,
        "nontrivial": bool(o.nontrivial), "digest": o.digest,
    }


def _work(args):
    pid, seed, index, tier = args
    prop = load_prop(pid)
    try:
        spec = make_spec(prop, seed, index, tier)
        o = run_spec(prop, spec)
        r = summary(o)
        r["error"] = None
    except BaseException as e:  # noqa: B902 - everything unexpected is an error of the harness
        if isinstance(e, KeyboardInterrupt):
            raise
        r = {"error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]}
    r["index"] = index
    return r


def sweep(pid, seed, tier, runs, workers, guard_s, start=0, until_violation=True):
    """Execute runs start..start+runs-1; returns (results by index, complete)."""
    import multiprocessing
    jobs = [(pid, seed, i, tier) for i in range(start, start + runs)]
    t0 = _real_monotonic()
    results = {}
    complete = True
    if workers <= 1:
        for j in jobs:
            r = _work(j)
            results[r["index"]] = r
            if _real_monotonic() - t0 > guard_s:
                complete = len(results) == len(jobs)
                break
        return results, complete
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(workers)
    try:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        for _ in range(len(jobs)):
            left = guard_s - (_real_monotonic() - t0)
            try:
                r = it.next(timeout=max(1.0, left))
            except multiprocessing.TimeoutError:
                complete = False
                break
            results[r["index"]] = r
    finally:
        pool.terminate()
        pool.join()
    return results, complete


# -- minimisation --------------------------------------------------------------

def minimise(prop, spec, kind, limit=150, seconds=150):
    """Greedy reduction keeping a violation of the same kind."""
    t0 = _real_monotonic()
    tried = 0
    changed = True
    while changed and tried < limit:
        changed = False
        for cand in prop.shrink(spec):
            if tried >= limit or _real_monotonic() - t0 > seconds:
                return spec, tried
            tried += 1
            try:
                o = run_spec(prop, cand)
            except Exception:
                continue
            if any(v["kind"] == kind for v in o.violations):
                spec = cand
                changed = True
                break
    return spec, tried


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    os.replace(tmp, path)


def known_findings():
    """key -> text of documented findings, per property."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property="):
                    head, text = line[len("finding: "):].rstrip("\n").split(" ", 2)[:2], line.rstrip("\n").split(" ", 3)[3]
                    pid = head[0].split("=", 1)[1]
                    key = head[1].split("=", 1)[1]
                    out[(pid, key)] = text
    return out
