"""Decide one property by deterministic simulation with fault injection.

    ./check --property C01                    tier and seed from VERIF_TIER (quick) and VERIF_SEED (1)
    ./check --property C01 --replay FILE      run one recorded scenario again

Run i of property P with seed S uses the scenario that the property's engine
draws from random.Random("P:S:i"); a scenario is plain JSON and contains every
decision of the run, so it replays exactly."""

import argparse
import copy
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import fresh as process_state, seams, world           # noqa: E402

clock = time.time
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")

# property -> (engine, runs in the quick tier, runs in the thorough tier)
PLAN = {
    "C01": ("transport", 6000, 150000),
    "C02": ("transport", 6000, 150000),
    "C03": ("transport", 8000, 200000),
    "C04": ("transport", 8000, 200000),
    "C05": ("device", 7000, 150000),
    "C06": ("transport", 8000, 200000),
    "C07": ("handles+overlapped", 10000, 300000),
    "C08": ("coro", 12000, 300000),
    "C09": ("transport", 7000, 200000),
    "C10": ("device", 8000, 150000),
    "C11": ("device", 8000, 150000),
    "C12": ("transport+device", 5000, 120000),
    "C13": ("transport+overlapped", 1600, 40000),
    "C14": ("overlapped", 6000, 150000),
    "C15": ("transport", 8000, 200000),
    "C16": ("device", 8000, 150000),
    "C17": ("device", 5000, 100000),
    "C20": ("transport", 5000, 120000),
    "C22": ("device+transport", 6000, 120000),
    "C21": ("transport+device", 2000, 50000),
}
# decided with threads that lose the processor anywhere in the code, not only in system calls
FINE = ("C12",)
CAP = {"quick": 150, "thorough": 840}         # seconds of search, in case the machine is slow
RUN_LIMIT = 30                                # seconds for one run, enforced from outside the simulation


class Several(object):
    """Engines taking turns on one property; the scenario says whose it is."""
    def __init__(self, engines):
        self.engines = engines
        self.KINDS = {}
        for e in engines:
            for k, props in e.KINDS.items():
                self.KINDS[k] = self.KINDS.get(k, set()) | set(props)
        self.OPTIONAL = tuple(set(o for e in engines for o in e.OPTIONAL))
        self.SHRINK_INT = dict(i for e in engines for i in e.SHRINK_INT.items())
        self.NONEMPTY = tuple(set(o for e in engines for o in e.NONEMPTY))
        self.KEEP_LISTS = tuple(set(o for e in engines for o in getattr(e, "KEEP_LISTS", ())))
        self.RULE = " / ".join(e.RULE for e in engines)
        for name in ("REAL", "SIMULATED", "ASSUMPTIONS"):
            setattr(self, name, sorted(set(x for e in engines for x in getattr(e, name))))

    def gen(self, prop, rng):
        e = rng.choice(self.engines)
        s = e.gen(prop, rng)
        s["engine"] = e.ENGINE
        return s

    def run(self, s):
        e = [e for e in self.engines if e.ENGINE == s["engine"]][0]
        r = e.run(s)
        r.engine = e
        return r

    @staticmethod
    def nontrivial(r):
        return r.engine.nontrivial(r)

    @staticmethod
    def count(r):
        return r.engine.count(r)


_engines = {}


def engine_for(prop):
    if prop not in _engines:
        modules = [importlib.import_module("sim." + name) for name in PLAN[prop][0].split("+")]
        _engines[prop] = modules[0] if len(modules) == 1 else Several(modules)
    return _engines[prop]


def scenario_for(engine, prop, seed, i):
    s = engine.gen(prop, random.Random("%s:%s:%d" % (prop, seed, i)))
    return json.loads(json.dumps(s))


class HarnessError(Exception):
    pass


def in_code_under_test(tb):
    """Was the exception raised by the code under test (or below it)?"""
    src = os.path.realpath(seams.REPO_SRC)
    frames = traceback.extract_tb(tb)
    return any(os.path.realpath(f.filename).startswith(src) for f in frames)


def execute(engine, prop, scenario):
    """-> (violations of this property, violations of others, Run or None)"""
    process_state.restore()
    world.new_numbers(zlib.crc32(json.dumps(scenario, sort_keys=True).encode()))
    try:
        r = engine.run(scenario)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        seams.activate(None)
        if in_code_under_test(sys.exc_info()[2]):
            last = traceback.extract_tb(sys.exc_info()[2])[-1]
            return [("raised", "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(last.filename), last.lineno))], [], None
        raise HarnessError(traceback.format_exc())
    mine = [(k, m) for k, m in r.violations if prop in engine.KINDS[k]]
    other = [(k, m) for k, m in r.violations if prop not in engine.KINDS[k]]
    return mine, other, r


# ------------------------------------------------------------------------------------------------
# workers

def send(fd, obj):
    data = json.dumps(obj).encode() + b"\n"
    while data:
        n = seams.real["write"](fd, data)
        data = data[n:]


def guarded(fd, index, limit=RUN_LIMIT):
    """Kill this process if a run does not end: a loop that never reaches the simulator."""
    def late(signum, frame):
        try:
            stack = "".join(traceback.format_stack(frame)[-3:])
            send(fd, {"stuck": index, "where": stack[-600:]})
        finally:
            os._exit(3)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(limit)


def work(fd, prop, seed, indices, deadline):
    engine = engine_for(prop)
    agg = {"runs": 0, "faults": {}, "probes": {}, "stats": {}, "sim_us": 0, "seams": 0, "nontrivial": [], "other": {}, "samples": [],
           "max_steps": 0}

    def flush():
        send(fd, {"agg": agg})
        for k in ("faults", "probes", "stats", "other"):
            agg[k] = {}
        agg["runs"] = agg["sim_us"] = agg["seams"] = 0
        agg["nontrivial"] = []
        agg["samples"] = []

    for n, i in enumerate(indices):
        if clock_real() > deadline:
            break
        send(fd, {"at": i})
        guarded(fd, i)
        try:
            s = scenario_for(engine, prop, seed, i)
            mine, other, r = execute(engine, prop, s)
        except HarnessError as e:
            send(fd, {"harness": str(e), "index": i})
            break
        signal.alarm(0)
        agg["runs"] += 1
        if r is not None:
            for name, d in (("faults", r.w.faults), ("probes", r.w.probes), ("stats", r.stats), ("faults", engine.count(r))):
                for k, v in d.items():
                    agg[name][k] = agg[name].get(k, 0) + v
            agg["sim_us"] += r.w.now
            agg["seams"] += r.w.steps
            agg["max_steps"] = max(agg["max_steps"], r.w.steps)
            if engine.nontrivial(r):
                agg["nontrivial"].append(r.w.digest()[:16])
            if n < 2 and len(json.dumps(s)) < 3000:
                agg["samples"].append({"index": i, "scenario": s, "last events": r.w.log[-6:], "digest": r.w.digest()[:16]})
        for k, _ in other[:1]:
            agg["other"][k] = agg["other"].get(k, 0) + 1
        if mine:
            send(fd, {"violation": mine[0], "index": i})
            break
        if n % 50 == 49:
            flush()
    flush()
    send(fd, {"done": True})


def clock_real():
    return seams.real["time"]()


class Pool(object):
    """Forked workers; a worker that dies is a result like any other."""
    def __init__(self):
        self.procs = {}

    def fork(self, fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                fn(w)
            except BaseException:
                try:
                    send(w, {"harness": traceback.format_exc(), "index": None})
                except BaseException:
                    pass
            os._exit(0)
        os.close(w)
        self.procs[r] = {"pid": pid, "buf": b""}
        return r

    def events(self, timeout):
        """Yields (worker fd, message or None when the worker ended)."""
        if not self.procs:
            return
        ready, _, _ = seams.real["select"](list(self.procs), [], [], timeout)
        for fd in ready:
            data = seams.real["read"](fd, 1 << 16)
            p = self.procs[fd]
            if not data:
                os.close(fd)
                del self.procs[fd]
                _, status = os.waitpid(p["pid"], 0)
                yield fd, {"ended": status}
                continue
            p["buf"] += data
            while b"\n" in p["buf"]:
                line, p["buf"] = p["buf"].split(b"\n", 1)
                yield fd, json.loads(line)

    def kill(self):
        for fd, p in list(self.procs.items()):
            try:
                os.kill(p["pid"], signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(p["pid"], 0)
            os.close(fd)
        self.procs.clear()


def merge(total, agg):
    for k in ("faults", "probes", "stats", "other"):
        for n, v in agg[k].items():
            total[k][n] = total[k].get(n, 0) + v
    total["runs"] += agg["runs"]
    total["sim_us"] += agg["sim_us"]
    total["seams"] += agg["seams"]
    total["max_steps"] = max(total["max_steps"], agg["max_steps"])
    total["nontrivial"].update(agg["nontrivial"])
    total["samples"].extend(agg["samples"])


def search(prop, seed, runs, cap, total, skip):
    """-> list of candidate violations (index, kind, message), at most a few"""
    pool = Pool()
    found = []
    n = max(1, min(os.cpu_count() or 1, 16))
    deadline = clock_real() + cap
    todo = {}
    state = {}

    def start(indices):
        fd = pool.fork(lambda w: work(w, prop, seed, indices, deadline))
        todo[fd] = indices
        state[fd] = None
    grace = None
    pending = [i for i in range(runs) if i not in skip]
    for k in range(n):
        start(pending[k::n])
    try:
        while pool.procs:
            for fd, msg in pool.events(0.1 if grace else 5):
                if "agg" in msg:
                    merge(total, msg["agg"])
                elif "at" in msg:
                    state[fd] = msg["at"]
                elif "violation" in msg:
                    found.append((msg["index"], msg["violation"][0], msg["violation"][1]))
                elif "stuck" in msg:
                    found.append((msg["stuck"], "stuck", "the run did not end within %d s: %s" % (RUN_LIMIT, msg["where"])))
                elif "harness" in msg:
                    raise HarnessError("run %s: %s" % (msg["index"], msg["harness"]))
                elif "done" in msg:
                    state[fd] = "done"
                elif "ended" in msg and state.get(fd) != "done" and not any(f[0] == state.get(fd) for f in found):
                    found.append((state.get(fd), "crashed", "the process running the simulation ended: wait status %s" % msg["ended"]))
            if found and not grace:
                grace = clock_real() + 0.3         # let the counts of the runs so far arrive
            if grace and clock_real() > grace:
                break
            if clock_real() > deadline + RUN_LIMIT + 10:
                break
    finally:
        pool.kill()
    return sorted(found, key=lambda f: f[0])


# ------------------------------------------------------------------------------------------------
# one scenario in a process of its own

def isolated(prop, scenario, limit=RUN_LIMIT):
    """-> {"violations": [...], "digest": ...}; kinds stuck and crashed included"""
    pool = Pool()

    def one(w):
        guarded(w, 0, limit)
        try:
            mine, other, r = execute(engine_for(prop), prop, scenario)
        except HarnessError as e:
            send(w, {"harness": str(e)})
            return
        send(w, {"violations": mine, "digest": r.w.digest() if r is not None else "", "log": r.w.log[-200:] if r is not None else []})
    pool.fork(one)
    out = None
    while pool.procs:
        for fd, msg in pool.events(limit + 5):
            if "violations" in msg:
                out = msg
            elif "stuck" in msg:
                out = {"violations": [["stuck", "the run did not end within %d s: %s" % (limit, msg["where"])]], "digest": "", "log": []}
            elif "harness" in msg:
                out = {"violations": [], "digest": "", "log": [], "harness": msg["harness"]}
            elif "ended" in msg and out is None:
                out = {"violations": [["crashed", "the process running the simulation ended: wait status %s" % msg["ended"]]], "digest": "", "log": []}
    return out


def fresh(prop, path):
    """Replay a file in a new interpreter; -> (exit code, output)"""
    env = dict(os.environ, PYTHONHASHSEED="7")
    p = subprocess.run([os.path.join(HERE, "check"), "--property", prop, "--replay", path], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=env)
    return p.returncode, p.stdout.decode("utf-8", "replace")


# ------------------------------------------------------------------------------------------------
# minimising

def shrink(prop, scenario, kind, seconds, max_runs=1500):
    engine = engine_for(prop)
    stop = clock_real() + seconds
    runs = [0]
    best = [scenario]

    def fails(s):
        if clock_real() > stop or runs[0] >= max_runs:
            return False
        runs[0] += 1
        if kind in ("stuck", "crashed"):
            return any(v[0] == kind for v in isolated(prop, s, 5)["violations"])
        try:
            mine, _, _ = execute(engine, prop, copy.deepcopy(s))
        except HarnessError:
            return False
        return any(k == kind for k, _ in mine)

    def attempt(s):
        if fails(s):
            best[0] = s
            return True
        return False

    def get(s, path):
        for p in path:
            s = s[p]
        return s

    def paths(s, prefix=()):
        yield prefix
        if isinstance(s, dict):
            for k in sorted(s):
                for p in paths(s[k], prefix + (k,)):
                    yield p
        elif isinstance(s, list):
            for k in range(len(s)):
                for p in paths(s[k], prefix + (k,)):
                    yield p

    def lists():
        changed = False
        for path in sorted(paths(best[0]), key=len):
            try:
                node = get(best[0], path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(node, list) or not node or set(path[-2:]) & set(getattr(engine, "KEEP_LISTS", ())):
                continue
            size = len(node)
            chunk = size
            while chunk >= 1:
                at = 0
                while True:
                    node = get(best[0], path)
                    if at >= len(node):
                        break
                    if len(node) - len(node[at:at + chunk]) < (1 if path and path[-1] in getattr(engine, "NONEMPTY", ()) else 0):
                        at += chunk
                        continue
                    s = copy.deepcopy(best[0])
                    del get(s, path)[at:at + chunk]
                    if attempt(s):
                        changed = True
                    else:
                        at += chunk
                    if clock_real() > stop or runs[0] >= max_runs:
                        return changed
                chunk //= 2
        return changed

    def scalars():
        changed = False
        optional = getattr(engine, "OPTIONAL", ())
        ints = getattr(engine, "SHRINK_INT", {})
        for path in list(paths(best[0])):
            if not path:
                continue
            try:
                node = get(best[0], path)
            except (KeyError, IndexError, TypeError):
                continue
            key = path[-1]
            if key in optional:
                s = copy.deepcopy(best[0])
                del get(s, path[:-1])[key]
                if attempt(s):
                    changed = True
                    continue
            low = ints.get(key)
            if low is None and isinstance(key, int) and len(path) > 1:
                low = ints.get(path[-2])
            if low is not None and isinstance(node, int) and not isinstance(node, bool) and node > low:
                for v in sorted(set([low, (low + node) // 2, node - 1])):
                    if v >= node:
                        continue
                    s = copy.deepcopy(best[0])
                    get(s, path[:-1])[key] = v
                    if attempt(s):
                        changed = True
                        break
        return changed

    while clock_real() < stop and runs[0] < max_runs:
        a = lists()
        b = scalars()
        if not a and not b:
            break
    return best[0], runs[0]


# ------------------------------------------------------------------------------------------------

def findings():
    """Known findings that were not repaired: property -> [(kind, text the message contains)]"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("finding: "):
                f = json.loads(line[len("finding: "):])
                out.setdefault(f["property"], []).append(f)
    return out


def known(f, kind, message):
    return f["kind"] == kind and f["contains"] in message


def determinism(prop, seed, count=4):
    """The same scenarios in a new interpreter with another hash seed: same digests?"""
    engine = engine_for(prop)
    here = []
    for i in range(count):
        here.append(isolated(prop, scenario_for(engine, prop, seed, i))["digest"] or "error")
    env = dict(os.environ, PYTHONHASHSEED="4242")
    p = subprocess.run([os.path.join(HERE, "check"), "--property", prop, "--digests", str(count), "--seed", str(seed)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    there = p.stdout.decode().split()
    return sum(a == b for a, b in zip(here, there)), count


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True, choices=sorted(PLAN))
    ap.add_argument("--replay")
    ap.add_argument("--digests", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    a = ap.parse_args()
    prop = a.property
    seams.install(fine=prop in FINE)
    engine = engine_for(prop)
    process_state.snapshot()

    if a.digests:
        for i in range(a.digests):
            r = execute(engine, prop, scenario_for(engine, prop, a.seed, i))[2]
            print(r.w.digest() if r is not None else "error")
        return 0

    if a.replay:
        f = json.load(open(a.replay))
        out = isolated(prop, f["scenario"])
        for line in out["log"]:
            print("   ", line)
        if out.get("harness"):
            print(out["harness"])
            return 2
        for k, m in out["violations"]:
            print("%s: %s" % (k, m))
        if any(k == f["kind"] for k, _ in out["violations"]):
            print("digest %s%s" % (out["digest"][:16], "" if out["digest"] == f["digest"] else " (recorded: %s)" % f["digest"][:16]))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("not reproduced on this tree")
        return 0

    start = clock_real()
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    runs = a.runs or PLAN[prop][1 if a.tier == "quick" else 2]
    cap = a.cap or CAP[a.tier]
    total = {"runs": 0, "faults": {}, "probes": {}, "stats": {}, "sim_us": 0, "seams": 0, "nontrivial": set(), "other": {}, "samples": [],
             "max_steps": 0}
    accepted = findings().get(prop, [])
    skip, unreproduced, result, seen_known = set(), [], None, set()
    code = 0
    try:
        same, of = determinism(prop, a.seed)
        while True:
            left = cap - (clock_real() - start)
            if left < 1 and skip:
                break
            found = search(prop, a.seed, runs, max(left, 1), total, skip)
            if not found:
                break
            index, kind, message = found[0]
            hit = [f for f in accepted if known(f, kind, message)]
            if hit:
                seen_known.add(hit[0]["what"])
                skip.add(index)
                continue
            scenario = scenario_for(engine, prop, a.seed, index)
            result = confirm(prop, a.seed, index, kind, message, scenario)
            if result:
                break
            unreproduced.append((index, kind, message))
            skip.add(index)
            if len(unreproduced) >= 5:
                break
    except HarnessError as e:
        print(e)
        print("the simulator itself failed; this is no verdict on the property")
        return 2
    wall = clock_real() - start
    for f in accepted:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if result:
        code = 1
        print(result["text"])
        print("VIOLATION property=%s replay=%s" % (prop, result["path"]))
    elif unreproduced:
        for u in unreproduced:
            print("not reproduced in a process of its own, not reported: run %s: %s: %s" % u)
    write_evidence(prop, engine, a, total, wall, same, of, result, unreproduced)
    print("%s %s seed %d: %d runs, %d distinct non-trivial, %.1f s simulated, %.1f s wall" %
          (prop, a.tier, a.seed, total["runs"], len(total["nontrivial"]), total["sim_us"] / 1e6, wall))
    return code


def confirm(prop, seed, index, kind, message, scenario):
    """Minimise, write the replay file and check that a new process reproduces it."""
    for attempt in ("minimised", "as found"):
        s, n = scenario, 0
        if attempt == "minimised":
            s, n = shrink_apart(prop, scenario, kind)
        out = isolated(prop, s)
        hits = [m for k, m in out["violations"] if k == kind]
        if not hits:
            continue
        path = os.path.join(REPLAYS, "%s-%s-%d.json" % (prop, seed, index))
        with open(path, "w") as f:
            json.dump({"property": prop, "kind": kind, "message": hits[0], "seed": seed, "index": index, "shrink_runs": n,
                       "digest": out["digest"], "scenario": s, "events": out["log"][-60:]}, f, indent=1)
        rc, text = fresh(prop, path)
        if rc == 1:
            return {"path": path, "kind": kind, "message": hits[0], "index": index,
                    "text": "%s: %s\n  (run %d of seed %s, %s in %d runs; replay: ./check --property %s --replay %s)" %
                            (kind, hits[0], index, seed, attempt, n, prop, path)}
    return None


def shrink_apart(prop, scenario, kind, seconds=25):
    """Minimise in a child, so that whatever a candidate does cannot take this process along."""
    pool = Pool()

    def child(w):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(seconds + 2 * RUN_LIMIT)
        s, n = shrink(prop, scenario, kind, seconds)
        send(w, {"scenario": s, "n": n})
    pool.fork(child)
    out = (scenario, 0)
    while pool.procs:
        for fd, msg in pool.events(seconds + 3 * RUN_LIMIT):
            if "scenario" in msg:
                out = (msg["scenario"], msg["n"])
    return out


def write_evidence(prop, engine, a, total, wall, same, of, result, unreproduced):
    samples = sorted(total["samples"], key=lambda s: s["index"])[:4]
    e = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(total["nontrivial"]),
            "rule": engine.RULE,
            "samples": samples,
            "simulated_seconds": round(total["sim_us"] / 1e6, 3),
            "seam_calls": total["seams"],
            "longest_run_in_seam_calls": total["max_steps"],
            "runs_per_hour": int(total["runs"] / wall * 3600) if wall else 0,
            "faults_injected": total["faults"],
            "situations_reached": total["probes"],
            "outcomes": total["stats"],
            "distinct_measure": "SHA-256 over the run's whole event trace (system calls, completions, context switches, faults, times)",
            "real_code": engine.REAL,
            "simulated": engine.SIMULATED,
            "determinism": "%d of %d runs gave the same trace in another process with another hash seed" % (same, of),
            "violations_of_other_properties_seen": total["other"],
            "not_reproduced": [list(u) for u in unreproduced],
        },
        "assumptions": engine.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": 1 if result else 0,
    }
    if result:
        e["coverage"]["violation"] = {"kind": result["kind"], "message": result["message"], "replay": result["path"], "run": result["index"]}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(e, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
