"""Runs one check: enumerates its cases over forked workers, collects counts and violations, writes the evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import sys
import time
import traceback

from . import boot
from .explore import Timeout, limit

EVID = os.path.join(boot.VERIF, "evidence")
KNOWN = os.path.join(boot.VERIF, "known_findings.txt")


class Violation(Exception):
    def __init__(self, msg, sig=None, **detail):
        Exception.__init__(self, msg)
        self.msg, self.sig, self.detail = msg, sig, detail


def fail(msg, sig=None, **detail):
    raise Violation(msg, sig, **detail)


class Report(object):
    """What one worker saw."""

    def __init__(self):
        self.counts = {}
        self.sets = {"states": set()}
        self.samples = []
        self.violations = []
        self.known = {}
        self.done = 0
        self.cut = 0
        self.maxima = {}

    def n(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def top(self, name, v):
        self.maxima[name] = max(self.maxima.get(name, 0), v)

    def state(self, key, group="states"):
        """Record a distinct state (or outcome); key is anything hashable (hash seed is fixed)."""
        self.sets.setdefault(group, set()).add(hash(key))

    def sample(self, obj, most=2):
        if len(self.samples) < most:
            self.samples.append(obj)


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return sorted((jsonable(x) for x in o), key=repr)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):]
                sig, _, text = rest.partition(" ")
                out.append((sig[len("sig="):] if sig.startswith("sig=") else sig, text))
    return out


def run_one(mod, case, rep, secs):
    """Run one case; returns a violation dict or None."""
    try:
        with limit(secs):
            mod.run(case, rep)
    except Violation as v:
        return {"msg": v.msg, "sig": v.sig, "detail": jsonable(v.detail)}
    except Timeout:
        return {"msg": "the code under test did not come to an end within %d s" % secs, "sig": "timeout", "detail": {}}
    except MemoryError:
        return {"msg": "the code under test exhausted the memory limit", "sig": "memory", "detail": {}}
    except Exception as e:
        return {"msg": "unexpected %s: %s" % (type(e).__name__, e), "sig": "exception",
                "detail": {"traceback": traceback.format_exc().splitlines()[-12:]}}
    return None


def worker(mod, tier, wid, nxt, stop, cur, path, deadline, mem):
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 2)
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    os.chdir(boot.scratch())
    rep = Report()
    secs = {"quick": 300, "thorough": 3000}[tier]
    known = dict(known_findings(mod.ID))
    it = enumerate(mod.cases(tier))
    try:
        pos, case = next(it)
        while True:
            with nxt.get_lock():
                k = nxt.value
                nxt.value = k + 1
            while pos < k:
                pos, case = next(it)
            if stop.value or time.time() > deadline:
                rep.cut += 1
                break
            cur[wid] = k
            v = run_one(mod, case, rep, secs)
            rep.done += 1
            if v is not None:
                v["index"], v["case"] = k, jsonable(case)
                if v["sig"] in known:
                    rep.known[v["sig"]] = v
                else:
                    rep.violations.append(v)
                    stop.value = 1
    except StopIteration:
        pass
    cur[wid] = -1
    with open(path + ".tmp", "wb") as f:
        pickle.dump(rep, f)
    os.rename(path + ".tmp", path)


def replay_path(pid, v):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(v["case"], sort_keys=True).encode()).hexdigest()[:10]
    return os.path.join(d, "%s-%s.json" % (pid, h))


def main(pid, tier, seed, replay=None):
    t0 = time.time()
    mod = importlib.import_module("mc.checks." + pid.lower())
    if replay:
        data = json.load(open(replay))
        rep = Report()
        save = os.dup(1)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        os.chdir(boot.scratch())
        a = run_one(mod, data["case"], rep, 600)
        b = run_one(mod, data["case"], Report(), 600)
        os.dup2(save, 1)
        same = (a is None) == (b is None) and (a is None or a["msg"] == b["msg"])
        print("replay of %s: %s%s" % (replay, "property holds" if a is None else a["msg"],
                                      "" if same else " (second replay differs: %r)" % (b,)))
        if a is not None:
            print(json.dumps(a["detail"], indent=1))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 0 if a is None else 1
    nw = int(os.environ.get("MC_WORKERS", min(8, os.cpu_count() or 1)))
    limits = {"quick": 420, "thorough": 5400}
    deadline = t0 + float(os.environ.get("MC_DEADLINE", getattr(mod, "DEADLINE", limits)[tier]))
    nxt, stop, cur = mp.Value("l", 0), mp.Value("i", 0), mp.Array("l", [-1] * nw)
    sc = boot.scratch()
    pids = []
    for w in range(nw):
        path = os.path.join(sc, "w%d" % w)
        p = os.fork()
        if p == 0:
            rc = 1
            try:
                worker(mod, tier, w, nxt, stop, cur, path, deadline, 3 << 30)
                rc = 0
            except BaseException:
                try:
                    with open(path + ".err", "w") as f:
                        f.write(traceback.format_exc())
                except Exception:
                    pass
            finally:
                os._exit(rc)
        pids.append((p, path))
    reps, lost = [], []
    for w, (p, path) in enumerate(pids):
        os.waitpid(p, 0)
        if os.path.exists(path):
            reps.append(pickle.load(open(path, "rb")))
        else:
            err = open(path + ".err").read() if os.path.exists(path + ".err") else "killed"
            lost.append((cur[w], err))
    counts, sets, maxima, samples, violations, known = {}, {}, {}, [], [], {}
    done = cut = 0
    for r in reps:
        for k, v in r.counts.items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r.sets.items():
            sets.setdefault(k, set()).update(v)
        for k, v in r.maxima.items():
            maxima[k] = max(maxima.get(k, 0), v)
        samples += r.samples[:2]
        violations += r.violations
        known.update(r.known)
        done += r.done
        cut += r.cut
    for k, err in lost:
        case = None
        if k >= 0:
            for i, c in enumerate(mod.cases(tier)):
                if i == k:
                    case = c
                    break
        if err != "killed":       # an error of the harness itself, not of the code under test
            sys.stderr.write("harness error in a worker (case %r):\n%s\n" % (k, err))
            return 3
        violations.append({"msg": "the process running the code under test was killed", "sig": "killed", "index": k,
                           "case": jsonable(case), "detail": {}})
    violations.sort(key=lambda v: v["index"])
    cov = {"states": len(sets.get("states", ())),
           "transitions": counts.pop("transitions", 0),
           "traces_validated_against_impl": counts.pop("traces", 0),
           "rule": mod.RULE,
           "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
           "cases_run": done,
           "exhaustive": not cut and not violations and not counts.get("bounded", 0),
           "stopped_by_deadline_or_violation": bool(cut),
           "samples": jsonable(samples[:4])}
    for k in sorted(counts):
        cov[k] = counts[k]
    for k in sorted(sets):
        if k != "states":
            cov["distinct_" + k] = len(sets[k])
    for k in sorted(maxima):
        cov["max_" + k] = maxima[k]
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", ())), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    if known:
        ev["known_findings"] = sorted(known)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for sig, text in known_findings(pid):
        if sig in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("%s %s: %d cases, %d states, %d transitions, %d traces checked, exhaustive=%s, %.1f s" % (
        pid, tier, done, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["exhaustive"],
        ev["wall_s"]))
    if violations:
        v = violations[0]
        path = replay_path(pid, v)
        with open(path, "w") as f:
            json.dump(dict(v, property=pid, tier=tier, seed=seed), f, indent=1)
        print(v["msg"])
        print(json.dumps(v["case"])[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if not done or not cov["traces_validated_against_impl"]:
        sys.stderr.write("nothing was checked\n")
        return 3
    return 0
