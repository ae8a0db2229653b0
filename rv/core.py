"""Cases, monitors, the worker pool, evidence and reporting.

A check is a module with
    ID, LEVEL_NOTE, RULE          texts for the evidence
    MIN                           {monitor rule: minimum evaluations per run}
    cases(tier, seed)             yields JSON-able case specs, most important
                                  kinds first in round-robin order
    run(spec, mon)                executes the real code, feeding the monitor
The oracle is always `mon.check(...)` on something the execution produced.
"""
import json
import hashlib
import importlib
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from multiprocessing.connection import wait as conn_wait

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GIRTH_REPO", "/repo")


class CaseAbort(Exception):
    """The code under test failed; the violation is already recorded."""


class CpuLimit(BaseException):
    pass


def jsonable(obj, depth=0):
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(obj.items())[:40]}
    if isinstance(obj, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(obj)[:40]]
    if isinstance(obj, np.ndarray):
        if obj.size > 60:
            return {"shape": list(obj.shape), "dtype": str(obj.dtype),
                    "head": jsonable(obj.ravel()[:12].tolist())}
        return jsonable(obj.tolist())
    if isinstance(obj, (np.floating, float)):
        return float(obj) if np.isfinite(obj) else str(obj)
    if isinstance(obj, (np.integer,)):
        return int(obj)
    if isinstance(obj, (np.bool_,)):
        return bool(obj)
    if isinstance(obj, (str, int, type(None))):
        return obj
    return repr(obj)[:200]


class Monitor:
    """Collects what one execution showed."""

    def __init__(self, spec):
        self.spec = spec
        self.counts = {}
        self.events = {}
        self.states = set()
        self.violations = []
        self.known = []
        self.samples = []
        self.skips = {}

    # -- oracles ---------------------------------------------------------
    def check(self, rule, ok, msg="", finding=None, **witness):
        """One evaluation of a monitor rule on an observed execution.

        finding: id of a listed known finding whose mechanism applies to
        exactly this observation.
        """
        self.counts[rule] = self.counts.get(rule, 0) + 1
        ok = bool(ok)
        if not ok:
            entry = {"rule": rule, "msg": msg, "witness": jsonable(witness)}
            if finding is not None:
                entry["finding"] = finding
                self.known.append(entry)
            else:
                self.violations.append(entry)
        return ok

    def close(self, rule, got, want, atol, rtol=0.0, msg="", finding=None, **wit):
        """Arrays agree, NaN matching NaN, shapes equal."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            return self.check(rule, False, f"{msg}: shape {got.shape} != {want.shape}",
                              finding, got=got, want=want, **wit)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
            bad &= ~(np.isnan(got) & np.isnan(want)) & ~(got == want)
        if not bad.any():
            return self.check(rule, True)
        ndx = np.argwhere(bad)[0] if bad.ndim else []
        where = tuple(int(i) for i in ndx)
        return self.check(rule, False, f"{msg}: differs at {where} of {got.shape}",
                          finding, at=list(where), got=got[where], want=want[where],
                          n_bad=int(bad.sum()),
                          max_abs=float(np.nanmax(np.abs(np.where(bad, got - want, 0)))), **wit)

    def same(self, rule, got, want, msg="", finding=None, **wit):
        """Bitwise identical (dtype aside), NaN matching NaN."""
        got, want = np.asarray(got), np.asarray(want)
        ok = got.shape == want.shape
        if ok:
            if got.dtype.kind in "fc" or want.dtype.kind in "fc":
                ok = np.array_equal(got, want, equal_nan=True)
            else:
                ok = np.array_equal(got, want)
        return self.check(rule, ok, msg or "not identical", finding,
                          **({} if ok else dict(got=got, want=want)), **wit)

    def call(self, rule, fn, *args, **kwargs):
        """Calls the code under test with valid input: raising is a violation."""
        self.event("call:" + getattr(fn, "__name__", "fn"))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    result = fn(*args, **kwargs)
        except (CpuLimit, KeyboardInterrupt):
            raise
        except Exception as exc:  # noqa: BLE001
            tb = traceback.extract_tb(exc.__traceback__)
            self.check(rule, False, f"{getattr(fn, '__name__', fn)} raised "
                       f"{type(exc).__name__}: {exc}",
                       at=[f"{f.filename}:{f.lineno}" for f in tb[-3:]])
            raise CaseAbort() from exc
        self.counts[rule] = self.counts.get(rule, 0) + 1
        return result

    def raises(self, rule, fn, *args, exc=Exception, msg="", **kwargs):
        """The call must be refused."""
        self.event("refusal:" + getattr(fn, "__name__", "fn"))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    result = fn(*args, **kwargs)
        except exc:
            return self.check(rule, True)
        return self.check(rule, False, msg or "accepted", result=result)

    # -- observations ----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def state(self, *key):
        """A distinct non-trivial situation seen by the monitor."""
        self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def skip(self, why):
        """An evaluation that had to be left out (outside the domain)."""
        self.skips[why] = self.skips.get(why, 0) + 1

    def report(self):
        return {"counts": self.counts, "events": self.events,
                "states": sorted(self.states), "violations": self.violations[:5],
                "n_violations": len(self.violations), "known": self.known[:20],
                "samples": self.samples, "skips": self.skips}


# ------------------------------------------------------------------------
def _on_cpu_limit(signum, frame):
    raise CpuLimit()


def run_one(module, spec, cpu_limit):
    mon = Monitor(spec)
    start = time.time()
    error = None
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                module.run(spec, mon)
    except CaseAbort:
        pass
    except CpuLimit:
        mon.check("returns", False, f"no result after {cpu_limit} s of processor time")
    except (OSError, MemoryError, ImportError):
        error = traceback.format_exc()[-2500:]
    except Exception as exc:  # noqa: BLE001
        # never on the unchanged tree: the result has a form no oracle can read
        mon.check("interpretable", False, f"{type(exc).__name__}: {exc}",
                  trace=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    out = mon.report()
    out["error"] = error
    out["wall"] = time.time() - start
    return out


def _worker(module_name, conn, cpu_limit):
    os.setpgid(0, 0)
    module = importlib.import_module(module_name)
    while True:
        try:
            item = conn.recv()
        except EOFError:
            break
        if item is None:
            break
        conn.send((item[0], run_one(module, item[1], cpu_limit)))
    os._exit(0)


class Pool:
    """Forked, non-daemonic workers (they may start processes themselves)."""

    def __init__(self, module_name, n_workers, cpu_limit, wall_limit):
        self.ctx = mp.get_context("fork")
        self.module_name = module_name
        self.n = n_workers
        self.cpu_limit = cpu_limit
        self.wall_limit = wall_limit
        self.workers = {}

    def _spawn(self):
        parent, child = self.ctx.Pipe()
        proc = self.ctx.Process(target=_worker,
                                args=(self.module_name, child, self.cpu_limit))
        proc.start()
        child.close()
        self.workers[parent] = [proc, None, 0.0]
        return parent

    def _kill(self, conn):
        proc = self.workers.pop(conn)[0]
        for target in (lambda: os.killpg(proc.pid, signal.SIGKILL), proc.kill):
            try:
                target()
            except (ProcessLookupError, PermissionError):
                pass
        proc.join(5)
        conn.close()

    def run(self, specs, want_more):
        """Yields (spec, result); want_more(spec) decides on each dispatch."""
        it = iter(specs)
        idle = [self._spawn() for _ in range(self.n)]
        exhausted = False
        busy = 0
        while True:
            while idle and not exhausted:
                for spec in it:
                    if want_more(spec):
                        break
                else:
                    exhausted = True
                    break
                conn = idle.pop()
                self.workers[conn][1:] = [spec, time.time()]
                conn.send((0, spec))
                busy += 1
            if not busy:
                break
            ready = conn_wait([c for c, w in self.workers.items() if w[1] is not None],
                              timeout=2.0)
            for conn in ready:
                spec = self.workers[conn][1]
                try:
                    _, result = conn.recv()
                    self.workers[conn][1] = None
                    idle.append(conn)
                except (EOFError, OSError):
                    code = self.workers[conn][0]
                    code.join(5)
                    self._kill(conn)
                    idle.append(self._spawn())
                    result = {"died": True, "exitcode": code.exitcode}
                busy -= 1
                yield spec, result
            now = time.time()
            for conn, (proc, spec, began) in list(self.workers.items()):
                if spec is not None and now - began > self.wall_limit and conn not in ready:
                    self._kill(conn)
                    idle.append(self._spawn())
                    busy -= 1
                    yield spec, {"hung": True}
        for conn in list(self.workers):
            try:
                conn.send(None)
            except OSError:
                pass
        for conn in list(self.workers):
            proc = self.workers[conn][0]
            proc.join(3)
            if proc.is_alive():
                self._kill(conn)


# ------------------------------------------------------------------------
def load_findings(prop):
    """Open entries of the known-findings file for one property."""
    path = os.path.join(ROOT, "known_findings.txt")
    out = {}
    with open(path) as handle:
        for line in handle:
            line = line.strip()
            if line.startswith("{"):
                entry = json.loads(line)
                if entry.get("status") == "open" and prop in entry["properties"]:
                    out[entry["id"]] = entry
    return out


def run_check(module, tier, seed):
    start = time.time()
    prop = module.ID
    findings = load_findings(prop)
    budget = getattr(module, "BUDGET", {}).get(tier, {"quick": 40, "thorough": 900}[tier])
    hard = {"quick": 480, "thorough": 3 * 3600}[tier]
    minimum = dict(getattr(module, "MIN", {}))
    n_workers = getattr(module, "WORKERS", None) or min(8, os.cpu_count() or 1)
    pool = Pool(module.__name__, n_workers, getattr(module, "CPU_LIMIT", 300),
                getattr(module, "WALL_LIMIT", 420))
    min_kind = getattr(module, "MIN_CASES", 1)
    counts, events, skips, states, kinds = {}, {}, {}, set(), {}
    dispatched = {}
    violations, known, samples, errors, inconclusive = [], {}, [], [], []
    n_cases = 0

    def want_more(spec):
        kind = spec.get("kind", "case")
        elapsed = time.time() - start
        need = dispatched.get(kind, 0) < spec.get("min", min_kind)
        enough = len(violations) >= 3
        # On a slow or loaded machine: go on until the rules are observed often enough
        short = any(counts.get(rule, 0) < count for rule, count in minimum.items())
        if enough or elapsed > hard or (elapsed > budget and not (need or short)):
            return False
        dispatched[kind] = dispatched.get(kind, 0) + 1
        return True

    for spec, res in pool.run(module.cases(tier, seed), want_more):
        n_cases += 1
        kind = spec.get("kind", "case")
        if res.get("hung"):
            hang_rule = getattr(module, "HANG_IS_VIOLATION", False)
            if hang_rule:
                violations.append((spec, {"rule": "returns", "msg": "the call never returned",
                                          "witness": {}}))
            else:
                inconclusive.append({"spec": spec, "why": "wall clock limit"})
            continue
        if res.get("died"):
            inconclusive.append({"spec": spec, "why": f"worker died {res['exitcode']}"})
            continue
        if res["error"]:
            errors.append({"spec": spec, "error": res["error"]})
        kinds[kind] = kinds.get(kind, 0) + 1
        for src, dst in ((res["counts"], counts), (res["events"], events),
                         (res["skips"], skips)):
            for key, value in src.items():
                dst[key] = dst.get(key, 0) + value
        states.update((kind, s) for s in res["states"])
        for entry in res["violations"]:
            violations.append((spec, entry))
        for entry in res["known"]:
            if entry["finding"] in findings:
                known.setdefault(entry["finding"], []).append((spec, entry))
            else:
                violations.append((spec, entry))
        if res["samples"] and len(samples) < 8 and kinds[kind] <= 1:
            samples.append({"kind": kind, "observed": res["samples"][0]})
        if not samples:
            samples.append({"kind": kind, "spec": jsonable(spec)})

    for key, count in minimum.items():
        if counts.get(key, 0) < count and not violations:
            inconclusive.append({"why": f"monitor rule {key!r} evaluated "
                                 f"{counts.get(key, 0)} times, needs {count}"})
    if (events and max(events.values()) == 0) or n_cases == 0:
        inconclusive.append({"why": "no events observed"})

    wall = time.time() - start
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(sum(counts.values())),
            "distinct_nontrivial": len(states),
            "rule": module.RULE,
            "samples": samples,
            "executions": n_cases,
            "executions_by_kind": kinds,
            "evaluations_by_monitor_rule": dict(sorted(counts.items())),
            "observed_events": dict(sorted(events.items())),
            "left_out": skips,
            "known_findings_observed": {k: len(v) for k, v in known.items()},
            "inconclusive": inconclusive[:5],
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as handle:
        json.dump(evidence, handle, indent=1)

    print(f"{prop} tier={tier} seed={seed} executions={n_cases} "
          f"evaluations={sum(counts.values())} states={len(states)} wall={wall:.1f}s")
    for fid, hits in known.items():
        print(f"KNOWN-FINDING: property={prop} {fid}: {findings[fid]['what']} "
              f"(observed {len(hits)} times)")
    for entry in errors[:3]:
        print("HARNESS-ERROR", json.dumps(entry["spec"]), "\n", entry["error"])
    for entry in inconclusive[:5]:
        print("INCONCLUSIVE", json.dumps(jsonable(entry)))
    if violations:
        folder = os.path.join(ROOT, "replays", prop)
        os.makedirs(folder, exist_ok=True)
        shown = set()
        for spec, entry in violations:
            key = (entry["rule"], json.dumps(spec, sort_keys=True))
            if key in shown or len(shown) >= 5:
                continue
            shown.add(key)
            name = hashlib.sha1(repr(key).encode()).hexdigest()[:10]
            path = os.path.join(folder, name + ".json")
            with open(path, "w") as handle:
                json.dump({"property": prop, "spec": spec, "violation": entry,
                           "how": f"./run.sh --replay replays/{prop}/{name}.json"},
                          handle, indent=1)
            print(f"  rule {entry['rule']}: {entry['msg']} {json.dumps(entry['witness'])[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        return 2
    if inconclusive:
        return 3
    return 0


def replay(path):
    with open(path) as handle:
        record = json.load(handle)
    module = importlib.import_module("rv.checks." + record["property"].lower())
    res = run_one(module, record["spec"], 600)
    print(json.dumps({k: res[k] for k in ("violations", "known", "error", "wall")}, indent=1))
    return 1 if res["violations"] else 0
