"""Bootstrap is reproducible under any worker schedule and fails cleanly."""
import os
import tempfile

import girth
import numpy as np

from rv import gen, procs, recorder
from rv.checks.c19 import REAL

ID = "C20"
RULE = ("repeated bootstraps of a recording model under different worker delays and random stopping of workers, with "
        "injected model failures and monitors on processes and the global random state; distinct by model, processors, "
        "iterations, seed and schedule")
MIN = {"repeatable": 60, "fresh": 30, "independent": 40, "random state": 40, "failure": 12, "nothing left": 40}
BUDGET = {"quick": 45, "thorough": 900}
WORKERS = 6
HANG_IS_VIOLATION = True
WALL_LIMIT = 180


def cases(tier, seed):
    kinds = [{"kind": k, "min": 4} for k in ("schedule", "serial", "failing", "stopped")]
    n = 1 if tier == "quick" else 25
    return gen.round_robin(seed, ID, kinds, {"schedule": 10 * n, "serial": 16 * n, "failing": 12 * n, "stopped": 8 * n})


def flat(result):
    """Every number of the result, in order."""
    out = []
    for key in ("Solution", "95th CI", "Standard Errors", "Bias"):
        for name in ("Difficulty", "Discrimination"):
            out.append(np.ravel(np.asarray(result[key][name], dtype=float)))
    return np.concatenate(out)


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    people, items = int(rng.choice([30, 60])), int(rng.integers(2, 6))
    inner, options = None, None
    if rng.random() < .25 and kind != "failing":
        inner, people, options = REAL[str(rng.choice(["rasch_mml", "twopl_mml"]))], 100, {"max_iteration": 2, "quadrature_n": 15}
        data = gen.dich(rng, 4, people, spread=.7)["data"]
    else:
        data = rng.integers(0, 4, (items, people))
    data = np.vstack([np.arange(people), data])
    data.setflags(write=False)
    processors = 1 if kind == "serial" else int(rng.choice([2, 3, 4]))
    iterations = int(rng.integers(processors, 12)) if rng.random() < .8 else max(2, processors - 1)
    seed = int(rng.integers(0, 10 ** 6)) if rng.random() < .8 else int(rng.integers(0, 3))
    handle, path = tempfile.mkstemp(dir=os.environ.get("RV_SCRATCH"))
    os.close(handle)
    logs = []

    def once(use, salt=None, fail=None, procs_=None, error="Injected"):
        open(path, "w").close()
        model = recorder.Recorder(path, inner=inner, salt=salt, fail=fail, error=error)
        state = np.random.get_state()
        try:
            out = girth.standard_errors_bootstrap(data, model, bootstrap_iterations=iterations,
                                                  n_processors=procs_ or processors, options=options, seed=use)
        finally:
            after = np.random.get_state()
            mon.check("random state", np.array_equal(state[1], after[1]) and state[2:] == after[2:],
                      f"{kind}: the global random state was consumed")
        logs.append([e["ids"] for e in recorder.read(path) if e["ids"] != list(range(people))])
        return out

    before = procs.group_members()
    np.random.seed(int(rng.integers(10 ** 6)))
    try:
        if kind == "failing":
            failing(mon, rng, once, seed, iterations, processors, path)
        else:
            repeat(mon, rng, kind, once, seed, logs, before, iterations, processors)
    finally:
        os.unlink(path)
        left = procs.settle(before)
        mon.check("nothing left", not left, f"{kind}: worker processes left behind", processes=left)
        procs.end_all(left)
    mon.state(kind, items, people, processors, iterations, seed)


def repeat(mon, rng, kind, once, seed, logs, before, iterations, processors):
    salts = [int(s) for s in rng.integers(1, 2 ** 30, 2)]
    first = flat(mon.call("returns", once, seed, salts[0] if kind == "schedule" else None))
    if kind == "stopped":
        with procs.Stopper(seed, before) as stopper:
            again = flat(mon.call("returns", once, seed))
        mon.event("stops", stopper.stops)
    else:
        np.random.rand(5)
        np.random.seed(5)
        again = flat(mon.call("returns", once, seed, salts[1] if kind == "schedule" else None))
    mon.same("repeatable", again, first, f"{kind}: same seed, other results", processors=processors)
    mon.same("repeatable", np.array(sorted(logs[0])), np.array(sorted(logs[1])), f"{kind}: same seed, other resamples")
    for log in logs[:2]:
        mon.check("independent", len(log) == iterations and len({tuple(e) for e in log}) == len(log),
                  f"{kind}: two iterations or workers drew the same respondents", iterations=iterations, processors=processors)
    x = np.array(logs[0])
    for i in range(min(len(x), 6)):
        for j in range(i):
            agree, n = (x[i] == x[j]).mean(), x.shape[1]
            mon.check("independent", agree < 1 / n + 8 / np.sqrt(n), "two resamples resemble each other", share=agree)
    if kind == "serial":
        for other in (seed + 1, None):
            out = flat(mon.call("returns", once, other))
            mon.check("fresh", not np.array_equal(out, first), "another seed, same results")
            mon.check("fresh", not {tuple(e) for e in logs[-1]} & {tuple(e) for e in logs[0]}, "another seed, same resamples")
    mon.sample(kind=kind, iterations=iterations, processors=processors, drawn=logs[0][0][:6])


def failing(mon, rng, once, seed, iterations, processors, path):
    """Fails in the iterations whose first drawn respondents meet a condition."""
    fail = (int(rng.integers(3)), int(rng.choice([2, 3, 5])))
    if rng.random() < .4:
        processors = 1
    # the solution itself is computed from respondents 0, 1, 2, ...; keep it out of the failures
    fail = (fail[0] + 1, [2, 3, 5][int(rng.integers(3))])
    if fail[0] % fail[1] == 0:
        fail = (fail[0], 4 if fail[0] != 4 else 3)
    if fail[0] % fail[1] == 0:
        return
    error = str(rng.choice(list(recorder.FAILURES)))
    try:
        once(seed, fail=fail, procs_=processors, error=error)
        raised = None
    except Exception as exc:  # noqa: BLE001
        raised = exc
    log = [e["ids"] for e in recorder.read(path)]
    due = [e for e in log if e[fail[0]] % fail[1] == 0]
    mon.event("failing iterations reached", len(due))
    if due:
        mon.check("failure", raised is not None, "the model failed and a result was returned", processors=processors)
        mon.check("failure", type(raised) is recorder.FAILURES[error] and "injected" in str(raised), "another error than the model's", error=repr(raised))
    else:
        mon.check("failure", raised is None, "an error without a failure", error=repr(raised))
