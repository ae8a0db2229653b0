"""Parallel polychoric estimation equals serial and leaves nothing behind."""
import hashlib

import numpy as np
from girth.common import polychoric_correlation, polychoric_correlation_serial

from rv import gen, procs

ID = "C18"
RULE = ("parallel calls under perturbed schedules (workers delayed at fork, stopped and continued at random) and injected "
        "failures (failing pair, worker killed), compared with serial results, with monitors on processes and shared "
        "memory; distinct by variables, processors, storage and schedule")
MIN = {"equal": 30, "nothing left": 60, "untouched": 30, "failure": 12}
BUDGET = {"quick": 30, "thorough": 900}
HANG_IS_VIOLATION = True
WALL_LIMIT = 90


def cases(tier, seed):
    kinds = [{"kind": k, "min": 6} for k in ("delayed", "stopped", "plain", "failing", "killed", "small")]
    return gen.round_robin(seed, ID, kinds, 40 if tier == "quick" else 2000)


def digest(a):
    return hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest() + str(a.shape) + str(a.dtype)


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    items = int(rng.integers(1, 8)) if kind != "small" else int(rng.integers(1, 3))
    if kind == "killed":
        items = int(rng.integers(4, 8))
    processors = int(rng.choice([2, 2, 3, 4, 6]))
    if kind == "stopped":
        items = int(rng.integers(6, 12))
    people = int(rng.choice([60, 200]))
    cats = int(rng.integers(2, 5)) if kind != "stopped" else 5
    low = int(rng.choice([1, 0, -1]))
    z = rng.normal(size=(1, people)) + rng.normal(0, 1, (items, people))
    data = np.array([np.searchsorted(np.sort(rng.normal(0, 1, cats - 1)), row) for row in z]) + low
    if rng.random() < .4:
        data = np.where(rng.random(data.shape) < .1, 99, data)
    storage = str(rng.choice(["int64", "int32", "int16", "int8", "float64", ">i4", ">i2", "<u2", ">f8", "float32", "fortran", "strided", "readonly"]))
    if storage == "fortran":
        data = np.asfortranarray(data)
    elif storage == "strided":
        wide = np.full((2 * items, 3 * people), 77)
        wide[::2, 1::3] = data
        data = wide[::2, 1::3]
    elif storage == "readonly":
        data = data.copy()
        data.setflags(write=False)
    else:
        if storage == "<u2":
            data, low = data - data.min(), low - data.min()
        data = data.astype(storage)
    fails = kind == "failing" and items > 1
    if fails:
        data = np.array(data)
        i, j = rng.choice(items, 2, replace=False)
        half = people // 2
        data[i, :half], data[j, half:] = 99, 99      # no respondent answered both
    high = low + cats - 1
    before, mark = procs.group_members(), digest(data)
    serial = None
    if not fails:
        serial = np.asarray(mon.call("returns", polychoric_correlation_serial, data, low, high))
    delays, killed = [], ()
    if kind in ("delayed", "failing"):
        delays = [0.0] + list(rng.permutation(np.linspace(0, float(rng.choice([.1, .3])), processors)))
    if kind == "killed":
        killed = [1 + int(rng.integers(processors))]      # the first child is the memory manager
        # killed before it takes the locks of the executor, which python cannot recover from
    stopper = None
    with procs.Segments() as segments, procs.ForkPlan(delays, killed) as plan:
        try:
            if kind == "stopped":
                with procs.Stopper(spec["seed"], before) as stopper:
                    got = mon.call("returns", polychoric_correlation, data, low, high, processors)
            elif fails:
                mon.raises("failure", polychoric_correlation, data, low, high, processors,
                           msg="a pair without common respondents gave a matrix")
            elif killed:
                try:
                    got = np.asarray(polychoric_correlation(data, low, high, processors))
                except Exception:  # noqa: BLE001
                    mon.check("failure", True)
                else:
                    if plan.forks > killed[0]:
                        mon.check("failure", np.array_equal(got, serial), "a wrong matrix was returned although a worker was "
                                  "killed", got=got, want=serial)
                    else:
                        mon.skip("that worker was never started")
            else:
                got = mon.call("returns", polychoric_correlation, data, low, high, processors)
        finally:
            left = procs.settle(before)
            mon.check("nothing left", not left, f"{kind}: processes left behind", processes=left)
            shm = segments.left()
            mon.check("nothing left", not shm, f"{kind}: shared memory left behind", segments=shm)
            procs.end_all(left)
            segments.remove()
    mon.event("forks", plan.forks)
    if stopper is not None:
        mon.event("stops", stopper.stops)
    mon.same("untouched", np.array([mark]), np.array([digest(data)]), f"{kind}: data changed")
    if serial is not None and not killed:
        mon.same("equal", got, serial, f"{kind}: parallel differs from serial", items=items, processors=processors)
        if kind == "plain":
            mon.same("equal", polychoric_correlation(data, low, high, 1), serial, "one processor")
            if low == 1:
                mon.same("equal", polychoric_correlation(data, stop_val=high), serial, "default processors")
    elif fails:
        mon.raises("failure", polychoric_correlation_serial, data, low, high, msg="serial: failing pair accepted")
    mon.state(kind, items, processors, storage, np.round(delays, 2).tolist())
    mon.sample(kind=kind, items=items, processors=processors, forks=plan.forks)


