"""Every call is pure: arguments, global state and later calls are unaffected."""
import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np
import girth

from rv import catalogue, gen

ID = "C27"
RULE = ("recorded calls of every public function in random histories, with digests of arguments and global state around "
        "each and results compared with the same call made alone in a fresh process; distinct by function, input and the "
        "call before it")
MIN = {"arguments": 150, "read only": 120, "random state": 150, "global state": 150, "shared memory": 120, "alone": 60,
       "repeat": 120, "spoiled results": 100, "interrupted": 40}
BUDGET = {"quick": 60, "thorough": 900}
ROOT = os.environ.get("GIRTH_REPO", "/repo") + os.sep


def cases(tier, seed):
    kinds = [{"kind": "history", "calls": 9, "min": 12}, {"kind": "same", "calls": 7, "min": 6},
             {"kind": "workers", "calls": 2, "min": 1}]
    return gen.round_robin(seed, ID, kinds, {"history": 26, "same": 20, "workers": 4} if tier == "quick" else
                           {"history": 400, "same": 300, "workers": 30})


def state():
    """The process wide state a numerical library could disturb."""
    return {
        "random": catalogue.digest(np.random.get_state()),
        "python random": hash(random.getstate()),
        "errors": tuple(sorted(np.geterr().items())),
        "print": repr(np.get_printoptions()),
        "directory": os.getcwd(),
        "options": catalogue.digest(girth.default_options()),
        "environment": hash(tuple(sorted(os.environ.items()))),
        "recursion": sys.getrecursionlimit(),
        "filters": repr(warnings.filters),
        "umask": current_umask(),
        "hook": sys.excepthook is sys.__excepthook__,
    }


def current_umask():
    mask = os.umask(0o22)
    os.umask(mask)
    return mask


def frozen(value):
    """The same arguments seen through read-only arrays."""
    if isinstance(value, np.ndarray):
        out = value.view()
        out.setflags(write=False)
        return out
    if isinstance(value, dict):
        return {k: frozen(v) for k, v in value.items()}
    if isinstance(value, (tuple, list)):
        return type(value)(frozen(v) for v in value)
    return value


def spoil(value):
    """Overwrites a result, as its owner may."""
    for array in catalogue.arrays(value):
        if array.flags.writeable and array.dtype.kind in "fiub" and array.size:
            array[...] = np.array(-77).astype(array.dtype)
    if isinstance(value, dict):
        value.clear()


def alone(calls):
    run = subprocess.run([sys.executable, "-m", "rv.lone"], input=json.dumps(calls), capture_output=True, text=True,
                         timeout=400, env=dict(os.environ))
    if run.returncode:
        raise RuntimeError("lone calls: " + run.stderr[-400:])
    return json.loads(run.stdout)


class Stop(BaseException):
    """Thrown into a call from outside, as an interrupt would be."""


def interrupted(fn, args, kwargs, lines):
    """Runs a call and interrupts it after that many lines of girth's code; returns whether it was."""
    left = [lines]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] <= 0:
                raise Stop()
        return local

    def outer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    sys.settrace(outer)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(*args, **kwargs)
    except Stop:
        return True
    except Exception:
        return left[0] <= 0
    finally:
        sys.settrace(None)
    return False


def run(spec, mon):
    rng = gen.rng_of(spec)
    every = sorted(catalogue.CATALOGUE)
    quick = [n for n in every if n not in catalogue.SLOW]
    count = spec["calls"]
    if spec["kind"] == "workers":
        names = [str(rng.choice(catalogue.FORKS))] + [str(n) for n in rng.choice(quick, count - 1)]
    elif spec["kind"] == "same":                            # one function, different inputs
        name = str(rng.choice(quick))
        names = [name] * count
    else:
        names = [str(n) for n in rng.choice(quick, count, replace=False)]
        if rng.random() < .35:
            names[-1] = str(rng.choice([n for n in catalogue.SLOW if n not in catalogue.FORKS]))
    calls = [(n, int(rng.integers(1, 10 ** 6))) for n in names]
    expected = alone(calls)
    order = [int(i) for i in rng.permutation(len(calls))]
    order += [int(i) for i in rng.permutation(len(calls))] if spec["kind"] != "workers" else []
    np.random.seed(int(rng.integers(1000)))
    random.seed(int(rng.integers(1000)))
    previous = "nothing"
    for position, at in enumerate(order):
        name, seed = calls[at]
        fn, args, kwargs = catalogue.stored(name, seed)
        original = catalogue.digest((args, kwargs))
        before = state()
        got, value = catalogue.outcome(fn, args, kwargs)
        after = state()
        where = f"{name} (seed {seed}) after {previous}"
        mon.check("arguments", catalogue.digest((args, kwargs)) == original, f"{where}: an argument changed")
        mon.check("random state", before["random"] == after["random"] and before["python random"] == after["python random"],
                  f"{where}: the global random state changed")
        changed = [k for k in before if before[k] != after[k] and "random" not in k]
        mon.check("global state", not changed, f"{where}: process state changed", changed=changed)
        mon.check("alone", got == expected[at], f"{where}: differs from the same call made alone", got=got, want=expected[at])
        if got.startswith("raised"):
            mon.event("raised")
            previous = name
            continue
        if name not in catalogue.FORKS and rng.random() < .6:
            lines = int(10 ** rng.uniform(.5, 3.2))
            if interrupted(fn, args, kwargs, lines):
                mon.check("interrupted", catalogue.digest((args, kwargs)) == original, f"{where}: an argument changed when the "
                          f"call was interrupted after {lines} lines")
                after = state()
                changed = [k for k in before if before[k] != after[k]]
                mon.check("interrupted", not changed, f"{where}: process state changed when the call was interrupted",
                          changed=changed)
                mon.event("interrupted calls")
        given = list(catalogue.arrays((args, kwargs)))
        shared = any(np.shares_memory(r, a) for r in catalogue.arrays(value) for a in given if r.size and a.size)
        mon.check("shared memory", not shared, f"{where}: the result shares memory with an argument")
        if name not in catalogue.FORKS:
            # read-only inputs give the same, and what the caller does with a result does not reach the next call
            spoil(value)
            again, value = catalogue.outcome(fn, *frozen((args, kwargs)))
            mon.check("read only", again == got, f"{where}: read-only arguments", got=again, want=got)
            spoil(value)
            third, _ = catalogue.outcome(fn, args, kwargs)
            mon.check("spoiled results", third == got, f"{where}: after the caller overwrote the results", got=third, want=got)
            mon.check("repeat", catalogue.digest((args, kwargs)) == original, f"{where}: an argument changed when repeated")
        mon.state(name, seed, previous)
        mon.event("history step")
        previous = name
    mon.sample(kind=spec["kind"], calls=[n for n, _ in calls])
