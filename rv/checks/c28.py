"""Concurrent calls from several threads return what they return one after another."""
import os
import sys
import threading
import time
import warnings

import numpy as np

from rv import catalogue, gen

ID = "C28"
RULE = ("recorded concurrent calls, preempted at lines of girth's own code, against the same calls made in sequence; "
        "distinct by function, input and the function running in the thread that was switched from")
MIN = {"concurrent": 300, "arguments": 60, "state": 40, "interleaved": 40}
BUDGET = {"quick": 45, "thorough": 900}
ROOT = os.environ.get("GIRTH_REPO", "/repo") + os.sep


def cases(tier, seed):
    kinds = [{"kind": k, "min": 6} for k in ("one function", "mixed", "one call", "estimators")]
    return gen.round_robin(seed, ID, kinds, 16 if tier == "quick" else 400)


class Switches:
    """Yields the processor at lines of girth's code and records which thread ran before."""

    def __init__(self, rate, seed):
        self.rate, self.seed = rate, seed
        self.last = None
        self.seen = set()
        self.switches = self.lines = 0
        self.local = threading.local()

    def line(self, frame, event, arg):
        if event == "line":
            here = threading.get_ident()
            state = self.local
            self.lines += 1
            if self.last is not None and self.last[0] != here:
                self.switches += 1
                if len(self.seen) < 20000:
                    self.seen.add((self.last[1], frame.f_code.co_name, frame.f_lineno))
            self.last = (here, frame.f_code.co_name)
            state.step = (state.step * 1103515245 + 12345) % 2147483648
            draw = state.step >> 16
            if draw % 1000 < self.rate:
                time.sleep(0 if draw % 7 else 2e-5)
        return self.line

    def __call__(self, frame, event, arg):
        if not hasattr(self.local, "step"):
            self.local.step = (self.seed + threading.get_ident() // 64) % 2147483648
        return self.line if frame.f_code.co_filename.startswith(ROOT) else None


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    usable = sorted(n for n in catalogue.CATALOGUE if n not in catalogue.SLOW)
    threads = int(rng.integers(3, 6))
    if kind == "one function":                              # different data, one function
        names = [str(rng.choice(usable))] * 4
    elif kind == "one call":                                # the same arguments, shared by all threads
        names = [str(rng.choice(usable))]
    elif kind == "estimators":
        names = [str(n) for n in rng.choice([n for n in usable if n.endswith(("mml", "mml_eap"))], 3, replace=False)]
    else:
        names = [str(n) for n in rng.choice(usable, 7, replace=False)]
        if rng.random() < .3:
            names.append(str(rng.choice(["initial_guess_md", "sparsify_loadings", "multidimensional_twopl_mml"])))
    calls = [catalogue.build(n, int(rng.integers(1, 10 ** 6))) for n in names]
    marks = [catalogue.digest(c[1:]) for c in calls]
    expected = [catalogue.outcome(*c)[0] for c in calls]
    repeats = 1 if kind == "mixed" else 2
    plans = [[int(i) for _ in range(repeats) for i in rng.permutation(len(calls))] for _ in range(threads)]
    got = [[] for _ in range(threads)]
    errors = [None] * threads
    start = threading.Barrier(threads)
    watch = Switches(int(rng.choice([5, 30, 200])), int(rng.integers(10 ** 6)))

    def body(me):
        start.wait()
        errors[me] = np.geterr()
        for at in plans[me]:
            got[me].append((at, catalogue.bare_outcome(*calls[at])[0]))
        if np.geterr() != errors[me]:
            got[me].append((-1, "numpy error state changed"))

    everyone = [threading.Thread(target=body, args=(t,)) for t in range(threads)]
    interval = sys.getswitchinterval()
    before = np.random.get_state()[1].copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sys.setswitchinterval(1e-5)
        threading.settrace(watch)
        try:
            for t in everyone:
                t.start()
        finally:
            threading.settrace(None)
        for t in everyone:
            t.join()
        sys.setswitchinterval(interval)
    for me in range(threads):
        mon.check("concurrent", len(got[me]) == len(plans[me]), f"thread {me} ended early or left numpy's error state changed")
        for at, what in got[me]:
            if at >= 0:
                mon.check("concurrent", what == expected[at], f"{names[at]} in a thread differs from the sequential call",
                          got=what, want=expected[at], with_=names)
    for at, mark in enumerate(marks):
        mon.check("arguments", catalogue.digest(calls[at][1:]) == mark, f"{names[at]}: shared arguments changed")
    mon.check("state", bool((np.random.get_state()[1] == before).all()), "the global random state changed", calls=names)
    again = [catalogue.outcome(*c)[0] for c in calls]
    for at in range(len(calls)):
        mon.check("state", again[at] == expected[at], f"{names[at]}: after the threads ended", calls=names)
    if watch.switches > 5:
        mon.check("interleaved", True)
    mon.event("thread switches inside girth", watch.switches)
    mon.event("traced lines", watch.lines)
    for key in watch.seen:
        mon.state(*key)
    mon.sample(kind=kind, calls=names, threads=threads, switches=watch.switches)
