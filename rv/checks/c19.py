"""Bootstrap output is exactly the statistics of whole-respondent resamples."""
import os
import tempfile
import zlib
from functools import partial

import girth
import numpy as np
from scipy import stats

from rv import gen, recorder

ID = "C19"
RULE = ("bootstraps of a recording model (own estimates or wrapping the estimators), every call of the model written to a "
        "log; distinct by model, data shape, storage, iterations, processors, supplied solution and options")
MIN = {"calls": 60, "resample": 600, "options": 600, "statistics": 200, "solution": 40, "uniform": 20}
BUDGET = {"quick": 40, "thorough": 900}
WORKERS = 6
REAL = {"rasch_mml": partial(girth.rasch_mml, discrimination=1.2), "onepl_mml": girth.onepl_mml, "twopl_mml": girth.twopl_mml,
        "rasch_jml": girth.rasch_jml, "grm_mml": girth.grm_mml, "pcm_mml": girth.pcm_mml}


def cases(tier, seed):
    kinds = [{"kind": k, "min": 5} for k in ("vector", "matrix", "padded", "rare", "scalar", "real", "parallel")]
    counts = {k["kind"]: (20 if tier == "quick" else 600) for k in kinds}
    counts["parallel"] = 8 if tier == "quick" else 160
    return gen.round_robin(seed, ID, kinds, counts)


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    shape = kind if kind not in ("real", "parallel") else str(rng.choice(["vector", "matrix", "padded", "rare", "scalar"]))
    people = int(rng.choice([25, 40, 90]))
    items = int(rng.integers(2, 8))
    iterations = int(rng.choice([2, 5, 11, 24]))
    processors = 1
    if kind == "parallel":
        processors = int(rng.choice([2, 3, 4]))
        iterations = int(rng.choice([2, 3, 7, 13]))
    inner, name = None, shape
    if kind == "real" or (kind == "parallel" and rng.random() < .3):
        name = str(rng.choice(list(REAL)))
        inner, people, items = REAL[name], 120, 5
        if name in ("grm_mml", "pcm_mml"):
            data = gen.poly(rng, "grm", [3] * items, people)["data"]
        else:
            data = gen.dich(rng, items, people, spread=.8)["data"]
        iterations = min(iterations, 5)
    else:
        data = rng.integers(0, 5, (items, people))
        if rng.random() < .4:
            data[rng.random(data.shape) < .1] = -99999
        if shape == "rare":
            data[::2, 0] = 9                                # the only respondent in the highest category
    data = np.vstack([np.arange(people), data])
    data = {"int64": data, "int32": data.astype("int32"), "fortran": np.asfortranarray(data),
            "strided": np.repeat(data, 2, axis=1)[:, ::2]}[str(rng.choice(["int64", "int32", "fortran", "strided"]))]
    options = None
    if rng.random() < .6:
        options = {"max_iteration": int(rng.integers(2, 6)), "quadrature_n": int(rng.choice([11, 21]))}
        if rng.random() < .5:
            options["quadrature_bounds"] = (-4, 4)
        if rng.random() < .4:
            options["distribution"] = stats.norm(.1, 1.2).pdf
    if inner is not None and options is None:
        options = {"max_iteration": 2, "quadrature_n": 21}
    handle, path = tempfile.mkstemp(dir=os.environ.get("RV_SCRATCH"))
    os.close(handle)
    try:
        judge(spec, mon, rng, data, recorder.Recorder(path, shape, inner), path, iterations, processors, options, name)
    finally:
        os.unlink(path)


def judge(spec, mon, rng, data, model, path, iterations, processors, options, name):
    supplied = None
    if rng.random() < .5:
        supplied = model(data, options=girth.validate_estimation_options(options))
        open(path, "w").close()
        if rng.random() < .5:
            supplied = {"Difficulty": supplied["Difficulty"] + 1.5,
                        "Discrimination": np.asarray(supplied["Discrimination"]) * 1.1, "Mine": True}
    people = data.shape[1]
    seed = None if rng.random() < .3 else int(rng.integers(10 ** 6))
    args = dict(bootstrap_iterations=iterations, n_processors=processors, options=options, seed=seed)
    if supplied is not None:
        args["solution"] = supplied
        keep = {k: np.array(v) for k, v in supplied.items()}
    result = mon.call("calls", girth.standard_errors_bootstrap, data, model, **args)
    log = recorder.read(path)
    mon.event("model calls", len(log))
    mon.event("worker processes", len({e["pid"] for e in log}))
    expected = recorder.describe({**girth.default_options(), **(options or {})}) if hasattr(girth, "default_options") else None
    for entry in log:
        if expected is not None:
            mon.check("options", entry["options"] == expected, f"{name}: options given to the model", got=entry["options"],
                      want=expected)
        for key, value in recorder.describe(options).items():
            mon.check("options", entry["options"].get(key) == value, f"{name}: option {key} given to the model",
                      got=entry["options"].get(key), want=value)
    full = zlib.crc32(np.ascontiguousarray(data).tobytes())
    original = [e for e in log if e["ids"] == list(range(people))]
    if supplied is None:
        mon.check("calls", len(log) == iterations + 1 and len(original) == 1, f"{name}: number of model calls", got=len(log),
                  want=iterations + 1, on_data=len(original))
        if len(original) != 1:
            return
        mon.check("resample", original[0]["crc"] == full, f"{name}: the solution is not of the data given")
        solution = {"Difficulty": np.array(original[0]["difficulty"], float),
                    "Discrimination": np.array(original[0]["discrimination"], float)}
    else:
        mon.check("calls", len(log) == iterations and not original, f"{name}: number of model calls with a solution supplied",
                  got=len(log), want=iterations)
        solution = {k: np.asarray(supplied[k], float) for k in ("Difficulty", "Discrimination")}
        for key, value in keep.items():
            mon.same("solution", supplied[key], value, f"{name}: the supplied solution changed")
        mon.check("solution", set(result["Solution"]) == set(supplied), f"{name}: another solution returned")
    for key in solution:
        mon.same("solution", result["Solution"][key], solution[key], f"{name}: solution {key}")
    draws = [e for e in log if e["ids"] != list(range(people))]
    every = []
    for entry in draws:
        ids = np.array(entry["ids"])
        mon.check("resample", ids.size == people and ids.min() >= 0 and ids.max() < people, f"{name}: size of the resample",
                  got=ids.size)
        mon.check("resample", entry["crc"] == recorder.crc_of(data, ids) and entry["dtype"] == str(data.dtype),
                  f"{name}: a resample is not made of whole respondents")
        every.append(ids)
        distinct = np.unique(ids).size / people
        mon.check("uniform", .3 < distinct < .95, f"{name}: not drawn with replacement", distinct=distinct)
    if len(every) > 1:
        rows = {tuple(e) for e in every}
        mon.check("uniform", len(rows) == len(every), f"{name}: resamples repeat")
        counts = np.bincount(np.concatenate(every), minlength=people)
        p = stats.chisquare(counts).pvalue
        mon.check("uniform", p > 1e-10, f"{name}: respondents are not equally likely", p=p)
        both = np.concatenate([e[:-1] for e in every]), np.concatenate([e[1:] for e in every])
        r = np.corrcoef(*both)[0, 1]
        mon.check("uniform", abs(r) < 8 / np.sqrt(both[0].size), f"{name}: draws are not independent", r=r)
    for key in ("Difficulty", "Discrimination"):
        x = np.array([np.ravel(e[key.lower()]) for e in draws], dtype=float)
        mine = solution[key]
        form = mine.shape if mine.ndim else (1,)
        with np.errstate(all="ignore"):               # over the resamples that have the parameter
            here = ~np.isnan(x)
            count = here.sum(axis=0)
            mean = np.where(here, x, 0).sum(axis=0) / count
            se = np.sqrt(np.where(here, (x - mean) ** 2, 0).sum(axis=0) / np.where(count > 1, count - 1, np.nan))
            mon.event("parameters absent from some resamples", int(((count > 0) & (count < len(x))).sum()))
        low, high = quantile(x, .025), quantile(x, .975)
        scale = 1e-9
        where = f"{name}, {len(x)} iterations: "
        for label, got, want in (("standard error", result["Standard Errors"][key], se),
                                 ("lower percentile", result["95th CI"][key][0], low),
                                 ("upper percentile", result["95th CI"][key][1], high),
                                 ("bias", result["Bias"][key], mean - np.ravel(mine))):
            if "percentile" in label and np.size(got) == here.shape[1]:     # undefined if a resample lacks the parameter
                got = np.where(here.all(axis=0).reshape(np.shape(got)), got, np.nan)
            mon.close("statistics", np.reshape(got, form) if np.size(got) == np.size(want) and not mine.ndim else got,
                      want.reshape(form), scale, 1e-9, msg=where + f"{label} of {key}")
    mon.check("statistics", set(result) >= {"Solution", "95th CI", "Standard Errors", "Bias"}, "parts of the result",
              got=list(result))
    mon.state(name, data.shape, str(data.dtype), iterations, processors, supplied is not None, sorted(options or {}))
    mon.sample(model=name, iterations=iterations, processors=processors, calls=len(log), first=log[0]["ids"][:8])


def quantile(x, q):
    """Linear interpolation between order statistics."""
    x = np.sort(x, axis=0)
    at = q * (len(x) - 1)
    k = int(np.floor(at))
    out = x[k] + (at - k) * (x[min(k + 1, len(x) - 1)] - x[k])
    return np.where(np.isnan(x).any(axis=0), np.nan, out)
