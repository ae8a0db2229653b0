"""Classical test statistics equal their definitions on the valid responses."""
import numpy as np
import girth
from girth.common import cronbach_alpha

from rv import gen, ref
from rv.checks import c21

ID = "C22"
RULE = ("recorded statistics of ordinal data sets with and without missing cells against definitions computed respondent "
        "by respondent; distinct by items, people, categories, coding and missing cells")
MIN = {"counts": 60, "mean": 60, "std": 60, "rest": 60, "polyserial": 60, "alpha": 60, "alpha deleted": 60, "invariance": 60}
BUDGET = {"quick": 25, "thorough": 600}


def cases(tier, seed):
    kinds = [{"kind": k, "min": 10} for k in ("complete", "missing", "sparse", "binary")]
    return gen.round_robin(seed, ID, kinds, 40 if tier == "quick" else 1500)


def valid_of(column):
    return [float(v) for v in column if v != ref.MISSING]


def own_alpha(data):
    """Item variances over the variance of n times the respondent's mean valid response."""
    n = len(data)
    items = [valid_of(row) for row in data]
    people = [valid_of(col) for col in data.T]
    scores = np.array([n * sum(p) / len(p) for p in people if p])

    def variance(x):
        x = np.asarray(x)
        return ((x - x.mean()) ** 2).sum() / (len(x) - 1)
    return n / (n - 1) * (1 - sum(variance(i) for i in items) / variance(scores))


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    items, people = int(rng.integers(3, 12)), int(rng.choice([25, 80, 250, 250, 250, 1200]))
    if rng.random() < .1:
        items = 25
    cats = 2 if kind == "binary" else int(rng.integers(3, 8 if rng.random() < .8 else 12))
    start = int(rng.choice([0, 1, 1, -3, 10]))
    if kind == "binary":
        data = gen.dich(rng, items, people, spread=1)["data"]
        start = 0
    else:
        data = gen.poly(rng, "grm", [cats] * items, people, start=start)["data"]
    if rng.random() < .3:
        k = int(rng.integers(items))
        ok = data[k] != ref.MISSING
        data[k, ok] = data[k, ok].max() + data[k, ok].min() - data[k, ok]       # one item scored the other way
    rate = {"complete": 0, "missing": .15, "sparse": .6, "binary": float(rng.choice([0, .2]))}[kind]
    if rate:
        gone = rng.random(data.shape) < rate
        data = np.where(gone, ref.MISSING, data)
    if min(len(set(valid_of(r))) for r in data) < 2 or min(len(valid_of(r)) for r in data) < 6:
        mon.skip("constant item")
        return
    narrow = "int32" if rate else str(rng.choice(["int8", "int16", "int32"]))
    data = {0: data, 1: data.astype(narrow), 2: np.asfortranarray(data), 3: data.astype(float)}[int(rng.integers(4))]
    for i in range(items):                                  # constant among those with a rest score
        some = (np.delete(data, i, axis=0) != ref.MISSING).any(axis=0) & (data[i] != ref.MISSING)
        if np.unique(data[i, some]).size < 2:
            mon.skip("constant item")
            return
    out = mon.call("returns", girth.classical_test_statistics, data, start, start + cats - 1)
    where = f"{items} items, {kind}"
    items_valid = [np.array(valid_of(r)) for r in data]
    mon.close("counts", out["Item Counts"], [len(v) for v in items_valid], 0, msg=f"{where}: counts")
    mon.close("mean", out["Mean"], [v.sum() / len(v) for v in items_valid], 1e-10, msg=f"{where}: means")
    mon.close("std", out["Std"], [np.sqrt(((v - v.mean()) ** 2).sum() / (len(v) - 1)) for v in items_valid], 1e-10,
              msg=f"{where}: standard deviations")
    rest_r, rest_p, deleted = np.zeros(items), np.zeros(items), np.zeros(items)
    for i in range(items):
        others = np.delete(data, i, axis=0)
        pairs = [(sum(o) / len(o), v) for o, v in ((valid_of(others[:, j]), data[i, j]) for j in range(people))
                 if o and v != ref.MISSING]
        x, y = np.array(pairs, dtype=float).T
        xc, yc = x - x.mean(), y - y.mean()
        rest_r[i] = (xc * yc).sum() / np.sqrt((xc ** 2).sum() * (yc ** 2).sum())
        deleted[i] = own_alpha(others)
        # the polyserial correlation by its likelihood
        got = float(np.asarray(out["Polyserial Correlation"])[i])
        values, codes = np.unique(y, return_inverse=True)
        if values.size < 2:
            rest_p[i] = got
            continue
        z = xc / np.sqrt((xc ** 2).sum() / (len(x) - 1))
        tau = c21.ndtri(np.bincount(codes).cumsum()[:-1] / len(codes))
        if not mon.check("polyserial", -.991 < got < .991, f"{where}: polyserial correlation out of range", item=i, got=got):
            continue
        grid = np.concatenate([np.linspace(-.98, .98, 41), got + np.array([-.02, -.004, .004, .02])])
        best = max(c21.loglik(z, codes, tau, r) for r in grid[np.abs(grid) < .99])
        mon.check("polyserial", c21.loglik(z, codes, tau, got) >= best - 1e-4, f"{where}: polyserial correlation", item=i, got=got)
    mon.close("rest", out["Item-Score Correlation"], rest_r, 1e-9, msg=f"{where}: item-rest correlation")
    mon.close("alpha deleted", out["Cronbach Alpha"], deleted, 1e-9, 1e-9, msg=f"{where}: alpha if item deleted")
    alpha = float(mon.call("returns", cronbach_alpha, data))
    mon.close("alpha", alpha, own_alpha(data), 1e-9, 1e-9, msg=f"{where}: alpha")
    if not rate:
        c = np.cov(data)
        mon.close("alpha", alpha, items / (items - 1) * (1 - np.trace(c) / c.sum()), 1e-8, 1e-8, msg=f"{where}: covariance formula")
        mon.check("alpha", alpha <= 1 + 1e-9, "alpha above one", got=alpha)
        raised = np.array(data)
        raised[int(rng.integers(items))] += int(rng.integers(1, 9))
        mon.close("invariance", cronbach_alpha(raised), alpha, 1e-8, 1e-8, msg="constant added to an item")
        far = np.asarray(data, dtype=float) + rng.choice([1e5, 3e7])
        mon.close("invariance", cronbach_alpha(far), alpha, 1e-5, 1e-5, msg="large constant added to every item")
    factor = int(rng.integers(2, 5))
    scaled = np.where(np.asarray(data) == ref.MISSING, ref.MISSING, np.asarray(data) * factor)
    mon.close("invariance", cronbach_alpha(scaled), alpha, 1e-8, 1e-8, msg="all items multiplied")
    order, swap = rng.permutation(people), rng.permutation(items)
    mon.close("invariance", cronbach_alpha(np.asarray(data)[swap][:, order]), alpha, 1e-8, 1e-8, msg="items and people reordered")
    two = girth.classical_test_statistics(np.asarray(data)[swap], start, start + cats - 1)
    for key in ("Item Counts", "Mean", "Std", "Cronbach Alpha", "Item-Score Correlation"):
        mon.close("invariance", two[key], np.asarray(out[key])[swap], 1e-8, msg=f"items reordered: {key}")
    mon.close("invariance", two["Polyserial Correlation"], np.asarray(out["Polyserial Correlation"])[swap], 2e-3,
              msg="items reordered: polyserial")
    empty = np.concatenate([np.asarray(data), np.full((items, 2), ref.MISSING)], axis=1)
    mon.close("alpha", cronbach_alpha(empty), alpha, 1e-9, 1e-9, msg="respondents without responses added")
    mon.state(kind, items, people, cats, start, str(np.asarray(data).dtype), int((np.asarray(data) == ref.MISSING).sum()))
    mon.sample(kind=kind, items=items, people=people, alpha=alpha)
