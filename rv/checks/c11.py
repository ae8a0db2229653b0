"""Order, coding, storage type and replication of the data do not matter."""
import numpy as np
import girth
from girth import multidimensional as gmd
from girth.common import cronbach_alpha, polychoric_correlation_serial, reverse_score

from rv import gen, ref
from rv.checks.c07 import SPEC
from rv.checks.c10 import ordinary

ID = "C11"
RULE = ("paired executions of every estimator, scoring function and descriptive statistic on a data set and on the "
        "same data with respondents or items permuted, categories relabelled in order, stored in another type or "
        "layout, or every respondent repeated; distinct by function, transformation, size, categories, missing cells")
MIN = {"respondents": 60, "relabelled": 40, "stored": 100, "repeated": 40, "items": 40, "scoring": 60, "described": 60}
BUDGET = {"quick": 50, "thorough": 1500}
# two executions that differ in rounding may take different search paths
PATHS = {"gum_mml": .15, "threepl_mml": .15, "multidimensional_twopl_mml": .15, "multidimensional_grm_mml": .15}
SLACK = {"pcm_mml": 5e-3, "pcm_jml": 5e-3, "grm_jml": 5e-3, "twopl_jml": 5e-3}
KEYS = ("Discrimination", "Difficulty", "Delta", "Tau", "Guessing", "Ability")


def cases(tier, seed):
    kinds = [{"kind": n, "min": 6} for n in list(SPEC) + ["scoring", "described"]]
    counts = {k["kind"]: (10 if k["kind"] in SPEC else 40) if tier == "quick" else 1200 for k in kinds}
    return gen.round_robin(seed, ID, kinds, counts)


def data_for(rng, name):
    n_people = int(rng.choice([90, 200]))
    n_items = int(rng.choice([5, 8]))
    missing = 0 if name == "rasch_conditional" else float(rng.choice([0, 0, .15]))
    layout = SPEC[name][2]
    if "jml" in name:
        n_items = 8
    if layout == "vector":
        return gen.dich(rng, n_items, n_people, missing=missing, spread=1.2)["data"]
    if layout == "multi":
        cats = [2] * 6 if "twopl" in name else [2, 3, 3, 2, 3, 2]
        out = gen.mgrm(rng, cats, 2, 350, start=0, missing=missing / 2)["data"]
        return out
    cats = [int(c) for c in rng.integers(3 if layout == "unfold" else 2, 5, n_items)]
    model = {"graded": "grm", "credit": "pcm", "unfold": "gum"}[layout]
    return gen.poly(rng, model, cats, n_people, start=int(rng.choice([0, 1])), missing=missing)["data"]


def same_fit(mon, rule, name, got, want, tol, order=None, items=None, tile=1, note="", statistics=True):
    ll_only = name in PATHS
    if ll_only:
        if "AIC" in got and statistics:
            a, b = [np.ravel(r["AIC"]["final"] if isinstance(r["AIC"], dict) else r["AIC"])[0] for r in (got, want)]
            mon.check(rule, abs(a - b) < 2 * PATHS[name], f"{name}: {note}: AIC differs", got=a, want=b)
        elif tile > 1 and "AIC" in got:
            pass
    for key in KEYS:
        if key not in want:
            continue
        x, y = np.asarray(got[key], float), np.asarray(want[key], float)
        if key == "Ability":
            if order is not None:
                y = y[..., order]
            if tile > 1:
                y = np.tile(y, tile)
        elif items is not None and y.ndim:
            y = y[items]
        if x.shape != y.shape:
            mon.check(rule, False, f"{name}: {note}: {key} shape", got=x.shape, want=y.shape)
            continue
        if ll_only and tol > 1e-5:
            if key == "Ability" and y.ndim == 1:
                mon.check(rule, abs(np.corrcoef(x, y)[0, 1]) > .9 or np.abs(x - y).max() < .05,
                          f"{name}: {note}: {key} changed", got=x[:5], want=y[:5])
            continue
        scale = np.maximum(1, np.abs(y))
        mon.close(rule, x / scale, y / scale, tol, msg=f"{name}: {note}: {key}")
    if not ll_only and statistics and "AIC" in want:
        for key in ("AIC", "BIC"):
            for part in ("final", "null"):
                mon.close(rule, got[key][part], want[key][part], max(.05, 30 * tol) if tol > 1e-5 else 1e-4,
                          msg=f"{name}: {note}: {key}")


def run(spec, mon):
    rng = gen.rng_of(spec)
    name = spec["kind"]
    if name in globals():
        return globals()[name](rng, mon)
    data = data_for(rng, name)
    if not ordinary(data, .03):
        mon.skip("a category is nearly unused")
        return
    layout = SPEC[name][2]
    opts = {"max_iteration": 2}
    if name == "rasch_conditional":
        opts["max_iteration"] = 300
    elif layout in ("vector", "graded") and name not in PATHS:
        opts["max_iteration"] = int(rng.choice([3, 15]))
    if layout == "multi":
        opts = {"max_iteration": 2, "quadrature_n": 11, "initial_guess": bool(rng.random() < .5)}
    if name.endswith("eap"):
        opts["hyper_quadrature_n"] = 31
    kw = {"discrimination": float(rng.choice([1, 1.4]))} if name.startswith("rasch") else {}
    if name == "gum_mml":
        kw["delta_sign"] = (int(rng.integers(len(data))), 1)
    fn = getattr(girth, name, None) or getattr(gmd, name)
    args = (2,) if layout == "multi" else ()

    def fit(x, limit=None):
        o = dict(opts)
        if limit:
            o["max_iteration"] = limit
        return mon.call("returns", fn, x, *args, options=o, **kw)

    base = fit(data)
    loose = SLACK.get(name, 2e-3)
    order = rng.permutation(data.shape[1])
    same_fit(mon, "respondents", name, fit(data[:, order]), base, loose, order=order, note="respondents permuted")
    if layout != "vector":
        levels = np.unique(data[data != ref.MISSING])
        new = np.cumsum(rng.integers(1, 4, levels.size)) + int(rng.integers(-5, 6))
        coded = data.copy()
        for old, value in zip(levels, new):
            coded[data == old] = value
        same_fit(mon, "relabelled", name, fit(coded), base, 1e-6, note=f"categories relabelled {new.tolist()}")
    for label, other in storages(rng, data, layout == "vector"):
        if opts.get("initial_guess") and label.startswith(("bool",)):
            continue
        same_fit(mon, "stored", name, fit(other), base, 1e-6 if not label.endswith("layout") else loose, note=f"stored as {label}")
    if "jml" not in name and not name.endswith("eap"):
        times = int(rng.integers(2, 4))
        same_fit(mon, "repeated", name, fit(np.tile(data, times)), base, 2 * loose, tile=times, note=f"repeated {times} times",
                 statistics=False)
    if name not in PATHS:
        limit = {"rasch_conditional": 300, "pcm_mml": 25, "pcm_jml": 30, "grm_jml": 30}.get(name, 40)
        if name not in ("rasch_mml", "onepl_mml", "rasch_jml"):
            if name in ("pcm_mml", "grm_mml_eap", "grm_jml", "pcm_jml") and rng.random() < .5:
                limit = None
        if limit:
            full, check = fit(data, limit), fit(data, limit - 5)
            items = rng.permutation(len(data))
            got = fit(data[items], limit)
            if np.array_equal(full["Discrimination"], check["Discrimination"]) and \
                    np.nanmax(np.abs(full["Difficulty"])) < 5 and np.max(full["Discrimination"]) < 3.6:
                same_fit(mon, "items", name, got, full, .15 if name == "pcm_mml" else .03 if "jml" in name else .015,
                         items=items, note="items permuted", statistics=False)
    mon.state(name, data.shape, sorted(opts.items()), int((data == ref.MISSING).sum()))
    mon.sample(method=name, people=data.shape[1], discrimination=np.ravel(base["Discrimination"])[:3])


def storages(rng, data, dichotomous, count=3):
    """(label, array) with the same content."""
    valid = data != ref.MISSING
    low, high = data[valid].min(), data[valid].max()
    types = ["int32", "int64"]
    if valid.all():
        types += ["int8", "int16"] + (["uint8", "uint16", "uint32"] if low >= 0 else [])
        if low == 0 and high == 1:
            types += ["bool", "bool"]
    out = []
    for t in rng.choice(types, count - 1):
        out.append((str(t), data.astype(t)))
    wide = np.full((2 * data.shape[0], 3 * data.shape[1]), -7)
    wide[::2, ::3] = data
    frozen = data.copy()
    frozen.setflags(write=False)
    views = [("Fortran layout", np.asfortranarray(data)), ("strided layout", wide[::2, ::3]),
             ("reversed layout", data[::-1, ::-1].copy()[::-1, ::-1]), ("read-only layout", frozen)]
    out.append(views[rng.integers(len(views))])
    return out


def scoring(rng, mon):
    n_items, n_people = int(rng.choice([3, 8, 20])), int(rng.choice([5, 60]))
    b, a, c = rng.normal(0, 1, n_items), rng.uniform(.4, 2.2, n_items), rng.uniform(0, .3, n_items)
    data = gen.dich(rng, n_items, n_people, a=a, b=b, missing=float(rng.choice([0, .2])) if n_items > 3 else 0)["data"]
    calls = {n: (lambda x, p, n=n: getattr(girth, n)(x, b[p], a[p])) for n in ("ability_eap", "ability_map", "ability_mle")}
    calls.update({n: (lambda x, p, n=n: getattr(girth, n)(x, b[p], a[p], c[p]))
                  for n in ("ability_3pl_eap", "ability_3pl_map", "ability_3pl_mle")})
    everyone = np.arange(n_items)
    for name, fn in calls.items():
        base = mon.call("returns", fn, data, everyone)
        tol = 1e-7 if "eap" in name else 2e-4
        if "3pl" in name and "eap" not in name:
            tol = 5e-3
        order, items = rng.permutation(n_people), rng.permutation(n_items)
        mon.close("scoring", mon.call("returns", fn, data[:, order], everyone), base[order], tol, msg=f"{name} respondents permuted")
        mon.close("scoring", mon.call("returns", fn, data[items], items), base, tol, msg=f"{name} items permuted")
        mon.close("scoring", mon.call("returns", fn, np.tile(data, 2), everyone), np.tile(base, 2), tol, msg=f"{name} repeated")
        for label, other in storages(rng, data, True):
            mon.close("scoring", mon.call("returns", fn, other, everyone), base, tol, msg=f"{name} stored as {label}")
    cats = [2, 3, 3, 2]
    g = gen.mgrm(rng, cats, 2, 30, start=0)
    data = gen.complete_categories(g["data"], 0, cats)
    d, opts = gen.pad(g["d"]), {"quadrature_n": 13}
    for name in ("multidimensional_ability_eap", "multidimensional_ability_map"):
        fn = getattr(gmd, name)
        base = mon.call("returns", fn, data, d, g["a"], opts)
        tol = 1e-7 if "eap" in name else 5e-3
        order, items = rng.permutation(data.shape[1]), rng.permutation(4)
        mon.close("scoring", mon.call("returns", fn, data[:, order], d, g["a"], opts), base[:, order], tol, msg=f"{name} respondents")
        mon.close("scoring", mon.call("returns", fn, data[items], d[items], g["a"][items], opts), base, tol, msg=f"{name} items")
        for label, other in storages(rng, data, False, 2):
            mon.close("scoring", mon.call("returns", fn, other, d, g["a"], opts), base, tol, msg=f"{name} stored as {label}")
    mon.state("scoring", n_items, n_people)


def described(rng, mon):
    cats = [int(c) for c in rng.integers(2, 6, int(rng.integers(3, 6)))]
    data = gen.poly(rng, "grm", cats, int(rng.choice([80, 200])), start=1, missing=float(rng.choice([0, .1])), low=1)["data"]
    if not ordinary(data, .03):
        mon.skip("a category is nearly unused")
        return
    n = len(cats)
    order, items = rng.permutation(data.shape[1]), rng.permutation(n)
    base = mon.call("returns", cronbach_alpha, data)
    ctt = mon.call("returns", girth.classical_test_statistics, data)
    variants = [("respondents permuted", data[:, order], np.arange(n)), ("items permuted", data[items], items)]
    variants += [(f"stored as {label}", other, np.arange(n)) for label, other in storages(rng, data, False, 4)]
    for label, other, ndx in variants:
        mon.close("described", mon.call("returns", cronbach_alpha, other), base, 1e-9, msg=f"alpha: {label}")
        got = mon.call("returns", girth.classical_test_statistics, other)
        for key, value in ctt.items():
            tol = 5e-4 if "oly" in key else 1e-9
            mon.close("described", got[key], np.asarray(value)[ndx], tol, msg=f"{key}: {label}")
    two = data[:3]
    corr = mon.call("returns", polychoric_correlation_serial, two, 1, 5)
    for label, other in [("respondents permuted", two[:, order])] + storages(rng, two, False, 3):
        mon.close("described", mon.call("returns", polychoric_correlation_serial, other, 1, 5), corr, 1e-9, msg=f"polychoric: {label}")
    mask = rng.random(n) < .5
    back = mon.call("returns", reverse_score, data, mask, 5)
    for label, other in storages(rng, data, False, 3):
        mon.close("described", mon.call("returns", reverse_score, other, mask, 5), back, 0, msg=f"reverse score: {label}")
    mon.state("described", tuple(cats), data.shape, int((data == ref.MISSING).sum()))
