"""Estimates are always well formed."""
import numpy as np
import girth
from girth import multidimensional as gmd

from rv import gen, models, ref

ID = "C07"
RULE = ("every estimator on random data sets with few respondents, rare categories, uneven category counts, items "
        "everyone or no one endorses, missing cells, any coding and varied iteration limits; monitors on shape, "
        "finiteness, bounds, NaN placement, threshold order, ends and sign of what is returned; distinct by "
        "method, size, category counts, missing cells, special items, options")
MIN = {"shape": 300, "bounds": 300, "order": 60, "ends": 40, "sign": 15, "nan": 60}
BUDGET = {"quick": 45, "thorough": 1500}
TOL = 1e-6

# discrimination bounds, difficulty bounds, layout
SPEC = {
    "rasch_mml": (None, 6, "vector"), "onepl_mml": ((.25, 10), 6, "vector"), "twopl_mml": ((.2, 5), 6, "vector"),
    "threepl_mml": ((.25, 4), 6, "vector"), "twopl_mml_eap": ((.25, 5), 6, "vector"),
    "rasch_jml": (None, 6, "vector"), "onepl_jml": ((.25, 5), 6, "vector"), "twopl_jml": ((.25, 4), 6, "vector"),
    "rasch_conditional": (None, 10, "vector"),
    "grm_mml": ((.2, 5), 6, "graded"), "grm_mml_eap": ((.25, 5), 6, "graded"), "grm_jml": ((.25, 4), 6, "graded"),
    "pcm_mml": ((.25, 4), 6, "credit"), "pcm_jml": ((.25, 4), 6, "credit"), "gum_mml": ((.25, 4), 6, "unfold"),
    "multidimensional_twopl_mml": (None, None, "multi"), "multidimensional_grm_mml": (None, None, "multi"),
}
GRADED_FAMILY = ("twopl_mml", "twopl_mml_eap", "grm_mml", "grm_mml_eap")


def cases(tier, seed):
    kinds = [{"kind": n, "min": 12} for n in SPEC]
    return gen.round_robin(seed, ID, kinds, 45 if tier == "quick" else 1500)


def data_for(rng, name):
    layout = SPEC[name][2]
    n_people = int(rng.choice([15, 40, 120, 300] * 3 + [1200] if not name.endswith("jml") else [40, 120, 300]))
    n_items = int(rng.choice([2, 4, 7, 11] * 3 + [24]))
    jml = name.endswith("jml")
    if jml or name == "rasch_conditional":
        n_items, n_people = max(4, n_items), max(40, n_people)
    missing = 0 if n_items < 4 or name == "rasch_conditional" else float(rng.choice([0, 0, .1, .3]))
    start = int(rng.choice([0, 1, -2, 5]))
    slopes = None
    if rng.random() < .35 and name != "rasch_conditional":
        # unrelated and near deterministic items press the discriminations against their bounds
        slopes = rng.choice([.02, .02, 1.2, 9.0], n_items)
    if layout == "vector":
        data = gen.dich(rng, n_items, n_people, a=slopes, missing=missing,
                        spread=float(rng.choice([1.5, 3])))["data"]
    elif layout == "multi":
        cats = [2] * 6 if "twopl" in name else [int(c) for c in rng.integers(2, 5, 6)]
        data = gen.mgrm(rng, cats, 2, max(100, n_people), start=start, missing=missing / 2)["data"]
        if "twopl" in name:
            data[data != ref.MISSING] -= start
    else:
        low = 3 if layout == "unfold" else 2
        cats = [int(c) for c in rng.integers(low, 6 if rng.random() < .8 else 9, n_items)]
        if rng.random() < .3:
            cats = [cats[0]] * n_items
        model = {"graded": "grm", "credit": "pcm", "unfold": "gum"}[layout]
        data = gen.poly(rng, model, cats, n_people, a=slopes, start=start, missing=missing)["data"]
    special = []
    valid = data != ref.MISSING
    low, high = data[valid].min(), data[valid].max()
    if rng.random() < .4 and layout != "unfold" and name != "rasch_conditional" and n_items > 2:
        i = int(rng.integers(n_items if layout != "multi" else 6))
        # "no one endorses" means the lowest value of the whole matrix; a constant above it counts as endorsed
        value = [low, high][rng.integers(2)]
        data[i, valid[i]] = value
        special.append((i, value))
    return data, special


def options_for(rng, name):
    opts = {"max_iteration": int(rng.choice([1, 2, 4]))}
    if SPEC[name][2] == "multi":
        opts = {"max_iteration": 1, "quadrature_n": 11, "initial_guess": False}
    if name.endswith("eap"):
        opts["hyper_quadrature_n"] = 11
    if name in GRADED_FAMILY + ("pcm_mml", "gum_mml") and rng.random() < .25:
        opts["estimate_distribution"] = True
    if name in ("twopl_mml", "grm_mml") + tuple(n for n in SPEC if n.startswith("multi")) and rng.random() < .4:
        opts["use_LUT"] = False
    return opts


def trimmed(data):
    valid = data != ref.MISSING
    low, high = data[valid].min(), data[valid].max()
    keep = np.array([v.any() and not (col[v] == low).all() and not (col[v] == high).all()
                     for col, v in zip(data.T, valid.T)])
    return data[:, keep]


def run(spec, mon):
    rng = gen.rng_of(spec)
    name = spec["kind"]
    disc_bounds, limit, layout = SPEC[name]
    data, special = data_for(rng, name)
    opts = options_for(rng, name)
    used = trimmed(data) if name in ("grm_jml", "pcm_jml") else data
    if name.endswith("jml") or name == "rasch_conditional":
        sub = trimmed(data)
        if np.unique(sub, axis=1).shape[1] < 6 or (name == "rasch_conditional" and
                                                   any(np.unique(r).size < 2 for r in sub)):
            mon.skip("too few informative respondents")
            return
    args, kw = (), {"options": opts}
    if layout == "multi":
        args = (2,)
    if name == "gum_mml":
        kw["delta_sign"] = (int(rng.integers(len(data))), int(rng.choice([-1, 1, 2, -3])))
    if name in ("rasch_mml", "rasch_jml", "rasch_conditional"):
        kw["discrimination"] = float(rng.choice([1, .6, 1.9]))
    fn = getattr(girth, name, None) or getattr(gmd, name)
    res = mon.call("returns", fn, data, *args, **kw)
    n = len(data)
    codes, counts = ref.recode(used)
    disc = np.asarray(res["Discrimination"], float)

    # shapes
    want = {"onepl_mml": (), "rasch_mml": (), "rasch_conditional": (), "onepl_jml": ()}.get(
        name, (n, 2) if layout == "multi" else (n,))
    mon.check("shape", disc.shape == want, f"{name} discrimination shape", got=disc.shape, want=want)
    width = counts.max() - 1
    diff_key = "Tau" if layout == "unfold" else "Difficulty"
    diff = np.asarray(res[diff_key], float)
    want = (n,) if layout == "vector" or name == "multidimensional_twopl_mml" else (n, width)
    mon.check("shape", diff.shape == want or (layout == "multi" and diff.shape == (n, width)),
              f"{name} difficulty shape", got=diff.shape, want=want)
    diff = diff.reshape(n, -1)

    # finite and within bounds
    mon.check("bounds", np.isfinite(disc).all(), f"{name} discrimination not finite", got=disc)
    if disc_bounds:
        mon.check("bounds", (disc >= disc_bounds[0] - TOL).all() and (disc <= disc_bounds[1] + TOL).all(),
                  f"{name} discrimination out of bounds", got=disc)
    else:
        if "discrimination" in kw:
            mon.check("bounds", np.all(disc == kw["discrimination"]), "fixed discrimination returned", got=disc)
    if layout == "multi":
        mon.check("bounds", (np.abs(disc[:-1]) <= 3 + TOL).all() and .2 - TOL <= disc[-1, 0] <= 5 + TOL,
                  f"{name} discrimination out of bounds", got=disc)
        limits = 6 * np.sqrt((disc ** 2).sum(axis=1)).clip(.15, 5.99)
    else:
        scale = kw.get("discrimination", 1) if name == "rasch_conditional" else 1
        limits = np.full(n, limit / scale)
    for i in range(n):
        k = counts[i] - 1
        mon.check("nan", np.isfinite(diff[i, :k]).all() and np.isnan(diff[i, k:]).all(),
                  f"{name} item {i}: thresholds {counts[i] - 1}", got=diff[i])
        mon.check("bounds", (np.abs(diff[i, :k]) <= limits[i] + TOL).all(), f"{name} item {i} difficulty out of bounds",
                  got=diff[i], limit=limits[i])
        step = np.diff(diff[i, :k])
        if layout == "graded":
            mon.check("order", (step >= -1e-4).all(), f"{name} item {i} thresholds descend", got=diff[i])
        elif layout == "multi":
            mon.check("order", (step <= 1e-4).all(), f"{name} item {i} intercepts ascend", got=diff[i])
    if "Guessing" in res:
        c = np.asarray(res["Guessing"])
        mon.check("shape", c.shape == (n,), "guessing shape", got=c.shape)
        mon.check("bounds", ((c >= -TOL) & (c <= .33 + TOL)).all(), "guessing out of bounds", got=c)
    if layout == "unfold":
        unfolding(mon, res, kw, n, counts)
    if "Ability" in res:
        ability = np.asarray(res["Ability"])
        want = (2, data.shape[1]) if layout == "multi" else (data.shape[1],)
        mon.check("shape", ability.shape == want, f"{name} ability shape", got=ability.shape, want=want)
        mon.check("bounds", np.isfinite(ability).all() and (np.abs(ability) <= 5).all(),
                  f"{name} ability out of the integration range", got=ability)
        stats = np.array([list(res[k].values()) if isinstance(res[k], dict) else [res[k]] for k in ("AIC", "BIC")])
        mon.check("bounds", np.isfinite(stats).all(), f"{name} fit statistics not finite", got=stats)
    ends(mon, name, layout, data, diff, special, limits, opts)
    if disc_bounds:
        mon.event("a discrimination at its bound", int((np.abs(disc.reshape(-1, 1) - disc_bounds) < 1e-4).any(axis=0).sum()))
    mon.state(name, data.shape, tuple(counts), bool(special), sorted(opts.items()), int((data == ref.MISSING).sum()))
    mon.sample(method=name, discrimination=disc, difficulty=diff[0], counts=counts)


def unfolding(mon, res, kw, n, counts):
    delta = np.asarray(res["Delta"], float)
    mon.check("shape", delta.shape == (n,), "delta shape", got=delta.shape)
    mon.check("bounds", np.isfinite(delta).all() and (np.abs(delta) <= 2 + TOL).all(), "delta out of bounds", got=delta)
    which, sign = kw["delta_sign"]
    mon.check("sign", delta[which] * np.sign(sign) >= 0, f"delta {which} does not have the requested sign",
              got=delta, requested=sign)
    table = np.asarray(res["Difficulties"], float)
    mon.check("shape", table.shape == (n, 2 * counts.max() - 1), "unfolding difficulties", got=table.shape)


def ends(mon, name, layout, data, diff, special, limits, opts):
    if name == "rasch_conditional" or layout == "unfold":
        return
    valid = data != ref.MISSING
    low = data[valid].min()
    lut = opts.get("use_LUT", True) or name.endswith("eap")
    for i, value in special:
        if np.unique(data[i, valid[i]]).size != 1:
            continue
        b = diff[i, 0] * (-1 if layout == "multi" else 1)
        hard = value == low
        graded = name in GRADED_FAMILY or layout == "multi"
        far = .5 * limits[i] if layout in ("vector", "multi") or graded else 1.0
        if layout == "credit" or name == "grm_jml" or name == "twopl_jml":
            far = 1.0
        ok = (b >= far) if hard else (b <= -far)
        mon.check("ends", ok, f"{name} item {i} {'no one' if hard else 'everyone'} endorses is not at its end",
                  finding=models.constant_item_finding(i, hard, lut) if graded else None, b=b, limit=limits[i])
