"""Reversing the response scale mirrors the estimates."""
import numpy as np
import girth
from scipy import stats

from rv import gen, ref

ID = "C10"
RULE = ("paired executions on a data set and on the same data with the response scale reversed, under priors "
        "symmetric about zero; difficulties and abilities must be negated, threshold order reversed, discrimination "
        "and fit statistics equal; distinct by method, size, categories, missing cells, options")
MIN = {"difficulty": 50, "discrimination": 50, "ability": 40, "fit": 30, "correlation": 25}
BUDGET = {"quick": 45, "thorough": 1500}
DICH = ["rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "rasch_jml", "onepl_jml", "twopl_jml",
        "rasch_conditional"]
POLY = ["grm_mml", "grm_mml_eap", "pcm_mml", "grm_jml", "pcm_jml"]
# estimates stop on an iteration criterion of 1e-3 and numerical searches
SLACK = {"grm_jml": .03, "pcm_jml": .05, "twopl_jml": .02, "pcm_mml": .15}


def cases(tier, seed):
    kinds = [{"kind": n, "min": 8} for n in DICH + POLY + ["scoring", "polychoric", "polyserial", "scoring_md"]]
    counts = {k["kind"]: (12 if k["kind"] in DICH + POLY else 60) if tier == "quick" else 1500 for k in kinds}
    rare = [f"{n} steep" for n in ("grm_mml", "grm_mml_eap", "grm_jml", "pcm_mml")] + ["fit_md"]
    kinds += [{"kind": n, "min": 3} for n in rare]
    counts.update({n: 6 if tier == "quick" else 400 for n in rare})
    counts["fit_md"] = 4 if tier == "quick" else 300
    return gen.round_robin(seed, ID, kinds, counts)


def mirror(data):
    valid = data != ref.MISSING
    out = data.copy()
    out[valid] = data[valid].min() + data[valid].max() - data[valid]
    return out


def symmetric_options(rng, name):
    opts = {}
    u = rng.random()
    if "jml" not in name and name != "rasch_conditional":
        if u < .3:
            opts["distribution"] = stats.norm(0, rng.uniform(.6, 1.1)).pdf
        elif u < .45:
            opts["distribution"] = stats.logistic(0, .5).pdf
        if rng.random() < .3:
            opts["quadrature_bounds"], opts["quadrature_n"] = (-5.5, 5.5), 45
        if name in ("twopl_mml", "grm_mml") and rng.random() < .4:
            opts["use_LUT"] = False
        if name in ("twopl_mml", "grm_mml", "pcm_mml") and rng.random() < .2:
            opts["estimate_distribution"] = True
        if name.endswith("eap"):
            opts["hyper_quadrature_n"] = 31
    return opts


def ordinary(data, floor=.04):
    for row in data:
        v, k = np.unique(row[row != ref.MISSING], return_counts=True)
        if v.size < 2 or k.min() / k.sum() < floor:
            return False
    return True


def run(spec, mon):
    rng = gen.rng_of(spec)
    name = spec["kind"]
    if name in globals():
        return globals()[name](rng, mon)
    name, steep = name.split()[0], name.endswith("steep")
    n_items = int(rng.choice([8, 12] if "jml" in name else [5, 8, 12]))
    n_people = int(rng.choice([120, 300]))
    missing = 0 if name == "rasch_conditional" else float(rng.choice([0, 0, .15]))
    shape = ["normal", "skew"][rng.integers(2)]
    # an item far from the respondents, its difficulty is still inside the search interval
    far = name in ("rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap") and rng.random() < .5
    kw = {"discrimination": float(rng.choice([1, 1.6]))} if name.startswith("rasch") else {}
    if name in DICH:
        b, a = rng.uniform(-1.2, 1.2, n_items), gen.item_disc(rng, n_items)
        if far:
            b[0], a[0] = rng.choice([-1, 1]) * rng.uniform(3.8, 5), rng.uniform(.5, .75)
            kw = {"discrimination": float(rng.choice([.5, .7]))} if name == "rasch_mml" else kw
        data = gen.dich(rng, n_items, 900 if far else n_people, a=a, b=b, missing=missing, shape=shape)["data"]
    elif steep:
        # one end of a steep item lies where almost nobody is
        side = rng.choice([-1, 1]) * (1 if "jml" in name else 2.2)
        slopes = rng.uniform(4, 6, n_items) * (.4 if name == "pcm_mml" else .5 if "jml" in name else 1)
        cuts = [np.sort(rng.normal(side, .5, 3)) for _ in range(n_items)]
        data = gen.poly(rng, name[:3], [4] * n_items, 500, a=slopes, cuts=cuts, missing=missing)["data"]
    else:
        cats = [int(c) for c in rng.integers(2, 5, n_items)]
        data = gen.poly(rng, "pcm" if "pcm" in name else "grm", cats, n_people, start=int(rng.choice([0, 1, -3])),
                        shape=shape, missing=missing)["data"]
    if not ordinary(data, (.03 if "jml" in name else 0) if steep else .015 if far else .04):
        mon.skip("a category is nearly unused")
        return
    opts = symmetric_options(rng, name)
    if steep:
        opts = {k: v for k, v in opts.items() if k == "hyper_quadrature_n"}
    if far:
        opts.pop("distribution", None)
        if name == "twopl_mml":
            opts["use_LUT"] = bool(rng.random() < .3)
    jml = "jml" in name
    limit = 400 if name == "rasch_conditional" else 40
    fn = getattr(girth, name)

    def fit(x, k):
        return mon.call("returns", fn, x, options={**opts, "max_iteration": k}, **kw)

    plain, turned = fit(data, limit), fit(mirror(data), limit)
    for result, x in ((plain, data), (turned, mirror(data))):
        if not np.array_equal(fit(x, limit - 8)["Discrimination"], result["Discrimination"]):
            mon.skip("not converged")
            return
    tol = SLACK.get(name, .01) * (3 if opts.get("estimate_distribution") else 1)
    b0 = np.asarray(plain["Difficulty"], float).reshape(n_items, -1)
    b1 = np.asarray(turned["Difficulty"], float).reshape(n_items, -1)
    want = np.full_like(b0, np.nan)
    for i, row in enumerate(b0):
        k = (~np.isnan(row)).sum()
        want[i, :k] = -row[:k][::-1]
    if max(np.nanmax(np.abs(b0)), np.nanmax(np.abs(b1))) > 5.8:
        mon.skip("at the edge of the search interval")
        return
    if jml and len(np.unique(plain["Discrimination"])) > 1 and (
            max(np.max(plain["Discrimination"]), np.max(turned["Discrimination"])) > 3.6):
        mon.skip("at the edge of the search interval")
        return
    scale = np.maximum(1, np.abs(want))
    mon.close("difficulty", b1 / scale, want / scale, tol, msg=f"{name} difficulties are not mirrored")
    a0, a1 = (np.asarray(r["Discrimination"], float) for r in (plain, turned))
    mon.close("discrimination", a1 / np.maximum(1, a0), a0 / np.maximum(1, a0), tol, msg=f"{name} discrimination changed")
    worst = max(np.nanmax(np.abs(b1 - want) / scale), np.max(np.abs(a1 - a0) / np.maximum(1, a0)))
    if "Ability" in plain:
        mon.close("ability", turned["Ability"], -np.asarray(plain["Ability"]), tol, msg=f"{name} abilities are not negated")
        for key in ("AIC", "BIC"):
            for part in ("final", "null"):
                # the null fit is not stationary in the estimates
                loose = name == "pcm_mml" or (part == "null" and opts.get("estimate_distribution"))
                mon.close("fit", turned[key][part], plain[key][part], 2 if loose else .1, msg=f"{name} {key} {part} changed")
    mon.event(f"{name} deviation <= %.3f" % (np.ceil(worst * 200) / 200))
    mon.state(name, data.shape, sorted((k, str(v)[:12]) for k, v in opts.items()), int((data == ref.MISSING).sum()))
    mon.sample(method=name, b=b0[0], mirrored=b1[0], a=np.ravel(a0)[:2], a_mirrored=np.ravel(a1)[:2])


def scoring(rng, mon):
    n_items, n_people = int(rng.choice([3, 8, 20])), 40
    b, a = rng.normal(0, 1, n_items), rng.uniform(.4, 2.2, n_items)
    data = gen.dich(rng, n_items, n_people, a=a, b=b, missing=float(rng.choice([0, .2])) if n_items > 3 else 0)["data"]
    opts = {"distribution": stats.norm(0, rng.uniform(.7, 1.4)).pdf} if rng.random() < .5 else {}
    turned = mirror_dich(data)
    for name in ("ability_eap", "ability_map", "ability_mle"):
        fn = getattr(girth, name)
        if name == "ability_mle":
            mark = float(rng.choice([4, 7.5]))
            x = mon.call("returns", fn, data, b, a, no_estimate=mark)
            y = mon.call("returns", fn, turned, -b, a, no_estimate=mark)
        else:
            x = mon.call("returns", fn, data, b, a, opts)
            y = mon.call("returns", fn, turned, -b, a, opts)
        mon.close("ability", y, -np.asarray(x), 2e-4 if name != "ability_eap" else 1e-8, msg=f"{name} is not negated")
    mon.state("scoring", data.shape, int((data == ref.MISSING).sum()), bool(opts))


def scoring_md(rng, mon):
    n_items, n_people, n_factors = int(rng.choice([3, 6, 12])), 25, 2
    a = rng.uniform(-.5, 1.6, (n_items, n_factors)) * rng.choice([1, 2.5])
    cats = [int(c) for c in rng.integers(2, 5, n_items)]
    d = [-np.sort(rng.normal(0, 1.5, c - 1)) * rng.choice([1, 2.5]) for c in cats]
    theta = rng.standard_normal((n_factors, n_people))
    data = np.array([gen.draw(rng, ref.p_mgrm(theta, d[i], a[i])) for i in range(n_items)])
    data = gen.complete_categories(gen.add_missing(rng, data, float(rng.choice([0, .2]))), 0, cats)
    # reversed within the categories of the item
    turned = np.where(data == ref.MISSING, data, np.array(cats)[:, None] - 1 - data)
    back = gen.pad([-v[::-1] for v in d])
    opts = {"quadrature_n": int(rng.choice([15, 21]))}
    if rng.random() < .5:
        opts["distribution"] = stats.norm(0, rng.uniform(.7, 1.4)).pdf
    for name in ("multidimensional_ability_eap", "multidimensional_ability_map"):
        fn = getattr(girth, name)
        x = mon.call("returns", fn, data, gen.pad(d), a, opts)
        y = mon.call("returns", fn, turned, back, a, opts)
        mon.close("ability", y, -np.asarray(x), .02 if name.endswith("map") else 1e-8, msg=f"{name} is not negated")
    mon.state("scoring_md", data.shape, tuple(cats), int((data == ref.MISSING).sum()), bool(opts))


def fit_md(rng, mon):
    cats = [2] * 6 if rng.random() < .4 else [int(c) for c in rng.integers(2, 5, 6)]
    name = "multidimensional_twopl_mml" if max(cats) == 2 else "multidimensional_grm_mml"
    data = gen.mgrm(rng, cats, 2, int(rng.choice([250, 400])), start=int(rng.choice([0, 1])), simple=bool(rng.random() < .5),
                    missing=float(rng.choice([0, .1])))["data"]
    if not ordinary(data, .04):
        mon.skip("a category is nearly unused")
        return
    # reversed within the categories of the item
    ends = np.array([[r[r != ref.MISSING].min() + r[r != ref.MISSING].max()] for r in data])
    turned = np.where(data == ref.MISSING, data, ends - data)
    opts = {"quadrature_n": 13, "initial_guess": bool(rng.random() < .5), "num_processors": 1,
            "use_LUT": bool(rng.random() < .7)}

    def fit(x, k):
        return mon.call("returns", getattr(girth, name), x, 2, options={**opts, "max_iteration": k})

    plain, back = fit(data, 50), fit(turned, 50)
    for result, x in ((plain, data), (back, turned)):
        if not np.array_equal(fit(x, 44)["Discrimination"], result["Discrimination"]):
            mon.skip("not converged")
            return
    b0, b1 = (np.asarray(r["Difficulty"], float).reshape(6, -1) for r in (plain, back))
    want = np.full_like(b0, np.nan)
    for i, row in enumerate(b0):
        k = (~np.isnan(row)).sum()
        want[i, :k] = -row[:k][::-1]
    worst = max(np.abs(plain["Discrimination"] - back["Discrimination"]).max(), np.nanmax(np.abs(b1 - want)))
    mon.event(f"{name} deviation <= %.3f" % (np.ceil(worst * 200) / 200))
    mon.close("difficulty", b1, want, .1, msg=f"{name} difficulties are not mirrored")
    mon.close("discrimination", back["Discrimination"], plain["Discrimination"], .1, msg=f"{name} discrimination changed")
    mon.close("ability", back["Ability"], -np.asarray(plain["Ability"]), .05, msg=f"{name} abilities are not negated")
    mon.close("fit", back["LL"], plain["LL"], .05, msg=f"{name} likelihood changed")
    mon.state(name, data.shape, tuple(cats), int((data == ref.MISSING).sum()), sorted(map(str, opts.items())))


def mirror_dich(data):
    return np.where(data == ref.MISSING, data, 1 - data)


def polychoric(rng, mon):
    cats = [int(c) for c in rng.integers(2, 6, 3)]
    data = gen.poly(rng, "grm", cats, int(rng.choice([150, 500])), start=1, missing=float(rng.choice([0, .1])),
                    low=1, high=2.5)["data"]
    if not ordinary(data, .03):
        mon.skip("a category is nearly unused")
        return
    args = dict(start_val=1, stop_val=5)
    turned = np.where(data == ref.MISSING, data, 6 - data)
    parallel = rng.random() < .15
    fn = girth.common.polychoric_correlation if parallel else girth.common.polychoric_correlation_serial
    base = mon.call("returns", fn, data, **args)
    both = mon.call("returns", fn, turned, **args)
    mon.close("correlation", both, base, 5e-4, msg="both variables reversed")
    sign = rng.choice([-1, 1], 3)
    some = np.where(sign[:, None] < 0, turned, data)
    got = mon.call("returns", fn, some, **args)
    mon.close("correlation", got, base * np.outer(sign, sign), 5e-4, msg="one variable reversed")
    mon.state("polychoric", tuple(cats), data.shape, tuple(sign), parallel)
    mon.sample(correlations=base[0], reversed=got[0], signs=sign)


def polyserial(rng, mon):
    n = int(rng.choice([60, 300]))
    x = rng.standard_normal(n)
    r = rng.uniform(-.9, .9)
    z = r * x + np.sqrt(1 - r * r) * rng.standard_normal(n)
    k = int(rng.integers(2, 6))
    y = np.searchsorted(np.quantile(z, np.linspace(.1, .9, k - 1) if k > 2 else [.4]), z)
    if rng.random() < .4:
        # a few respondents who contradict a strong relation
        n = int(rng.choice([300, 1500]))
        x = rng.standard_normal(n)
        r = rng.choice([-1, 1]) * .97
        y = np.searchsorted([-.5, 0, .8], r * x + np.sqrt(1 - r * r) * rng.standard_normal(n))
        k, some = 4, rng.choice(n, 2, replace=False)
        y[some] = np.where(x[some] * r > 0, *rng.choice([[0, 3], [1, 2], [0, 2]]))
    base = mon.call("returns", girth.common.polyserial_correlation, x, y)
    for label, u, v, s in (("continuous", -x, y, -1), ("ordinal", x, -y, -1), ("both", -x, k - 1 - y, 1)):
        got = mon.call("returns", girth.common.polyserial_correlation, u, v)
        mon.close("correlation", got, s * np.asarray(base), 5e-4, msg=f"{label} negated")
    mon.state("polyserial", n, k, round(r, 1))
