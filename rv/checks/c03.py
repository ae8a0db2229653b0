"""A missing response is an item never administered."""
import numpy as np
import girth
from girth import multidimensional as gmd
from girth.common import polychoric_correlation, cronbach_alpha, polychoric_correlation_serial

from rv import gen, models, ref
from rv.checks import c06, c09
from rv.ref import MISSING

ID = "C03"
RULE = ("every scoring function on the full matrix with missing cells against the same function on only the "
        "administered items; every marginal and joint estimator with and without respondents that answered "
        "nothing; every cell content before tagging against another; distinct by function, size, pattern, options")
MIN = {"ability": 150, "empty-respondent": 60, "content": 60, "statistics": 40}
BUDGET = {"quick": 45, "thorough": 1200}

SCORERS = ["eap", "map", "mle", "3eap", "3map", "3mle", "mdeap", "mdmap"]
FITS = ["rasch_mml", "onepl_mml", "twopl_mml", "threepl_mml", "twopl_mml_eap", "grm_mml", "grm_mml_eap",
        "pcm_mml", "gum_mml", "multidimensional_grm_mml", "multidimensional_twopl_mml", "rasch_jml",
        "onepl_jml", "twopl_jml", "grm_jml", "pcm_jml"]
SLOW = {"gum_mml", "threepl_mml", "multidimensional_grm_mml", "multidimensional_twopl_mml", "onepl_mml"}
# estimators whose criterion is evaluated on the valid responses alone
CRITERION = ["rasch_jml", "onepl_jml", "twopl_jml", "grm_jml", "pcm_jml", "pcm_mml", "grm_mml", "onepl_mml"]


def cases(tier, seed):
    kinds = ([{"kind": "ability", "fn": f} for f in SCORERS] +
             [{"kind": "empty", "fn": f} for f in FITS] +
             [{"kind": "content", "fn": f} for f in ("rasch_mml", "twopl_mml", "grm_mml", "pcm_mml",
                                                     "grm_jml", "rasch_jml", "eap", "ctt", "polychoric")] +
             [{"kind": "criterion", "method": f} for f in CRITERION] +
             [{"kind": "stats"}] * 4)
    for k in kinds:
        k["min"] = 20
    return gen.round_robin(seed, ID, kinds, 25 if tier == "quick" else 600)


def run(spec, mon):
    if spec["kind"] == "criterion":
        # data full of holes: the estimates are optimal for the likelihood of the valid responses
        module = c09 if "jml" in spec["method"] else c06
        return module.run({**spec, "missing": .3}, mon)
    rng = gen.rng_of(spec)
    {"ability": ability, "empty": empty, "content": content, "stats": statistics}[spec["kind"]](
        rng, mon, spec.get("fn"))


def scorer(name, b, a, c, opts):
    """data, items -> abilities using only those items' parameters."""
    def call(data, items):
        if name == "eap":
            return girth.ability_eap(data, b[items], a[items], options=opts)
        if name == "map":
            return girth.ability_map(data, b[items], a[items], options=opts)
        if name == "mle":
            return girth.ability_mle(data, b[items], a[items], no_estimate=7.5)
        if name == "3eap":
            return girth.ability_3pl_eap(data, b[items], a[items], c[items], options=opts)
        if name == "3map":
            return girth.ability_3pl_map(data, b[items], a[items], c[items], options=opts)
        return girth.ability_3pl_mle(data, b[items], a[items], c[items], no_estimate=7.5)
    return call


def ability(rng, mon, name):
    n_items, n_people = int(rng.choice([3, 7, 15, 40])), int(rng.choice([4, 25, 25, 4, 25, 120]))
    opts = {}
    if rng.random() < 0.6:
        opts["distribution"] = gen.priors(rng, ["normal", "logistic"][rng.integers(2)])
    if rng.random() < 0.4:
        opts["quadrature_bounds"] = (-5, 4)
    opts = opts or None
    if name.startswith("md"):
        return md_ability(rng, mon, name, opts)
    truth = gen.dich(rng, n_items, n_people)
    data = truth["data"]
    b, a, c = truth["b"], truth["a"], rng.uniform(0, .3, n_items)
    call = scorer(name, b, a, c, opts)
    full = data.copy()
    mask = rng.random(data.shape) < rng.choice([0.15, 0.5, 0.8])
    mask[rng.integers(n_items, size=n_people), np.arange(n_people)] = False
    full[mask] = MISSING
    got = mon.call("returns", call, full, np.arange(n_items))
    for j in range(n_people):
        items = np.flatnonzero(~mask[:, j])
        want = mon.call("returns", call, data[np.ix_(items, [j])], items)
        mon.close("ability", got[[j]], want, 1e-9 if "eap" in name else 2e-5,
                  msg=f"{name} with {mask[:, j].sum()} missing", items=items)
        mon.state(name, n_items, tuple(items))
    mon.sample(scorer=name, missing=int(mask.sum()), ability=got[:3])


def md_ability(rng, mon, name, opts):
    fn = gmd.multidimensional_ability_eap if name == "mdeap" else gmd.multidimensional_ability_map
    if name == "mdmap" and opts:
        opts.pop("quadrature_bounds", None)
    n_items = int(rng.choice([5, 9]))
    top = int(rng.choice([2, 4]))
    cats = [int(x) for x in rng.integers(2, top + 1, n_items)]
    g = gen.mgrm(rng, cats, 2, int(rng.choice([4, 10])), start=int(rng.choice([0, 1])))
    data, a, d = g["data"], g["a"], gen.pad(g["d"])
    start = data.min()
    hole = rng.permutation(n_items)[:int(rng.integers(1, n_items - 1))]
    items = np.setdiff1d(np.arange(n_items), hole)
    full = gen.complete_categories(data, start, cats)
    n = data.shape[1]
    # only the people of interest lose the items: the completing rows keep all
    full[np.ix_(hole, np.arange(n))] = MISSING
    if opts is None:
        opts = {}
    opts = {**opts, "quadrature_n": 15}
    got = mon.call("returns", fn, full, d, a, options=opts)[:, :n]
    part = gen.complete_categories(data, start, cats)[items]
    keep_low = part.min() == start
    want = mon.call("returns", fn, part, d[items], a[items], options=opts)[:, :n]
    if keep_low:
        mon.close("ability", got, want, 1e-9 if name == "mdeap" else 1e-3, msg=name, items=items)
    mon.state(name, n_items, tuple(items), tuple(cats))


def fit_data(rng, name, n_items=None, n_people=None):
    n_people = n_people or int(rng.choice([60, 150, 260] * 3 + [1100] * (not name.endswith("jml"))))
    missing = float(rng.choice([0, 0.15]))
    if name in ("rasch_mml", "onepl_mml", "twopl_mml", "threepl_mml", "twopl_mml_eap", "rasch_jml",
                "onepl_jml", "twopl_jml"):
        n_items = n_items or int(rng.choice([5, 8]))
        return gen.dich(rng, n_items, n_people, missing=missing)["data"]
    if name == "multidimensional_twopl_mml":
        return gen.mgrm(rng, [2] * 6, 2, 250, start=0, missing=missing)["data"]
    if name == "multidimensional_grm_mml":
        return gen.mgrm(rng, [3] * 6, 2, 250, start=1, missing=missing)["data"]
    n_items = n_items or int(rng.choice([4, 6]))
    cats = [int(x) for x in rng.integers(2 if name != "gum_mml" else 3, 5, n_items)]
    model = {"pcm_mml": "pcm", "pcm_jml": "pcm", "gum_mml": "gum"}.get(name, "grm")
    return gen.poly(rng, model, cats, n_people, start=int(rng.choice([0, 1])), missing=missing)["data"]


def fit_call(mon, name, data, opts):
    fn = getattr(girth, name, None) or getattr(gmd, name)
    if name.startswith("multi"):
        return mon.call("returns", fn, data, 2, {"quadrature_n": 11, **opts})
    return mon.call("returns", fn, data, options=opts)


def params(result):
    return {k: np.asarray(result[k], float) for k in
            ("Discrimination", "Difficulty", "Guessing", "Delta", "Tau") if k in result}


TOL = {"threepl_mml": 0.05, "gum_mml": 0.05, "pcm_mml": 0.01, "multidimensional_grm_mml": 0.02,
       "multidimensional_twopl_mml": 0.02}


def empty(rng, mon, name):
    data = fit_data(rng, name)
    opts = {"max_iteration": int(rng.choice([3, 6, 15]))}
    if name in ("gum_mml", "threepl_mml"):
        opts["max_iteration"] = 40 if name == "gum_mml" else 12
    elif name in SLOW:
        opts["max_iteration"] = int(rng.choice([2, 3]))
    if rng.random() < 0.4 and "jml" not in name:
        opts["quadrature_n"] = 21 if not name.startswith("multi") else 9
    if rng.random() < 0.4 and name in ("twopl_mml", "grm_mml"):
        opts["use_LUT"] = False
    base = fit_call(mon, name, data, opts)
    k = int(rng.choice([1, 1, 5, 40]))
    if name in ("gum_mml", "threepl_mml"):
        k = 100
    holes = np.full((data.shape[0], k), MISSING)
    wide = np.concatenate([data, holes], axis=1)
    order = rng.permutation(wide.shape[1]) if rng.random() < 0.5 else np.arange(wide.shape[1])
    more = fit_call(mon, name, wide[:, order], opts)
    if name in ("gum_mml", "threepl_mml"):
        # several optima: the estimates must be equally good on the real respondents
        codes, _ = ref.recode(data)
        theta, weight = models.latent_weight(base, opts)
        ll = [ref.marginal_ll(ref.loglik(codes, models.all_probs(name[:3].replace("thr", "3pl"), r, theta, len(data))), weight)
              for r in (base, more)]
        mon.check("empty-respondent", ll[1] > ll[0] - 6, "worse with respondents without responses", ll=ll)
        return mon.state(name, data.shape, k)
    for key, value in params(base).items():
        tol = TOL.get(name, 2e-3)
        mon.close("empty-respondent", params(more)[key], value, tol, tol,
                  f"{name} {key} with {k} respondents without responses", opts=opts)
    if "Ability" in base:
        back = np.argsort(order)
        ab = np.asarray(more["Ability"])[..., back]
        mon.close("empty-respondent", ab[..., :data.shape[1]], base["Ability"],
                  max(TOL.get(name, 2e-3), 0.02), msg=f"{name} abilities")
    mon.state(name, data.shape, k, tuple(sorted(opts.items())))
    mon.sample(fit=name, shape=data.shape, added=k, difficulty=base.get("Difficulty"))


def content(rng, mon, name):
    """The cell's content before tagging is irrelevant."""
    real = name if name in FITS else "grm_mml"
    if name == "eap":
        real = "rasch_mml"
    data = fit_data(rng, real)
    valid = np.unique(data[data != MISSING]).tolist()
    mask = rng.random(data.shape) < 0.15
    mask[:, rng.integers(data.shape[1], size=2)] = True
    first, second = data.astype(np.int64), data.astype(np.int64)
    mask |= data == MISSING
    first[mask] = rng.choice([9, -1, 77, -99999, 1000], size=mask.sum())
    second[mask] = rng.choice([8, -7, 12345, -99998], size=mask.sum())
    one = mon.call("returns", girth.tag_missing_data, first, valid)
    two = mon.call("returns", girth.tag_missing_data, second, valid)
    mon.same("content", one, two, "tagged data")
    mon.same("content", one[~mask], data[~mask], "valid cells")
    mon.check("content", np.all(one[mask] == MISSING), "missing cells")
    if name == "eap":
        b, a = rng.normal(size=data.shape[0]), rng.uniform(.5, 2, data.shape[0])
        out = [mon.call("returns", girth.ability_eap, x, b, a) for x in (one, two)]
        mon.same("content", *out, msg="abilities")
    elif name == "ctt":
        with np.errstate(all="ignore"):
            keep = ~(one == MISSING).all(axis=0)
            out = [mon.call("returns", girth.classical_test_statistics, x[:, keep]) for x in (one, two)]
        for key in out[0]:
            mon.same("content", out[0][key], out[1][key], key)
    elif name == "polychoric":
        out = [mon.call("returns", polychoric_correlation_serial, x[:3], min(valid), max(valid))
               for x in (one, two)]
        mon.same("content", *out, msg="polychoric")
    else:
        out = [fit_call(mon, name, x, {"max_iteration": 3}) for x in (one, two)]
        for key, value in params(out[0]).items():
            mon.same("content", params(out[1])[key], value, key)
    mon.state(name, data.shape, int(mask.sum()))


def statistics(rng, mon, _):
    n = int(rng.choice([30, 120]))
    cats = [int(x) for x in rng.integers(2, 5, 4)]
    data = gen.poly(rng, "grm", cats, n, start=int(rng.choice([0, 1])))["data"]
    mask = rng.random(data.shape) < rng.choice([.1, .4])
    holes = data.copy()
    holes[mask] = MISSING
    lo, hi = int(data.min()), int(data.max())
    corr = mon.call("returns", polychoric_correlation_serial, holes, lo, hi)
    for i in range(4):
        for j in range(i):
            both = ~mask[i] & ~mask[j]
            pair = data[np.ix_([j, i], np.flatnonzero(both))]
            if both.sum() < 5 or any(np.unique(r).size < 2 for r in pair):
                continue
            want = mon.call("returns", polychoric_correlation_serial, pair, lo, hi)[1, 0]
            mon.close("statistics", corr[i, j], want, 1e-9, msg="pairwise polychoric")
    for i in range(4):
        row = data[i, ~mask[i]]
        counts = np.bincount(row - lo, minlength=hi - lo + 1)
        mon.event("valid cells", int(counts.sum()))
    b = rng.integers(0, 2, (3, n))
    bh = b.copy(); m = rng.random(b.shape) < .3; bh[m] = MISSING
    no, yes = mon.call("returns", girth.get_true_false_counts, bh)
    mon.same("statistics", yes, np.array([(b[i, ~m[i]] == 1).sum() for i in range(3)]), "true counts")
    mon.same("statistics", no, np.array([(b[i, ~m[i]] == 0).sum() for i in range(3)]), "false counts")
    # alpha: only valid cells enter the item variances and the respondents' means
    keep = (~mask).sum(axis=0) > 0
    got = mon.call("returns", cronbach_alpha, holes[:, keep])
    iv = sum(np.var(data[i, ~mask[i]], ddof=1) for i in range(4))
    means = np.array([data[~mask[:, j], j].mean() for j in np.flatnonzero(keep)])
    mon.close("statistics", got, 4 / 3 * (1 - iv / (16 * means.var(ddof=1))), 1e-10, msg="alpha")
    mon.state("stats", n, tuple(cats), int(mask.sum()))
