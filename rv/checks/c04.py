"""Reported abilities and fit statistics match the returned parameters."""
import numpy as np
import girth
from girth import multidimensional as gmd

from rv import gen, models, ref

ID = "C04"
RULE = ("fits of every marginal method on random data x options; the abilities, AIC, BIC and log-likelihood "
        "reported are recomputed from the returned parameters by an independent log-space quadrature; distinct "
        "by method, size, categories, missing rate, options, iteration limit")
MIN = {"ability": 40, "aic": 40, "bic": 40, "null": 40}
BUDGET = {"quick": 45, "thorough": 1500}
UNI = ["twopl_mml", "grm_mml", "twopl_mml_eap", "grm_mml_eap", "pcm_mml", "gum_mml"]
MULTI = ["multidimensional_twopl_mml", "multidimensional_grm_mml"]


def cases(tier, seed):
    kinds = [{"kind": n, "min": 12} for n in UNI + MULTI]
    return gen.round_robin(seed, ID, kinds, 70 if tier == "quick" else 1500)


def data_for(rng, name, n_people=None):
    n_people = n_people or int(rng.choice([40, 120, 300] * 3 + [1200]))
    missing = float(rng.choice([0, 0.1, 0.3]))
    shape = ["normal", "skew", "bimodal", "uniform"][rng.integers(4)]
    n_items = int(rng.choice([2, 5, 9] * 3 + [24]))
    if rng.random() < .06 and name not in MULTI:
        # likelihoods of whole response patterns far below the smallest single precision number
        n_items, n_people = 70, 40
    start = int(rng.choice([0, 1, 3, -1]))
    if name.startswith("twopl"):
        g = gen.dich(rng, n_items, n_people, shape=shape, missing=missing if n_items > 3 else 0)
        return g["data"] + 0
    if name.startswith("multi"):
        cats = [2] * 6 if "twopl" in name else [int(c) for c in rng.integers(2, 4, 6)]
        n_f = 2
        return gen.mgrm(rng, cats, n_f, max(n_people, 120), start=start, missing=missing / 2)["data"]
    low = 3 if name == "gum_mml" else 2
    cats = [int(c) for c in rng.integers(low, 6 if rng.random() < .8 else 9, n_items)]
    model = {"pcm_mml": "pcm", "gum_mml": "gum"}.get(name, "grm")
    return gen.poly(rng, model, cats, n_people, start=start, shape=shape,
                    missing=missing if n_items > 3 else 0)["data"]


def uni_options(rng, name):
    opts = {"max_iteration": int(rng.choice([1, 2, 3, 8]))}
    if name == "gum_mml":
        opts["max_iteration"] = int(rng.choice([1, 2, 3]))
    if rng.random() < 0.5:
        opts["estimate_distribution"] = True
        if rng.random() < 0.7:
            opts["number_of_samples"] = int(rng.choice([5, 6, 8, 9, 11]))
        opts["max_iteration"] = max(2, opts["max_iteration"])
    if rng.random() < 0.4:
        opts["distribution"] = gen.priors(rng, ["normal", "skewnorm", "logistic"][rng.integers(3)])
    if rng.random() < 0.4:
        # the spline density is defined on a symmetric range only
        opts["quadrature_bounds"] = (-5.0, 5.0) if "estimate_distribution" in opts else \
            [(-5, 4), (-3.5, 5.5), (-6, 6)][rng.integers(3)]
    if rng.random() < 0.4:
        opts["quadrature_n"] = int(rng.choice([15, 30, 61]))
    if name in ("twopl_mml", "grm_mml") and rng.random() < 0.4:
        opts["use_LUT"] = False
    if name.endswith("eap"):
        opts["hyper_quadrature_n"] = 15
    return opts


def run(spec, mon):
    rng = gen.rng_of(spec)
    name = spec["kind"]
    data = data_for(rng, name)
    (multi if name.startswith("multi") else uni)(rng, mon, name, data)


def statistics(mon, prefix, got, ll, k, n):
    mon.close("aic", got[0], 2 * (k - ll), 1e-5, 1e-9, prefix + " AIC")
    mon.close("bic", got[1], k * np.log(n) - 2 * ll, 1e-5, 1e-9, prefix + " BIC")


def uni(rng, mon, name, data):
    spec = models.MML[name]
    opts = uni_options(rng, name)
    kw = {"delta_sign": (int(rng.integers(len(data))), int(rng.choice([-1, 1])))} if name == "gum_mml" else {}
    res = mon.call("returns", spec["fn"], data, options=opts, **kw)
    codes, _ = ref.recode(data)
    theta, weight = models.latent_weight(res, opts)
    _, null_w = models.latent_weight(res, opts, null=True)
    probs = models.all_probs(spec["family"], res, theta, len(data))
    ll = ref.loglik(codes, probs)
    mon.close("ability", res["Ability"], ref.posterior_mean(ll, weight, theta), 1e-6, 1e-6,
              f"{name} ability", opts=str(opts))
    n = data.shape[1]
    est = bool(opts.get("estimate_distribution"))
    k = opts.get("number_of_samples", 9) - 3 if est else 0
    final, null = ref.marginal_ll(ll, weight), ref.marginal_ll(ll, null_w)
    statistics(mon, "final", (res["AIC"]["final"], res["BIC"]["final"]), final, k, n)
    statistics(mon, "null", (res["AIC"]["null"], res["BIC"]["null"]), null, 0, n)
    for key in ("AIC", "BIC"):
        d = res[key]
        mon.close("null", d["delta"], d["null"] - d["final"], 1e-9, 1e-12, key + " delta")
        if not est:
            mon.close("null", d["final"], d["null"], 1e-9, 1e-12, key + " null and final")
    if name == "gum_mml":
        tau, delta = np.asarray(res["Tau"]), np.asarray(res["Delta"])
        want = np.concatenate([tau, np.zeros((len(data), 1)), -tau[:, ::-1]], axis=1) + delta[:, None]
        mon.close("difficulties", res["Difficulties"], want, 1e-12, msg="unfolding difficulties")
    mon.state(name, data.shape, tuple(codes.max(axis=1)), sorted((k, str(v)[:12]) for k, v in opts.items()))
    mon.sample(method=name, options=sorted(opts), people=n, aic=res["AIC"], recomputed=-2 * final)


def multi(rng, mon, name, data):
    opts = {"max_iteration": int(rng.choice([1, 2, 3])), "quadrature_n": int(rng.choice([9, 12])),
            "initial_guess": bool(rng.random() < 0.6)}
    if rng.random() < 0.3:
        opts["distribution"] = gen.priors(rng, "logistic")
    if rng.random() < 0.3:
        opts["quadrature_bounds"] = (-5, 4)
    if rng.random() < 0.3:
        opts["use_LUT"] = False
    n_factors = 2
    if rng.random() < 0.2:
        n_factors, opts["quadrature_n"], opts["max_iteration"] = 3, 8, 1
        opts["initial_guess"] = False
    res = mon.call("returns", getattr(gmd, name), data, n_factors, options=opts)
    codes, _ = ref.recode(data)
    theta, w = ref.quad_of(opts)
    nodes, weight = ref.product_grid(theta, w * ref.prior_of(opts)(theta), n_factors)
    ll = ref.loglik(codes, models.all_probs("md", res, nodes, len(data)))
    mon.close("ability", res["Ability"], ref.posterior_mean(ll, weight, nodes), 1e-6, 1e-6, f"{name} ability")
    total = ref.marginal_ll(ll, weight)
    mon.close("ll", res["LL"], total, 1e-5, 1e-9, "LL")
    statistics(mon, "md", (res["AIC"], res["BIC"]), total, 0, data.shape[1])
    mon.state(name, data.shape, tuple(codes.max(axis=1)), sorted((k, str(v)[:12]) for k, v in opts.items()))
    mon.sample(method=name, ll=res["LL"], recomputed=total)
