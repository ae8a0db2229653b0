"""Marginal maximum likelihood estimates maximise the marginal likelihood."""
import numpy as np
import girth
from girth import multidimensional as gmd

from rv import gen, models, ref

ID = "C06"
RULE = ("fits of every marginal method run to convergence (established by allowing further iterations and seeing "
        "no change); the marginal likelihood at the estimates is compared, on an independent quadrature, with "
        "that of scanned or perturbed alternatives for single items, with that after other iteration limits and "
        "with that of the generating parameters; distinct by method, size, categories, missing rate, options")
MIN = {"alternative": 200, "iterations": 40, "truth": 20, "common": 8}
BUDGET = {"quick": 60, "thorough": 1800}
NAMES = ["twopl_mml", "grm_mml", "pcm_mml", "gum_mml", "threepl_mml", "onepl_mml",
         "multidimensional_twopl_mml", "multidimensional_grm_mml"]
# log-likelihood a single-item change may gain at a converged fit
GAIN = {"twopl_mml": .06, "grm_mml": .06, "onepl_mml": .02}
GAIN.update({n: .2 for n in NAMES if n not in GAIN})
# and may lose between iteration limits
DROP = {n: .1 for n in NAMES}


def cases(tier, seed):
    kinds = [{"kind": n, "min": 8} for n in NAMES] + [
        {"kind": n, "min": k} for n, k in (("grm_mml long", 1), ("grm_mml steep", 4), ("threepl_mml long", 1),
                                           ("onepl_mml long", 1), ("pcm_mml long", 0))]
    counts = {k["kind"]: 28 if tier == "quick" else 1500 for k in kinds}
    counts.update({k: 1 if tier == "quick" else 30 for k in counts if k.endswith("long")})
    counts["threepl_mml long"] = counts["onepl_mml long"] = 2 if tier == "quick" else 40
    counts["grm_mml steep"] = 8 if tier == "quick" else 300
    return gen.round_robin(seed, ID, kinds, counts)


class Fit:
    """Marginal likelihood of parameter sets on one data set."""

    def __init__(self, data, opts, family, n_factors=None, result=None):
        codes, self.counts = ref.recode(data)
        self.codes, self.reps = np.unique(codes, axis=1, return_counts=True)
        self.family = family
        if n_factors:
            self.line, w = ref.quad_of(opts)
            self.line_w = w * ref.prior_of(opts)(self.line)
            self.theta, self.weight = ref.product_grid(self.line, self.line_w, n_factors)
        else:
            self.theta, self.weight = models.latent_weight(result, opts)
            self.line, self.line_w = self.theta, self.weight
        self.observed = ref.at_or_above(codes, self.counts)

    def item_ll(self, i, probs):
        out = np.zeros((self.codes.shape[1], self.weight.size))
        ok = self.codes[i] >= 0
        with np.errstate(divide="ignore"):
            out[ok] = np.log(np.maximum(probs, 0))[self.codes[i][ok]]
        return out

    def probs(self, params):
        return [models.item_probs(self.family, params, self.theta, i) for i in range(len(self.codes))]

    def total(self, parts):
        ll = parts if isinstance(parts, np.ndarray) else sum(parts)
        top = ll.max(axis=1, keepdims=True)
        return float((self.reps * (np.log((np.exp(ll - top) * self.weight).sum(axis=1)) + top[:, 0])).sum())

    def of(self, params):
        return self.total([self.item_ll(i, p) for i, p in enumerate(self.probs(params))])

    def rule(self, i, a, guess=0.0):
        """Difficulties that reproduce the observed proportions at slope a; None at an edge."""
        p = (self.observed[i] - guess) / (1 - guess)
        b = ref.solve_difficulty(a, p, self.line, self.line_w)
        return b if np.all(np.abs(b) < 5.85) else None


def data_for(rng, name, missing=None, size=""):
    long = size == "long"
    n_people = int(rng.choice([200, 400, 700] * 4 + [1300]))
    missing = float(rng.choice([0, 0, 0.15])) if missing is None else missing
    shape = ["normal", "skew", "uniform"][rng.integers(3)]
    if name.startswith("multi"):
        cats = [2] * 6 if "twopl" in name else [int(c) for c in rng.integers(2, 4, 6)]
        return gen.mgrm(rng, cats, 2, max(n_people, 400), missing=missing / 2), cats
    n_items = int(rng.choice([4, 6, 9] * 5 + [20]))
    if long:
        # likelihoods of whole response patterns below 1e-30
        n_items, n_people, missing = 80, 80, 0
    if name in ("grm_mml", "pcm_mml"):
        cats = [int(c) for c in rng.integers(4 if long else 2, 6, n_items)]
        weak = {"low": .3, "high": .6} if rng.random() < .3 else {}
        if size == "steep":
            # one end of a steep item lies where almost nobody is
            n_items, n_people = int(rng.choice([5, 8])), 500
            side, slopes = rng.choice([-1, 1]), rng.uniform(4, 6, n_items)
            cuts = [np.sort(rng.normal(side * 2.2, .5, 3)) for _ in range(n_items)]
            return gen.poly(rng, "grm", [4] * n_items, n_people, a=slopes, cuts=cuts, missing=missing), [4] * n_items
        return gen.poly(rng, name[:3], cats, n_people, shape=shape, missing=missing, **weak), cats
    if name == "gum_mml":
        cats = [int(c) for c in rng.integers(3, 5, n_items)]
        return gen.poly(rng, "gum", cats, max(400, n_people), missing=missing), cats
    c = None
    if name == "threepl_mml":
        n_people, c = max(n_people, 500) if not long else 200, rng.uniform(.05, .25, n_items)
        if rng.random() < .35 and not long:
            # guessing close to its bound, well determined by hard and steep items
            n_people, c, hard = 1500, rng.uniform(.24, .33, n_items), rng.uniform(.2, 1.6, n_items)
            return gen.dich(rng, n_items, n_people, a=rng.uniform(1.5, 2.5, n_items), b=hard, c=c), [2] * n_items
    a = float(rng.uniform(.6, 1.8)) if name == "onepl_mml" else None
    if name == "twopl_mml" and rng.random() < .3:
        a = rng.uniform(.35, .7, n_items)
    return gen.dich(rng, n_items, n_people, a=a, c=c, shape=shape, missing=missing, spread=1.5), [2] * n_items


def run(spec, mon):
    rng = gen.rng_of(spec)
    name = spec.get("method", spec["kind"].split()[0])
    size = (spec["kind"].split() + [""])[1]
    truth, cats = data_for(rng, name, spec.get("missing"), size)
    if size == "long" and name in ("threepl_mml", "onepl_mml"):
        truth = gen.lopsided(rng, 300, spec.get("i", 0) % 2 == 0)
        keep = [r.min() != r.max() for r in truth["data"]]
        truth = {k: v[keep] if k != "theta" else v for k, v in truth.items()}
        cats = [2] * len(truth["data"])
    data = truth["data"]
    seen = [np.unique(r[r != ref.MISSING]).size for r in data]
    whole = seen == list(cats)
    if not whole and (not size or min(seen) < 2):
        mon.skip("a category is not observed")
        return
    opts = {}
    if rng.random() < .3:
        opts["quadrature_n"] = int(rng.choice([31, 51]))
    if rng.random() < .25:
        opts["distribution"] = gen.priors(rng, "normal")
    if name in ("twopl_mml", "grm_mml") and rng.random() < .4:
        opts["use_LUT"] = False
    if size:
        opts = {}
    if name.startswith("multi"):
        opts = {"quadrature_n": 13, "initial_guess": True, "use_LUT": bool(rng.random() < .7)}
    if name == "onepl_mml":
        return common_slope(rng, mon, data, truth, opts)
    estimated = name in ("twopl_mml", "grm_mml", "pcm_mml") and rng.random() < .2 and not size
    if estimated:
        opts["estimate_distribution"] = True
    fn = getattr(girth, name, None) or getattr(gmd, name)
    args = (2,) if name.startswith("multi") else ()

    def fit(limit):
        return mon.call("returns", fn, data, *args, options={**opts, "max_iteration": limit})

    limits = {"gum_mml": (12, 25), "threepl_mml": (15, 30)}.get(name, (25, 60))
    if name.startswith("multi"):
        limits = (8, 16)
    first, res = fit(limits[0]), fit(limits[1])
    converged = np.array_equal(first["Discrimination"], res["Discrimination"])
    family = {"twopl_mml": "2pl", "grm_mml": "grm", "pcm_mml": "pcm", "gum_mml": "gum",
              "threepl_mml": "3pl"}.get(name, "md")
    engine = Fit(data, {**opts}, family, 2 if family == "md" else None, res)
    best = engine.of(res)
    if name == "gum_mml" and "distribution" in opts:
        # the sign is imposed afterwards, which is only neutral under a symmetric density
        mirrored = engine.of({**res, "Delta": -np.asarray(res["Delta"])})
        if not mon.check("mirror", best >= mirrored - GAIN[name], "negating every delta fits better",
                         finding="KF4-GUM-SIGN", best=best, mirrored=mirrored):
            return
        opts["mirror"] = True
    if not estimated and not opts.pop("mirror", False) and size != "long":
        # more iterations never lower the likelihood
        path = [(k, engine.of(fit(k))) for k in (1, 2, 4)] + [(limits[0], engine.of(first)), (limits[1], best)]
        mon.event("drop<=%.3f" % max(max(a[1] - b[1] for a, b in zip(path, path[1:])), 0))
        for (k0, l0), (k1, l1) in zip(path, path[1:]):
            mon.check("iterations", l1 >= l0 - DROP[name], f"{name} likelihood falls between {k0} and {k1} iterations",
                      path=path)
    if not converged:
        mon.skip("not converged")
        mon.event("not converged")
        return
    alternatives(rng, mon, name, engine, res, best)
    if whole and not estimated and "distribution" not in opts and family in ("2pl", "grm", "pcm", "3pl"):
        true = {"Discrimination": truth["a"], "Difficulty": gen.pad([np.atleast_1d(v) for v in truth["b"]])}
        if family == "3pl":
            true["Guessing"] = truth["c"]
        mon.event("truth margin %d" % ((best - engine.of(true)) // 1))
        mon.check("truth", best >= engine.of(true) - .1, f"{name} fits worse than the generating parameters",
                  best=best, truth=engine.of(true))
    mon.state(name, data.shape, tuple(cats), int((data == ref.MISSING).sum()), sorted(opts))
    mon.sample(method=name, loglik=best, slopes=np.ravel(res["Discrimination"])[:4])


def alternatives(rng, mon, name, engine, res, best):
    n = len(engine.codes)
    some = range(n) if n < 40 else rng.choice(n, 8, replace=False)
    parts = [engine.item_ll(i, p) for i, p in enumerate(engine.probs(res))]
    whole = sum(parts)
    worst = -np.inf
    for i in some:
        rest = whole - parts[i]
        for label, probs in options_of(rng, name, engine, res, i):
            value = engine.total(rest + engine.item_ll(i, probs))
            worst = max(worst, value - best)
            mon.check("alternative", value <= best + GAIN[name], f"{name} item {i}: {label} fits better",
                      gain=value - best, estimate=np.ravel(res["Discrimination"][i]))
    mon.event("gain<=%.3f" % max(round(worst + .0005, 3), 0))


def options_of(rng, name, engine, res, i):
    th = engine.theta
    a = res["Discrimination"][i]
    if name in ("twopl_mml", "grm_mml"):
        for alt in np.unique(np.r_[np.geomspace(.25, 4.9, 14), a * .97, a * 1.03].clip(.2, 5)):
            b = engine.rule(i, alt)
            if b is not None:
                yield f"discrimination {alt:.3f}", (ref.p_grm if len(b) > 1 else ref.p_grm)(th, b, alt)
    elif name == "pcm_mml":
        b = res["Difficulty"][i]
        b = b[~np.isnan(b)]
        for alt in (a * np.array([.8, .95, 1.05, 1.25])).clip(.25, 4):
            yield f"discrimination {alt:.3f}", ref.p_pcm(th, b, alt)
        for k in range(b.size):
            for d in (-.3, -.08, .08, .3):
                c = b.copy()
                c[k] = np.clip(c[k] + d, -6, 6)
                yield f"threshold {k} {d:+}", ref.p_pcm(th, c, a)
    elif name == "gum_mml":
        delta, tau = res["Delta"][i], res["Tau"][i]
        tau = tau[~np.isnan(tau)]
        for alt in (a * np.array([.85, .95, 1.05, 1.15])).clip(.25, 4):
            yield f"discrimination {alt:.3f}", ref.p_gum(th, delta, tau, alt)
        for d in (-.15, -.05, .05, .15):
            yield f"delta {d:+}", ref.p_gum(th, np.clip(delta + d, -2, 2), tau, a)
        for k in range(tau.size):
            for d in (-.15, -.05, .05, .15):
                c = tau.copy()
                c[k] = np.clip(c[k] + d, -6, 6)
                yield f"threshold {k} {d:+}", ref.p_gum(th, delta, c, a)
    elif name == "threepl_mml":
        g = res["Guessing"][i]
        for fa in (.85, .95, 1, 1.05, 1.18):
            for dg in (-.05, -.015, 0, .015, .05):
                alt, c = np.clip(a * fa, .25, 4), np.clip(g + dg, 0, .33)
                if c >= engine.observed[i][0] - .01:
                    continue
                b = engine.rule(i, alt, c)
                if b is not None:
                    yield f"discrimination {alt:.3f} guessing {c:.3f}", ref.p_dich(th, b[0], alt, c)
    else:
        free = min(2, n_free(engine, i))
        for _ in range(8):
            alt = a.copy()
            alt[:free] += rng.normal(0, rng.choice([.05, .15]), free)
            low = .15 if free < 2 or i == len(engine.codes) - 2 else -3
            alt[:free] = alt[:free].clip(-3, 3)
            last = free - 1
            if i >= len(engine.codes) - 2:
                alt[last] = np.clip(alt[last], max(low, .2 if i == len(engine.codes) - 1 else .15), 4)
            slope = np.sqrt((alt ** 2).sum())
            b = engine.rule(i, slope)
            if b is not None:
                yield f"slopes {alt.round(3)}", ref.p_mgrm(th, -b * slope, alt)


def n_free(engine, i):
    return len(engine.codes) - i


def common_slope(rng, mon, data, truth, opts):
    res = mon.call("returns", girth.onepl_mml, data, options=opts)
    engine = Fit(data, opts, "2pl", result=res)
    n = len(data)
    best = engine.of({"Discrimination": np.full(n, res["Discrimination"]), "Difficulty": res["Difficulty"]})
    for alt in np.r_[np.geomspace(.3, 9, 20), res["Discrimination"] * .98, res["Discrimination"] * 1.02].clip(.25, 10):
        bs = [engine.rule(i, alt) for i in range(n)]
        if any(b is None for b in bs):
            continue
        value = engine.of({"Discrimination": np.full(n, alt), "Difficulty": np.ravel(bs)})
        mon.check("common", value <= best + GAIN["onepl_mml"], f"common discrimination {alt:.3f} fits better",
                  gain=value - best, estimate=res["Discrimination"])
    if "distribution" not in opts:
        true = engine.of({"Discrimination": truth["a"], "Difficulty": truth["b"]})
        mon.check("truth", best >= true - .1, "1PL fits worse than the generating parameters", best=best, truth=true)
    mon.state("onepl_mml", data.shape, sorted(opts))
    mon.sample(method="onepl_mml", loglik=best, slope=res["Discrimination"])
