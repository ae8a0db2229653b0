"""Mixed Bayesian discriminations are the means of their posterior distributions."""
import girth
import numpy as np

from rv import gen, ref
from rv.checks.c06 import Fit

ID = "C31"
RULE = ("mixed Bayesian fits run until further iterations change nothing; each discrimination against the posterior mean "
        "computed here from the other estimates, an independent marginal likelihood and the reported Rayleigh scale, and "
        "that scale against its own posterior mean; distinct by method, size, categories, missing cells and options")
MIN = {"posterior mean": 150, "scale": 40, "range": 40}
BUDGET = {"quick": 45, "thorough": 1200}
LOW, HIGH = .25, 5.0


def cases(tier, seed):
    kinds = [{"kind": k, "min": n} for k, n in (("grm_mml_eap long", 1), ("grm_mml_eap", 12), ("twopl_mml_eap", 12),
                                                ("grm_mml_eap steep", 2), ("twopl_mml_eap weak", 2))]
    counts = {k["kind"]: 60 if tier == "quick" else 1500 for k in kinds}
    counts.update({"grm_mml_eap long": 1, "grm_mml_eap steep": 6, "twopl_mml_eap weak": 6} if tier == "quick" else
                  {"grm_mml_eap long": 20, "grm_mml_eap steep": 200, "twopl_mml_eap weak": 200})
    return gen.round_robin(seed, ID, kinds, counts)


def rayleigh(x, scale):
    y = np.maximum(np.asarray(x) - LOW, 0)
    return y / scale ** 2 * np.exp(-y ** 2 / (2 * scale ** 2))


def scale_mean(slopes, times, nodes):
    """Posterior mean of the Rayleigh scale given the slopes, each counted a number of times."""
    at, w = ref.quad(nodes, .1, 5.0)
    prior = np.exp(-np.log(at) ** 2 / (2 * .25 ** 2)) / at
    value = np.array([(times * np.log(rayleigh(slopes, s) + 1e-313)).sum() for s in at])
    value = np.exp(value - value.max()) * w * prior
    return (value * at).sum() / value.sum()


def run(spec, mon):
    rng = gen.rng_of(spec)
    name, size = (spec["kind"].split() + [""])[:2]
    people = int(rng.choice([30, 60, 120, 300, 600]))
    items = int(rng.choice([2, 4, 6, 9]))
    missing = float(rng.choice([0, 0, .15])) if items > 2 else 0
    if size == "weak":
        # many weak items bring the scale far below one
        items, people = int(rng.choice([10, 16])), int(rng.choice([100, 200]))
        data = gen.dich(rng, items, people, a=rng.uniform(.25, .55, items), spread=.8)["data"]
    elif name == "twopl_mml_eap":
        a = rng.uniform(.3, 3, items)
        data = gen.dich(rng, items, people, a=a, missing=missing, spread=1.3)["data"]
    elif size == "steep":
        # one end of a steep item lies where almost nobody is
        side, items = rng.choice([-1, 1]), int(rng.choice([4, 7]))
        cuts = [np.sort(rng.normal(side * 2.2, .5, 3)) for _ in range(items)]
        data = gen.poly(rng, "grm", [4] * items, 500, a=rng.uniform(4, 6, items), cuts=cuts)["data"]
    elif size == "long":
        # likelihoods of whole response patterns below 1e-30
        items = 80
        data = gen.poly(rng, "grm", [5] * items, 50, low=.4, high=1.6)["data"]
    else:
        cats = [int(c) for c in rng.integers(2, 6, items)]
        data = gen.poly(rng, "grm", cats, people, start=int(rng.choice([0, 1, -2])), missing=missing, low=.4, high=2.8)["data"]
    if min(np.unique(row[row != ref.MISSING]).size for row in data) < 2:
        mon.skip("constant item")
        return
    nodes = 21 if size else int(rng.choice([21, 31, 41, 61]))
    opts = {"hyper_quadrature_n": nodes} if nodes != 41 or rng.random() < .3 else {}
    if rng.random() < .3:
        opts["quadrature_n"] = int(rng.choice([31, 51]))
    if rng.random() < .25:
        opts["distribution"] = gen.priors(rng, "normal")
    if rng.random() < .15:
        opts["estimate_distribution"] = True
    if size:
        opts = {"hyper_quadrature_n": nodes}
    fn = getattr(girth, name)
    early, late = (mon.call("returns", fn, data, options={**opts, "max_iteration": k}) for k in (40, 41))
    slopes = np.asarray(late["Discrimination"], float)
    scale = float(late["Rayleigh_Scale"])
    mon.check("range", np.all((slopes >= LOW) & (slopes <= HIGH)), f"{name}: outside the range of the prior", got=slopes)
    mon.check("range", .1 <= scale <= 5, f"{name}: scale outside its range", got=scale)
    if not np.array_equal(early["Discrimination"], slopes):
        mon.skip("not converged")
        return
    family = "2pl" if name == "twopl_mml_eap" else "grm"
    engine = Fit(data, opts, family, result=late)
    parts = [engine.item_ll(i, p) for i, p in enumerate(engine.probs(late))]
    whole = sum(parts)
    at, w = ref.quad(nodes, LOW, HIGH)
    for i in (range(items) if size != "long" else rng.choice(items, 6, replace=False)):
        rest = whole - parts[i]
        value = np.zeros(nodes)
        edge = np.zeros(nodes, bool)
        for k, alpha in enumerate(at):
            b = ref.solve_difficulty(alpha, engine.observed[i], engine.line, engine.line_w)
            edge[k] = np.abs(b).max() > 5.9
            with np.errstate(all="ignore"):
                total = engine.total(rest + engine.item_ll(i, ref.p_grm(engine.theta, b, alpha)))
            value[k] = total if np.isfinite(total) else -np.inf
        post = np.exp(value - value.max()) * w * rayleigh(at, scale)
        if post[edge].sum() > 1e-6 * post.sum():            # no difficulty for likely discriminations (see KF1)
            mon.event("difficulties at the edge of their range")
            continue
        want = (post * at).sum() / post.sum()
        spread = np.sqrt((post * (at - want) ** 2).sum() / post.sum())
        mon.event("off<=%.3f" % (np.ceil(abs(slopes[i] - want) / want * 200) / 200))
        mon.event("posterior sd<=%.2f" % (np.ceil(spread * 10) / 10))
        mon.close("posterior mean", slopes[i], want, TOL * want, msg=f"{name}, {items} items, {people} people: discrimination {i}")
    once = scale_mean(slopes, np.ones(items), nodes)
    often = scale_mean(slopes, np.array(engine.counts), nodes)
    known = "KF5-SCALE-WEIGHT" if abs(scale - often) < 2e-3 else None
    mon.event("scale off %.3f" % round(abs(scale - once), 2))
    mon.check("scale", abs(scale - once) < 2e-3, f"{name}: Rayleigh scale is not its posterior mean", finding=known, got=scale,
              want=once, per_category=often)
    mon.state(name, data.shape, tuple(engine.counts), int((data == ref.MISSING).sum()), nodes, sorted(opts))
    mon.sample(method=name, slopes=slopes[:4], scale=scale)


TOL = .01
