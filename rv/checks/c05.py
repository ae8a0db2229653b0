"""Marginal maximum likelihood difficulties reproduce the observed proportions."""
import numpy as np
import girth
from girth import multidimensional as gmd
from scipy import stats

from rv import gen, models, ref

ID = "C05"
RULE = ("fits of every marginal method that solves the proportion equation; for every item and threshold the "
        "implied marginal probability under the density in force is compared with the observed proportion among "
        "valid responses; distinct by method, size, missing rate, options, item shape")
MIN = {"proportion": 200, "edge": 10}
BUDGET = {"quick": 45, "thorough": 1500}
NAMES = ["rasch_mml", "onepl_mml", "twopl_mml", "grm_mml", "twopl_mml_eap", "grm_mml_eap", "threepl_mml",
         "multidimensional_twopl_mml", "multidimensional_grm_mml"]
TOL = 1.5e-3


def cases(tier, seed):
    kinds = [{"kind": n, "min": 10} for n in NAMES]
    return gen.round_robin(seed, ID, kinds, 80 if tier == "quick" else 1500)


def options_for(rng, name):
    """Densities whose mass lies within the quadrature bounds."""
    opts = {}
    u = rng.random()
    if u < 0.3:
        opts["distribution"] = stats.norm(rng.uniform(-.5, .5), rng.uniform(.6, 1.0)).pdf
    elif u < 0.5:
        opts["distribution"] = stats.skewnorm(rng.uniform(-3, 3), 0, 1).pdf
    if rng.random() < 0.4:
        opts["quadrature_bounds"] = [(-5, 4.5), (-6, 6), [-4.5, 5.5]][rng.integers(3)]
    if rng.random() < 0.4:
        opts["quadrature_n"] = int(rng.choice([31, 61, 80]))
    opts["max_iteration"] = int(rng.choice([1, 2, 4, 10]))
    if name in ("threepl_mml",) or name.startswith("multi"):
        opts["max_iteration"] = int(rng.choice([1, 2]))
    if name in ("twopl_mml", "grm_mml", "twopl_mml_eap", "grm_mml_eap") and rng.random() < 0.3:
        opts["estimate_distribution"] = True
        opts["number_of_samples"] = int(rng.choice([7, 9, 10]))
        opts["quadrature_bounds"] = [(-4.5, 4.5), (-5, 5), (-2, 5), (-3, 4.5)][rng.integers(4)]
        opts["max_iteration"] = max(3, opts["max_iteration"])
    if name in ("twopl_mml", "grm_mml") or name.startswith("multi"):
        if rng.random() < 0.45:
            opts["use_LUT"] = False
    if name.startswith("multi"):
        opts["quadrature_n"] = int(rng.choice([15, 21]))
        opts["quadrature_bounds"] = (-4.5, 4.5)
        opts["initial_guess"] = bool(rng.random() < .6)
        opts.pop("distribution", None)
    if name.endswith("eap"):
        opts["hyper_quadrature_n"] = 15
    return opts


def data_for(rng, name):
    n_people = int(rng.choice([50, 150, 400] * 3 + [1300]))
    missing = float(rng.choice([0, 0, 0.1, 0.35]))
    n_items = int(rng.choice([2, 4, 7, 12] * 3 + [26]))
    if n_items == 2:
        missing = 0
    start = int(rng.choice([0, 1, 2, -2]))
    shape = ["normal", "skew", "bimodal"][rng.integers(3)]
    if "grm" in name:
        top = int(rng.choice([3, 4, 6, 9]))
        cats = [int(c) for c in rng.integers(2, top + 1, max(n_items, 6) if "multi" in name else n_items)]
        if name.startswith("multi"):
            data = gen.mgrm(rng, cats, 2, max(n_people, 150), start=start, missing=missing / 2)["data"]
        else:
            data = gen.poly(rng, "grm", cats, n_people, start=start, shape=shape, missing=missing)["data"]
    elif name.startswith("multi"):
        data = gen.mgrm(rng, [2] * 6, 2, max(n_people, 150), start=start, missing=missing / 2)["data"]
    else:
        data = gen.dich(rng, n_items, n_people, shape=shape, missing=missing,
                        spread=float(rng.choice([1.5, 3.5])),
                        c=rng.uniform(0, .25, n_items) if name == "threepl_mml" else None)["data"]
    special = rng.random()
    if special < 0.35 and len(data) > 2:
        # items everyone, no one, or all but one endorses
        i = int(rng.integers(len(data)))
        valid = data[i] != ref.MISSING
        low, high = data[data != ref.MISSING].min(), data[data != ref.MISSING].max()
        data[i, valid] = [low, high][rng.integers(2)]
        if rng.random() < 0.5:
            data[i, np.flatnonzero(valid)[0]] = low + high - data[i, np.flatnonzero(valid)[0]]
    return data


def run(spec, mon):
    rng = gen.rng_of(spec)
    name = spec["kind"]
    data = data_for(rng, name)
    opts = options_for(rng, name)
    args, kw = (), {"options": opts}
    if name == "rasch_mml":
        kw["discrimination"] = float(rng.choice([0.4, 1.0, 1.7, 3.0]))
    if name == "onepl_mml" and rng.random() < 0.3:
        kw["alpha"] = float(rng.uniform(0.5, 2))
    if name.startswith("multi"):
        args = (2,)
    fn = getattr(girth, name, None) or getattr(gmd, name)
    if name.startswith("multi") and opts["initial_guess"]:
        # a factor solution of the polychoric correlations has to exist
        shares = [np.unique(r[r != ref.MISSING], return_counts=True)[1] / (r != ref.MISSING).sum() for r in data]
        if data.shape[1] < 250 or min(v.size for v in shares) < 2 or min(v.min() for v in shares) < .04:
            opts["initial_guess"] = False
    res = mon.call("returns", fn, data, *args, **kw)
    n_items = len(data)
    codes, counts = ref.recode(data)
    constant = np.array([np.unique(r[r >= 0]).size == 1 for r in codes])
    observed = ref.at_or_above(codes, counts)
    theta, weight = models.latent_weight(res, opts)
    graded = name not in ("rasch_mml", "onepl_mml", "threepl_mml")
    uses_lut = graded and (opts.get("use_LUT", True) or name.endswith("eap"))
    if kw.get("discrimination") is not None:
        mon.close("given", res["Discrimination"], kw["discrimination"], 0, msg="fixed discrimination")
    disc = np.asarray(res["Discrimination"], float)
    diff = np.asarray(res["Difficulty"], float).reshape(n_items, -1)
    if name.startswith("multi"):
        slope = np.sqrt((disc ** 2).sum(axis=1))
        slope_used = slope.clip(.15, 5.99)
        diff = -diff / slope_used[:, None]        # the method's unidimensional difficulty
    else:
        slope = slope_used = np.broadcast_to(disc, n_items)
    guess = np.asarray(res.get("Guessing", np.zeros(n_items)))
    for i in range(n_items):
        for k, p in enumerate(observed[i]):
            b, a = diff[i, k], slope_used[i]
            if name == "threepl_mml" and p <= guess[i]:
                mon.check("edge", abs(b - 6) < 0.05, "proportion below guessing is not at the hard edge", b=b)
                continue
            implied = guess[i] + (1 - guess[i]) * (weight * ref.sigmoid(a * (theta - b))).sum()
            p = float(p)
            table = None
            if uses_lut:
                # what the look-up table covers at the discriminations next to this one
                near = np.clip([a - .013, a, a + .013], .15, 6)[:, None]
                ends = [(weight * ref.sigmoid(near * (theta - e))).sum(1) for e in (6, -6)]
                table = (ends[0].max() + 2e-4, ends[1].min() - 2e-4)
            outside = uses_lut and not table[0] < p < table[1]
            if constant[i] or abs(b) > 5.9 or outside:
                gap = abs(weight.sum() - 1) + TOL
                wrong_side = b < 0 if p < 0.5 else b > 0
                ok = abs(implied - p) <= gap or (
                    not wrong_side and (abs(b) > 5.9 or outside) and
                    (implied <= p + TOL if b < 0 else implied >= p - TOL))
                known = None
                if graded and constant[i]:
                    known = models.constant_item_finding(i, p == 0, uses_lut)
                elif outside:
                    known = "KF2-CONSTANT-ITEM"
                mon.check("edge", ok, f"{name} item {i} threshold {k} not at its end",
                          finding=known, p=p, implied=implied, b=b, a=a)
            else:
                mon.check("proportion", abs(implied - p) <= TOL, f"{name} item {i} threshold {k}",
                          p=p, implied=implied, b=b, a=a, opts=str(opts))
    mon.state(name, data.shape, tuple(counts), sorted((k, str(v)[:14]) for k, v in opts.items()))
    mon.sample(method=name, observed=observed[0], b=diff[0], a=slope[0])
