"""Multidimensional fits and their initial guess obey the identification constraints."""
import girth
import numpy as np
from girth.common import polychoric_correlation_serial
from girth.factoranalysis import maximum_likelihood_factor_analysis

from rv import gen, ref

ID = "C29"
RULE = ("recorded discriminations of multidimensional fits and initial guesses for generated data; distinct by model, "
        "factors, items, categories and options")
MIN = {"shape": 24, "zeros": 24, "bounds": 24, "diagonal": 24, "guess constraints": 15, "guess solution": 15, "refused": 30,
       "processors": 2}
BUDGET = {"quick": 45, "thorough": 900}


def cases(tier, seed):
    kinds = [{"kind": "fit", "model": m, "factors": k, "guess": g, "min": 4}
             for m in ("twopl", "grm") for k, g in ((2, True), (2, False), (3, False), (3, True))]
    kinds += [{"kind": "guess", "model": m, "min": 8} for m in ("twopl", "grm")]
    kinds += [{"kind": "refused", "min": 4}]
    return gen.round_robin(seed, ID, kinds, 14 if tier == "quick" else 250)


def pattern(items, factors):
    """True where an identified solution must have a zero."""
    out = np.zeros((items, factors), bool)
    for column in range(factors):
        out[items - 1 - column, column + 1:] = True
    return out


def make(rng, model, factors, people, missing):
    items = int(rng.integers(3 * factors, 3 * factors + 4))
    cats = [2] * items if model == "twopl" else [int(c) for c in rng.integers(2, 5, items)]
    start = 0 if model == "twopl" else int(rng.choice([0, 1, -2, 6]))
    for _ in range(20):
        data = gen.mgrm(rng, cats, factors, people, start=start, missing=missing, simple=bool(rng.random() < .5))["data"]
        rows = [r[r != ref.MISSING] for r in data]
        if all(np.unique(r).size >= 2 and np.unique(r, return_counts=True)[1].max() < .9 * r.size for r in rows):
            return data, cats
    return None, cats


def gram(a):
    return a @ a.T


def fit(spec, rng, mon):
    model, factors = spec["model"], spec["factors"]
    missing = float(rng.choice([0, 0, .05]))
    data, cats = make(rng, model, factors, 260, missing)
    if data is None:
        mon.skip("item without variation")
        return
    fn = girth.multidimensional_twopl_mml if model == "twopl" else girth.multidimensional_grm_mml
    opts = {"initial_guess": spec["guess"], "quadrature_n": int(rng.choice([9, 13] if factors == 2 else [8, 9])),
            "max_iteration": int(rng.choice([1, 2, 3] if factors == 2 else [1]))}
    if rng.random() < .3 and factors == 2:
        opts["use_LUT"] = False
        opts["max_iteration"] = 1
    if rng.random() < .3:
        opts["quadrature_bounds"] = (-4, 4)
    if spec["guess"] and not np.isfinite(girth.initial_guess_md(data, factors)).all():
        mon.skip("no factor solution")                      # more factors than the correlations support
        return
    result = mon.call("returns", fn, data, factors, options=opts)
    a = np.asarray(result["Discrimination"])
    n = len(data)
    where = f"{model} {n} items {factors} factors guess {spec['guess']}"
    if not mon.check("shape", a.shape == (n, factors) and np.isfinite(a).all(), f"{where}: shape", shape=a.shape):
        return
    zero = pattern(n, factors)
    mon.check("zeros", np.abs(a[zero]).max() < 1e-10, f"{where}: zeros above the diagonal", values=a[-factors:])
    mon.check("zeros", np.abs(a[~zero]).min() > 0, f"{where}: zeros elsewhere", values=a)
    diagonal = a[n - 1 - np.arange(factors), np.arange(factors)]
    free = ~zero
    free[n - 1 - np.arange(factors), np.arange(factors)] = False
    mon.check("bounds", np.abs(a[free]).max() <= 3 + 1e-6, f"{where}: free loadings within their bounds", worst=np.abs(a[free]).max())
    mon.check("diagonal", .2 - 1e-6 <= diagonal[0] <= 5 + 1e-6, f"{where}: last item", got=diagonal[0])
    if spec["guess"]:
        mon.check("diagonal", diagonal.min() >= .15 - 1e-6 and diagonal[1:].max() <= 4 + 1e-6, f"{where}: positive diagonal",
                  diagonal=diagonal)
    else:
        mon.check("bounds", np.abs(diagonal[1:]).max() <= 3 + 1e-6, f"{where}: diagonal within its bounds", diagonal=diagonal)
    mon.state(model, factors, spec["guess"], n, tuple(cats), opts["max_iteration"], "use_LUT" in opts, missing)
    mon.sample(model=model, factors=factors, diagonal=diagonal)


def guess(spec, rng, mon):
    model = spec["model"]
    factors = int(rng.choice([1, 2, 2, 3]))
    data, cats = make(rng, model, factors, 400, float(rng.choice([0, .05])))
    if data is None:
        mon.skip("item without variation")
        return
    values = data[data != ref.MISSING]
    correlation = polychoric_correlation_serial(data, values.min(), values.max())
    load, _, unique = maximum_likelihood_factor_analysis(correlation, factors)
    if not np.isfinite(load).all() or unique.min() < .03:
        mon.skip("no proper factor solution")
        return
    options = {"num_processors": 2} if rng.random() < .25 else None
    a = mon.call("returns", girth.initial_guess_md, data, factors, *(() if options is None else (options,)))
    n = len(data)
    where = f"{model} {n} items {factors} factors"
    if not mon.check("shape", np.shape(a) == (n, factors), f"{where}: shape", shape=np.shape(a)):
        return
    if factors > 1:
        zero = pattern(n, factors)
        mon.check("guess constraints", np.abs(a[zero]).max() < 1e-10, f"{where}: zeros above the diagonal", values=a[-factors:])
        diagonal = a[n - 1 - np.arange(factors), np.arange(factors)]
        mon.check("guess constraints", diagonal.min() > 0, f"{where}: positive diagonal", diagonal=diagonal)
    scaled = 1.7 * load / np.sqrt(unique)[:, None]
    mon.close("guess solution", gram(a), gram(scaled), 1e-8, 1e-8, msg=f"{where}: the factor solution up to rotation")
    shifted = np.where(data == ref.MISSING, data, data + 3)
    mon.close("guess solution", girth.initial_guess_md(shifted, factors), a, 1e-8, 1e-8, msg=f"{where}: categories coded from another start")
    if options:
        mon.close("processors", a, girth.initial_guess_md(data, factors), 1e-12, msg=f"{where}: number of processors")
    mon.state("guess", model, factors, n, tuple(cats))
    mon.sample(kind="guess", model=model, factors=factors)


def refused(rng, mon):
    data = gen.mgrm(rng, [2] * 6, 2, 80, start=0)["data"]
    for fn in (girth.multidimensional_twopl_mml, girth.multidimensional_grm_mml):
        for bad in (1, 0, -1):
            mon.raises("refused", fn, data, bad, msg=f"{fn.__name__} with {bad} factors")
            mon.raises("refused", fn, data, bad, options={"initial_guess": False}, msg=f"{fn.__name__} with {bad} factors")
    b, a = rng.normal(size=6), rng.uniform(.5, 1.5, 6)
    for fn in (girth.multidimensional_ability_eap, girth.multidimensional_ability_map):
        for shape in ((6, 1), (6,)):
            mon.raises("refused", fn, data, b[:, None] if rng.random() < .5 else b, a.reshape(shape),
                       msg=f"{fn.__name__} with one factor")
    mon.state("refused", data.shape)
    mon.sample(kind="refused")


def run(spec, mon):
    rng = gen.rng_of(spec)
    if spec["kind"] == "fit":
        fit(spec, rng, mon)
    elif spec["kind"] == "guess":
        guess(spec, rng, mon)
    else:
        refused(rng, mon)
