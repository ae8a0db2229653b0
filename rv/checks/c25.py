"""Maximum likelihood and minimum rank factor solutions meet their criteria."""
import numpy as np
from girth.factoranalysis import (maximum_likelihood_factor_analysis, minimum_rank_factor_analysis, principal_axis_factor,
                                  principal_components_analysis)

from rv import gen
from rv.checks import c24

ID = "C25"
RULE = ("recorded maximum likelihood and minimum rank solutions of generated correlation and covariance matrices against "
        "the criteria computed here; distinct by matrix kind, size, factors and options")
MIN = {"variances": 30, "stopping": 100, "likelihood equations": 30, "better": 300, "scaling": 30, "ml recovery": 8, "definite": 40,
       "components": 40, "criterion": 100, "range": 40, "unchanged": 60}
BUDGET = {"quick": 25, "thorough": 600}
KINDS = ("exact", "sample", "small sample", "covariance", "heywood", "stopping")


def cases(tier, seed):
    return gen.round_robin(seed, ID, [{"kind": k, "min": 8} for k in KINDS], 48 if tier == "quick" else 2500)


def discrepancy(matrix, load, unique):
    """Normal theory discrepancy of the implied covariance from the observed one."""
    implied = load @ load.T + np.diag(unique)
    sign, logdet = np.linalg.slogdet(implied)
    return np.inf if sign <= 0 else logdet + np.trace(np.linalg.solve(implied, matrix)) - np.linalg.slogdet(matrix)[1] - len(matrix)


def rank_cost(matrix, unique, factors):
    """Sum of the trailing singular values once the smallest is scaled to one."""
    half = 1 / np.sqrt(unique)
    values = np.sqrt(np.maximum(np.linalg.eigvalsh(matrix * np.outer(half, half)), 0))
    return values[:-factors].sum() / values[0]


def make(rng, kind):
    items = int(rng.integers(5, 14))
    factors = int(rng.integers(1, max(1, items // 4) + 1))
    if kind == "exact":
        return c24.exact(rng, items, factors)[0], factors
    if kind == "heywood":                                   # more factors than the data support
        return c24.sample(rng, items, factors, 40), min(factors + 1, items // 3 + 1)
    matrix = c24.sample(rng, items, factors, 60 if kind == "small sample" else int(rng.choice([150, 500])))
    if kind == "covariance":
        scale = np.exp(rng.normal(0, .5, items))
        matrix = matrix * np.outer(scale, scale)
    return matrix, factors


def likelihood(rng, matrix, factors, kind, mon):
    n, variance = len(matrix), np.diag(matrix)
    where = f"{kind} {n} items {factors} factors"
    held = matrix.copy()
    fit = maximum_likelihood_factor_analysis
    loose = mon.call("returns", fit, matrix, factors)
    load, eigs, unique = mon.call("returns", fit, matrix, factors, tolerance=1e-11, max_iter=4000)
    mon.same("unchanged", matrix, held, msg="input matrix")
    longer = fit(matrix, factors, tolerance=1e-11, max_iter=8000)
    if not np.isfinite(unique).all() or not np.isfinite(load).all() or np.abs(longer[2] - unique).max() > 1e-8:
        mon.skip("no convergence")
        return
    mon.check("range", unique.min() > 0, f"{where}: positive unique variances", unique=unique.min())
    mon.close("components", eigs, (load ** 2).sum(0), 1e-12, 1e-12, msg=f"{where}: eigenvalues are sums of squared loadings")
    if (unique / variance).min() < .01:                     # on the boundary
        mon.event("heywood")
        return
    if kind in ("exact", "sample"):
        default = fit(matrix, factors, max_iter=400)
        mon.check("variances", discrepancy(matrix, default[0], default[2]) <= discrepancy(matrix, load, unique) + 1e-3,
                  f"{where}: default tolerance", by=discrepancy(matrix, default[0], default[2]) - discrepancy(matrix, load, unique))
    mon.check("variances", discrepancy(matrix, loose[0], loose[2]) >= discrepancy(matrix, load, unique) - 1e-8,
              f"{where}: tight tolerance fits no worse")
    implied = load @ load.T + np.diag(unique)
    mon.close("variances", np.diag(implied) / variance, np.ones(n), 1e-6, msg=f"{where}: fitted variances")
    # gradients of the discrepancy: (implied^-1 - implied^-1 R implied^-1) load = 0, and its diagonal is zero
    inverse = np.linalg.inv(implied)
    gap = inverse - inverse @ matrix @ inverse
    size = np.sqrt(np.outer(variance, variance))
    mon.close("likelihood equations", (gap * size) @ (load / np.sqrt(variance)[:, None]), np.zeros((n, factors)), 1e-4,
              msg=f"{where}: loadings")
    mon.close("likelihood equations", np.diag(gap) * variance, np.zeros(n), 1e-4, msg=f"{where}: unique variances")
    canonical = load.T @ (load / unique[:, None])
    mon.close("likelihood equations", canonical - np.diag(np.diag(canonical)), np.zeros((factors, factors)),
              1e-5 * canonical.max(), msg=f"{where}: canonical axes")
    # no alternative is better
    here = discrepancy(matrix, load, unique)
    for step in (.3, .1, .03, .01, .003):
        for _ in range(3):
            bumped = discrepancy(matrix, load + step * rng.normal(size=load.shape) * np.sqrt(variance)[:, None],
                                 unique * np.exp(step * rng.normal(size=n)))
            mon.check("better", bumped >= here - 1e-9, f"{where}: a nearby solution fits better", step=step, by=here - bumped)
    if kind == "heywood" or (factors > 1 and kind not in ("exact", "sample")):   # may have several maxima
        return
    try:
        axis = principal_axis_factor(matrix, factors)
        if axis[2].min() > 0:
            other = discrepancy(matrix, axis[0], axis[2])
            mon.check("better", other >= here - 1e-9, f"{where}: principal axis fits better", by=here - other)
    except RuntimeError:
        pass
    # from another start and in other units
    guess = unique * rng.uniform(.85, 1.1, n)
    kept = guess.copy()
    other = mon.call("returns", fit, matrix, factors, tolerance=1e-11, max_iter=4000, initial_guess=guess)
    mon.same("unchanged", guess, kept, msg="initial guess")
    mon.close("scaling", other[2] / variance, unique / variance, 1e-4, msg=f"{where}: another starting point")
    units = np.exp(rng.normal(0, .4, n))
    if rng.random() < .6:                                   # some variables in much smaller or larger units
        units *= 10 ** np.where(rng.random(n) < .4, rng.uniform(-4, 3, n), 0)
    start = unique * units ** 2 if rng.random() < .5 or kind != "exact" or factors > 1 else None
    scaled = mon.call("returns", fit, matrix * np.outer(units, units), factors, tolerance=1e-11, max_iter=8000,
                      initial_guess=start)
    mon.close("scaling", scaled[2] / units ** 2 / variance, unique / variance, 1e-4, msg=f"{where}: units, unique variances")
    part = scaled[0] / units[:, None]
    mon.close("scaling", part @ part.T / size, load @ load.T / size, 1e-3, msg=f"{where}: units, loadings")
    order = rng.permutation(n)
    moved = mon.call("returns", fit, matrix[np.ix_(order, order)], factors, tolerance=1e-11, max_iter=4000)
    mon.close("scaling", moved[2] / variance[order], unique[order] / variance[order], 1e-4, msg=f"{where}: items reordered")
    if kind == "exact":
        mon.close("ml recovery", implied, matrix, 1e-5, msg=where)
        mon.close("ml recovery", loose[0] @ loose[0].T + np.diag(loose[2]), matrix, 2e-2, msg=f"{where}: default options")


def stopping(rng, mon):
    """With the default tolerance every unique variance has settled, not only most of them."""
    fit = maximum_likelihood_factor_analysis
    for _ in range(20):
        items = int(rng.integers(5, 12))
        factors = int(rng.integers(1, max(1, items // 4) + 1))
        people = int(rng.choice([60, 60, 120, 300]))
        load = rng.uniform(-.9, .9, (items, factors))
        matrix = np.corrcoef(load @ rng.normal(size=(factors, people)) + rng.normal(size=(items, people)))
        unique = fit(matrix, factors, tolerance=1e-11, max_iter=4000)[2]
        again = fit(matrix, factors, tolerance=1e-11, max_iter=4020)[2]
        if not np.isfinite(unique).all() or np.abs(again - unique).max() > 1e-10 or unique.min() < .02:
            mon.event("no convergence or boundary")
            continue
        got = mon.call("returns", fit, matrix, factors, max_iter=4000)[2]
        mon.close("stopping", got, unique, 2e-4, msg=f"{items} items {factors} factors: unique variances at the default tolerance")
        coarse = mon.call("returns", fit, matrix, factors, max_iter=4000, tolerance=1e-5)[2]
        mon.close("stopping", coarse, unique, 2e-2, msg=f"{items} items {factors} factors: unique variances at tolerance 1e-5")
        mon.state("stopping", items, factors, people)


def rank(rng, matrix, factors, kind, mon):
    n, variance = len(matrix), np.diag(matrix)
    where = f"{kind} {n} items {factors} factors"
    held = matrix.copy()
    try:
        axis = principal_axis_factor(matrix, factors)[2]
    except RuntimeError:
        mon.skip("no convergence of the starting point")
        return
    starts = {"default": None, "low": np.full(n, float(np.linalg.eigvalsh(matrix)[0]) * .9)}
    for name, start in starts.items():
        kept = None if start is None else start.copy()
        load, eigs, unique = mon.call("returns", minimum_rank_factor_analysis, matrix, factors, start)
        mon.same("unchanged", matrix, held, msg="input matrix")
        if start is not None:
            mon.same("unchanged", start, kept, msg="initial guess")
        if not mon.check("range", np.isfinite(unique).all() and unique.min() > 0 and (unique <= variance * (1 + 1e-9)).all(),
                         f"{where} {name}: unique variances within the item variances", unique=unique):
            continue
        rest = matrix - np.diag(unique)
        values = np.linalg.eigvalsh(rest)
        mon.check("definite", values[0] > -1e-8 * values[-1], f"{where} {name}: remaining matrix is semi-definite", least=values[0])
        mon.check("definite", values[0] < 1e-6 * values[-1], f"{where} {name}: on the boundary, rank is reduced", least=values[0])
        part = principal_components_analysis(rest, factors)
        mon.close("components", load, part[0], 1e-10, 1e-10, msg=f"{where} {name}: loadings")
        mon.close("components", eigs, part[1], 1e-10, 1e-10, msg=f"{where} {name}: eigenvalues")
        here = rank_cost(matrix, unique, factors)
        begin = np.clip(1 / np.sqrt(np.maximum(axis if start is None else start, 1e-4)), 1, 100)
        mon.check("criterion", here <= rank_cost(matrix, 1 / begin ** 2, factors) * (1 + 2e-3),
                  f"{where} {name}: no worse than its starting point", got=here, start=rank_cost(matrix, 1 / begin ** 2, factors))
        if kind not in ("covariance", "heywood"):
            for _ in range(6):
                near = unique * np.exp(.3 * rng.normal(size=n))
                mon.check("criterion", here <= rank_cost(matrix, near, factors) + .05 * here,
                          f"{where} {name}: a nearby solution has a lower criterion", got=here, near=rank_cost(matrix, near, factors))
        if kind == "exact" and start is None and factors <= 2:
            mon.close("mr recovery", load @ load.T + np.diag(unique), matrix, .15, msg=f"{where}")


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    if kind == "stopping":
        return stopping(rng, mon)
    matrix, factors = make(rng, kind)
    likelihood(rng, matrix, factors, kind, mon)
    rank(rng, matrix, factors, kind, mon)
    mon.state(kind, len(matrix), factors)
    mon.sample(kind=kind, items=len(matrix), factors=factors)
