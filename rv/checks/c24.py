"""Principal component and principal axis factors reproduce the matrix they decompose."""
import numpy as np
from girth.factoranalysis import principal_axis_factor, principal_components_analysis

from rv import gen

ID = "C24"
RULE = ("recorded component and axis factor solutions of generated correlation and covariance matrices; distinct by matrix "
        "kind, size, factors, tolerance and starting point")
MIN = {"eigenvalues": 60, "loadings": 60, "best approximation": 60, "fixed point": 60, "components": 60, "start": 30,
       "recovery": 15, "unchanged": 100}
BUDGET = {"quick": 20, "thorough": 500}
KINDS = ("exact", "sample", "covariance", "singular", "polychoric like", "repeated", "integer", "large")


def cases(tier, seed):
    return gen.round_robin(seed, ID, [{"kind": k, "min": 8} for k in KINDS], 64 if tier == "quick" else 3000)


def exact(rng, items, factors, low=.2):
    """A correlation matrix with that many factors and unique variances above low."""
    load = rng.normal(size=(items, factors))
    unique = rng.uniform(low, .8, items)
    load *= np.sqrt((1 - unique) / (load ** 2).sum(1))[:, None]
    matrix = load @ load.T
    np.fill_diagonal(matrix, 1)
    return matrix, load, unique


def sample(rng, items, factors, people):
    matrix, _, _ = exact(rng, items, factors)
    return np.corrcoef(np.linalg.cholesky(matrix) @ rng.normal(size=(items, people)))


def matrix_of(rng, kind):
    items = int(rng.integers(4, 16))
    factors = int(rng.integers(1, max(1, items // 4) + 1))
    if kind == "exact":
        return exact(rng, items, factors)[0], factors
    if kind == "sample":
        return sample(rng, items, factors, int(rng.choice([40, 100, 400]))), factors
    if kind == "covariance":
        scale = np.exp(rng.normal(0, .4, items))
        return sample(rng, items, factors, 200) * np.outer(scale, scale), factors
    if kind == "singular":                                  # duplicated items or fewer people than items
        if rng.random() < .5:
            base = sample(rng, items, factors, 100)
            keep = np.r_[np.arange(items), rng.integers(items, size=2)]
            return base[np.ix_(keep, keep)], factors
        return np.corrcoef(rng.normal(size=(items, max(3, items - 2)))), factors
    if kind == "polychoric like":                           # correlations estimated pair by pair, not positive definite
        base = sample(rng, items, factors, 60)
        noise = np.triu(rng.normal(0, .15, base.shape), 1)
        base = np.clip(base + noise + noise.T, -.98, .98)
        np.fill_diagonal(base, 1)
        return base, factors
    if kind == "repeated":                                  # equal eigenvalues
        blocks = int(rng.integers(2, 4))
        return np.kron(np.eye(blocks), np.full((3, 3), .5) + .5 * np.eye(3)), blocks
    if kind == "integer":
        half = rng.integers(-3, 4, size=(items, items))
        return half @ half.T, factors
    items = int(rng.integers(40, 80))
    return sample(rng, items, 4, 400), 4


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    matrix, factors = matrix_of(rng, kind)
    n = len(matrix)
    for k in {factors, None, 1, int(rng.integers(1, n + 1))}:
        held = matrix.copy()
        load, eigs, unique = mon.call("returns", principal_components_analysis, matrix, *(() if k is None else (k,)))
        mon.same("unchanged", matrix, held, msg="input matrix")
        k = n if k is None else k
        scale = np.abs(matrix).max() * n
        where = f"{kind} {n} items {k} factors"
        if not mon.check("eigenvalues", np.shape(eigs) == (k,) and np.shape(load) == (n, k) and np.isfinite(load).all(),
                         f"{where}: shapes", eigs=np.shape(eigs), load=np.shape(load)):
            continue
        # the reference spectrum through another route: singular values of the matrix shifted to be definite
        shift = scale + 1.0
        spectrum = np.linalg.svd(matrix + shift * np.eye(n), compute_uv=False) - shift
        mon.close("eigenvalues", eigs, spectrum[:k], 1e-11 * scale, msg=f"{where}: largest eigenvalues, descending")
        positive = np.maximum(spectrum[:k], 0)
        mon.close("loadings", load.T @ load, np.diag(positive), 1e-9 * scale, msg=f"{where}: orthogonal, norm is the eigenvalue")
        # a component direction is an eigenvector
        mon.close("loadings", matrix @ load, load * eigs, 1e-9 * scale ** 1.5, msg=f"{where}: eigenvectors")
        mon.close("unchanged", unique, np.zeros(n), 0, msg="unique variance is zero")
        rest = matrix - load @ load.T
        if spectrum[-1] > -1e-9 * scale:                    # Eckart-Young: the Frobenius error of the best approximation
            mon.close("best approximation", (rest ** 2).sum(), (spectrum[k:] ** 2).sum(), 1e-9 * scale ** 2, msg=where)
            if k == n:
                mon.close("best approximation", rest, np.zeros((n, n)), 1e-10 * scale, msg=f"{where}: all factors")
    if kind in ("exact", "sample", "covariance", "repeated", "large"):
        variance = np.diag(matrix)
        tolerance = float(rng.choice([1e-3, 1e-3, 1e-5, 1e-7]))
        where = f"{kind} {n} items {factors} factors tolerance {tolerance}"
        held = matrix.copy()
        try:
            args = {} if tolerance == 1e-3 else {"tolerance": tolerance}
            load, eigs, unique = principal_axis_factor(matrix, factors, **args)
        except RuntimeError:                                # scipy reports that it did not converge
            mon.skip("no convergence")
            return
        mon.same("unchanged", matrix, held, msg="input matrix")
        part = principal_components_analysis(matrix - np.diag(unique), factors)
        mon.close("components", load, part[0], 1e-12 * scale, msg=f"{where}: loadings")
        mon.close("components", eigs, part[1], 1e-12 * scale, msg=f"{where}: eigenvalues")
        mon.close("components", (load ** 2).sum(0), np.maximum(eigs, 0), 1e-9 * scale, msg=f"{where}: norm")
        # the communalities and unique variances add up to the variance
        mon.close("fixed point", (variance - (load ** 2).sum(1)) / variance, unique / variance, max(5 * tolerance, 1e-6), 1e-6, msg=where)
        heywood = (unique / variance).min() < .02
        guess = unique * rng.uniform(.85, 1.1, n)
        kept = guess.copy()
        order = rng.permutation(n)
        try:
            other = principal_axis_factor(matrix, factors, initial_guess=guess, tolerance=tolerance)
            swapped = principal_axis_factor(matrix[np.ix_(order, order)], factors, tolerance=tolerance)
        except RuntimeError:
            mon.event("another start does not converge")
        else:
            mon.same("unchanged", guess, kept, msg="initial guess")
            part = principal_components_analysis(matrix - np.diag(other[2]), factors)
            mon.close("components", other[0], part[0], 1e-12 * scale, msg=f"{where}: loadings from another start")
            mon.close("start", (variance - (other[0] ** 2).sum(1)) / variance, other[2] / variance, max(5 * tolerance, 1e-6), 1e-6,
                      msg=f"{where}: fixed point from another start")
            proper = min((other[2] / variance).min(), (swapped[2] / variance[order]).min()) > .02
            if proper and not heywood and factors == 1 and kind in ("exact", "sample"):        # else several fixed points may exist
                mon.close("start", other[2], unique, max(30 * tolerance, 1e-5), msg=f"{where}: another starting point")
                mon.close("start", swapped[2], unique[order], max(30 * tolerance, 1e-5), msg=f"{where}: items reordered")
        if kind == "exact" and not heywood:
            mon.close("recovery", load @ load.T + np.diag(unique), matrix, max(5 * tolerance, 1e-5), msg=where)
            try:
                ok = principal_axis_factor(matrix, factors, tolerance=1e-9, max_iterations=20000)
                mon.close("recovery", ok[0] @ ok[0].T + np.diag(ok[2]), matrix, 1e-5, msg=f"{where}: tight tolerance")
            except RuntimeError:
                mon.event("tight tolerance does not converge")
    mon.state(kind, n, factors)
    mon.sample(kind=kind, items=n, factors=factors)
