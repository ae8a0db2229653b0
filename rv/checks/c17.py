"""Polychoric correlations maximise the bivariate normal likelihood."""
import numpy as np
from girth.common import (contingency_table, polychoric_correlation_serial, validate_contingency_table)
from numpy.polynomial.legendre import leggauss
from scipy.special import ndtr, ndtri

from rv import gen

ID = "C17"
RULE = ("recorded correlation matrices and contingency tables on simulated and arbitrary ordinal data, judged by an "
        "independent bivariate normal likelihood; distinct by categories, codes, people, missing cells and latent correlation")
MIN = {"maximises": 100, "counted": 300, "collapsed": 200, "matrix": 40, "relabelled": 30, "reordered": 30, "items": 25,
       "negated": 20}
BUDGET = {"quick": 35, "thorough": 900}
NODES, WEIGHTS = leggauss(24)
OFFSETS = np.array([1, 2, 4, 6, 9])


def cases(tier, seed):
    kinds = [{"kind": k, "min": 8} for k in ("latent", "strong", "arbitrary", "table", "contradicted", "corner")]
    return gen.round_robin(seed, ID, kinds, 250 if tier == "quick" else 15000)


def bvn(x, y, rho):
    """P(X < x, Y < y) for a moderate correlation; integral of the correlation derivative, arcsine substitution."""
    x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))
    t = np.arcsin(rho) / 2 * (NODES + 1)
    s = np.sin(t)[:, None]
    xf, yf = x.ravel(), y.ravel()
    e = np.exp(-(xf ** 2 - 2 * s * xf * yf + yf ** 2) / (2 * (1 - s ** 2)))
    return (ndtr(xf) * ndtr(yf) + (WEIGHTS[:, None] * e).sum(axis=0) * np.arcsin(rho) / 2 / (2 * np.pi)).reshape(x.shape)


def cells(rows, cols, rho):
    """Cell probabilities, small ones to a relative accuracy: the second variable given the first, interval by interval."""
    root = np.sqrt(1 - rho * rho)
    inner = cols[1:-1]
    spread = np.concatenate([-OFFSETS[::-1], [0], OFFSETS]) * root / abs(rho)
    marks = np.concatenate([np.arange(-11, 12.0), (inner[:, None] / rho + spread).ravel()])
    out = np.empty((rows.size - 1, cols.size - 1))
    for k, (low, high) in enumerate(zip(np.maximum(rows[:-1], -12), np.minimum(rows[1:], 12))):
        edges = np.unique(np.concatenate([[low], marks[(marks > low) & (marks < high)], [high]]))
        half = np.diff(edges) / 2
        z = (half[:, None] * (NODES + 1) + edges[:-1, None]).ravel()
        weight = (half[:, None] * WEIGHTS).ravel() * np.exp(-z * z / 2) / np.sqrt(2 * np.pi)
        u = (cols[:, None] - rho * z) / root
        below, above = np.diff(ndtr(u), axis=0), -np.diff(ndtr(-u), axis=0)
        out[k] = np.where(u[:-1] > 0, above, below) @ weight
    return out


def own_table(x, y, low, high):
    ok = (x >= low) & (x <= high) & (y >= low) & (y <= high)
    out = np.zeros((high - low + 1, high - low + 1))
    np.add.at(out, (x[ok] - low, y[ok] - low), 1)
    return out


def loglik(table, rho):
    table = table[table.sum(axis=1) > 0][:, table.sum(axis=0) > 0]
    n = table.sum()
    rows = np.concatenate([[-12], ndtri(table.sum(axis=1).cumsum()[:-1] / n), [12]])
    cols = np.concatenate([[-12], ndtri(table.sum(axis=0).cumsum()[:-1] / n), [12]])
    p = np.zeros(table.shape)
    if abs(rho) < .9:
        p = np.diff(np.diff(bvn(rows[:, None], cols[None, :], rho), axis=0), axis=1)
    if p[table > 0].min() < 1e-7:       # differences of distribution functions are not accurate
        p = cells(rows, cols, rho)
    seen = p[table > 0]
    return float((table[table > 0] * np.log(np.maximum(seen, 1e-300))).sum()), seen.min()


def judge(mon, x, y, low, high, got, label, globally=True):
    """One correlation against the likelihood of its own table."""
    table = own_table(x, y, low, high)
    if (table.sum(axis=1) > 0).sum() < 2 or (table.sum(axis=0) > 0).sum() < 2:
        mon.skip("a variable is constant")
        return
    if not mon.check("matrix", -.9991 <= got <= .9991, f"{label}: correlation out of range", got=got):
        return
    steps = [.002, .01, .05, .15]
    # the optimiser stops within about 1e-5 of the best correlation
    tried = [got, got - 2e-5, got + 2e-5] + [got + s * d for d in steps for s in (-1, 1)]
    if globally:
        tried += list(np.linspace(-.9, .9, 13)) + [-.99, -.97, -.94, .94, .97, .99]
    found = [loglik(table, float(np.clip(r, -.999, .999))) for r in tried]
    here, best = max(f[0] for f in found[:3]), max(found)
    if best[1] < 1e-60:                 # nothing to compare
        mon.skip("probabilities too small for the integration")
        return
    mon.check("maximises", here >= best[0] - 1e-5 - 1e-8 * table.sum(), f"{label}: another correlation is more likely",
              rho=got, here=here, better=best, table=table)


def width(table, rho):
    """How far another maximiser may be: where the likelihood is clearly lower."""
    here, least = loglik(table, rho)
    if least < 1e-60:
        return 2.0
    for step in (.002, .005, .02, .06):
        if max(loglik(table, float(np.clip(rho + s * step, -.9995, .9995)))[0] for s in (-1, 1)) < here - 1e-4:
            return step
    return 2.0


def ordinal(rng, kind):
    """Data matrix, range, labels."""
    items = int(rng.integers(2, 5))
    people = int(rng.choice([30, 120, 500]))
    cats = int(rng.integers(2, 7 if rng.random() < .85 else 14))
    low = int(rng.choice([1, 1, 0, -2, 3]))
    if kind == "arbitrary":
        data = rng.integers(0, cats, (items, people))
        data[0] = rng.choice(cats, people, p=rng.dirichlet(np.ones(cats)))
    else:
        load = rng.uniform(.8, .98, items) if kind == "strong" else rng.uniform(.1, .9, items)
        load *= rng.choice([-1, 1], items)
        z = load[:, None] * rng.normal(size=people) + np.sqrt(1 - load ** 2)[:, None] * rng.normal(size=(items, people))
        data = np.array([np.searchsorted(np.sort(rng.normal(0, .9, cats - 1)), row) for row in z])
    if kind == "contradicted":                  # nearly perfect agreement but for a few people at the far corners
        people, cats = int(rng.choice([120, 300, 600])), int(rng.integers(4, 8))
        z = rng.normal(size=people)
        cuts = np.sort(rng.normal(0, 1, cats - 1))
        noise = float(rng.choice([0, .05, .2]))
        data = np.array([np.searchsorted(cuts, z + noise * rng.normal(size=people)) for _ in range(items)])
        for _ in range(int(rng.integers(1, 4))):
            data[int(rng.integers(1, items)), int(rng.integers(people))] = int(rng.choice([0, cats - 1]))
        if rng.random() < .5:
            data[0] = cats - 1 - data[0]
    data = data + low
    high = low + cats - 1
    if kind != "contradicted" and cats > 3 and rng.random() < .4:          # an unused category, inside or at the end
        k = low + int(rng.integers(cats))
        data[int(rng.integers(items))][data[0] == k] = low + (k == low)
        if rng.random() < .5:
            high += 1
    if kind != "contradicted" and rng.random() < .5:
        gone = rng.random(data.shape) < .15
        data = np.where(gone, rng.choice([-99999, high + 1, low - 1, 99]), data)
    return data, low, high


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    if kind == "table":
        return tables(rng, mon)
    if kind == "corner":
        return corner(rng, mon)
    data, low, high = ordinal(rng, kind)
    pairs = [(i, j) for i in range(len(data)) for j in range(i)]
    if any(own_table(data[i], data[j], low, high).sum() < 8 for i, j in pairs):
        mon.skip("too few common respondents")
        return
    matrix = np.asarray(mon.call("returns", polychoric_correlation_serial, data, low, high))
    if not mon.check("matrix", matrix.shape == (len(data),) * 2, "shape", got=matrix.shape):
        return
    mon.same("matrix", np.diag(matrix), np.ones(len(data)), "diagonal is not one")
    mon.same("matrix", matrix, matrix.T, "not symmetric")
    if np.abs(data).max() < 120 and rng.random() < .4:
        small = polychoric_correlation_serial(data.astype("int8"), low, high)
        mon.same("reordered", small, matrix, "one byte per response")
    for i, j in pairs:
        judge(mon, data[i], data[j], low, high, matrix[i, j], f"items {i}, {j}", kind != "arbitrary")
        mon.state(kind, data.shape, low, high, round(float(matrix[i, j]), 2))
    order = rng.permutation(data.shape[1])
    mon.same("reordered", polychoric_correlation_serial(data[:, order], low, high), matrix, "respondents reordered")
    shift = int(rng.integers(-4, 9))
    moved = np.where((data >= low) & (data <= high), data + shift, -99999)
    mon.same("relabelled", polychoric_correlation_serial(moved, low + shift, high + shift), matrix, "codes shifted")
    flat = min(np.unique(r[(r >= low) & (r <= high)]).size for r in data) < 2
    if kind != "arbitrary" and not flat:
        room = np.zeros_like(matrix)
        for i, j in pairs:
            room[i, j] = room[j, i] = width(own_table(data[i], data[j], low, high), matrix[i, j])
        items = rng.permutation(len(data))
        mon.close("items", polychoric_correlation_serial(data[items], low, high), matrix[np.ix_(items, items)],
                  room[np.ix_(items, items)], msg="items reordered")
        flipped = np.where((data >= low) & (data <= high), low + high - data, data)
        flipped[1:] = data[1:]
        sign = np.ones(len(data))
        sign[0] = -1
        mon.close("negated", polychoric_correlation_serial(flipped, low, high), matrix * np.outer(sign, sign), room,
                  msg="first item reversed")
    if low >= 1 and high <= 5:
        inside = np.where((data >= low) & (data <= high), data, -99999)
        mon.close("relabelled", polychoric_correlation_serial(inside), matrix, 1e-9, msg="default range")
    mon.sample(kind=kind, range=[low, high], matrix=matrix)


def corner(rng, mon):
    """A single respondent contradicts an otherwise strong relation; all four reflections."""
    people, cats = int(rng.choice([60, 120, 300])), int(rng.integers(4, 8))
    z = rng.normal(size=people)
    cuts = np.sort(rng.normal(0, 1, cats - 1))
    x, y = (np.searchsorted(cuts, z + .2 * rng.normal(size=people)) for _ in range(2))
    y[rng.choice(np.flatnonzero(x == x.min()))] = cats - 1 - int(rng.integers(2))
    for i in (0, 1):
        for j in (0, 1):
            data = 1 + np.array([cats - 1 - x if i else x, cats - 1 - y if j else y])
            got = np.asarray(mon.call("returns", polychoric_correlation_serial, data, 1, cats))
            judge(mon, data[0], data[1], 1, cats, got[0, 1], "one contradiction")
            mon.state("corner", cats, people, i, j, round(float(got[0, 1]), 2))


def tables(rng, mon):
    for _ in range(12):
        n = int(rng.choice([0, 1, 7, 60, 300]))
        low = int(rng.integers(-4, 4))
        high = low + int(rng.integers(0, 6) if rng.random() < .75 else rng.integers(9, 19))
        if rng.random() < .05:
            n = 70000
        x, y = rng.integers(low - 2, high + 3, (2, n))
        if rng.random() < .25:                  # nearly everyone in one cell
            x[: n - n // 10], y[: n - n // 10] = low, high
        if rng.random() < .3:
            x = x.astype(rng.choice(["int8", "int16", "float64"]))
        if rng.random() < .2:
            y = y.astype("int8")
        elif rng.random() < .3:
            y = np.where(rng.random(n) < .3, -99999, y)
        got = np.asarray(mon.call("returns", contingency_table, x, y, low, high))
        want = own_table(np.asarray(x, int), y, low, high)
        mon.same("counted", got, want, "counts differ", low=low, high=high)
        if low == 1 and high == 5:
            mon.same("counted", contingency_table(x, y), want, "default range")
        mon.state("table", n, low, high)
        table = want.copy()
        table[rng.random(table.shape[0]) < .3] = 0
        table[:, rng.random(table.shape[1]) < .3] = 0
        keep = table.copy()
        out = np.asarray(mon.call("returns", validate_contingency_table, table))
        mon.same("collapsed", out, keep[keep.sum(axis=1) != 0][:, keep.sum(axis=0) != 0], "empty rows and columns")
        mon.same("collapsed", table, keep, "input table changed")
        wide = np.vstack([keep, rng.integers(0, 3, keep.shape[1])])
        mon.same("collapsed", validate_contingency_table(wide), wide[wide.sum(axis=1) != 0][:, wide.sum(axis=0) != 0],
                 "rectangular table")
    x = rng.integers(1, 6, (2, 40))
    mon.same("counted", contingency_table(x[0], x[1]), own_table(x[0], x[1], 1, 5), "default range")
