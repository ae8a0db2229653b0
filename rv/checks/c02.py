"""MAP and MLE abilities maximise; flat patterns are flagged."""
import numpy as np
from scipy.stats import norm
import girth
from girth.multidimensional import multidimensional_ability_map
from scipy.optimize import minimize

from rv import gen, ref
from rv.checks.c01 import matrix, md_setup, storage
from rv.ref import MISSING

ID = "C02"
RULE = ("random response matrices x item parameters x priors; the density at the returned ability is "
        "compared with its maximum on a dense grid (local neighbourhood for multi-peaked 3PL "
        "densities); distinct by model, size, missing rate, prior, flat-pattern mix")
MIN = {"map-max": 100, "mle-max": 60, "flat": 60, "map3-local": 60, "mdmap-max": 20, "batch": 40}
KINDS = [{"kind": "map"}, {"kind": "mle"}, {"kind": "map3"}, {"kind": "mle3"}, {"kind": "md"},
         {"kind": "flat"}, {"kind": "mdbatch"}]
GRID = np.linspace(-6, 6, 2401)
NORMAL = ["default", "normal", "logistic", "scaled"]      # log-concave


def cases(tier, seed):
    return gen.round_robin(seed, ID, KINDS, 220 if tier == "quick" else 5000)


def run(spec, mon):
    rng = gen.rng_of(spec)
    globals()["run_" + spec["kind"]](rng, mon)


def objective(data, b, a, c, prior, at):
    """log density of each respondent at its own point(s): at [people, points]."""
    z = a[:, None, None] * (at[None] - b[:, None, None])
    with np.errstate(divide="ignore"):
        one = np.log(c[:, None, None] + (1 - c[:, None, None]) * ref.sigmoid(z))
        zero = np.log1p(-c)[:, None, None] + ref.log_sigmoid(-z)
        out = np.where((data == 1)[:, :, None], one, 0).sum(axis=0)
        out += np.where((data == 0)[:, :, None], zero, 0).sum(axis=0)
        if prior is not None:
            out += np.log(prior(at))
    return out


def setup(rng, guess=False):
    n_items = int(rng.choice([2, 4, 10, 30] * 3 + [55]))
    n_people = int(rng.choice([1, 3] * 5 + [20] * 6 + [140]))
    missing = float(rng.choice([0, 0, 0.3]))
    data = matrix(rng, n_items, n_people, missing)
    b = rng.normal(0, rng.choice([0.7, 2.0]), n_items)
    if rng.random() < 0.15:
        b += rng.choice([-5, 5])                 # pushes abilities to the edge
    a = rng.uniform(0.3, 3, n_items)
    c = rng.uniform(0, 0.4, n_items) if guess else np.zeros(n_items)
    opts = {}
    kind = NORMAL[rng.integers(len(NORMAL))]
    if kind != "default":
        opts["distribution"] = gen.priors(rng, kind)
    return data, b, a, c, opts, (n_items, n_people, missing, kind)


def slack(got, a, scale, rel):
    """Optimiser tolerance: 1e-5 in ability matters only on the slope at an edge."""
    edge = np.abs(got) > 5.9999
    return rel * (1 + np.abs(scale)) + np.where(edge, 3e-5 * (np.abs(a).sum() + 10), 0)


def global_max(mon, rule, got, data, b, a, c, prior):
    grid = objective(data, b, a, c, prior, np.broadcast_to(GRID, (data.shape[1], GRID.size)))
    mine = objective(data, b, a, c, prior, got[:, None])[:, 0]
    best = grid.max(axis=1)
    mon.check(rule, np.all(mine >= best - slack(got, a, best, 1e-6)),
              "a grid point has a higher density", got=got, deficit=best - mine)
    mon.check("interval", np.all(np.abs(got) <= 6), "outside -6 to 6", got=got)


def independence(rng, mon, call, data, full):
    order = rng.permutation(data.shape[1])
    mon.close("batch", call(data[:, order]), full[order], 1e-9, msg="permuted batch")
    j = int(rng.integers(data.shape[1]))
    mon.close("batch", call(data[:, [j]]), full[[j]], 1e-9, msg="single respondent")


def run_map(rng, mon):
    data, b, a, c, opts, key = setup(rng)
    a_arg = a
    form = int(rng.integers(4))
    if form == 1:
        a_arg = float(a[0]); a = np.full(a.size, a_arg)
    elif form == 2:
        a_arg = a[:1]; a = np.full(a.size, a[0])
    elif form == 3:
        a_arg = 1; a = np.ones(a.size)
    label, stored = storage(rng, data)

    def call(d):
        return mon.call("returns", girth.ability_map, d, b, a_arg, options=opts or None)
    got = call(stored)
    mon.check("shape", np.shape(got) == (data.shape[1],), "shape")
    global_max(mon, "map-max", got, data, b, a, c, ref.prior_of(opts))
    independence(rng, mon, call, stored, got)
    mon.state(key, form, label)
    mon.sample(model="2pl map", key=key, ability=got[:3])


def flat_masks(data):
    ones, zeros = (data == 1).any(axis=0), (data == 0).any(axis=0)
    return ones & zeros, ones & ~zeros, zeros & ~ones


def check_flat(mon, got, data, value):
    mixed, top, bottom = flat_masks(data)
    v = abs(value) if value == value else np.nan
    mon.same("flat", got[top], np.full(top.sum(), v), "all endorsed")
    mon.same("flat", got[bottom], np.full(bottom.sum(), -v), "none endorsed")
    empty = ~(mixed | top | bottom)
    mon.same("flat", np.abs(got[empty]), np.full(empty.sum(), v), "no response at all")
    mon.event("respondents without responses", int(empty.sum()))
    mon.event("flat respondents", int(top.sum() + bottom.sum()))
    mon.check("flat", np.all(np.isfinite(got[mixed])), "a mixed pattern got no estimate")


def run_mle(rng, mon):
    data, b, a, c, _, key = setup(rng)
    value = [None, np.nan, 10.0, 3, -4.5, np.inf][rng.integers(6)]
    kw = {} if value is None else {"no_estimate": value}
    label, stored = storage(rng, data)

    def call(d):
        return mon.call("returns", girth.ability_mle, d, b, a, **kw)
    got = call(stored)
    mixed, _, _ = flat_masks(data)
    if mixed.any():
        global_max(mon, "mle-max", got[mixed], data[:, mixed], b, a, c, None)
    check_flat(mon, got, data, np.nan if value is None else value)
    seen = (data != MISSING).any(axis=0)
    if seen.any():
        independence(rng, mon, call, stored[:, seen], got[seen])
    mon.state("mle", key, value, label)
    mon.sample(model="2pl mle", key=key, ability=got[:4], no_estimate=value)


def local_or_global(mon, rule, got, data, b, a, c, prior):
    mine = objective(data, b, a, c, prior, got[:, None])[:, 0]
    for h in (1e-3, 5e-3, 0.02):
        for s in (-1, 1):
            near = np.clip(got + s * h, -6, 6)
            other = objective(data, b, a, c, prior, near[:, None])[:, 0]
            mon.check(rule, np.all(other <= mine + slack(got, a, mine, 2e-6)),
                      "not a local maximum", got=got, gain=other - mine)
    grid = objective(data, b, a, c, prior, np.broadcast_to(GRID, (data.shape[1], GRID.size)))
    step = np.diff(grid, axis=1)
    peaks = ((step[:, :-1] > 0) & (step[:, 1:] <= 0)).sum(axis=1) + (step[:, 0] < 0) + (step[:, -1] > 0)
    best = grid.max(axis=1)
    one = peaks == 1
    mon.check(rule + "-unique", np.all((mine >= best - slack(got, a, best, 1e-5))[one]),
              "single-peaked density not maximised", deficit=(best - mine)[one])
    mon.event("single-peaked", int(one.sum()))
    mon.event("several peaks", int((~one).sum()))
    mon.check("interval", np.all(np.abs(got) <= 6), "outside -6 to 6", got=got)


def run_map3(rng, mon):
    data, b, a, c, opts, key = setup(rng, True)
    label, stored = storage(rng, data)

    def call(d):
        return mon.call("returns", girth.ability_3pl_map, d, b, a, c, options=opts or None)
    got = call(stored)
    local_or_global(mon, "map3-local", got, data, b, a, c, ref.prior_of(opts))
    independence(rng, mon, call, stored, got)
    zero = mon.call("returns", girth.ability_3pl_map, stored, b, a, np.zeros(b.size), options=opts or None)
    global_max(mon, "map-max", zero, data, b, a, np.zeros(b.size), ref.prior_of(opts))
    mon.state("map3", key, label)
    mon.sample(model="3pl map", key=key, ability=got[:4])


def run_mle3(rng, mon):
    data, b, a, c, _, key = setup(rng, True)
    value = [None, np.nan, 10.0, 3, -4.5, np.inf][rng.integers(6)]
    kw = {} if value is None else {"no_estimate": value}
    label, stored = storage(rng, data)

    def call(d):
        return mon.call("returns", girth.ability_3pl_mle, d, b, a, c, **kw)
    got = call(stored)
    mixed, _, _ = flat_masks(data)
    if mixed.any():
        local_or_global(mon, "map3-local", got[mixed], data[:, mixed], b, a, c, None)
    check_flat(mon, got, data, np.nan if value is None else value)
    seen = (data != MISSING).any(axis=0)
    if seen.any():
        independence(rng, mon, call, stored[:, seen], got[seen])
    mon.state("mle3", key, value)


def run_flat(rng, mon):
    """Batches made of flat patterns with every mix of missing cells."""
    n_items = int(rng.integers(2, 8))
    cols = []
    for v in (0, 1):
        for miss in range(n_items):
            col = np.full(n_items, v)
            col[rng.permutation(n_items)[:miss]] = MISSING
            cols.append(col)
    cols.append(np.full(n_items, MISSING))
    mixed = rng.integers(0, 2, (n_items, 4))
    data = np.c_[np.array(cols).T, mixed] if rng.random() < 0.7 else np.array(cols).T
    data = data[:, rng.permutation(data.shape[1])]
    b, a = rng.normal(size=n_items), rng.uniform(.5, 2, n_items)
    c = rng.uniform(0, .3, n_items)
    value = float(rng.uniform(1, 9)) * (1 if rng.random() < .6 else -1)
    for fn, extra in ((girth.ability_mle, ()), (girth.ability_3pl_mle, (c,))):
        got = mon.call("returns", fn, data, b, a, *extra, no_estimate=value)
        check_flat(mon, got, data, value)
        check_flat(mon, mon.call("returns", fn, data, b, a, *extra), data, np.nan)
        only = data[:, ~flat_masks(data)[0]]
        check_flat(mon, mon.call("returns", fn, only, b, a, *extra, value), only, value)
    mon.state("flat", n_items, data.shape[1], value > 0)


def md_objective(codes, d, a, prior, at):
    """codes [items], at [factors, points] -> log density."""
    out = np.log(prior(at)).sum(axis=0)
    for i, code in enumerate(codes):
        if code >= 0:
            with np.errstate(divide="ignore"):
                out = out + np.log(ref.p_mgrm(at, d[i], a[i])[code])
    return out


def run_md(rng, mon, batch=False):
    n_factors, cats, a, d, start, data, opts = md_setup(rng)
    if opts.get("distribution") is None or rng.random() < 0.5:
        opts = {}
    else:
        opts = {"distribution": gen.priors(rng, ["normal", "logistic", "scaled"][rng.integers(3)])}
    if rng.random() < .3:
        # a wide prior lets extreme patterns reach the ends of the search interval
        opts = {"distribution": norm(0, rng.uniform(2.5, 4)).pdf}
        a = np.where(np.arange(n_factors) == np.arange(len(cats))[:, None] % n_factors, 1.5, 0.0)
        for j in range(2):
            data[:, j] = np.where(data[:, j] == MISSING, MISSING, start + j * (np.array(cats) - 1))
    prior = ref.prior_of(opts)
    extra = data[:, -max(cats):]
    data = data[:, :int(rng.choice([2, 6, 12]))]
    whole = np.concatenate([data, extra], axis=1)

    def call(x):
        out = mon.call("returns", multidimensional_ability_map, np.concatenate([x, extra], axis=1),
                       gen.pad(d), a, options=opts or None)
        return out[:, :x.shape[1]]
    got = mon.call("returns", multidimensional_ability_map, whole, gen.pad(d), a, options=opts or None)
    mon.check("shape", got.shape == (n_factors, whole.shape[1]), "shape")
    mon.check("interval", np.all(np.abs(got) <= 4 + 1e-9), "outside -4 to 4")
    codes = np.where(whole == MISSING, -1, whole - start)
    for j in range(min(whole.shape[1], 6)):
        def neg(x):
            return -md_objective(codes[:, j], d, a, prior, x[:, None])[0]
        best = min((minimize(neg, x0, method="L-BFGS-B", bounds=[(-4, 4)] * n_factors)
                    for x0 in (np.zeros(n_factors), np.clip(got[:, j], -4, 4))), key=lambda r: r.fun)
        mine = neg(got[:, j])
        mon.check("mdmap-max", mine <= best.fun + 1e-3, "a higher density exists",
                  got=got[:, j], best=best.x, deficit=mine - best.fun)
    order = rng.permutation(data.shape[1])
    mon.close("batch", call(data[:, order]), got[:, order], 1e-8, msg="permuted batch")
    mon.close("batch", call(data[:, :1]), got[:, :1], 1e-8, msg="single respondent")
    mon.event("md map beyond three", int((np.abs(got) > 3).any(axis=0).sum()))
    mon.state("md", n_factors, tuple(cats), start)
    mon.sample(model="md map", factors=n_factors, ability=got[:, :2])
    if batch:
        one = data[:, [0]]
        if (one != MISSING).any():
            lacking = any(np.unique(r[r != MISSING]).size < k for r, k in zip(one, cats))
            try:
                lone = multidimensional_ability_map(one, gen.pad(d), a, options=opts or None)
            except Exception as exc:    # noqa: BLE001
                return mon.check("mdbatch", False, repr(exc),
                                 finding="KF3-BATCH-CATEGORIES" if lacking else None)
            mon.close("mdbatch", lone, got[:, :1], 1e-5, msg="batch of one",
                      finding="KF3-BATCH-CATEGORIES" if lacking else None)


def run_mdbatch(rng, mon):
    run_md(rng, mon, True)
