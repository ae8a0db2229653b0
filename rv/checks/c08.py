"""Conditional Rasch estimates solve the conditional likelihood equations."""
import numpy as np
import girth

from rv import gen, ref

ID = "C08"
RULE = ("rasch_conditional on random Rasch and non-Rasch data; the expected number of endorsements given the raw "
        "scores is recomputed from the returned difficulties with exact elementary symmetric functions and compared "
        "with the observed number (as the Newton step it would still ask for); distinct by items, respondents, "
        "distinct raw scores, discrimination, storage")
MIN = {"score equation": 400, "sum": 60, "scaling": 60, "order": 60, "extremes": 60, "repeats": 60}
BUDGET = {"quick": 30, "thorough": 900}
LIMIT = 500


def cases(tier, seed):
    kinds = [{"kind": k, "min": 25} for k in ("rasch", "misfit", "small", "wide", "far")]
    return gen.round_robin(seed, ID, kinds, 50 if tier == "quick" else 1500)


def esf(eps):
    """Elementary symmetric functions by the summation algorithm."""
    out = np.zeros(len(eps) + 1)
    out[0] = 1
    for k, e in enumerate(eps):
        out[1:k + 2] = out[1:k + 2] + e * out[:k + 1]
    return out


def expectations(betas, scores):
    """[item, score] probability of an endorsement given the raw score."""
    eps = np.exp(-betas)
    whole = esf(eps)
    out = np.zeros((len(betas), len(betas) + 1))
    for i in range(len(betas)):
        rest = esf(np.delete(eps, i))
        out[i, 1:] = eps[i] * rest / whole[1:]
    return out[:, scores]


def informative(data):
    total = data.sum(axis=0)
    return data[:, (total > 0) & (total < len(data))]


def data_for(rng, kind):
    n_items = int(rng.choice([3, 5, 8, 15, 25]))
    n_people = int(rng.choice([80, 250, 600]))
    if kind == "small":
        n_items, n_people = int(rng.integers(2, 5)), int(rng.choice([40, 90]))
    if kind == "wide":
        n_items, n_people = int(rng.choice([40, 70])), 150
        if rng.random() < .5:
            return gen.lopsided(rng, 400, rng.random() < .5, easy=64, b=-2.2, a=1.3)["data"]
    if kind == "far":
        # an item far from the others: its difficulty is still inside the search interval
        n_items, n_people = int(rng.integers(5, 9)), 2500
        b = rng.uniform(-.6, .6, n_items)
        b[rng.integers(n_items)] = rng.choice([-1, 1]) * rng.uniform(3.6, 5.2)
        return gen.dich(rng, n_items, n_people, a=1.0, b=b, theta=rng.normal(0, 1.6, n_people))["data"]
    a = 1.0 if kind != "misfit" else rng.uniform(.4, 2, n_items)
    b = rng.uniform(-1.6, 1.6, n_items)
    return gen.dich(rng, n_items, n_people, a=a, b=b, shape=["normal", "skew", "uniform"][rng.integers(3)])["data"]


def run(spec, mon):
    rng = gen.rng_of(spec)
    data = data_for(rng, spec["kind"])
    core = informative(data)
    share = core.mean(axis=1) if core.size else np.zeros(1)
    floor = .006 if spec["kind"] == "far" else .08
    if core.shape[1] < 20 or share.min() < floor or share.max() > 1 - floor:
        mon.skip("an item is nearly constant")
        return
    opts = {"max_iteration": LIMIT} if rng.random() < .6 else None
    res = mon.call("returns", girth.rasch_conditional, data, options=opts)
    betas = np.asarray(res["Difficulty"], float)
    mon.check("shape", betas.shape == (len(data),), "difficulty shape", got=betas.shape)
    if np.abs(betas).max() > 4.9:
        mon.skip("at the edge of the search interval")
        return
    mon.check("sum", abs(betas.sum()) < 1e-8, "difficulties do not sum to zero", total=betas.sum())
    scores = core.sum(axis=0)
    expected = expectations(betas, scores)
    info = (expected * (1 - expected)).sum(axis=1)
    step = (expected.sum(axis=1) - core.sum(axis=1)) / info
    for i, s in enumerate(step):
        mon.check("score equation", abs(s) < 4e-3, f"item {i}: observed and expected endorsements differ",
                  observed=core[i].sum(), expected=expected[i].sum(), newton_step=s)
    mon.event("largest newton step <= %.4f" % (np.ceil(np.abs(step).max() * 1e3) / 1e3))

    k = float(rng.choice([.5, 1.7, 2.5]))
    scaled = mon.call("returns", girth.rasch_conditional, data, discrimination=k, options=opts)
    mon.close("scaling", np.asarray(scaled["Difficulty"]) * k, betas, 1e-10, msg="discrimination does not just divide")
    mon.check("scaling", scaled["Discrimination"] == k, "discrimination not returned", got=scaled["Discrimination"])

    order = rng.permutation(data.shape[1])
    got = mon.call("returns", girth.rasch_conditional, data[:, order], options=opts)["Difficulty"]
    mon.close("order", got, betas, 1e-3, msg="reordered respondents")
    n_more = int(rng.integers(1, 30))
    more = np.repeat((np.arange(n_more) % 2)[None], len(data), axis=0)
    got = mon.call("returns", girth.rasch_conditional, np.concatenate([data, more], axis=1), options=opts)["Difficulty"]
    mon.close("extremes", got, betas, 1e-3, msg="all-right and all-wrong respondents added")
    times = int(rng.integers(2, 4))
    got = mon.call("returns", girth.rasch_conditional, np.tile(data, times), options=opts)["Difficulty"]
    mon.close("repeats", got, betas, 4e-3, msg="repeated respondents")
    # shifting all responses of items: permuted items permute the estimates
    order = rng.permutation(len(data))
    got = mon.call("returns", girth.rasch_conditional, data[order], options=opts)["Difficulty"]
    mon.close("items", got, betas[order], 5e-3, msg="reordered items")
    mon.state(spec["kind"], data.shape, tuple(np.unique(scores)), k)
    mon.sample(items=len(data), respondents=data.shape[1], difficulties=betas[:4], newton=step[:4])
