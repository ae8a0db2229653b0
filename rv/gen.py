"""Seeded workload generators (own simulators, nothing from girth)."""
import numpy as np
from scipy import stats

from rv import ref
from rv.ref import MISSING


def rng_of(spec, *extra):
    return np.random.default_rng([int(spec["seed"])] + [int(e) for e in extra])


def draw(rng, probs):
    """One categorical draw per column of probs [cat, persons]."""
    u = rng.random(probs.shape[1])
    cum = np.cumsum(probs, axis=0)
    return np.minimum((u[None, :] > cum).sum(axis=0), probs.shape[0] - 1)


def add_missing(rng, data, rate, keep=2):
    """Marks cells missing at random; every respondent keeps >= keep items."""
    out = np.array(data, dtype=np.int64)
    if rate <= 0:
        return out
    mask = rng.random(out.shape) < rate
    for j in range(out.shape[1]):
        gone = np.flatnonzero(mask[:, j])
        spare = out.shape[0] - keep
        if gone.size > spare:
            mask[rng.permutation(gone)[max(spare, 0):], j] = False
    out[mask] = MISSING
    return out


def thetas(rng, n, shape="normal"):
    if shape == "skew":
        x = stats.skewnorm.rvs(6, size=n, random_state=rng)
        return (x - stats.skewnorm.mean(6)) / stats.skewnorm.std(6)
    if shape == "bimodal":
        s = np.where(rng.random(n) < 0.5, -1, 1)
        return 0.9 * s + np.sqrt(1 - 0.81) * rng.standard_normal(n)
    if shape == "uniform":
        return rng.uniform(-np.sqrt(3), np.sqrt(3), n)
    return rng.standard_normal(n)


def item_disc(rng, n, low=0.5, high=2.2):
    return rng.uniform(low, high, n)


def graded_b(rng, n_thr, spread=1.6, gap=0.35):
    b = np.sort(rng.uniform(-spread, spread, n_thr))
    for k in range(1, n_thr):
        b[k] = max(b[k], b[k - 1] + gap)
    return b - (b.mean() - rng.uniform(-0.6, 0.6))


def dich(rng, n_items=8, n_people=300, a=None, b=None, c=None, shape="normal",
         missing=0.0, spread=1.7, theta=None):
    a = item_disc(rng, n_items) if a is None else np.broadcast_to(a, n_items).astype(float)
    b = rng.uniform(-spread, spread, n_items) if b is None else np.asarray(b, float)
    c = np.zeros(n_items) if c is None else np.broadcast_to(c, n_items).astype(float)
    theta = thetas(rng, n_people, shape) if theta is None else theta
    data = np.array([draw(rng, ref.p_dich(theta, b[i], a[i], c[i]))
                     for i in range(n_items)]).astype(np.int64)
    return dict(data=add_missing(rng, data, missing), a=a, b=b, c=c, theta=theta)


def lopsided(rng, n_people, first, easy=36, others=14, b=-2.8, a=1.5):
    """A long test in which respondents differ mostly on a few items, at the front or at the end."""
    far = np.full(easy, b) * (1 if rng.random() < .5 else -1)
    near = rng.uniform(-1, 1, others)
    return dich(rng, easy + others, n_people, a=a, b=np.r_[near, far] if first else np.r_[far, near])


def poly(rng, model, cats, n_people=400, start=1, shape="normal", missing=0.0,
         low=0.6, high=1.9, theta=None, a=None, cuts=None):
    """cats: categories per item. model grm | pcm | gum."""
    n = len(cats)
    a = item_disc(rng, n, low, high) if a is None else a
    theta = thetas(rng, n_people, shape) if theta is None else theta
    rows, bs, deltas = [], [], []
    for i, k in enumerate(cats):
        if model == "gum":
            delta = rng.uniform(0.5, 1.6) * (1 if rng.random() < 0.5 else -1)
            tau = -np.sort(rng.uniform(0.2, 1.8, k - 1))[::-1]
            deltas.append(delta)
            bs.append(tau)
            p = ref.p_gum(theta, delta, tau, a[i])
        else:
            b = graded_b(rng, k - 1) if cuts is None else cuts[i]
            if model == "pcm" and k > 2 and rng.random() < 0.3:
                b[[0, 1]] = b[[1, 0]]
            bs.append(b)
            p = (ref.p_grm if model == "grm" else ref.p_pcm)(theta, b, a[i])
        rows.append(draw(rng, p))
    data = np.array(rows).astype(np.int64) + start
    return dict(data=add_missing(rng, data, missing), a=a, b=bs, delta=np.array(deltas),
                theta=theta)


def mgrm(rng, cats, n_factors, n_people=400, start=1, missing=0.0, simple=True):
    n = len(cats)
    a = np.zeros((n, n_factors))
    for i in range(n):
        a[i, i % n_factors] = rng.uniform(0.9, 2.0)
        if not simple:
            a[i] += rng.uniform(-0.2, 0.5, n_factors)
    theta = rng.standard_normal((n_factors, n_people))
    ds, rows = [], []
    for i, k in enumerate(cats):
        d = -graded_b(rng, k - 1, 1.4, 0.5)
        ds.append(d)
        rows.append(draw(rng, ref.p_mgrm(theta, d, a[i])))
    data = np.array(rows).astype(np.int64) + start
    return dict(data=add_missing(rng, data, missing), a=a, d=ds, theta=theta)


def pad(rows):
    width = max(len(r) for r in rows)
    out = np.full((len(rows), width), np.nan)
    for i, r in enumerate(rows):
        out[i, :len(r)] = r
    return out


def complete_categories(data, start, cats):
    """Adds respondents so that every item shows every one of its categories."""
    extra = np.array([[start + (k % c) for k in range(max(cats))] for c in cats])
    return np.concatenate([data, extra], axis=1)


def priors(rng, kind):
    """(label, callable, mean, sd): positive densities on the real line."""
    if kind == "normal":
        mu, sd = rng.uniform(-0.7, 0.7), rng.uniform(0.7, 1.4)
        return stats.norm(mu, sd).pdf
    if kind == "skewnorm":
        return stats.skewnorm(rng.uniform(-4, 4), rng.uniform(-.5, .5), rng.uniform(.8, 1.5)).pdf
    if kind == "logistic":
        return stats.logistic(rng.uniform(-.4, .4), rng.uniform(.4, .8)).pdf
    if kind == "scaled":
        k = rng.uniform(0.2, 5)
        return lambda x: k * stats.norm.pdf(x)
    return stats.norm(0, 1).pdf


def seeds(seed, tag):
    """Stream of case seeds, distinct per check and VERIF_SEED."""
    ss = np.random.default_rng([abs(int(seed)), sum(ord(ch) * 131 ** i % 99991
                                                    for i, ch in enumerate(tag))])
    while True:
        yield int(ss.integers(1, 2 ** 31))


def round_robin(seed, tag, kinds, counts):
    """Interleaves case kinds: kinds = list of dict templates."""
    stream = seeds(seed, tag)
    total = max(counts.values()) if isinstance(counts, dict) else counts
    for i in range(total):
        for tmpl in kinds:
            limit = counts[tmpl["kind"]] if isinstance(counts, dict) else counts
            if i < limit:
                yield {**tmpl, "i": i, "seed": next(stream)}
