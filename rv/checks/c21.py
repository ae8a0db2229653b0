"""Polyserial correlations maximise the polyserial likelihood."""
import numpy as np
from girth.common import polyserial_correlation
from scipy.special import log_ndtr, ndtr, ndtri

from rv import gen

ID = "C21"
RULE = ("recorded correlations on simulated pairs, transformed in ways that must not matter; distinct by people, "
        "categories, coding, latent correlation and shape of the continuous variable")
MIN = {"maximises": 200, "range": 200, "rescaled": 150, "relabelled": 150, "negated": 150, "reordered": 150, "accurate": 10}
BUDGET = {"quick": 20, "thorough": 600}


def cases(tier, seed):
    kinds = [{"kind": k, "min": 10} for k in ("latent", "independent", "strong", "skewed", "large", "contradicted")]
    n = 1 if tier == "quick" else 40
    return gen.round_robin(seed, ID, kinds, {"latent": 200 * n, "independent": 100 * n, "strong": 120 * n, "skewed": 120 * n, "contradicted": 60 * n,
                                             "large": 16 * n})


def loglik(z, codes, tau, rho):
    """log P(category | standardised continuous value), summed; accurate in the tails."""
    root = np.sqrt(1 - rho * rho)
    edges = np.concatenate([[-np.inf], tau, [np.inf]])
    low, high = (edges[codes] - rho * z) / root, (edges[codes + 1] - rho * z) / root
    flip = low > 0
    low, high = np.where(flip, -high, low), np.where(flip, -low, high)
    a, b = log_ndtr(high), log_ndtr(low)
    with np.errstate(all="ignore"):
        return float((a + np.log1p(-np.exp(b - a))).sum())


def sample(rng, kind):
    people = {"large": 20000}.get(kind, int(rng.choice([20, 60, 200, 800])))
    cats = int(rng.integers(2, 7 if rng.random() < .85 else 16))
    rho = {"latent": rng.uniform(-.85, .85), "independent": 0.0, "strong": rng.choice([-1, 1]) * rng.uniform(.9, .985),
           "contradicted": rng.choice([-1, 1]) * rng.uniform(.95, .98), "skewed": rng.uniform(-.8, .8), "large": rng.uniform(-.9, .9)}[kind]
    x = rng.normal(size=people)
    y = rho * x + np.sqrt(1 - rho * rho) * rng.normal(size=people)
    if kind == "skewed":
        x = np.exp(.6 * x) if rng.random() < .5 else np.round(x, int(rng.integers(0, 2)))
    cuts = np.sort(ndtri(rng.uniform(.05, .95, cats - 1)))
    if kind == "contradicted":
        # a few observations far from where a strong relation puts them
        people = int(rng.choice([400, 1500]))
        x = rng.normal(size=people)
        y = rho * x + np.sqrt(1 - rho * rho) * rng.normal(size=people)
        some = rng.choice(people, int(rng.integers(1, 4)), replace=False)
        y[some] *= -rng.uniform(.3, 1)
    codes = np.searchsorted(cuts, y)
    values, codes = np.unique(codes, return_inverse=True)
    return x, codes, rho


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    x, codes, rho = sample(rng, kind)
    cats = codes.max() + 1
    if cats < 2 or x.std() == 0:
        mon.skip("a variable is constant")
        return
    scale, shift = float(rng.uniform(.1, 50)), float(rng.uniform(-100, 100))
    if rng.random() < .2:
        shift *= 3e5
    labels = np.cumsum(rng.integers(1, 4, cats)) + int(rng.integers(-6, 4))
    x = x * scale + shift
    y = labels[codes]
    got = float(mon.call("returns", polyserial_correlation, x, y))
    if not mon.check("range", -.99001 <= got <= .99001, "correlation out of range", got=got):
        return
    z = (x - x.mean()) / np.sqrt(((x - x.mean()) ** 2).sum() / (len(x) - 1))
    tau = ndtri(np.bincount(codes).cumsum()[:-1] / len(codes))
    here = loglik(z, codes, tau, got)
    grid = np.concatenate([np.linspace(-.985, .985, 61), got + np.array([-.05, -.01, -.002, .002, .01, .05])])
    grid = grid[np.abs(grid) < .99]
    values = np.array([loglik(z, codes, tau, r) for r in grid])
    if here < -30 * len(x) or not np.isfinite(here):
        mon.skip("probabilities underflow")
        return
    mon.check("maximises", here >= values.max() - 1e-5 - 1e-9 * len(x), "another correlation is more likely", rho=got,
              here=here, better=float(grid[values.argmax()]), gain=values.max() - here, people=len(x), categories=int(cats))
    if kind == "large":
        # the maximum likelihood estimate is close to the truth
        mon.check("accurate", abs(got - rho) < .05, "far from the latent correlation", got=got, truth=rho)
    tol = 2e-4
    if abs(got) > .985:
        tol = 2e-3
    f = polyserial_correlation
    mon.close("rescaled", f(3.7 * x - 11, y), got, tol, msg="increasing linear rescaling of the continuous variable")
    other = np.cumsum(rng.integers(1, 5, cats)) - 4
    mon.close("relabelled", f(x, other[codes]), got, 1e-9, msg=f"categories relabelled {other.tolist()}")
    mon.close("relabelled", f(x, other[codes].astype(str(rng.choice(["float64", "int16", "int8"])))), got, 1e-9, msg="category type")
    mon.close("negated", f(-x, y), -got, tol, msg="continuous variable negated")
    mon.close("negated", f(x, -y), -got, tol, msg="ordinal variable negated")
    order = rng.permutation(len(x))
    mon.close("reordered", f(x[order], y[order]), got, tol, msg="observations reordered")
    mon.state(kind, len(x), int(cats), labels.tolist(), round(got, 3))
    mon.sample(kind=kind, people=len(x), categories=int(cats), rho=got, latent=rho)
