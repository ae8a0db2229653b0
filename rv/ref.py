"""Independent reference implementations (oracles). Nothing here uses girth."""
import numpy as np
from numpy.polynomial.legendre import leggauss

MISSING = -99999


def sigmoid(x):
    x = np.asarray(x, dtype=float)
    with np.errstate(over="ignore"):
        return np.where(x >= 0, 1.0 / (1.0 + np.exp(-np.abs(x))),
                        np.exp(-np.abs(x)) / (1.0 + np.exp(-np.abs(x))))


def log_sigmoid(x):
    x = np.asarray(x, dtype=float)
    return np.minimum(x, 0) - np.log1p(np.exp(-np.abs(x)))


def quad(n, low, high):
    x, w = leggauss(int(n))
    half = 0.5 * (high - low)
    return half * (x + 1) + low, half * w


def quad_of(options=None):
    o = {"quadrature_n": 41, "quadrature_bounds": (-4.5, 4.5)}
    o.update(options or {})
    return quad(o["quadrature_n"], *o["quadrature_bounds"])


def normal_pdf(x, mu=0.0, sd=1.0):
    x = np.asarray(x, dtype=float)
    return np.exp(-0.5 * ((x - mu) / sd) ** 2) / (sd * np.sqrt(2 * np.pi))


def prior_of(options=None):
    return (options or {}).get("distribution", normal_pdf)


# -- category probabilities, one item: array [categories, nodes] ------------
def p_dich(theta, b, a, c=0.0):
    z = a * (theta - b)
    return np.array([(1 - c) * sigmoid(-z), c + (1 - c) * sigmoid(z)])


def p_grm(theta, b, a):
    b = np.asarray(b, dtype=float)
    b = b[~np.isnan(b)]
    cum = np.vstack([np.ones_like(theta)] +
                    [sigmoid(a * (theta - t)) for t in b] + [np.zeros_like(theta)])
    # differences of logistic functions, without cancellation in the tails
    out = cum[:-1] - cum[1:]
    low = np.vstack([np.zeros_like(theta)] +
                    [sigmoid(-a * (theta - t)) for t in b] + [np.ones_like(theta)])
    alt = low[1:] - low[:-1]
    return np.where(cum[:-1] > 0.5, alt, out)


def p_mgrm(theta, d, a):
    """theta [factors, nodes]; d descending intercepts."""
    d = np.asarray(d, dtype=float)
    d = d[~np.isnan(d)]
    lin = np.asarray(a, dtype=float) @ theta
    cum = np.vstack([np.ones_like(lin)] + [sigmoid(lin + t) for t in d] +
                    [np.zeros_like(lin)])
    low = np.vstack([np.zeros_like(lin)] + [sigmoid(-(lin + t)) for t in d] +
                    [np.ones_like(lin)])
    return np.where(cum[:-1] > 0.5, low[1:] - low[:-1], cum[:-1] - cum[1:])


def p_pcm(theta, b, a):
    b = np.asarray(b, dtype=float)
    b = b[~np.isnan(b)]
    z = np.vstack([np.zeros_like(theta)] + [a * (theta - t) for t in b]).cumsum(axis=0)
    z -= z.max(axis=0)
    e = np.exp(z)
    return e / e.sum(axis=0)


def p_gum(theta, delta, tau, a):
    """Generalised graded unfolding model, Roberts, Donoghue & Laughlin 2000."""
    tau = np.asarray(tau, dtype=float)
    tau = tau[~np.isnan(tau)]
    n_cat = tau.size + 1
    m = 2 * n_cat - 1
    cum = np.concatenate(([0.0], np.cumsum(tau)))
    k = np.arange(n_cat)[:, None]
    d = theta[None, :] - delta
    left = a * (k * d - cum[:, None])
    right = a * ((m - k) * d - cum[:, None])
    top = np.maximum(left, right).max(axis=0)
    e = np.exp(left - top) + np.exp(right - top)
    return e / e.sum(axis=0)


# -- data ------------------------------------------------------------------
def recode(data, missing=MISSING):
    """Categories per item coded 0.. in order of the observed values.

    An item with one observed value has two categories; the value is the
    lower one exactly when it is the smallest of the whole data set.
    """
    data = np.asarray(data).astype(np.int64)
    valid = data != missing
    low = data[valid].min()
    codes = np.full(data.shape, -1)
    counts = np.zeros(data.shape[0], dtype=int)
    for i, row in enumerate(data):
        values = np.unique(row[valid[i]])
        counts[i] = max(values.size, 2)
        if values.size == 1:
            codes[i, valid[i]] = int(values[0] != low)
        else:
            codes[i, valid[i]] = np.searchsorted(values, row[valid[i]])
    return codes, counts


def loglik(codes, probs):
    """[persons, nodes] log likelihood; probs is a list of [cat, nodes]."""
    n_nodes = probs[0].shape[1]
    out = np.zeros((codes.shape[1], n_nodes))
    with np.errstate(divide="ignore"):
        for row, p in zip(codes, probs):
            ok = row >= 0
            out[ok] += np.log(np.maximum(p, 0))[row[ok]]
    return out


def posterior_mean(ll, weight, theta):
    """theta [nodes] or [factors, nodes]."""
    with np.errstate(invalid="ignore"):
        top = ll.max(axis=1, keepdims=True)
        post = np.exp(ll - top) * weight
        den = post.sum(axis=1)
        theta = np.asarray(theta)
        if theta.ndim == 1:
            return (post * theta).sum(axis=1) / den
        return np.array([(post * t).sum(axis=1) / den for t in theta])


def marginal_ll(ll, weight):
    top = ll.max(axis=1, keepdims=True)
    top = np.where(np.isfinite(top), top, 0)
    with np.errstate(divide="ignore"):
        return float((np.log((np.exp(ll - top) * weight).sum(axis=1)) + top[:, 0]).sum())


def product_grid(theta, weight, n_factors):
    grids = np.meshgrid(*([theta] * n_factors), indexing="ij")
    nodes = np.array([g.ravel() for g in grids])
    w = np.ones(1)
    for _ in range(n_factors):
        w = np.outer(w, weight).ravel()
    return nodes, w


def at_or_above(codes, counts):
    """Observed proportion of valid responses at or above category k=1.."""
    out = []
    for row, n in zip(codes, counts):
        v = row[row >= 0]
        out.append(np.array([(v >= k).mean() for k in range(1, n)]))
    return out


def solve_difficulty(a, p, theta, weight, low=-6.0, high=6.0, iters=60):
    """b in [low, high] with sum w P(theta; a, b) = p, clipped."""
    p = np.atleast_1d(np.asarray(p, dtype=float))
    lo = np.full(p.shape, float(low))
    hi = np.full(p.shape, float(high))

    def val(b):
        return (sigmoid(a * (theta[None, :] - b[:, None])) * weight).sum(axis=1)
    top, bottom = val(lo), val(hi)
    for _ in range(iters):
        mid = 0.5 * (lo + hi)
        above = val(mid) > p       # too easy: raise b
        lo = np.where(above, mid, lo)
        hi = np.where(above, hi, mid)
    out = 0.5 * (lo + hi)
    out = np.where(p >= top, low, out)
    return np.where(p <= bottom, high, out)
