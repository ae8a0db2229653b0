"""An estimated latent distribution is a proper standardised density."""
import numpy as np
import girth
from girth.utilities import latent_ability_distribution as glad
from scipy.interpolate import BSpline
from scipy.optimize import linprog, nnls

from rv import gen, ref
from rv.models import MML

ID = "C13"
RULE = ("latent densities returned by marginal fits or by the public density object on simulated likelihoods, free "
        "splines with random coefficients, resampled splines; distinct by method, points, bounds, data shape, limit")
MIN = {"nonnegative": 60, "moments": 60, "evaluation": 80, "optimal": 25, "resampled": 25, "refused": 40, "null": 20}
WIDEST = 1.25
BUDGET = {"quick": 35, "thorough": 900}


def cases(tier, seed):
    kinds = [{"kind": k, "min": 8} for k in ("fit", "object", "spline", "resample")]
    n = 1 if tier == "quick" else 40
    counts = {"fit": 48 * n, "object": 40 * n, "spline": 60 * n, "resample": 60 * n}
    return gen.round_robin(seed, ID, kinds, counts)


def basis(u):
    """Centred cubic B-spline, by the Cox-de Boor recursion of scipy."""
    elem = BSpline.basis_element([-2, -1, 0, 1, 2], extrapolate=False)
    return np.nan_to_num(elem(np.asarray(u, dtype=float)))


class Curve:
    """Independent form of a spline density read off its public attributes."""

    def __init__(self, n, stop, coefficients):
        self.delta = 2 * stop / (n + 3)
        self.knots = (np.arange(n) - (n - 1) / 2) * self.delta
        self.c = np.asarray(coefficients, dtype=float)

    def design(self, x):
        return basis((np.asarray(x)[:, None] - self.knots) / self.delta)

    def __call__(self, x):
        return self.design(x) @ self.c / self.delta

    def constraints(self):
        """Rows of the moment constraints and their values."""
        a = np.vstack([np.ones_like(self.knots), self.knots, self.knots ** 2])
        return a, np.array([1, 0, 1 - self.delta ** 2 / 3])


def density(mon, cs, n, stop, label, proper=True):
    """All statements about one spline density object."""
    if not mon.check("evaluation", np.size(cs.coefficients) == n + 4 and cs.number_of_samples == n,
                     f"{label}: number of coefficients", got=np.size(cs.coefficients), n=n):
        return None
    inner = np.array(cs.coefficients, dtype=float)[2:-2]
    outer = np.delete(np.asarray(cs.coefficients), np.arange(2, n + 2))
    mon.same("evaluation", outer, np.zeros(4), f"{label}: weight outside the bounds")
    curve = Curve(n, stop, inner)
    x = np.linspace(-stop, stop, 1601)
    y = np.asarray(cs(x))
    mon.close("evaluation", y, curve(x), 1e-9, 1e-9, msg=f"{label}: pointwise value")
    mon.close("evaluation", cs.filter_matrix(x[::7])[:, 2:-2], curve.design(x[::7]), 1e-10,
              msg=f"{label}: filter matrix")
    far = stop * np.array([-1.2, 1.2, 3])
    mon.close("evaluation", cs(far), np.zeros(3), 1e-14, msg=f"{label}: density outside the bounds")
    fx, fy = cs.continuous_pdf((-stop, stop), 1601)
    mon.close("evaluation", fx, x, 1e-9, msg=f"{label}: continuous abscissae")
    mon.close("evaluation", fy, y, 1e-9, 1e-9, msg=f"{label}: continuous form")
    if proper:
        mon.check("nonnegative", y.min() > -1e-9, f"{label}: negative density", low=y.min())
        w = np.full(x.size, x[1] - x[0])
        t, w = ref.quad(20 * (n + 3), -stop, stop)
        p = np.asarray(cs(t))
        mon.close("moments", [(w * p).sum(), (w * p * t).sum(), (w * p * t * t).sum()], [1, 0, 1], 2e-5,
                  msg=f"{label}: mass, mean, variance", n=n, stop=stop)
    return curve


def gap(curve, gradient):
    """Upper bound on what any feasible coefficient vector could gain (convex objective)."""
    a, v = curve.constraints()
    v = a @ curve.c                     # compare with vectors that meet the same moments
    lp = linprog(gradient, A_eq=a, b_eq=v, bounds=(0, None), method="highs")
    if lp.status != 0:
        return None
    return float(gradient @ curve.c - lp.fun)


def loglik_gap(mon, curve, partial, nodes, weights, label):
    """The coefficients maximise the marginal likelihood among feasible ones."""
    mix = partial @ (curve.design(nodes) * weights[:, None])     # [patterns, coefficients]
    total = mix @ curve.c
    slope = -(mix / total[:, None]).sum(axis=0)
    bound = gap(curve, slope)
    if bound is None:
        mon.skip("linear programme not solved")
        return
    mon.state("gap", curve.c.size, partial.shape)
    mon.check("optimal", bound < max(.02, 2e-4 * len(partial)), f"{label}: another density fits better", gain_bound=bound,
              people=len(partial))


def settings(rng):
    n = int(rng.integers(5, 16))
    # a cubic spline with unit variance and mean zero needs knots this close
    stop = float(rng.choice([q for q in (3, 3.5, 4, 4.5, 5, 6) if 2 * q / (n + 3) < WIDEST]))
    return n, stop, int(rng.choice([31, 41, 61]))


def fit(spec, mon):
    rng = gen.rng_of(spec)
    n, stop, nodes = settings(rng)
    name = list(MML)[spec["i"] % len(MML)]
    shape = ["normal", "skew", "bimodal", "uniform"][int(rng.integers(4))]
    people = int(rng.choice([25, 80, 250, 250, 1100]))
    family = MML[name]["family"]
    if family == "2pl":
        data = gen.dich(rng, int(rng.integers(4, 10)), people, shape=shape, missing=float(rng.choice([0, .1])))["data"]
    else:
        cats = [int(c) for c in rng.integers(2 if family != "gum" else 3, 5, int(rng.integers(4, 8)))]
        data = gen.poly(rng, family, cats, people, shape=shape, missing=float(rng.choice([0, .1])))["data"]
    opts = {"estimate_distribution": True, "number_of_samples": n, "quadrature_bounds": (-stop, stop),
            "quadrature_n": nodes, "max_iteration": int(rng.choice([2, 5, 12]))}
    if name.endswith("eap"):
        opts["hyper_quadrature_n"] = 15
    log = []
    original = glad.LatentPDF.__call__

    def hooked(self, unweighted, iteration):
        start = np.array(unweighted, dtype=float)
        out = original(self, unweighted, iteration)
        if self.estimate_distribution:
            log.append((iteration, start, np.array(out), np.array(self.cubic_splines[-1].coefficients),
                        self.cubic_splines[-1].number_of_samples, self.quadrature_locations.copy(), self.weights.copy()))
        return out

    glad.LatentPDF.__call__ = hooked
    try:
        result = mon.call("returns", MML[name]["fn"], data, options=opts)
    finally:
        glad.LatentPDF.__call__ = original
    mon.event("distribution steps", len(log))
    density(mon, result["LatentPDF"].cubic_splines[-1], n, stop, name)
    for iteration, start, out, coefficients, m, t, w in log:
        if iteration == 0 or coefficients.size != n + 4:
            continue
        curve = Curve(n, stop, coefficients[2:-2])
        mon.close("evaluation", out, curve(t) * w, 1e-9, 1e-7, msg=f"{name}: weights used in step {iteration}")
        scale = start.max(axis=1)
        if (scale < 1e-200).any():
            mon.skip("likelihood underflows")
            continue
        loglik_gap(mon, curve, start / scale[:, None], t, w, f"{name} step {iteration}")
    mon.state(name, n, stop, data.shape, opts["max_iteration"])
    mon.sample(method=name, points=n, bounds=stop, steps=len(log))


def obj(spec, mon):
    """The public density object on likelihoods computed here."""
    rng = gen.rng_of(spec)
    n, stop, nodes = settings(rng)
    items = int(rng.integers(3, 25))
    people = int(rng.choice([20, 150, 600, 600, 2500]))
    shape = ["normal", "skew", "bimodal", "uniform"][spec["i"] % 4]
    a, b = rng.uniform(.6, 2.2, items), rng.normal(0, 1, items)
    data = gen.dich(rng, items, people, a=a, b=b, shape=shape)["data"]
    opts = {"estimate_distribution": True, "number_of_samples": n, "quadrature_bounds": (-stop, stop),
            "quadrature_n": nodes}
    prior = gen.priors(rng, str(rng.choice(["normal", "skewnorm", "plain"])))
    opts["distribution"] = prior
    t, w = ref.quad_of(opts)
    partial = np.exp(ref.loglik(data, [ref.p_dich(t, b[i], a[i]) for i in range(items)]))
    pdf = mon.call("returns", girth.LatentPDF, opts)
    first = mon.call("returns", pdf, partial.copy(), 0)
    mon.close("null", first, prior(t) * w, 1e-12, 1e-9, msg="first step uses the given density")
    steps = int(rng.integers(1, 4))
    for step in range(1, steps + 1):
        out = mon.call("returns", pdf, partial.copy(), step)
        curve = density(mon, pdf.cubic_splines[-1], n, stop, f"object step {step}")
        if curve is None:
            return
        mon.close("evaluation", out, curve(t) * w, 1e-9, 1e-7, msg="weights returned")
    loglik_gap(mon, curve, partial / partial.max(axis=1, keepdims=True), t, w, "object")
    k = int(rng.integers(2, 40))
    aic, bic = pdf.compute_metrics(partial, out, k)
    total = np.log(partial @ out).sum()
    mon.close("null", [aic, bic], [2 * k - 2 * total, k * np.log(people) - 2 * total], 1e-6, 1e-10, msg="AIC, BIC")
    opts["estimate_distribution"] = False
    fixed = mon.call("returns", girth.LatentPDF, opts)
    for step in (0, 1, 5):
        mon.close("null", fixed(partial.copy(), step), prior(t) * w, 1e-12, 1e-9, msg="estimation not requested")
    mon.state("object", n, stop, items, people, steps)


def standard(rng, n, stop):
    """Random coefficients meeting the moment constraints, by a random linear programme."""
    curve = Curve(n, stop, np.zeros(n))
    a, v = curve.constraints()
    parts = []
    for _ in range(int(rng.integers(2, 7))):
        lp = linprog(rng.normal(size=n), A_eq=a, b_eq=v, bounds=(0, None), method="highs")
        if lp.status == 0:
            parts.append(lp.x)
    return rng.dirichlet(np.ones(len(parts))) @ np.array(parts) if parts else None


def spline(spec, mon):
    rng = gen.rng_of(spec)
    n, stop, _ = settings(rng)
    proper = rng.random() < .6
    coefficients = standard(rng, n, stop) if proper else rng.normal(size=n)
    if coefficients is None:
        mon.skip("no feasible spline")
        return
    make = {"number_of_samples": n, "quadrature_bounds": (-stop, stop)}
    cs = mon.call("returns", girth.CubicSplinePDF, make)
    mon.call("returns", cs.update_coefficients, list(coefficients) if rng.random() < .3 else coefficients)
    density(mon, cs, n, stop, "spline", proper)
    bounds = np.sort(rng.uniform(-1.3 * stop, 1.3 * stop, 2))
    points = int(rng.integers(2, 300))
    x, y = cs.continuous_pdf(tuple(bounds), points)
    want = np.linspace(bounds[0], bounds[1], points)
    mon.close("evaluation", x, want, 1e-9, msg="continuous form, own bounds")
    mon.close("evaluation", y, Curve(n, stop, coefficients)(want), 1e-9, 1e-9, msg="continuous form, own bounds")
    mon.close("evaluation", cs(float(bounds[0])), Curve(n, stop, coefficients)(bounds[:1]), 1e-9, 1e-9, msg="scalar location")
    before = cs.coefficients.copy()
    for size in {1, n - 1, n + 1, n + 4, 2 * n}:
        mon.raises("refused", cs.update_coefficients, np.full(size, .1), msg=f"{size} coefficients for {n} points accepted")
    mon.same("refused", cs.coefficients, before, "a refused update changed the spline")
    mon.raises("refused", glad.resample, cs, n, msg="resampled to the same size")
    again = rng.normal(size=n)
    cs.update_coefficients(again)
    density(mon, cs, n, stop, "updated spline", False)
    mon.state("spline", n, stop, proper)


def resample(spec, mon):
    rng = gen.rng_of(spec)
    n, stop, _ = settings(rng)
    smooth = rng.random() < .5
    make = {"number_of_samples": n, "quadrature_bounds": (-stop, stop)}
    cs = girth.CubicSplinePDF(make)
    coefficients = standard(rng, n, stop)
    if smooth:
        # a nearly normal density with the exact moments
        curve = Curve(n, stop, np.zeros(n))
        a, v = curve.constraints()
        c = ref.normal_pdf(curve.knots, 0, np.sqrt(v[2])) * curve.delta
        coefficients = c + np.linalg.pinv(a) @ (v - a @ c)
        if coefficients.min() < 0:
            smooth, coefficients = False, standard(rng, n, stop)
    if coefficients is None:
        mon.skip("no feasible spline")
        return
    cs.update_coefficients(coefficients)
    before = cs.coefficients.copy()
    m = int(rng.choice([k for k in range(5, 20) if k != n]))
    if 2 * stop / (m + 3) > WIDEST:
        mon.skip("no standardised spline with so few points")
        return
    out = mon.call("returns", glad.resample, cs, m)
    mon.same("resampled", cs.coefficients, before, "resampling changed its source")
    curve = density(mon, out, m, stop, f"resampled {n} to {m}")
    if curve is None:
        return
    old = Curve(n, stop, coefficients)
    target = old(curve.knots) * curve.delta
    f = curve.design(curve.knots)
    a, _ = curve.constraints()
    best, _ = nnls(np.vstack([f, 1e4 * a]), np.concatenate([target, 1e4 * (a @ curve.c)]), maxiter=5000)
    got, least = np.square(f @ curve.c - target).sum(), np.square(f @ best - target).sum()
    mon.check("resampled", got < least + 1e-4 + .02 * least, f"{n} to {m}: another feasible spline is closer",
              distance=got, possible=least)
    if smooth and m > n and curve.delta < .8 and old.delta < 1:
        x = np.linspace(-stop, stop, 201)
        mon.close("resampled", out(x), old(x), .03, msg=f"smooth density resampled {n} to {m}", stop=stop)
    mon.state("resample", n, m, stop, smooth)


def run(spec, mon):
    {"fit": fit, "object": obj, "spline": spline, "resample": resample}[spec["kind"]](spec, mon)
