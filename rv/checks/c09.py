"""Joint maximum likelihood estimates are a fixed point of the joint likelihood."""
import numpy as np
import girth

from rv import gen, ref

ID = "C09"
RULE = ("converged joint maximum likelihood fits (more iterations change nothing); from the returned item parameters "
        "an independent step estimates and standardises the abilities and then looks for item parameters of higher "
        "likelihood by line scans and local probes; distinct by method, size, categories, missing cells")
MIN = {"fixed point": 150, "step": 150}
BUDGET = {"quick": 45, "thorough": 1500}
NAMES = ["rasch_jml", "onepl_jml", "twopl_jml", "grm_jml", "pcm_jml"]
GAIN = {"rasch_jml": .008, "onepl_jml": .008, "twopl_jml": .012, "grm_jml": .02, "pcm_jml": .02}


def cases(tier, seed):
    kinds = [{"kind": n, "min": 10} for n in NAMES]
    return gen.round_robin(seed, ID, kinds, 24 if tier == "quick" else 1200)


def data_for(rng, name, missing=None):
    n_items = int(rng.choice([5, 8, 12, 20, 20, 36]))
    n_people = int(rng.choice([80, 200, 400]))
    if rng.random() < .08 and not name.startswith(("grm", "pcm")):
        return gen.lopsided(rng, 250, rng.random() < .5, easy=64 if rng.random() < .5 else 34, b=-2.2, a=1.3)["data"]
    missing = float(rng.choice([0, 0, .1, .25])) if missing is None else missing
    slopes = None
    if rng.random() < .25:
        # unrelated and near deterministic items press the discriminations against their bounds
        slopes = rng.choice([.1, .8, 1.5, 6.0], n_items)
    if name in ("grm_jml", "pcm_jml"):
        n_people = min(n_people, 200)
        cats = [int(c) for c in rng.integers(2, 5, n_items)]
        return gen.poly(rng, name[:3], cats, n_people, a=slopes, start=int(rng.choice([0, 1, -1])), missing=missing)["data"]
    a = 1.0 if name == "rasch_jml" else slopes
    return gen.dich(rng, n_items, n_people, a=a, missing=missing, spread=1.3)["data"]


def kept(data, dichotomous):
    """Columns that are not constant, with multiplicities (distinct for dichotomous models)."""
    valid = data != ref.MISSING
    low, high = data[valid].min(), data[valid].max()
    keep = np.array([v.any() and not (c[v] == low).all() and not (c[v] == high).all() for c, v in zip(data.T, valid.T)])
    out = data[:, keep]
    if not dichotomous:
        return out, np.ones(out.shape[1])
    out, reps = np.unique(out, axis=1, return_counts=True)
    return out, reps.astype(float)


def person_ll(codes, prob, thetas):
    """Log likelihood of each person at his own theta: prob(i, thetas) -> [cat, n]."""
    out = np.zeros(thetas.size)
    for i, row in enumerate(codes):
        ok = row >= 0
        p = prob(i, thetas)[np.where(ok, row, 0), np.arange(thetas.size)]
        out[ok] += np.log(np.maximum(p[ok], 1e-300))
    return out


def abilities(codes, prob):
    """Maximiser over [-6, 6], concave in theta."""
    low, high = np.full(codes.shape[1], -6.0), np.full(codes.shape[1], 6.0)
    g = (np.sqrt(5) - 1) / 2
    for _ in range(36):
        left, right = high - g * (high - low), low + g * (high - low)
        better = person_ll(codes, prob, left) > person_ll(codes, prob, right)
        high = np.where(better, right, high)
        low = np.where(better, low, left)
    return (low + high) / 2


def run(spec, mon):
    rng = gen.rng_of(spec)
    name = spec.get("method", spec["kind"])
    data = data_for(rng, name, spec.get("missing"))
    dich = not name.startswith(("grm", "pcm"))
    sub, reps = kept(data, dich)
    if min(np.unique(r[r != ref.MISSING], return_counts=True)[1].min() /
           (r != ref.MISSING).sum() for r in sub) < .04 or \
            any(np.unique(r[r != ref.MISSING]).size < 2 for r in sub):
        mon.skip("a category is nearly unused")
        return
    limit = 60 if dich else 40
    kw = {}
    if name == "rasch_jml":
        kw["discrimination"] = float(rng.choice([1, .7, 1.5]))
    fn = getattr(girth, name)
    few = int(rng.choice([1, 2, 3, 6]))
    step = [mon.call("returns", fn, data, options={"max_iteration": k}, **kw) for k in (few, few + 1)]
    judge(rng, mon, "step", name, data, sub, reps, *step)
    first = mon.call("returns", fn, data, options={"max_iteration": limit}, **kw)
    res = mon.call("returns", fn, data, options={"max_iteration": 2 * limit}, **kw)
    if not np.array_equal(first["Difficulty"], res["Difficulty"], equal_nan=True):
        mon.skip("not converged")
        return
    if name == "rasch_jml":
        mon.check("fixed point", np.all(np.asarray(res["Discrimination"]) == kw["discrimination"]),
                  "the given discrimination is not returned", got=res["Discrimination"])
    if np.nanmax(np.abs(np.asarray(res["Difficulty"], float))) > 5.9:
        mon.skip("at the edge of the search interval")
        return
    judge(rng, mon, "fixed point", name, data, sub, reps, res, res)


def judge(rng, mon, rule, name, data, sub, reps, before, res):
    """Abilities from one set of estimates, items of the other set."""
    codes, counts = ref.recode(sub)
    n = len(codes)

    def slopes(r):
        return np.broadcast_to(np.asarray(r["Discrimination"], float), (n,))

    def difficulties(r):
        return np.asarray(r["Difficulty"], float).reshape(n, -1)
    a, b = slopes(res), difficulties(res)
    old_a, old_b = slopes(before), difficulties(before)
    form = {"grm_jml": ref.p_grm, "pcm_jml": ref.p_pcm}.get(name, lambda th, t, s: ref.p_dich(th, t[0], s))
    thetas = abilities(codes, lambda i, th: form(th, old_b[i], old_a[i]))
    thetas = (thetas - thetas.mean()) / thetas.std(ddof=1)

    def item(i, slope, thr):
        ok = codes[i] >= 0
        p = form(thetas[ok], thr, slope)[codes[i][ok], np.arange(ok.sum())]
        return float((np.log(np.maximum(p, 1e-23)) * reps[ok]).sum())

    base = [item(i, a[i], b[i]) for i in range(n)]
    worst = 0.0
    tol = GAIN[name] * max(1.0, data.shape[1] / 200)
    if name == "onepl_jml":
        worst = common(mon, rule, item, a[0], n, sum(base), tol)
    else:
        slope_free = name != "rasch_jml"
        for i in range(n):
            thr = b[i][:counts[i] - 1]
            if np.abs(thr).max() > 5.9:
                continue
            for slope, alt in alternatives(rng, a[i], thr, slope_free, name == "grm_jml"):
                gain = item(i, slope, alt) - base[i]
                worst = max(worst, gain)
                mon.check(rule, gain <= tol, f"{name} item {i}: better parameters at the implied abilities",
                          gain=gain, estimate=[a[i], thr], better=[slope, alt])
    mon.event(f"{rule} gain <= %.3f" % (np.ceil(worst * 500) / 500))
    mon.state(name, rule, data.shape, tuple(counts), int((data == ref.MISSING).sum()))
    mon.sample(method=name, discrimination=a[:3], difficulty=b[0], persons=len(reps), largest_gain=worst)


def alternatives(rng, slope, thr, slope_free, ordered):
    for k in range(thr.size):
        for d in (-.5, -.1, -.03, .03, .1, .5):
            alt = thr.copy()
            alt[k] += d
            if np.abs(alt).max() < 6 and not (ordered and (np.diff(alt) < 0).any()):
                yield slope, alt
    if slope_free:
        for f in (.6, .9, .97, 1.03, 1.1, 1.6):
            s = np.clip(slope * f, .25, 4)
            yield s, thr
            yield s, thr * slope / s if np.abs(thr * slope / s).max() < 6 else thr
        for _ in range(6):
            scale = rng.choice([.03, .1])
            alt = thr + rng.normal(0, scale, thr.size)
            if np.abs(alt).max() < 6 and not (ordered and (np.diff(alt) < 0).any()):
                yield np.clip(slope * np.exp(rng.normal(0, scale)), .25, 4), alt


def common(mon, rule, item, slope, n, base, tol):
    worst = 0.0
    for s in np.clip(slope * np.array([.5, .8, .93, .98, 1, 1.02, 1.07, 1.25, 2]), .25, 5):
        total = 0.0
        for i in range(n):
            low, high = -6.0, 6.0
            g = (np.sqrt(5) - 1) / 2
            for _ in range(30):
                x, y = high - g * (high - low), low + g * (high - low)
                if item(i, s, [x]) > item(i, s, [y]):
                    high = y
                else:
                    low = x
            total += item(i, s, [(low + high) / 2])
        worst = max(worst, total - base)
        mon.check(rule, total - base <= tol, f"common discrimination {s:.3f} is better", gain=total - base,
                  estimate=slope)
    return worst
