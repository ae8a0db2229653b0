"""Synthetic responses follow the stated response model."""
import numpy as np
from girth.synthetic import create_synthetic_irt_dichotomous, create_synthetic_irt_polytomous
from scipy import stats

from rv import gen, ref

ID = "C15"
RULE = ("observed category counts per item and ability group, of pairs of items and of neighbouring respondents, "
        "against the model's exact probabilities with a total false alarm rate below 1e-9; distinct by model, item "
        "parameters and ability")
MIN = {"frequency": 300, "pairs of items": 100, "neighbours": 60, "impossible": 50}
BUDGET = {"quick": 40, "thorough": 900}
LEVEL = 1e-9 / 3e5                       # per comparison


def cases(tier, seed):
    kinds = [{"kind": k, "min": 3} for k in ("2pl", "scalars", "3pl", "mirt", "grm", "pcm", "gum", "grm_md", "extreme")]
    return gen.round_robin(seed, ID, kinds, 20 if tier == "quick" else 250)


def numeric(rng, x):
    """The same numbers in another numeric form, where exactly representable."""
    x = np.asarray(x, dtype=float)
    kinds = [x, x.astype(np.float32).astype(float)]
    return kinds[0] if rng.random() < .7 else np.asfortranarray(x)


def tail(count, n, p):
    """Two-sided exact binomial tail probability."""
    p = np.clip(p, 0, 1)
    return 2 * np.minimum(stats.binom.cdf(count, n, p), stats.binom.sf(count - 1, n, p))


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    n_items = int(rng.choice([1, 2, 4, 5]))
    groups = int(rng.choice([2, 3, 5]))
    each = 60000 if kind in ("2pl", "scalars", "3pl", "mirt") else 20000
    theta = np.round(rng.normal(0, 1.2, groups), 3)
    integers = rng.random() < .3
    if integers:
        theta = rng.permutation(np.arange(-3, 4))[:groups].astype(float)
    if kind == "extreme":
        theta = np.array([-400., -60., 60., 400.])[:max(groups, 2)]
        groups, each = theta.size, 1500
    owner = rng.permutation(np.repeat(np.arange(groups), each))
    model = kind
    if kind == "extreme":
        model = str(rng.choice(["2pl", "3pl", "grm", "pcm", "gum"]))
        n_items = 4
    a = rng.uniform(.4, 2.5, n_items)
    if integers:
        a = rng.integers(1, 3, n_items).astype(float)
    ability = theta[owner]
    if integers:
        ability = ability.astype(int)
    start = 0
    seed = int(rng.integers(2 ** 31))
    give = seed if rng.random() < .6 else np.random.default_rng(seed)
    if model in ("2pl", "scalars", "3pl"):
        b = rng.normal(0, 1, n_items)
        c = np.zeros(n_items)
        if integers:
            b = rng.integers(-2, 3, n_items)
        args = [b, a.astype(int) if integers else a, ability]
        if model == "scalars":
            a = np.full(n_items, float(rng.choice([1.0, 2.0, .7])))
            args[1] = [float(a[0]), int(a[0]) if a[0] == int(a[0]) else float(a[0]), np.array([a[0]])][rng.integers(3)]
            if rng.random() < .5:
                c[:] = .2
                args.append(.2)
        if model == "3pl":
            c = rng.uniform(0, .4, n_items)
            args.append(c)
        data = mon.call("returns", create_synthetic_irt_dichotomous, *args, seed=give)
        probs = [ref.p_dich(theta, b[i], a[i], c[i]) for i in range(n_items)]
    elif model == "mirt":
        d = int(rng.integers(2, 4))
        n_items = max(n_items, 2)
        grid = np.round(rng.normal(0, 1, (d, groups)), 3)
        load, b = rng.uniform(-.5, 1.8, (n_items, d)), rng.normal(0, 1, n_items)
        c = np.full(n_items, float(rng.choice([0, .15])))
        data = mon.call("returns", create_synthetic_irt_dichotomous, b, load, grid[:, owner],
                        *((c,) if c[0] else ()), seed=give)
        probs = [np.array([1 - p, p]) for p in c[:, None] + (1 - c[:, None]) * ref.sigmoid(load @ grid + b[:, None])]
    else:
        start = 1
        cats = int(rng.integers(3, 7)) if model != "gum" else int(rng.integers(2, 5))
        whole = rng.random() < .35          # whole-number difficulties, stored as integers
        if not whole and model != "gum" and rng.random() < .15:
            cats = int(rng.integers(7, 14))
        if model == "grm":
            b = np.array([gen.graded_b(rng, cats - 1) for _ in range(n_items)])
            if whole:
                b = np.array([np.sort(rng.choice(np.arange(-3, 4), cats - 1, replace=False)) for _ in range(n_items)])
            probs = [ref.p_grm(theta, b[i], a[i]) for i in range(n_items)]
        elif model == "pcm":
            b = rng.normal(0, 1, (n_items, cats - 1))
            if whole:
                b = rng.integers(-2, 3, (n_items, cats - 1))
            probs = [ref.p_pcm(theta, b[i], a[i]) for i in range(n_items)]
        elif model == "gum":
            delta, tau = rng.normal(0, 1, n_items), -np.sort(rng.uniform(.1, 1.8, (n_items, cats - 1)), axis=1)[:, ::-1]
            if whole:
                delta = rng.integers(-2, 3, n_items)
                tau = -np.array([np.sort(rng.choice(np.arange(1, 5), cats - 1, replace=False))[::-1] for _ in range(n_items)])
            b = np.concatenate([tau, np.zeros((n_items, 1), dtype=tau.dtype), -tau[:, ::-1]], axis=1) + delta[:, None]
            probs = [ref.p_gum(theta, delta[i], tau[i], a[i]) for i in range(n_items)]
        else:
            dims = int(rng.integers(2, 4))
            n_items = max(n_items, 2)
            grid = np.round(rng.normal(0, 1, (dims, groups)), 3)
            a = rng.uniform(-.4, 1.6, (n_items, dims))
            b = -np.array([gen.graded_b(rng, cats - 1) for _ in range(n_items)])
            if whole:
                b = -np.array([np.sort(rng.choice(np.arange(-3, 4), cats - 1, replace=False)) for _ in range(n_items)])
            probs = [ref.p_mgrm(grid, b[i], a[i]) for i in range(n_items)]
            ability = grid[:, owner]
        disc = a
        if a.ndim == 1 and rng.random() < (.6 if whole else .25):
            value = a[0] = float(rng.choice([1, 2, .6, 1.7]))
            probs = [{"grm": ref.p_grm, "pcm": ref.p_pcm}[model](theta, b[i], value) if model != "gum" else
                     ref.p_gum(theta, delta[i], tau[i], value) for i in range(n_items)]
            disc = [value, int(value) if value == int(value) else value, np.array([value])][rng.integers(3)]
        data = mon.call("returns", create_synthetic_irt_polytomous, b, disc, ability, model=model, seed=give)
    judge(mon, rng, kind, np.asarray(data) - start, probs, owner, groups)
    mon.state(kind, n_items, theta.tolist(), len(probs[0]), integers)
    mon.sample(kind=kind, people=owner.size, items=n_items, first=np.bincount(np.asarray(data)[0])[:6])


def judge(mon, rng, kind, data, probs, owner, groups):
    n_items = len(probs)
    if not mon.check("frequency", data.shape == (n_items, owner.size), "shape of the data", got=data.shape):
        return
    cats = probs[0].shape[0]
    mon.check("frequency", data.min() >= 0 and data.max() < cats, "category outside the model", got=[data.min(), data.max()])
    members = [np.flatnonzero(owner == g) for g in range(groups)]
    for i in range(n_items):
        for g, who in enumerate(members):
            seen = np.bincount(np.clip(data[i, who], 0, cats - 1), minlength=cats)
            p = probs[i][:, g]
            for k in range(cats):
                if p[k] < 1e-13:
                    mon.check("impossible", seen[k] == 0, f"{kind}: impossible category drawn", item=i, category=k, count=seen[k])
            cum = tail(np.cumsum(seen)[:-1], who.size, np.cumsum(p)[:-1])
            one = tail(seen, who.size, p)
            ok = (one[p >= 1e-13] > LEVEL).all() and (cum > LEVEL).all()
            mon.check("frequency", ok, f"{kind}: category frequencies are not the model's", item=i, group=g,
                      seen=seen, expected=p * who.size)
            # respondents in the order they were generated
            x = data[i, who]
            same = int((x[:-1:2] == x[1::2]).sum())
            agree = float((p ** 2).sum())
            mon.check("neighbours", tail(same, len(x) // 2, agree) > LEVEL,
                      f"{kind}: neighbouring respondents are dependent", item=i, same=same, expected=agree * (len(x) // 2))
    for i in range(n_items):
        for j in range(i + 1, n_items):
            for g, who in enumerate(members):
                seen = np.zeros((cats, cats))
                np.add.at(seen, (np.clip(data[i, who], 0, cats - 1), np.clip(data[j, who], 0, cats - 1)), 1)
                joint = np.outer(probs[i][:, g], probs[j][:, g])
                ok = tail(seen, who.size, joint)[joint > 1e-9] > LEVEL
                mon.check("pairs of items", ok.all(), f"{kind}: two items are dependent given ability", items=[i, j],
                          group=g, seen=seen, expected=joint * who.size)
