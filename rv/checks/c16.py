"""Synthetic generation is reproducible, in range and rejects bad models."""
import numpy as np
from girth.synthetic import create_synthetic_irt_dichotomous, create_synthetic_irt_polytomous

from rv import gen

ID = "C16"
RULE = ("pairs and sequences of recorded generator calls and deliberately invalid models; distinct by model, sizes, kind "
        "of seed and kind of defect")
MIN = {"same seed": 100, "fresh draws": 100, "form": 200, "refused": 250, "names": 40}
BUDGET = {"quick": 25, "thorough": 400}


def cases(tier, seed):
    kinds = [{"kind": k, "min": 10} for k in ("dich", "mirt", "grm", "pcm", "gum", "grm_md", "invalid")]
    return gen.round_robin(seed, ID, kinds, 40 if tier == "quick" else 1500)


def problem(rng, kind):
    """(function, keyword arguments, number of categories, items, people)."""
    items, people = int(rng.integers(1, 7)), int(rng.choice([40, 90, 200, 200, 1500]))
    if rng.random() < .1:
        items = int(rng.integers(20, 50))
    theta = rng.normal(0, 1, people)
    a = rng.uniform(.4, 2, items)
    if kind == "dich":
        kw = dict(difficulty=rng.normal(0, 1, items), discrimination=a if rng.random() < .6 else float(a[0]), thetas=theta)
        if rng.random() < .4:
            kw["guessing"] = rng.uniform(0, .3, items) if rng.random() < .5 else .2
        return create_synthetic_irt_dichotomous, kw, 2, items, people
    if kind in ("mirt", "grm_md"):
        items, dims = max(items, 2), int(rng.integers(2, 4))
        theta = rng.normal(0, 1, (dims, people))
        a = rng.uniform(-.3, 1.6, (items, dims))
        if kind == "mirt":
            return (create_synthetic_irt_dichotomous, dict(difficulty=rng.normal(0, 1, items), discrimination=a, thetas=theta),
                    2, items, people)
    cats = int(rng.integers(3, 7 if rng.random() < .8 else 12))
    b = np.array([gen.graded_b(rng, cats - 1) for _ in range(items)])
    if kind == "grm_md":
        b = -b
    if kind == "pcm":
        b = rng.permuted(b, axis=1)
    if kind == "gum":
        cats = int(rng.integers(2, 5))
        tau = rng.uniform(.1, 1.5, (items, cats - 1))
        b = np.concatenate([-tau, np.zeros((items, 1)), tau[:, ::-1]], axis=1) + rng.normal(0, 1, (items, 1))
    kw = dict(difficulty=b, discrimination=a if a.ndim == 2 or rng.random() < .6 else float(a[0]), thetas=theta, model=kind)
    return create_synthetic_irt_polytomous, kw, cats, items, people


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    if kind == "invalid":
        return invalid(rng, mon)
    fn, kw, cats, items, people = problem(rng, kind)
    low = 0 if cats == 2 and kind in ("dich", "mirt") else 1
    seed = int(rng.integers(2 ** 40)) if rng.random() < .7 else int(rng.integers(0, 3))
    first = np.asarray(mon.call("returns", fn, seed=seed, **kw))
    np.random.seed(int(rng.integers(1000)))
    np.random.rand(3)
    mon.same("same seed", mon.call("returns", fn, seed=seed, **kw), first, f"{kind}: same seed, other data")
    for x in (first,):
        mon.check("form", x.shape == (items, people) and np.issubdtype(x.dtype, np.integer), f"{kind}: shape or type",
                  shape=x.shape, dtype=str(x.dtype))
        mon.check("form", x.min() >= low and x.max() <= low + cats - 1, f"{kind}: value out of range", got=[x.min(), x.max()],
                  categories=cats)
    drawn = [first] + [np.asarray(mon.call("returns", fn, seed=s, **kw)) for s in (seed + 1, seed + 2)]
    informative = people * items >= 80
    if informative:
        for i in range(3):
            for j in range(i):
                mon.check("fresh draws", not np.array_equal(drawn[i], drawn[j]), f"{kind}: different seeds, same data")
        a, b = (np.asarray(mon.call("returns", fn, **kw)) for _ in range(2))
        mon.check("fresh draws", not np.array_equal(a, b), f"{kind}: unseeded calls repeat")
    # a generator advances, and starts from its own state
    g = np.random.default_rng(seed)
    one = np.asarray(mon.call("returns", fn, seed=g, **kw))
    two = np.asarray(mon.call("returns", fn, seed=g, **kw))
    mon.same("same seed", one, first, f"{kind}: a fresh generator differs from its seed")
    if informative:
        mon.check("fresh draws", not np.array_equal(one, two), f"{kind}: a generator was not advanced")
    g = np.random.default_rng(seed)
    g.random(1)
    g2 = np.random.default_rng(seed)
    g2.random(1)
    mon.same("same seed", fn(seed=g, **kw), fn(seed=g2, **kw), f"{kind}: equal generators, other data")
    mon.same("same seed", g.random(3), g2.random(3), f"{kind}: generators left in different states")
    seq = np.random.SeedSequence(seed)
    mon.same("same seed", fn(seed=seq, **kw), first, f"{kind}: seed sequence differs from its seed")
    if "model" in kw:
        name = kw["model"]
        for form in (name.upper(), name.capitalize(), "".join(c.upper() if i % 2 else c for i, c in enumerate(name))):
            mon.same("names", mon.call("returns", fn, seed=seed, **{**kw, "model": form}), first, f"model name {form}")
        if name == "grm":
            rest = {k: v for k, v in kw.items() if k != "model"}
            mon.same("names", fn(seed=seed, **rest), first, "the graded model is the default")
    mon.state(kind, items, people, cats)
    mon.sample(kind=kind, head=first[0][:8])


def invalid(rng, mon):
    for kind in ("grm", "gum", "pcm", "grm_md", "dich"):
        fn, kw, cats, items, people = problem(rng, kind)
        b = kw["difficulty"]
        mon.call("returns", fn, **kw)
        bad = []
        pick = int(rng.integers(items))
        if kind == "grm":
            k = int(rng.integers(b.shape[1] - 1))
            swapped = b.copy()
            swapped[pick, [k, k + 1]] = swapped[pick, [k + 1, k]]
            tied = b.copy()
            tied[pick, k + 1] = tied[pick, k]
            bad += [("descending pair", swapped), ("tied thresholds", tied), ("descending", b[:, ::-1])]
        if kind == "gum":
            skewed = b.copy()
            k = int(rng.choice([c for c in range(b.shape[1]) if c != b.shape[1] // 2]))
            skewed[pick, k] += float(rng.choice([-1, 1])) * float(rng.choice([.01, .3, 2]))
            bad += [("asymmetric thresholds", skewed), ("even number", b[:, :-1]),
                    ("even number", np.concatenate([-b[:, :1] - 5, b], axis=1))]
        if kind != "dich":
            bad.append(("single threshold", b[:, :1]))
        for what, value in bad:
            named = dict(kw)
            if "model" in kw and rng.random() < .5:
                named["model"] = "".join(c.upper() if rng.random() < .6 else c for c in kw["model"])
            mon.raises("refused", fn, **{**named, "difficulty": value},
                       msg=f"{named.get('model', kind)}: {what} accepted")
            mon.state("invalid", kind, what)
        if kind == "dich":
            mon.raises("refused", fn, **{**kw, "discrimination": np.ones((items, 2, 2))}, msg="three-dimensional discrimination")
        else:
            for name in ("", "grmd", "2pl", "gpcm", "grm ", "unfold", "md", "grm-md"):
                mon.raises("refused", fn, **{**kw, "model": name}, msg=f"unknown model {name!r} accepted")
