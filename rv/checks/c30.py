"""Prior, quadrature, iteration and look-up table options are honoured by every method."""
import os
import sys

import girth
import numpy as np
from scipy import stats

from rv import catalogue, gen, ref

ID = "C30"
RULE = ("recorded calls of the caller's prior, function calls per iteration limit, and estimates under related options; "
        "distinct by method, relation and option values")
MIN = {"nodes": 30, "all nodes": 20, "defaults": 40, "refused": 150, "iterations": 30, "shift": 20, "refine": 20, "table": 4,
       "bounds": 20, "accepted": 30, "settled": 10, "hyper nodes": 2}
BUDGET = {"quick": 60, "thorough": 900}
ROOT = os.environ.get("GIRTH_REPO", "/repo") + os.sep
FITS = tuple(n for n in catalogue.DICH + ("grm_mml", "grm_mml_eap", "grm_jml", "pcm_mml", "pcm_jml", "gum_mml",
                                          "multidimensional_twopl_mml", "multidimensional_grm_mml"))
PRIOR_FITS = tuple(n for n in FITS if "mml" in n)
ABILITIES = ("ability_eap", "ability_map", "ability_3pl_eap", "ability_3pl_map", "multidimensional_ability_eap",
             "multidimensional_ability_map")
SHIFT = ("rasch_mml", "onepl_mml", "twopl_mml", "threepl_mml", "twopl_mml_eap", "grm_mml", "grm_mml_eap", "pcm_mml",
         "ability_eap", "ability_map", "ability_3pl_eap", "ability_3pl_map", "multidimensional_ability_eap",
         "multidimensional_ability_map")
SETTLED = tuple(n for n in FITS if n not in ("rasch_mml", "onepl_mml", "multidimensional_twopl_mml"))
REFINE = PRIOR_FITS + ("ability_eap", "ability_3pl_eap", "multidimensional_ability_eap")


def cases(tier, seed):
    kinds = [{"kind": "prior", "min": 14}, {"kind": "defaults", "min": 14}, {"kind": "refused", "min": 8},
             {"kind": "iterations", "min": 14}]
    kinds += [{"kind": "shift", "method": n, "min": 2} for n in SHIFT]
    kinds += [{"kind": "refine", "method": n, "min": 2} for n in REFINE]
    kinds += [{"kind": "table", "min": 2}]
    kinds += [{"kind": "settled", "method": n, "min": 1} for n in SETTLED]
    many = {"prior": 40, "defaults": 30, "refused": 20, "iterations": 30, "shift": 5, "refine": 4, "table": 20, "settled": 6}
    return gen.round_robin(seed, ID, kinds, many if tier == "quick" else {k: v * 25 for k, v in many.items()})


class Watched:
    """A prior that records where it is evaluated."""

    def __init__(self, mu=0.0, sd=1.0):
        self.mu, self.sd = mu, sd
        self.sizes, self.points = set(), []

    def __call__(self, theta):
        theta = np.asarray(theta, float)
        self.sizes.add(theta.size)
        if len(self.points) < 4000:
            self.points.append(theta.ravel().copy())
        return stats.norm.pdf(theta, self.mu, self.sd)


def data_for(rng, name, people=None):
    if name.startswith("multi"):
        cats = [2] * 6 if "twopl" in name else [int(c) for c in rng.integers(2, 4, 6)]
        return gen.mgrm(rng, cats, 2, people or 150, start=0)["data"], (2,), {}
    if name in catalogue.DICH:
        return gen.dich(rng, 6, people or 200, spread=1.2)["data"], (), {}
    model = "gum" if name == "gum_mml" else "pcm" if "pcm" in name else "grm"
    cats = [4] * 5 if model == "gum" else [int(c) for c in rng.integers(2, 5, 5)]
    data = gen.poly(rng, model, cats, people or 200, start=1)["data"]
    return data, (), {"delta_sign": (0, 1)} if model == "gum" else {}


def small(name):
    """Options that keep one run short."""
    out = {"max_iteration": 1}
    if name.startswith("multi"):
        out.update(quadrature_n=9, initial_guess=False)
    if name.endswith("mml_eap"):
        out["hyper_quadrature_n"] = 11
    return out


def prior(rng, mon):
    name = str(rng.choice(PRIOR_FITS + ABILITIES + ("create_beta_LUT",)))
    low, high = -float(rng.uniform(2.5, 5)), float(rng.uniform(2.5, 5))
    nodes = int(rng.choice([9, 14, 22, 33]))
    watch = Watched()
    opts = {"distribution": watch, "quadrature_bounds": (low, high), "quadrature_n": nodes}
    fn = catalogue.lookup(name)
    if name in PRIOR_FITS:
        data, extra, kw = data_for(rng, name)
        opts = {**small(name), **opts}
        if name.startswith("multi"):
            opts["quadrature_n"] = nodes = int(rng.choice([8, 9, 11]))
        if name in ("twopl_mml", "grm_mml", "multidimensional_grm_mml", "multidimensional_twopl_mml") and rng.random() < .3:
            opts["use_LUT"] = False
        mon.call("returns", fn, data, *extra, options=opts, **kw)
    elif name == "create_beta_LUT":
        mon.call("returns", fn, (.3, 4, 9), (-5, 5, 21), {**girth.default_options(), **opts})
    else:
        _, args, kw = catalogue.build(name, int(rng.integers(10 ** 6)))
        mon.call("returns", fn, *args, options=opts)
    where = f"{name} bounds ({low:.2f}, {high:.2f}) nodes {nodes}"
    if not mon.check("nodes", watch.points, f"{where}: the prior is never evaluated"):
        return
    points = np.concatenate(watch.points)
    if "map" not in name:
        mon.check("nodes", watch.sizes == {nodes}, f"{where}: number of nodes", got=sorted(watch.sizes))
        mon.check("nodes", points.min() >= low and points.max() <= high, f"{where}: evaluated outside of the bounds",
                  got=(points.min(), points.max()))
        want = ref.quad(nodes, low, high)[0]
        mon.close("all nodes", np.unique(np.round(points, 9)), np.round(want, 9), 1e-8, msg=f"{where}: Gauss-Legendre nodes on the bounds")
        # nothing else of the prior may matter: it could be zero outside of the bounds
    mon.state("prior", name, nodes)
    mon.sample(kind="prior", method=name, nodes=nodes, calls=len(watch.points))


def defaults(rng, mon):
    name = str(rng.choice(FITS + ABILITIES))
    fn = catalogue.lookup(name)
    if name in FITS:
        data, extra, kw = data_for(rng, name, 80 if not name.startswith("multi") else 250)
        args = (data, *extra)
        if name.endswith("jml"):                            # iterate a few times only
            kw = dict(kw)
    else:
        _, args, _ = catalogue.build(name, int(rng.integers(10 ** 6)))
        kw = {}
    base = girth.default_options()
    if name.startswith("multi") and name in FITS:
        short = {"quadrature_n": 9, "max_iteration": 1}
        variants = [short, {**base, **short}, {**short, "distribution": stats.norm(0, 1).pdf}]
    elif name.endswith(("mml_eap", "gum_mml", "pcm_mml")):
        short = {"max_iteration": 2}
        variants = [short, {**base, **short}, {**short, "quadrature_n": 41, "quadrature_bounds": (-4.5, 4.5)},
                    {**short, "quadrature_bounds": [-4.5, 4.5], "hyper_quadrature_n": 41}]
    else:
        variants = [None, {}, base, {"max_iteration": 25}, {"quadrature_n": 41, "quadrature_bounds": (-4.5, 4.5)},
                    {"distribution": stats.norm(0, 1).pdf, "use_LUT": True, "estimate_distribution": False,
                     "initial_guess": True, "num_processors": 1, "number_of_samples": 9}]
    first = None
    for options in variants:
        got = catalogue.outcome(fn, args, {**kw, "options": options})[0]
        first = first or got
        mon.check("defaults", got == first, f"{name}: options {sorted(options or {})} equal to the defaults change the result",
                  got=got, want=first)
    if variants[0] is None:
        mon.check("defaults", catalogue.outcome(fn, args, kw)[0] == first, f"{name}: options left out")
    mon.state("defaults", name)
    mon.sample(kind="defaults", method=name, variants=len(variants))


BAD = [{"max_iteration": 0}, {"max_iteration": -3}, {"max_iteration": 2.5}, {"max_iteration": "9"}, {"max_iteration": None},
       {"distribution": 3}, {"distribution": "normal"}, {"distribution": None}, {"quadrature_bounds": (2, -2)},
       {"quadrature_bounds": (1, 1)}, {"quadrature_bounds": 5}, {"quadrature_bounds": None}, {"quadrature_n": 7},
       {"quadrature_n": 0}, {"quadrature_n": 20.}, {"quadrature_n": "41"}, {"hyper_quadrature_n": 3}, {"hyper_quadrature_n": 9.5},
       {"use_LUT": 1}, {"use_LUT": "no"}, {"use_LUT": None}, {"estimate_distribution": 0}, {"estimate_distribution": "yes"},
       {"number_of_samples": 4}, {"number_of_samples": 9.}, {"initial_guess": None}, {"initial_guess": 1}, {"num_processors": 2.5},
       {"num_processors": "4"}, {"unknown": 1}, {"Max_iteration": 5}]
GOOD = [{"max_iteration": 1}, {"quadrature_bounds": [-3, 3]}, {"quadrature_bounds": (-3.5, 4)}, {"quadrature_n": 8},
        {"hyper_quadrature_n": 8}, {"number_of_samples": 5}, {"use_LUT": False}, {"estimate_distribution": True},
        {"num_processors": 3}, {"initial_guess": False}]


def refused(rng, mon):
    name = str(rng.choice(FITS + ABILITIES + ("initial_guess_md",)))
    fn = catalogue.lookup(name)
    if name in FITS:
        data, extra, kw = data_for(rng, name, 30)
        args = (data, *extra)
    else:
        _, args, kw = catalogue.build(name, int(rng.integers(10 ** 6)))
        kw = {}
    for at in rng.permutation(len(BAD))[:10]:
        bad = BAD[at]
        if rng.random() < .4:
            bad = {"quadrature_n": 11, **bad}
        mon.raises("refused", fn, *args, msg=f"{name} accepts {bad}", **{**kw, "options": bad})
    for bad in ([("max_iteration", 3)], "max_iteration", 7):
        mon.raises("refused", fn, *args, msg=f"{name} accepts options {bad!r}", **{**kw, "options": bad})
    for bad in BAD:
        mon.raises("refused", girth.validate_estimation_options, bad, msg=f"validation accepts {bad}")
    for good in GOOD:
        full = mon.call("accepted", girth.validate_estimation_options, good)
        want = {**girth.default_options(), **good}
        mon.check("accepted", set(full) == set(want) and all(full[k] == want[k] for k in want if k != "distribution"),
                  f"validation of {good}", got=full)
    mon.state("refused", name)
    mon.sample(kind="refused", method=name)


def calls_of(fn, args, kwargs):
    """Calls of girth's functions made by one call, however they are spread over helpers."""
    count = [0]

    def watch(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(ROOT):
            count[0] += 1
    sys.setprofile(watch)
    try:
        digest, value = catalogue.outcome(fn, args, kwargs)
    finally:
        sys.setprofile(None)
    return digest, value, count[0]


def iterations(rng, mon):
    name = str(rng.choice(SETTLED))
    fn = catalogue.lookup(name)
    people = {"multidimensional_grm_mml": 90}.get(name, 120)
    data, extra, kw = data_for(rng, name, people)
    opts = small(name)
    limits = (1, 2, 4) if name.startswith("multi") else (1, 2, 4, 9)
    seen = {k: calls_of(fn, (data, *extra), {**kw, "options": {**opts, "max_iteration": k}}) for k in limits}
    one = seen[1]
    if one[0].startswith("raised"):
        mon.skip("raises")
        return
    for k in limits[1:]:
        mon.check("iterations", seen[k][2] <= one[2] * k * 4 + 500, f"{name}: more work than {k} iterations take", limit=k,
                  calls=seen[k][2], one=one[2])
    # one iteration moves away from the start, the next ones go on: the limit is what ends them
    last = seen[limits[-1]]
    if name != "rasch_conditional":
        mon.check("iterations", one[0] != seen[2][0] and one[2] < last[2], f"{name}: one iteration gives what {limits[-1]} do",
                  calls={k: v[2] for k, v in seen.items()})
    mon.state("iterations", name, tuple(v[2] for v in seen.values()))
    mon.sample(kind="iterations", method=name, calls={k: v[2] for k, v in seen.items()})


def numbers(result, key):
    return np.asarray(result[key], float)


def settled(spec, rng, mon):
    """A run that ends before its limit ends because its estimates hardly move any more."""
    name = spec["method"]
    fn = catalogue.lookup(name)
    data, extra, kw = data_for(rng, name, int(rng.choice([16, 25, 40, 70])))
    opts = small(name)
    seen = {}

    def after(limit):
        if limit not in seen:
            seen[limit] = catalogue.outcome(fn, (data, *extra), {**kw, "options": {**opts, "max_iteration": limit}})
        return seen[limit]
    top = int(rng.choice([70, 90, 110]))
    low, high = 0, top
    if after(top)[0].startswith("raised"):
        mon.skip("raises")
        return
    while high - low > 1:
        middle = (low + high) // 2
        low, high = (low, middle) if after(middle)[0] == after(top)[0] else (middle, high)
    mon.state("settled", name, high)
    mon.sample(kind="settled", method=name, iterations=high)
    if high in (1, top):
        mon.skip("ended by the limit")
        return
    before, last = after(high - 1)[1], after(top)[1]
    keys = ["Difficulty"] if name.startswith("rasch") else [k for k in ("Discrimination", "Difficulty") if k in last]
    moves = [float(np.nanmax(np.abs(numbers(before, k) - numbers(last, k)))) for k in keys]
    mon.check("settled", min(moves) < 2e-3, f"{name}: ends after {high} of {top} iterations while the estimates still move",
              moves=moves)


def shift(spec, rng, mon):
    name = spec["method"]
    fn = catalogue.lookup(name)
    mu, sd = float(rng.choice([-.5, -.3, .3, .5])), float(rng.choice([.85, 1, 1.2]))
    low, high = -4.2, 4.2
    plain = {"distribution": Watched(), "quadrature_bounds": (low, high)}
    moved = {"distribution": Watched(mu, sd), "quadrature_bounds": (mu + sd * low, mu + sd * high)}
    where = f"{name} shifted by {mu} stretched by {sd}"
    if name in ABILITIES:
        _, args, _ = catalogue.build(name, int(rng.integers(10 ** 6)))
        data, b, a = args[:3]
        if name.startswith("multi"):
            plain["quadrature_n"] = moved["quadrature_n"] = 21
            args2 = (data, b - (a * mu / sd).sum(1)[:, None], a / sd)
        else:
            args2 = (data, mu + sd * b, a / sd, *args[3:])
        one = mon.call("returns", fn, *args, options=plain)
        two = mon.call("returns", fn, *args2, options=moved)
        if name == "multidimensional_ability_map":
            # found by a search that may stop in another local maximum
            keep = np.abs(two - (mu + sd * one)).max(0) < .05
            mon.check("shift", keep.mean() > .9, f"{where}: abilities", share=keep.mean())
        else:
            mon.close("shift", two, mu + sd * one, 2e-3 if "map" in name else 1e-8, msg=f"{where}: abilities")
        mon.state("shift", name, mu, sd)
        mon.sample(kind="shift", method=name, mu=mu, sd=sd)
        return
    data, extra, kw = data_for(rng, name, 400)
    limit = {"twopl_mml_eap": 12, "grm_mml_eap": 12, "pcm_mml": 40}.get(name, 60)
    plain["max_iteration"] = moved["max_iteration"] = limit
    if name.endswith("eap"):
        plain["hyper_quadrature_n"] = moved["hyper_quadrature_n"] = 21
        sd = 1.0                                            # the hyper prior keeps its scale
        moved.update(distribution=Watched(mu, 1.0), quadrature_bounds=(mu + low, mu + high))
    kw2 = dict(kw)
    if name == "rasch_mml":
        kw2["discrimination"] = 1 / sd
    one = mon.call("returns", fn, data, *extra, options=plain, **kw)
    two = mon.call("returns", fn, data, *extra, options=moved, **kw2)
    a1, a2 = numbers(one, "Discrimination"), numbers(two, "Discrimination")
    if a1.max() > 3 or a1.min() < .4:
        mon.skip("a discrimination near its bound")
        return
    tol = {"rasch_mml": 2e-3, "onepl_mml": 5e-3, "threepl_mml": .12, "pcm_mml": .12}.get(name, .04)
    mon.close("shift", a2 * sd, a1, tol, tol, msg=f"{where}: discrimination")
    mon.close("shift", numbers(two, "Difficulty"), mu + sd * numbers(one, "Difficulty"), tol, tol, msg=f"{where}: difficulty")
    if name == "threepl_mml":
        mon.close("shift", numbers(two, "Guessing"), numbers(one, "Guessing"), .1, msg=f"{where}: guessing")
    if "Ability" in one:
        mon.close("shift", numbers(two, "Ability"), mu + sd * numbers(one, "Ability"), max(tol, .03) * 1.5, msg=f"{where}: ability")
    mon.state("shift", name, mu, sd)
    mon.sample(kind="shift", method=name, mu=mu, sd=sd)


def refine(spec, rng, mon):
    name = spec["method"]
    fn = catalogue.lookup(name)
    if name in ABILITIES:
        _, args, _ = catalogue.build(name, int(rng.integers(10 ** 6)))
        sizes = (41, 61, 101) if not name.startswith("multi") else (31, 41)
        got = [mon.call("returns", fn, *args, options={"quadrature_n": n}) for n in sizes]
        wide = mon.call("returns", fn, *args, options={"quadrature_n": sizes[-1], "quadrature_bounds": (-6, 6)})
        for g in got[1:]:
            mon.close("refine", g, got[0], 2e-3, msg=f"{name}: more nodes")
        mon.close("bounds", wide, got[-1], 3e-2, msg=f"{name}: wider bounds")
        narrow = mon.call("returns", fn, *args, options={"quadrature_bounds": (-1, 1)})
        mon.check("bounds", np.abs(narrow).max() <= 1, f"{name}: abilities beyond the bounds", got=np.abs(narrow).max())
        mon.state("refine", name, sizes)
        mon.sample(kind="refine", method=name)
        return
    multi = name.startswith("multi")
    data, extra, kw = data_for(rng, name, 300)
    opts = {"max_iteration": 1 if multi else 3}
    if multi:
        opts["initial_guess"] = False
    if name.endswith("eap"):
        opts["hyper_quadrature_n"] = 31
    base = mon.call("returns", fn, data, *extra, options={**opts, "quadrature_n": 15 if multi else 41}, **kw)
    key = "Delta" if name == "gum_mml" else "Difficulty"
    others = {"more nodes": {"quadrature_n": 61}}
    if name.endswith("eap"):
        others["more hyper nodes"] = {"quadrature_n": 41, "hyper_quadrature_n": 61}
    if multi or name == "gum_mml":                          # several maxima, or steep functions of two abilities need more than is affordable
        others = {}
    for label, change in others.items():
        other = mon.call("returns", fn, data, *extra, options={**opts, **change}, **kw)
        tol = .05 if name in ("gum_mml", "threepl_mml") else .02
        mon.close("refine", numbers(other, "Discrimination"), numbers(base, "Discrimination"), tol, tol, msg=f"{name}: {label}")
        mon.close("refine", numbers(other, key), numbers(base, key), tol * 1.5, tol, msg=f"{name}: {label}")
    if name.endswith("eap"):                                # few nodes are as many as were asked for, and no others
        few = [mon.call("returns", fn, data, *extra, options={**opts, "hyper_quadrature_n": n}) for n in (8, 9)]
        mon.check("hyper nodes", not np.array_equal(numbers(few[0], "Discrimination"), numbers(few[1], "Discrimination")),
                  f"{name}: the number of hyper quadrature points has no effect")
    # narrow bounds are a different model: they must be seen in the estimates, and bound the abilities
    narrow = mon.call("returns", fn, data, *extra, options={**opts, "quadrature_n": 15, "quadrature_bounds": (-2.2, 2.2)}, **kw)
    mon.check("bounds", catalogue.digest(numbers(narrow, key)) != catalogue.digest(numbers(base, key)), f"{name}: bounds have no effect")
    if "Ability" in narrow:
        mon.check("bounds", np.nanmax(np.abs(numbers(narrow, "Ability"))) <= 2.2 + 1e-9, f"{name}: abilities beyond the bounds",
                  got=np.nanmax(np.abs(numbers(narrow, "Ability"))))
    mon.state("refine", name)
    mon.sample(kind="refine", method=name)


def table(rng, mon):
    """The look-up table only replaces a numerical inversion."""
    name = str(rng.choice(["twopl_mml", "grm_mml", "multidimensional_grm_mml"]))
    fn = catalogue.lookup(name)
    data, extra, kw = data_for(rng, name, 300)
    opts = {"max_iteration": 3}
    if name.startswith("multi"):
        opts = {"max_iteration": 1, "quadrature_n": 11, "initial_guess": False}
    tol = .03
    if rng.random() < .5:
        opts.update(distribution=Watched(.4, 1.1), quadrature_bounds=(-4, 4.8))
    elif not name.startswith("multi"):
        # the table follows the estimated density, on the nodes asked for
        opts.update(estimate_distribution=True, quadrature_bounds=(-1.5, 5), quadrature_n=31)
        tol = .025
    one = mon.call("returns", fn, data, *extra, options=opts)
    two = mon.call("returns", fn, data, *extra, options={**opts, "use_LUT": False})
    if numbers(one, "Discrimination").max() > 4:
        mon.skip("a discrimination near its bound")
        return
    for key in ("Discrimination", "Difficulty"):
        mon.close("table", numbers(two, key), numbers(one, key), tol, tol, msg=f"{name}: {key} without the table")
    mon.state("table", name, sorted(opts))
    mon.sample(kind="table", method=name)


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    if kind in ("shift", "refine", "settled"):
        {"shift": shift, "refine": refine, "settled": settled}[kind](spec, rng, mon)
    else:
        {"prior": prior, "defaults": defaults, "refused": refused, "iterations": iterations, "table": table}[kind](rng, mon)
