"""Estimators recover the parameters that generated the data."""
import numpy as np
import girth
from girth import multidimensional as gmd

from rv import gen, ref
from rv.checks.c07 import SPEC

ID = "C12"
RULE = ("large simulated samples (own simulators) from the model of each estimator; item parameters within bounds of "
        "several standard errors of the generating values, abilities strongly and positively correlated with the "
        "generating ones; distinct by method, size, categories, missing cells, response coding, options")
MIN = {"difficulty": 60, "discrimination": 50, "ability": 25}
BUDGET = {"quick": 60, "thorough": 1800}
# largest tolerated error of a threshold and relative error of a discrimination (8 standard errors or the known
# bias of joint estimation), as calibrated on several thousand simulated samples
BOUND = {"rasch_mml": (.35, 0), "onepl_mml": (.35, .2), "twopl_mml": (.5, .5), "twopl_mml_eap": (.5, .5),
         "threepl_mml": (2.5, 1.8), "rasch_jml": (.6, 0), "onepl_jml": (.6, .6), "twopl_jml": (2, 2),
         "rasch_conditional": (.35, 0), "grm_mml": (.6, .5), "grm_mml_eap": (.6, .5), "pcm_mml": (.7, .5),
         "grm_jml": (1.5, 1.5), "pcm_jml": (1.8, 1.5), "gum_mml": (.9, .8)}

STEEP = ("rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "rasch_conditional", "grm_mml", "grm_mml_eap", "pcm_mml")


def cases(tier, seed):
    kinds = [{"kind": n, "min": 3} for n in SPEC]
    return gen.round_robin(seed, ID, kinds, 9 if tier == "quick" else 600)


def run(spec, mon):
    rng = gen.rng_of(spec)
    name = spec["kind"]
    layout = SPEC[name][2]
    if layout == "multi":
        return several_dimensions(rng, mon, name)
    n_people = int(rng.choice([1000, 1800]))
    jml = name.endswith("jml")
    if jml:
        n_people = 500
    missing = 0 if name == "rasch_conditional" else float(rng.choice([0, 0, .1]))
    n_items = 25 if jml else int(rng.choice([10, 15]))
    theta = rng.standard_normal(n_people)
    theta = (theta - theta.mean()) / theta.std()
    kw, opts = {}, {}
    steep = name in STEEP and rng.random() < .4
    if jml:
        opts["max_iteration"] = 15
    if layout == "vector":
        a = rng.uniform(.8, 1.8, n_items) if not steep else rng.uniform(1.2, 3.2, n_items)
        b = rng.uniform(-1.4, 1.4, n_items)
        c = None
        if name.startswith(("rasch", "onepl")):
            a = np.full(n_items, rng.uniform(.8, 1.6) if not steep else rng.uniform(1.6, 4))
            if name.startswith("rasch"):
                kw["discrimination"] = a[0]
        if name == "threepl_mml":
            c, n_people = rng.uniform(.05, .2, n_items), 2000
            theta = rng.standard_normal(n_people)
            if rng.random() < .35:
                # three options per item: guessing close to its bound, well determined by hard and steep items
                n_people, c = 6000, rng.uniform(.29, .33, n_items)
                theta, a, b = rng.standard_normal(n_people), rng.uniform(1.5, 2, n_items), rng.uniform(0, 1.2, n_items)
        data = gen.dich(rng, n_items, n_people, a=a, b=b, c=c, theta=theta, missing=missing)["data"]
        want = b[:, None]
        if name == "rasch_conditional":
            want = want - want.mean()
    else:
        cats = [int(k) for k in rng.integers(3, 5, n_items)]
        if layout != "unfold":
            cats[0] = 2
        start = int(rng.choice([0, 1, -2]))
        model = {"graded": "grm", "credit": "pcm", "unfold": "gum"}[layout]
        g = gen.poly(rng, model, cats, n_people, start=start, missing=missing, theta=theta, **(dict(low=1.3, high=3) if steep else dict(low=.9, high=1.7)))
        data, a, want = g["data"], g["a"], gen.pad(g["b"])
        if layout == "unfold":
            kw["delta_sign"] = (int(rng.integers(n_items)), int(rng.choice([-1, 1])))
            opts["max_iteration"] = 20
        if [np.unique(r[r != ref.MISSING]).size for r in data] != cats:
            mon.skip("a category is not observed")
            return
    res = mon.call("returns", getattr(girth, name), data, options=opts or None, **kw)
    limit_b, limit_a = BOUND[name]
    big = np.abs(np.where(np.isnan(want), 0, want)) > 2.2
    disc = np.broadcast_to(np.asarray(res["Discrimination"], float), (n_items,))
    if layout == "unfold":
        return unfolding(mon, name, res, data, g, kw, theta, limit_b, limit_a)
    got = np.asarray(res["Difficulty"], float).reshape(n_items, -1)
    if got.shape != want.shape:
        mon.check("difficulty", False, "shape", got=got.shape, want=want.shape)
        return
    err = np.where(big | np.isnan(want), 0, got - want)
    if jml or name == "threepl_mml":
        # joint estimates stretch the scale: compare after matching scales
        ok = ~np.isnan(want) & ~big
        r = np.corrcoef(got[ok], want[ok])[0, 1]
        mon.check("difficulty", r > (.7 if name == "threepl_mml" else .88), f"{name} difficulties hardly follow the generating ones", correlation=r)
        mon.event(f"{name} r>={np.floor(r * 50) / 50:.2f}")
    mon.event(f"{name} b<={np.ceil(np.abs(err).max() * 10) / 10:.1f}")
    middle = np.median(np.abs(err[~(big | np.isnan(want))]))
    mon.event(f"{name} median<={np.ceil(middle * 20) / 20:.2f}")
    mon.check("difficulty", middle < (.35 if jml or limit_b > 1 else .16), f"{name} difficulties off", median=middle)
    mon.check("difficulty", np.abs(err).max() < limit_b, f"{name} difficulty far from the generating one",
              at=np.unravel_index(np.abs(err).argmax(), err.shape), error=np.abs(err).max())
    if limit_a:
        rel = np.abs(np.log(disc / a))
        mon.event(f"{name} a<={np.ceil(rel.max() * 10) / 10:.1f}")
        mon.check("discrimination", rel.max() < limit_a, f"{name} discrimination far from the generating one",
                  got=disc, want=a)
        bias = np.median(np.log(disc / a))
        mon.event(f"{name} bias<={np.ceil(abs(bias) * 10) / 10:.1f}")
        mon.check("discrimination", abs(bias) < min(limit_a / 2, .35 if jml else .3), f"{name} discriminations are off on average", bias=bias)
    if name == "threepl_mml" and n_people == 6000:
        middle = np.median(res["Guessing"])
        mon.event(f"{name} guessing {np.round(middle, 2):.2f}")
        mon.check("discrimination", middle > .27, f"{name} guessing not recovered", got=res["Guessing"], want=c)
    ability(mon, name, res, theta)
    mon.state(name, data.shape, missing, bool(steep))
    mon.sample(method=name, people=n_people, largest_error=np.abs(err).max(), b=got[0], truth=want[0])


def ability(mon, name, res, theta):
    if "Ability" in res:
        r = np.corrcoef(res["Ability"], theta)[0, 1]
        mon.event(f"{name} ability r>={np.floor(r * 20) / 20:.2f}")
        mon.check("ability", r > .75, f"{name} abilities do not follow the generating ones", correlation=r)


def unfolding(mon, name, res, data, g, kw, theta, limit_b, limit_a):
    which, sign = kw["delta_sign"]
    flip = np.sign(g["delta"][which]) * np.sign(sign)
    err = np.abs(np.asarray(res["Delta"]) - flip * g["delta"])
    mon.event(f"{name} delta<={np.ceil(err.max() * 5) / 5:.1f}")
    mon.check("difficulty", np.median(err) < .25 and err.max() < limit_b, "deltas far from the generating ones",
              got=res["Delta"], want=flip * g["delta"])
    rel = np.abs(np.log(res["Discrimination"] / g["a"]))
    mon.event(f"{name} a<={np.ceil(rel.max() * 5) / 5:.1f}")
    mon.check("discrimination", np.median(rel) < .25 and rel.max() < limit_a, "discriminations far from the generating ones",
              got=res["Discrimination"], want=g["a"])
    ability(mon, name, {"Ability": flip * np.asarray(res["Ability"])}, theta)
    mon.state(name, data.shape, which, sign)
    mon.sample(method=name, delta=res["Delta"][:4], truth=flip * g["delta"][:4])


def several_dimensions(rng, mon, name):
    n_items, n_people = 8, 800
    cats = [2] * n_items if "twopl" in name else [int(k) for k in rng.integers(2, 4, n_items)]
    g = gen.mgrm(rng, cats, 2, n_people, start=0, missing=float(rng.choice([0, .05])), simple=True)
    res = mon.call("returns", getattr(gmd, name), g["data"], 2, options={"quadrature_n": 13, "max_iteration": 10,
                                                                   "use_LUT": bool(rng.random() < .6)})
    disc = np.asarray(res["Discrimination"])
    # what does not depend on the rotation
    def angles(m):
        u = m / np.linalg.norm(m, axis=1, keepdims=True)
        return u @ u.T
    err = np.abs(angles(disc) - angles(g["a"]))
    mon.event(f"{name} angle<={np.ceil(err.max() * 5) / 5:.1f}")
    mon.check("discrimination", np.median(err) < .25, f"{name}: factor structure not recovered", got=disc, want=g["a"])
    size = np.abs(np.log(np.linalg.norm(disc, axis=1) / np.linalg.norm(g["a"], axis=1)))
    mon.event(f"{name} size<={np.ceil(size.max() * 5) / 5:.1f}")
    mon.check("discrimination", np.median(size) < .4, f"{name}: slopes not recovered", got=disc, want=g["a"])
    d, want = np.asarray(res["Difficulty"], float).reshape(n_items, -1), gen.pad(g["d"])
    off = np.nanmax(np.abs(d - want))
    mon.event(f"{name} d<={np.ceil(off * 5) / 5:.1f}")
    mon.check("difficulty", np.nanmedian(np.abs(d - want)) < .35, f"{name}: intercepts not recovered", got=d, want=want)
    # abilities after the best rotation
    x, y = np.asarray(res["Ability"]), g["theta"]
    u, _, vt = np.linalg.svd(y @ x.T)
    r = [np.corrcoef((u @ vt @ x)[k], y[k])[0, 1] for k in range(2)]
    mon.event(f"{name} ability r>={np.floor(min(r) * 20) / 20:.2f}")
    mon.check("ability", min(r) > .5, f"{name}: abilities do not follow the generating ones", correlations=r)
    mon.state(name, tuple(cats), n_people)
    mon.sample(method=name, discrimination=disc[:2], truth=g["a"][:2])
