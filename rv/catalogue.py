"""Generated calls of every public function: name -> (function, positional arguments, keyword arguments)."""
import hashlib
import warnings

import girth
import numpy as np
from girth import common, factoranalysis, multidimensional, synthetic
from scipy import stats

from rv import gen

CATALOGUE = {}


def entry(*names):
    def keep(build):
        for name in names:
            CATALOGUE[name] = build
        return build
    return keep


def lookup(name):
    name = name.split(":")[0]
    for module in (girth, common, factoranalysis, synthetic, multidimensional):
        if hasattr(module, name):
            return getattr(module, name)
    raise KeyError(name)


def prior(theta):
    """A caller's own prior."""
    return stats.norm.pdf(theta, .2, 1.1)


def dichotomous(rng, missing=True):
    return gen.dich(rng, int(rng.integers(4, 8)), int(rng.choice([60, 120])), spread=1,
                    missing=float(rng.choice([0, .1])) if missing else 0)["data"]


def options_for(rng, name):
    opts = {"max_iteration": int(rng.choice([1, 2]))}
    mml = "mml" in name
    if mml and rng.random() < .4:
        opts["distribution"] = prior
    if mml and rng.random() < .4:
        opts["quadrature_bounds"] = (-4, 4.2)
    if mml and rng.random() < .4:
        opts["quadrature_n"] = 21
    if name in ("twopl_mml", "grm_mml", "twopl_mml_eap", "grm_mml_eap", "pcm_mml", "gum_mml") and rng.random() < .35:
        opts.update(estimate_distribution=True, number_of_samples=int(rng.choice([7, 9])))
        opts.pop("quadrature_bounds", None)
        opts.pop("distribution", None)
    if name.endswith("_eap"):
        opts["hyper_quadrature_n"] = int(rng.choice([9, 15]))
    if name in ("twopl_mml", "grm_mml") and rng.random() < .3:
        opts["use_LUT"] = False
    return opts


DICH = ("rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "threepl_mml", "rasch_jml", "onepl_jml", "twopl_jml",
        "rasch_conditional")


@entry(*DICH)
def _dich(rng, name):
    data = dichotomous(rng, missing=name != "rasch_conditional")
    kw = {"options": options_for(rng, name)}
    if name.startswith("rasch") and rng.random() < .4:
        kw["discrimination"] = 1.3
    if name == "onepl_mml" and rng.random() < .3:
        kw["alpha"] = 1.1
    return (data,), kw


@entry("mml_approx")
def _approx(rng, name):
    return (dichotomous(rng),), {}


@entry("grm_mml", "grm_mml_eap", "grm_jml", "pcm_mml", "pcm_jml", "gum_mml")
def _poly(rng, name):
    model = "gum" if name == "gum_mml" else "pcm" if "pcm" in name else "grm"
    low = 3 if model == "gum" else 2
    cats = [int(c) for c in rng.integers(low, 5, int(rng.integers(4, 7)))]
    data = gen.poly(rng, model, cats, int(rng.choice([80, 140])), start=int(rng.choice([0, 1, -2])),
                    missing=float(rng.choice([0, .1])))["data"]
    kw = {"options": options_for(rng, name)}
    if model == "gum":
        kw["options"]["max_iteration"] = 1
        kw["delta_sign"] = (int(rng.integers(len(cats))), int(rng.choice([-1, 1])))
    return (data,), kw


@entry("multidimensional_twopl_mml", "multidimensional_grm_mml", "initial_guess_md")
def _multi(rng, name):
    cats = [2] * 6 if "twopl" in name else [int(c) for c in rng.integers(2, 4, 6)]
    data = gen.mgrm(rng, cats, 2, 260, start=0 if "twopl" in name else 1)["data"]
    if name == "initial_guess_md":
        return (data, 2), {}
    opts = {"max_iteration": 1, "quadrature_n": 9, "initial_guess": bool(rng.random() < .4)}
    if rng.random() < .3:
        opts["use_LUT"] = False
    return (data, 2), {"options": opts}


@entry("ability_mle", "ability_map", "ability_eap", "ability_3pl_mle", "ability_3pl_map", "ability_3pl_eap")
def _ability(rng, name):
    items = int(rng.integers(4, 9))
    cell = gen.dich(rng, items, 40, spread=1.4, missing=.1 if rng.random() < .4 else 0)
    data, b, a = cell["data"], cell["b"], cell["a"]
    kw = {}
    if "mle" not in name:
        kw["options"] = {"distribution": prior, "quadrature_n": 31} if rng.random() < .5 else None
    if "3pl" in name:
        return (data, b, a, np.full(items, .15)), kw
    return (data, b, a), kw


@entry("multidimensional_ability_eap", "multidimensional_ability_map")
def _md_ability(rng, name):
    cell = gen.mgrm(rng, [2, 3, 2, 3, 2], 2, 30)
    return (cell["data"], gen.pad(cell["d"]), cell["a"]), {"options": {"quadrature_n": 11}}


@entry("classical_test_statistics")
def _ctt(rng, name):
    return (gen.poly(rng, "grm", [4] * 5, 60, start=1, missing=.05)["data"], 1, 4), {}


@entry("cronbach_alpha")
def _alpha(rng, name):
    return (gen.poly(rng, "grm", [4] * 5, 60, start=1, missing=.05)["data"],), {}


@entry("condition_polytomous_response")
def _condition(rng, name):
    return (gen.poly(rng, "grm", [3, 4, 2], 40, start=1, missing=.1)["data"],), {"trim_ends": bool(rng.random() < .5)}


@entry("convert_responses_to_kernel_sign")
def _sign(rng, name):
    return (dichotomous(rng),), {}


@entry("get_true_false_counts")
def _counts(rng, name):
    return (dichotomous(rng),), {}


@entry("trim_response_set_and_counts")
def _trim(rng, name):
    sets, counts = np.unique(dichotomous(rng, missing=False), axis=1, return_counts=True)
    return (sets, counts), {}


@entry("tag_missing_data")
def _tag(rng, name):
    data = rng.integers(0, 5, size=(4, 30))
    return (data, [0, 1, 2] if rng.random() < .5 else np.arange(5)), {}


@entry("create_beta_LUT")
def _lut(rng, name):
    return ((.3, 4, 9), (-5, 5, 21)), {"options": girth.default_options() if rng.random() < .5 else None}


@entry("default_options")
def _default(rng, name):
    return (), {}


@entry("validate_estimation_options")
def _validate(rng, name):
    return ({"max_iteration": int(rng.integers(1, 99)), "quadrature_bounds": [-3, 3], "distribution": prior},), {}


@entry("contingency_table")
def _table(rng, name):
    return (rng.integers(1, 6, 50), rng.integers(1, 6, 50)), {}


@entry("validate_contingency_table")
def _valid_table(rng, name):
    table = rng.integers(0, 9, size=(4, 4))
    table[int(rng.integers(4))] = 0
    return (table,), {}


@entry("polychoric_correlation_serial", "polychoric_correlation")
def _polychoric(rng, name):
    data = gen.poly(rng, "grm", [4] * 4, 90, start=1, missing=.05 if rng.random() < .5 else 0)["data"]
    return (data, 1, 4), {"num_processors": 2} if name == "polychoric_correlation" else {}


@entry("polyserial_correlation")
def _polyserial(rng, name):
    x = rng.normal(size=80)
    return (x, np.clip(np.round(x + rng.normal(size=80)), -1, 2).astype(int)), {}


@entry("reverse_score")
def _reverse(rng, name):
    return (rng.integers(1, 6, size=(5, 20)), np.array([True, False, True, False, True]), 5), {}


@entry("entropy")
def _entropy(rng, name):
    return (rng.normal(size=(6, 3)),), {"axis": int(rng.integers(2))}


@entry("hyperspherical_angles")
def _angles(rng, name):
    return (rng.normal(size=4),), {}


@entry("hyperspherical_vector")
def _vector(rng, name):
    return (rng.uniform(0, 3, 3),), {}


@entry("procrustes_rotation")
def _procrustes(rng, name):
    return (rng.normal(size=(8, 3)), rng.normal(size=(8, 3))), {}


def factor_matrix(rng):
    load = rng.uniform(.4, .8, size=(8, 1))
    people = load @ rng.normal(size=(1, 150)) + .7 * rng.normal(size=(8, 150))
    return np.corrcoef(people)


@entry("principal_components_analysis", "principal_axis_factor", "maximum_likelihood_factor_analysis",
       "minimum_rank_factor_analysis")
def _factors(rng, name):
    kw = {}
    if name != "principal_components_analysis" and rng.random() < .5:
        kw["initial_guess"] = np.full(8, .5)
    return (factor_matrix(rng), 1), kw


@entry("sparsify_loadings")
def _sparsify(rng, name):
    kw = {"seed": int(rng.integers(99))}
    if rng.random() < .5:
        kw["initial_guess"] = rng.uniform(.2, 2, 2)
    return (rng.normal(size=(7, 2)),), kw


@entry("create_synthetic_irt_dichotomous")
def _synthetic(rng, name):
    return (rng.normal(size=5), rng.uniform(.6, 1.6, 5), rng.normal(size=30)), {"seed": int(rng.integers(99)),
                                                                                "guessing": float(rng.choice([0, .2]))}


@entry("create_synthetic_irt_polytomous")
def _synthetic_poly(rng, name):
    model = ("grm", "pcm", "gum")[int(rng.integers(3))]
    b = np.sort(rng.normal(size=(4, 3)), axis=1)
    return (b, rng.uniform(.6, 1.6, 4), rng.normal(size=30)), {"seed": int(rng.integers(99)), "model": model}


@entry("standard_errors_bootstrap")
def _bootstrap(rng, name):
    data = gen.dich(rng, 5, 60, spread=1)["data"]
    return (data, girth.rasch_mml), {"bootstrap_iterations": 4, "n_processors": 2, "seed": int(rng.integers(99)),
                                     "options": {"max_iteration": 2}}


SLOW = ("initial_guess_md", "multidimensional_twopl_mml", "multidimensional_grm_mml", "standard_errors_bootstrap",
        "polychoric_correlation", "sparsify_loadings")
FORKS = ("standard_errors_bootstrap", "polychoric_correlation")


def build(name, seed):
    rng = np.random.default_rng([int(seed), sum(map(ord, name))])
    args, kwargs = CATALOGUE[name](rng, name)
    return lookup(name), args, kwargs


def strided(array):
    """The same numbers in every other element of a larger array."""
    wide = np.zeros((*array.shape[:-1], 2 * array.shape[-1]), dtype=array.dtype)
    wide[..., ::2] = array
    return wide[..., ::2]


def stored(name, seed):
    """The same calls, some with their arrays stored in another type or memory layout."""
    fn, args, kwargs = build(name, seed)
    rng = np.random.default_rng([int(seed), 7, len(name)])
    if rng.random() < .45:
        return fn, args, kwargs
    form = int(rng.integers(6))

    def other(value):
        if not isinstance(value, np.ndarray) or not value.size:
            return value
        if value.dtype.kind in "iu":
            if form == 1 and np.abs(value).max() > 120:     # the missing value does not fit
                return value.astype(np.int32)
            return [value.astype(float), value.astype(np.int8), value.astype(np.int32), np.asfortranarray(value),
                    strided(value), value.astype(float)][form]
        if value.dtype.kind == "f":
            return [value, value, value, np.asfortranarray(value), strided(value), value][form]
        return value
    return fn, tuple(other(v) for v in args), kwargs


# what a value is, bit by bit
def feed(h, value, depth=0):
    if depth > 8:
        h.update(b"deep")
    elif isinstance(value, np.ndarray):
        h.update(f"a{value.dtype.str}{value.shape}".encode())
        h.update(np.ascontiguousarray(value).tobytes())
    elif isinstance(value, np.generic):
        h.update(f"g{value.dtype.str}".encode() + value.tobytes())
    elif isinstance(value, dict):
        h.update(f"d{len(value)}".encode())
        for key, item in value.items():
            h.update(repr(key).encode())
            feed(h, item, depth + 1)
    elif isinstance(value, (list, tuple)):
        h.update(f"{type(value).__name__}{len(value)}".encode())
        for item in value:
            feed(h, item, depth + 1)
    elif isinstance(value, (int, float, str, bool, bytes, type(None))):
        h.update(f"{type(value).__name__}{value!r}".encode())
    elif isinstance(value, girth.LatentPDF):
        spot = np.linspace(-3, 3, 25)
        for spline in value.cubic_splines:
            feed(h, np.asarray(spline(spot)), depth + 1)
    elif callable(value):
        h.update(b"c")
        try:
            feed(h, np.asarray(value(np.linspace(-2, 2, 9))), depth + 1)
        except Exception:                                   # not a function of ability
            h.update(getattr(value, "__name__", "?").encode())
    elif hasattr(value, "__dict__"):
        h.update(type(value).__name__.encode())
        feed(h, dict(vars(value)), depth + 1)
    else:
        h.update(repr(value).encode())


def digest(value):
    h = hashlib.blake2b(digest_size=12)
    feed(h, value)
    return h.hexdigest()


def arrays(value, depth=0):
    if isinstance(value, np.ndarray):
        yield value
    elif isinstance(value, dict):
        for item in value.values():
            yield from arrays(item, depth + 1)
    elif isinstance(value, (list, tuple)):
        for item in value:
            yield from arrays(item, depth + 1)
    elif isinstance(value, (girth.LatentPDF, girth.CubicSplinePDF)) and depth < 6:
        yield from arrays(dict(vars(value)), depth + 1)


def outcome(fn, args, kwargs):
    """Digest of what a call returns or raises, and what it returned."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return bare_outcome(fn, args, kwargs)


def bare_outcome(fn, args, kwargs):
    try:
        value = fn(*args, **kwargs)
    except Exception as problem:                            # part of the observable result
        return f"raised {type(problem).__name__}: {str(problem)[:120]}", None
    return digest(value), value
