"""Data preparation keeps every valid response and nothing else."""
import numpy as np
import girth
from girth.common import reverse_score
from scipy import stats

from rv import gen, ref

ID = "C23"
RULE = ("recorded calls of the preparation helpers on random data sets of every storage type with valid-value lists, "
        "masks and option dictionaries, against cell-by-cell definitions; distinct by helper, shape, type and values")
MIN = {"tagged": 200, "reversed": 200, "undone": 80, "counted": 100, "signed": 100, "trimmed": 100, "recoded": 200,
       "approximated": 100, "options": 150, "rejected": 800, "missing marked": 100}
BUDGET = {"quick": 20, "thorough": 500}
TYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "float32", "float64"]


def cases(tier, seed):
    kinds = [{"kind": k, "min": 20} for k in ("tag", "reverse", "dichotomous", "recode", "options")]
    return gen.round_robin(seed, ID, kinds, 120 if tier == "quick" else 5000)


def run(spec, mon):
    globals()[spec["kind"]](gen.rng_of(spec), mon)


def layout(rng, data):
    pick = rng.random()
    if pick < .2:
        return np.asfortranarray(data)
    if pick < .4:
        wide = np.zeros((data.shape[0], 2 * data.shape[1]), dtype=data.dtype)
        wide[:, ::2] = data
        return wide[:, ::2]
    if pick < .6:
        data = data.copy()
        data.setflags(write=False)
    return data


def tag(rng, mon):
    kind = str(rng.choice(TYPES))
    low = 0 if kind.startswith("u") else int(rng.choice([-3, 0]))
    shape = (int(rng.integers(1, 9)), int(rng.integers(1, 60)))
    values = np.arange(low, low + 10)
    data = rng.choice(values, shape).astype(kind)
    if kind.startswith("float") and rng.random() < .5:
        data[rng.random(shape) < .1] = np.nan
        data[rng.random(shape) < .1] = 1.5
    if kind in ("int32", "int64", "float32", "float64") and rng.random() < .4:
        data[rng.random(shape) < .1] = ref.MISSING
    valid = sorted(int(v) for v in rng.choice(values, int(rng.integers(0, 7)), replace=False))
    given = [valid, tuple(valid), np.array(valid, dtype=int)][int(rng.integers(3))]
    data = layout(rng, data)
    before = data.copy()
    out = np.asarray(mon.call("returns", girth.tag_missing_data, data, given))
    want = [[float(v) if v in set(valid) else float(ref.MISSING) for v in row] for row in before.tolist()]
    mon.close("tagged", out, want, 0, msg=f"{kind}, valid {valid}")
    mon.same("tagged", data, before, "the data set changed")
    mon.check("tagged", girth.INVALID_RESPONSE == ref.MISSING, "missing value code")
    marked = np.asarray(out) == girth.INVALID_RESPONSE
    mon.same("missing marked", marked, ~np.isin(before, valid) | (before == ref.MISSING), f"{kind}: cells marked missing")
    again = girth.tag_missing_data(out, given)
    mon.close("tagged", again, out, 0, msg="tagging twice")
    mon.state("tag", kind, shape, tuple(valid))


def reverse(rng, mon):
    kind = str(rng.choice(TYPES))
    top = int(rng.integers(2, 9))
    shape = (int(rng.integers(1, 9)), int(rng.integers(1, 60)))
    data = rng.integers(1, top + 1, shape).astype(kind)
    wide = kind in ("int32", "int64", "float32", "float64")
    if wide and rng.random() < .6:
        data[rng.random(shape) < .2] = ref.MISSING
    mask = rng.random(shape[0]) < rng.choice([0, .4, 1])
    data = layout(rng, data)
    before = data.copy()
    out = np.asarray(mon.call("returns", reverse_score, data, mask, max_val=top))
    want = [[float(v) if v == ref.MISSING or not m else float(top + 1 - v) for v in row] for m, row in zip(mask, before.tolist())]
    mon.close("reversed", out, want, 0, msg=f"{kind}, maximum {top}")
    mon.same("reversed", data, before, "the data set changed")
    mon.close("undone", reverse_score(out, mask, max_val=top), before.astype(float), 0, msg="reversed twice")
    if top == 5:
        mon.close("reversed", reverse_score(data, mask), want, 0, msg="default maximum")
    for size in {shape[0] + 1, max(shape[0] - 1, 0), 2 * shape[0]} - {shape[0]}:
        mon.raises("rejected", reverse_score, data, np.zeros(size, dtype=bool), top, msg="mask of another length accepted")
    mon.state("reverse", kind, shape, top, mask.tolist())


def dichotomous(rng, mon):
    shape = (int(rng.integers(1, 8)), int(rng.integers(1, 80)))
    data = (rng.random(shape) < rng.uniform(.05, .95, (shape[0], 1))).astype(int)
    if rng.random() < .12:
        # a long test with patterns that are constant but for one response
        shape = (int(rng.choice([110, 300, 1500])), 12)
        data = np.repeat((np.arange(12) % 2)[None], shape[0], axis=0)
        for j in range(2, 9):
            data[int(rng.integers(shape[0])), j] ^= 1
    style = int(rng.integers(4))
    if style == 0:
        data = data.astype(bool)
    elif style == 1:
        data = data.astype(str(rng.choice(TYPES)))
    elif style == 2:
        data[rng.random(shape) < rng.choice([.1, .5])] = ref.MISSING
    else:
        data[rng.random(shape) < .2] = int(rng.choice([2, 9, -1, ref.MISSING]))
    data = layout(rng, data)
    before = data.copy()
    rows = [[float(v) for v in row] for row in before.tolist()]
    no, yes = mon.call("returns", girth.get_true_false_counts, data)
    mon.same("counted", np.asarray(no), np.array([r.count(0.0) for r in rows]), "false counts")
    mon.same("counted", np.asarray(yes), np.array([r.count(1.0) for r in rows]), "true counts")
    sign = mon.call("returns", girth.convert_responses_to_kernel_sign, data)
    mon.close("signed", sign, [[{0.0: 1, 1.0: -1}.get(v, 0) for v in r] for r in rows], 0, msg="kernel signs")
    # approximate difficulties
    a = float(rng.uniform(.3, 3)) if rng.random() < .6 else rng.uniform(.3, 3, shape[0])
    with np.errstate(all="ignore"):
        odds = np.log(np.array([r.count(0.0) for r in rows]) / np.array([r.count(1.0) for r in rows]))
        mon.close("approximated", mon.call("returns", girth.mml_approx, data, a), np.sqrt(1 + np.square(a) / 3) * odds / a, 1e-9,
                  1e-9, msg="approximate difficulties")
        mon.close("approximated", girth.mml_approx(data), np.sqrt(4 / 3) * odds, 1e-9, 1e-9, msg="discrimination of one")
    own = rng.normal(size=shape[0])
    mon.close("approximated", girth.mml_approx(data, a, own), np.sqrt(1 + np.square(a) / 3) * own / a, 1e-9, 1e-9, msg="given ratio")
    # trimming
    ints = before.astype(int)
    counts = rng.integers(1, 50, shape[1])
    kept, kept_counts = mon.call("returns", girth.trim_response_set_and_counts, ints, counts)
    keep = [len({v for v in col if v != ref.MISSING}) > 1 for col in ints.T.tolist()]
    mon.same("trimmed", np.asarray(kept), ints[:, keep], "response patterns kept")
    mon.same("trimmed", np.asarray(kept_counts), counts[keep], "counts kept")
    mon.same("counted", data, before, "the data set changed")
    mon.state("dichotomous", shape, style)


def recode(rng, mon):
    items, people = int(rng.integers(1, 8)), int(rng.choice([2, 10, 60, 60, 60, 1500]))
    if rng.random() < .1:
        items = 45
    low = int(rng.choice([0, 1, -4, 7]))
    levels = np.arange(low, low + int(rng.integers(2, 7)))
    if rng.random() < .4:
        levels = np.unique(rng.choice(np.arange(low, low + 15), levels.size))
    data = rng.choice(levels, (items, people))
    if rng.random() < .5:
        data[int(rng.integers(items))] = rng.choice(levels)             # constant item
    if rng.random() < .5:
        data[rng.random(data.shape) < .25] = ref.MISSING
    if rng.random() < .4:
        data[:, int(rng.integers(people))] = rng.choice(levels[[0, -1]])
    valid = data != ref.MISSING
    if not valid.any(axis=1).all():
        mon.skip("item without responses")
        return
    kind = str(rng.choice(["int64", "int32"] if not valid.all() else ["int64", "int32", "int16", "int8"]))
    data = layout(rng, data.astype(kind))
    before = data.copy()
    least, most = before[valid].min(), before[valid].max()
    for trim in (True, False):
        mean = [[v for v in col if v != ref.MISSING] for col in before.T.tolist()]
        gone = np.array([set(m) <= {least} or set(m) <= {most} for m in mean]) if trim else np.zeros(people, dtype=bool)
        left = before[:, ~gone].astype(np.int64)
        if not left.size or not (left != ref.MISSING).any(axis=1).all():
            mon.skip("nothing left of an item")
            continue
        for reference in (1.0, 0.0):
            out, sizes, mask = mon.call("returns", girth.condition_polytomous_response, data, trim_ends=trim, _reference=reference)
            want, count = np.full(left.shape, ref.MISSING), 0
            lengths = []
            for i, row in enumerate(left):
                seen = sorted({v for v in row.tolist() if v != ref.MISSING})
                lengths.append(max(len(seen), 2))
                for j, v in enumerate(row.tolist()):
                    if v != ref.MISSING:
                        code = seen.index(v) if len(seen) > 1 else int(v != least)
                        want[i, j] = code + count * reference
                count += lengths[-1]
            mon.same("recoded", np.asarray(out), want, f"linear indices, trim {trim}")
            mon.same("recoded", np.asarray(sizes), np.array(lengths), "numbers of categories")
            mon.same("recoded", np.asarray(mask), left != ref.MISSING, "valid mask")
    mon.same("recoded", data, before, "the data set changed")
    mon.state("recode", data.shape, kind, levels.tolist())


GOOD = {"max_iteration": [1, 7, 1000], "distribution": [stats.norm(1, 2).pdf, np.abs, lambda x: x],
        "quadrature_bounds": [(-1, 1), [-4.5, 4], (0, 2.5), (-np.inf, 0)], "quadrature_n": [8, 41, 101],
        "hyper_quadrature_n": [8, 33], "use_LUT": [True, False], "estimate_distribution": [True, False],
        "number_of_samples": [5, 12], "initial_guess": [True, False], "num_processors": [1, 4]}
BAD = {"max_iteration": [0, -1, 2.5, "3", None, 25.0], "distribution": [None, 1.0, "normal", [1, 2]],
       "quadrature_bounds": [(1, -1), (2, 2), [3, 1], 5, None, "ab"[::-1], {-1, 1}, np.array([-1, 1])],
       "quadrature_n": [7, 0, -41, 41.0, "41", None], "hyper_quadrature_n": [7, 1, 20.5, None],
       "use_LUT": [1, 0, "True", None], "estimate_distribution": [1, 0, "yes", None],
       "number_of_samples": [4, 0, -9, 9.0, None], "initial_guess": [1, 0, "no", None], "num_processors": [1.5, "2", None]}
DEFAULTS = {"max_iteration": 25, "quadrature_bounds": (-4.5, 4.5), "quadrature_n": 41, "hyper_quadrature_n": 41, "use_LUT": True,
            "estimate_distribution": False, "number_of_samples": 9, "initial_guess": True, "num_processors": 1}


def options(rng, mon):
    f = girth.validate_estimation_options
    base = mon.call("returns", girth.default_options)
    x = rng.normal(0, 2, 5)
    for source in (base, f(), f(None), f({})):
        mon.check("options", set(source) == set(DEFAULTS) | {"distribution"} and
                  all(source[k] == v and type(source[k]) is type(v) for k, v in DEFAULTS.items()), "defaults", got=list(source.items()))
        mon.close("options", source["distribution"](x), ref.normal_pdf(x), 1e-12, msg="default prior")
    base["max_iteration"] = -3
    base["extra"] = 1
    mon.check("options", girth.default_options()["max_iteration"] == 25 and "extra" not in f(), "defaults changed through a result")
    names = [str(k) for k in rng.permutation(list(GOOD))]
    mine = {k: GOOD[k][int(rng.integers(len(GOOD[k])))] for k in names[:int(rng.integers(1, len(names) + 1))]}
    copy = dict(mine)
    out = mon.call("returns", f, mine)
    mon.check("options", mine == copy and list(mine) == list(copy), "the caller's dictionary changed")
    mon.check("options", out is not mine, "the caller's dictionary is returned")
    for key, value in {**{k: v for k, v in DEFAULTS.items()}, **mine}.items():
        mon.check("options", out[key] is value or out[key] == value, f"option {key}", got=repr(out[key]), want=repr(value))
    out["max_iteration"] = -5
    mon.check("options", f()["max_iteration"] == 25, "defaults changed through a result")
    for key, values in BAD.items():
        for value in values:
            mon.raises("rejected", f, {**{k: v for k, v in mine.items() if k != key}, key: value}, msg=f"{key}={value!r} accepted")
            mon.state("bad", key, repr(value))
    for bad in ("max_iterations", "Quadrature_n", "", "seed"):
        mon.raises("rejected", f, {**mine, bad: 5}, msg=f"unknown option {bad!r} accepted")
    for other in ([("max_iteration", 5)], ("max_iteration",), "max_iteration", 5):
        mon.raises("rejected", f, other, msg="options that are not a dictionary accepted")
    mon.state("options", *names[:4])
