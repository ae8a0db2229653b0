"""EAP abilities are posterior means."""
import numpy as np
import girth
from girth.multidimensional import multidimensional_ability_eap

from rv import gen, ref
from rv.ref import MISSING

ID = "C01"
RULE = ("random response matrices x item parameters x options; the returned ability is compared "
        "with an independent log-space posterior mean; a case is distinct by model, size class, "
        "missing pattern, prior, quadrature, discrimination form and storage type")
MIN = {"eap2pl": 40, "eap3pl": 30, "eapmd": 20, "batch": 40}

KINDS = [{"kind": "u2"}, {"kind": "u3"}, {"kind": "md"}, {"kind": "u2"}, {"kind": "mdbatch"}]
PRIORS = ["default", "normal", "skewnorm", "logistic", "scaled"]


def cases(tier, seed):
    n = 700 if tier == "quick" else 20000
    return gen.round_robin(seed, ID, KINDS, n)


def options_for(rng, small=False):
    opts = {}
    if rng.random() < 0.75:
        kind = PRIORS[rng.integers(len(PRIORS))]
        if kind != "default":
            opts["distribution"] = gen.priors(rng, kind)
    if rng.random() < 0.6:
        opts["quadrature_bounds"] = [(-5, 4), (-3.0, 6.0), (-6, 6), [-4, 4], (-1, 2),
                                     (-8, 8), (0.5, 3)][rng.integers(7)]
    if rng.random() < 0.6:
        opts["quadrature_n"] = int(rng.choice([8, 9, 12, 15] if small else [8, 11, 21, 50, 61, 101]))
    return opts


def matrix(rng, n_items, n_people, missing):
    data = rng.integers(0, 2, (n_items, n_people)).astype(np.int64)
    # always some extreme patterns
    if n_people > 3:
        data[:, 0], data[:, 1] = 0, 1
    mask = rng.random(data.shape) < missing
    data[mask] = MISSING
    if missing and n_people > 4:
        data[:, 2] = MISSING                     # no valid response at all
        data[:, 3] = MISSING
        data[rng.integers(n_items), 3] = 1       # a single valid response
    return data


def storage(rng, data):
    kind = rng.integers(5)
    if kind == 0 or (data.min() < 0 and kind in (1, 2)):
        return "int64", data
    if kind == 1:
        return "int8", data.astype(np.int8)
    if kind == 2:
        return "bool", data.astype(bool)
    if kind == 3:
        return "fortran", np.asfortranarray(data)
    wide = np.full((2 * data.shape[0], data.shape[1] + 3), 7)
    wide[::2, 3:] = data
    return "view", wide[::2, 3:]


def run(spec, mon):
    rng = gen.rng_of(spec)
    {"u2": run_u2, "u3": run_u3, "md": run_md, "mdbatch": run_mdbatch}[spec["kind"]](rng, mon, spec)


def representable(ll, mon):
    """Likelihoods that underflow in double precision are outside the domain."""
    fits = ll.max(axis=1) > -600
    if not fits.all():
        mon.skip("likelihood underflows")
    return fits


def batch_rules(rng, mon, call, data, full, atol=1e-10):
    """call(data) -> abilities [.., persons] must act respondent by respondent."""
    n = data.shape[1]
    if n == 0:
        return
    order = rng.permutation(n)
    mon.close("batch", call(data[:, order]), full[..., order], atol, msg="permuted batch")
    some = rng.choice(n, size=max(1, n // 3), replace=False)
    mon.close("batch", call(data[:, some]), full[..., some], atol, msg="sub-batch")
    one = int(rng.integers(n))
    mon.close("batch", call(data[:, [one]]), full[..., [one]], atol, msg="single respondent")
    twice = rng.integers(0, n, 2 * n)
    mon.close("batch", call(data[:, twice]), full[..., twice], atol, msg="repeated respondents")


def run_u2(rng, mon, spec):
    n_items = int(rng.choice([1, 2, 3, 8, 20, 45] * 2 + [160]))
    n_people = int(rng.choice([1, 2, 7, 40, 200, 200, 1200]))
    missing = float(rng.choice([0, 0, 0.2, 0.6]))
    data = matrix(rng, n_items, n_people, missing)
    label, stored = storage(rng, data)
    b = rng.normal(0, rng.choice([0.5, 1.5, 4]), n_items)
    a_form = int(rng.integers(6))
    a = rng.uniform(0.05, 4, n_items)
    if a_form == 1:
        a_arg = float(rng.uniform(0.3, 2.5)); a = np.full(n_items, a_arg)
    elif a_form == 2:
        a_arg = int(rng.integers(1, 4)); a = np.full(n_items, float(a_arg))
    elif a_form == 3:
        a_arg = np.array([rng.uniform(0.3, 2)]); a = np.full(n_items, a_arg[0])
    elif a_form == 4:
        a_arg = np.float64(rng.uniform(.3, 2)); a = np.full(n_items, float(a_arg))
    else:
        if a_form == 5:
            a = rng.normal(0, 1.5, n_items)      # negative discriminations too
        a_arg = a
    b_arg = b
    if rng.random() < 0.2:
        b_arg = np.round(b).astype(int); b = b_arg.astype(float)
    opts = options_for(rng)

    def call(d):
        return mon.call("returns", girth.ability_eap, d, b_arg, a_arg, options=opts or None)
    got = call(stored)
    theta, w = ref.quad_of(opts)
    weight = w * ref.prior_of(opts)(theta)
    codes = np.where(data == MISSING, -1, data)
    ll = ref.loglik(codes, [ref.p_dich(theta, b[i], a[i]) for i in range(n_items)])
    want = ref.posterior_mean(ll, weight, theta)
    fits = representable(ll, mon)
    mon.close("eap2pl", got[fits], want[fits], 1e-7, 1e-7, "ability_eap")
    got = np.where(fits, got, 0.5 * (theta[0] + theta[-1]))
    low, high = opts.get("quadrature_bounds", (-4.5, 4.5))
    mon.check("inside", np.all((got >= low) & (got <= high)), "outside the quadrature bounds")
    batch_rules(rng, mon, call, stored[:, fits], got[fits])
    mon.state(label, n_items, n_people, missing, a_form, sorted(opts), opts.get("quadrature_n"))
    mon.sample(model="2pl", items=n_items, people=n_people, missing=missing, storage=label,
               ability=got[:3], reference=want[:3])


def run_u3(rng, mon, spec):
    n_items = int(rng.choice([1, 2, 6, 15, 40]))
    n_people = int(rng.choice([1, 2, 9, 60, 60, 1100]))
    missing = float(rng.choice([0, 0.25, 0.6]))
    data = matrix(rng, n_items, n_people, missing)
    label, stored = storage(rng, data)
    b = rng.normal(0, rng.choice([0.5, 1.5, 3]), n_items)
    a = rng.uniform(0.1, 3.5, n_items)
    c = rng.uniform(0, 0.5, n_items) * (rng.random(n_items) < 0.8)
    opts = options_for(rng)

    def call(d):
        return mon.call("returns", girth.ability_3pl_eap, d, b, a, c, options=opts or None)
    got = call(stored)
    theta, w = ref.quad_of(opts)
    codes = np.where(data == MISSING, -1, data)
    want = ref.posterior_mean(ref.loglik(codes, [ref.p_dich(theta, b[i], a[i], c[i])
                                                 for i in range(n_items)]),
                              w * ref.prior_of(opts)(theta), theta)
    mon.close("eap3pl", got, want, 1e-7, 1e-7, "ability_3pl_eap")
    batch_rules(rng, mon, call, stored, np.asarray(got, float))
    zero = mon.call("returns", girth.ability_3pl_eap, stored, b, a, np.zeros(n_items),
                    options=opts or None)
    plain = mon.call("returns", girth.ability_eap, stored, b, a, options=opts or None)
    mon.close("3pl=2pl", zero, plain, 1e-9, 0, "no guessing")
    mon.state(label, n_items, n_people, missing, sorted(opts))
    mon.sample(model="3pl", items=n_items, people=n_people, ability=got[:3], reference=want[:3])


def md_setup(rng):
    n_factors = int(rng.choice([2, 2, 3]))
    n_items = int(rng.choice([3, 6, 12]))
    top = int(rng.choice([2, 3, 5, 8]))
    cats = [int(c) for c in (rng.integers(2, top + 1, n_items) if rng.random() < 0.5
                             else np.full(n_items, top))]
    a = rng.normal(0.4, 1.1, (n_items, n_factors))
    d = [-gen.graded_b(rng, c - 1, 2, 0.3) for c in cats]
    start = int(rng.choice([0, 1, -2]))
    n_people = int(rng.choice([5, 30, 30, 260]))
    data = np.array([rng.integers(start, start + c, n_people) for c in cats])
    missing = float(rng.choice([0, 0.3]))
    mask = rng.random(data.shape) < missing
    data[mask] = MISSING
    data = gen.complete_categories(data, start, cats)
    opts = options_for(rng, small=True)
    if n_factors == 3:
        opts["quadrature_n"] = int(rng.choice([8, 11]))
    else:
        opts.setdefault("quadrature_n", 17)
    return n_factors, cats, a, d, start, data, opts


def md_reference(data, start, a, d, opts, n_factors):
    theta, w = ref.quad_of(opts)
    nodes, weight = ref.product_grid(theta, w * ref.prior_of(opts)(theta), n_factors)
    codes = np.where(data == MISSING, -1, data - start)
    ll = ref.loglik(codes, [ref.p_mgrm(nodes, d[i], a[i]) for i in range(len(d))])
    return ref.posterior_mean(ll, weight, nodes)


def run_md(rng, mon, spec):
    n_factors, cats, a, d, start, data, opts = md_setup(rng)
    diff = gen.pad(d)
    if diff.shape[1] == 1 and rng.random() < 0.5:
        diff = diff[:, 0]
    extra = data[:, -max(cats):]                 # keeps every category present

    def call(x):
        out = mon.call("returns", multidimensional_ability_eap,
                       np.concatenate([x, extra], axis=1), diff, a, options=opts)
        return out[:, :x.shape[1]]
    got = mon.call("returns", multidimensional_ability_eap, data, diff, a, options=opts)
    want = md_reference(data, start, a, d, opts, n_factors)
    mon.close("eapmd", got, want, 1e-7, 1e-7, "multidimensional_ability_eap")
    batch_rules(rng, mon, call, data, np.asarray(got, float))
    mon.state(n_factors, tuple(cats), start, opts.get("quadrature_n"), bool((data == MISSING).any()))
    mon.sample(model="md", factors=n_factors, categories=cats, ability=got[:, :2],
               reference=want[:, :2])


def run_mdbatch(rng, mon, spec):
    """Batches that do not show every category (known finding KF3)."""
    n_factors, cats, a, d, start, data, opts = md_setup(rng)
    whole = md_reference(data, start, a, d, opts, n_factors)
    pick = rng.choice(data.shape[1], size=int(rng.integers(1, 4)), replace=False)
    part = data[:, pick]
    part = part[:, (part != MISSING).any(axis=0)]
    keep = (data[:, pick] != MISSING).any(axis=0)
    if not keep.any():
        return mon.skip("nothing valid in the batch")
    lacking = any(np.unique(row[row != MISSING]).size < c for row, c in zip(part, cats))
    try:
        got = multidimensional_ability_eap(part, gen.pad(d), a, options=opts)
    except Exception as exc:    # noqa: BLE001
        return mon.check("mdbatch", False, f"raised {exc!r}",
                         finding="KF3-BATCH-CATEGORIES" if lacking else None)
    mon.close("mdbatch", got, whole[:, pick[keep]], 1e-7, 1e-7, "small batch",
              finding="KF3-BATCH-CATEGORIES" if lacking else None)
    mon.state("batch", lacking, tuple(cats))
