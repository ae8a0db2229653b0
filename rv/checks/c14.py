"""The difficulty look-up table inverts the marginal probability."""
import numpy as np
import girth

from rv import gen, ref

ID = "C14"
RULE = ("look-ups recorded on randomly specified tables (ranges, sizes, priors, bounds, nodes) over probabilities in "
        "[0, 1] including the ends; distinct by table and discrimination")
MIN = {"inverse": 400, "exact": 200, "ordered": 200, "ends": 200, "endpoint": 40}
BUDGET = {"quick": 20, "thorough": 600}
FINDING = "KF1-LUT-ENDS"


def cases(tier, seed):
    kinds = [{"kind": k, "min": 10} for k in ("coarse", "fine", "default")]
    return gen.round_robin(seed, ID, kinds, 40 if tier == "quick" else 1500)


def marginal(a, b, theta, weight):
    """P(endorse), for one discrimination and many difficulties."""
    return ref.sigmoid(a * (theta[None, :] - np.atleast_1d(b)[:, None])) @ weight


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    if kind == "default":
        alpha, beta = (.15, 5.05, 500), (-6, 6, 500)
    else:
        low = float(rng.choice([.1, .25, .5, 1.0]))
        span = float(rng.choice([.5, 1.5, 3]))
        size = (int(rng.integers(2, 9)), int(rng.integers(5, 30))) if kind == "coarse" else \
            (int(rng.integers(60, 200)), int(rng.integers(200, 600)))
        left = float(rng.uniform(-6, -1))
        alpha, beta = (low, low + span, size[0]), (left, left + float(rng.uniform(2, 8)), size[1])
    stop = float(rng.choice([3.5, 4.5, 5]))
    opts = {"quadrature_bounds": (-stop, float(rng.choice([stop, 4.2]))), "quadrature_n": int(rng.choice([15, 41, 61])),
            "distribution": gen.priors(rng, str(rng.choice(["normal", "skewnorm", "logistic", "plain", "scaled"])))}
    if kind == "default" and rng.random() < .5:
        opts = None
    table = mon.call("returns", girth.create_beta_LUT, alpha, beta, opts)
    theta, weight = ref.quad_of(opts)
    weight = weight * ref.prior_of(opts)(theta)
    grid_a, grid_b = np.linspace(*alpha), np.linspace(*beta)
    cell = grid_b[1] - grid_b[0]
    step = grid_a[1] - grid_a[0]
    picks = list(rng.uniform(alpha[0], alpha[1], 6)) + list(rng.choice(grid_a, 2)) + [grid_a[0], grid_a[-1]]
    for a in picks:
        a = float(np.clip(a, grid_a[0], grid_a[-1]))
        left = min(int(np.floor((a - grid_a[0]) / step + 1e-9)), len(grid_a) - 2)
        share = (a - grid_a[left]) / step
        columns = [marginal(g, grid_b, theta, weight) for g in grid_a[left:left + 2]]
        if min(-np.diff(c).max() for c in columns) < 1e-13:
            mon.skip("column not strictly decreasing in double precision")
            continue
        top, bottom = min(c[0] for c in columns), max(c[-1] for c in columns)
        total = max(c[0] for c in columns)
        if top <= bottom:
            mon.skip("columns do not overlap")
            continue
        # inside the table
        p = np.sort(rng.uniform(bottom, top, 40))
        p = p[(p > bottom + 1e-9) & (p < top - 1e-9)]
        got = np.asarray(mon.call("endpoint" if a in (grid_a[0], grid_a[-1]) else "returns", table, a, p), dtype=float)
        if not mon.check("inverse", got.shape == p.shape, "shape of the answer", got=got.shape, want=p.shape):
            return
        mon.check("ordered", (np.diff(got) <= 1e-9).all(), "difficulty rises with the probability", a=a, p=p[:4])
        exact = np.array([ref.solve_difficulty(g, p, theta, weight, grid_b[0] - 1, grid_b[-1] + 1)
                          for g in grid_a[left:left + 2]])
        if share < 1e-6 or share > 1 - 1e-6:
            exact = exact[[int(round(share))]]
        low, high = exact.min(axis=0) - cell, exact.max(axis=0) + cell
        mon.check("inverse", ((got >= low) & (got <= high)).all(), "not between the neighbouring solutions", a=a,
                  alpha=alpha, beta=beta, p=p[(got < low) | (got > high)][:3], got=got[(got < low) | (got > high)][:3])
        here = ref.solve_difficulty(a, p, theta, weight, grid_b[0] - 1, grid_b[-1] + 1)
        if kind != "coarse" and step < .06:
            # second-order interpolation error: curvature over the column pair and the cell
            slope = (marginal(a, here - cell, theta, weight) - marginal(a, here + cell, theta, weight)) / (2 * cell)
            near = slope > .01
            room = .004 + 2 * cell ** 2 + 1.0 * (step / a) ** 2 * (1 + np.abs(here))
            bad = near & (np.abs(got - here) > room)
            mon.check("inverse", not bad.any(), "interpolation error too large", a=a, got=got[bad][:3], want=here[bad][:3])
        # exactly tabulated points
        g = int(rng.choice([0, len(grid_a) - 1, int(rng.integers(len(grid_a)))]))
        column = marginal(grid_a[g], grid_b, theta, weight)
        inner = np.arange(1, column.size - 1)
        inner = inner[np.minimum(-np.diff(column)[:-1], -np.diff(column)[1:]) > 1e-7]
        if not inner.size:
            continue
        mon.close("exact", table(float(grid_a[g]), column[inner]), grid_b[inner], 1e-6 + 1e-4 * cell,
                  msg="tabulated point", a=grid_a[g])
        # scalar probabilities answer like vectors
        k = int(rng.integers(p.size))
        mon.close("inverse", float(table(a, float(p[k]))), got[k], 1e-12, msg="scalar probability")
        # beyond the table
        outside = np.concatenate([[0.0, 1.0], bottom * rng.uniform(0, 1 - 1e-9, 2), top * rng.uniform(1 + 1e-9, 1.3, 2)])
        for q in outside:
            value = float(table(a, q))
            want, wrong = 0.0, 0.0
            for w, c, gcol in zip((1 - share, share), columns, grid_a[left:left + 2]):
                if c[-1] <= q <= c[0]:
                    inside = float(ref.solve_difficulty(gcol, q, theta, weight, grid_b[0] - 1, grid_b[-1] + 1)[0])
                    want, wrong = want + w * inside, wrong + w * inside
                else:
                    right = grid_b[0] if q > c[0] else grid_b[-1]
                    want, wrong = want + w * right, wrong + w * (grid_b[0] + grid_b[-1] - right)
            as_known = abs(value - wrong) <= cell * 1.01
            mon.check("ends", abs(value - want) <= cell * 1.01, "a probability beyond the table maps to the wrong end",
                      FINDING if as_known else None, p=q, a=a, got=value, want=want, wrong=wrong, share=share, tops=[c[0] for c in columns], covered=[bottom, total])
        mon.state(kind, alpha, beta, round(a, 3), None if opts is None else opts["quadrature_bounds"])
    mon.sample(alpha=alpha, beta=beta)
