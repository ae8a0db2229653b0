"""Rotations preserve the common factor space; geometry helpers are exact."""
import math

import numpy as np
from girth.common import entropy, hyperspherical_angles, hyperspherical_vector, procrustes_rotation
from girth.factoranalysis import sparsify_loadings

from rv import gen

ID = "C26"
RULE = ("recorded rotations, procrustes solutions, angles and entropies for generated loadings, vectors and angles; distinct "
        "by function, size, kind and options")
MIN = {"rotation": 20, "unit": 20, "orthonormal": 8, "criterion": 20, "seed": 16, "orthogonal": 60, "closest": 300,
       "vector": 200, "round trip": 200, "entropy": 200, "unchanged": 60, "simple structure": 4}
BUDGET = {"quick": 40, "thorough": 600}


def cases(tier, seed):
    kinds = [{"kind": k, "min": 6} for k in ("procrustes", "sphere", "entropy")]
    kinds += [{"kind": "sparsify", "factors": k, "orthogonal": o, "min": 4} for k in (2, 3) for o in (False, True)]
    if tier != "quick":
        kinds += [{"kind": "sparsify", "factors": 4, "orthogonal": o, "min": 2} for o in (False, True)]
    return gen.round_robin(seed, ID, kinds, 12 if tier == "quick" else 150)


def own_entropy(a, axis=1):
    total = 0.0
    for row in (a if axis else a.T):
        weight = math.fsum(float(v) ** 2 for v in row)
        for v in row:
            share = float(v) ** 2 / weight if weight else 0.0
            if share:
                total -= share * math.log(share)
    return total


def own_vector(angles):
    out, rest = [], 1.0
    for a in angles:
        out.append(rest * math.cos(a))
        rest *= math.sin(a)
    return np.array(out + [rest])


def criterion(load, bases, alpha):
    values = np.linalg.svd(bases, compute_uv=False)
    return own_entropy(load @ np.linalg.inv(bases)) + alpha * values[0] / values[-1]


def sparsify(spec, rng, mon):
    k, orthogonal = spec["factors"], spec["orthogonal"]
    items = int(rng.integers(2 * k, 5 * k + 1))
    load = rng.normal(size=(items, k)) * .6
    shape = ("dense", "simple", "zero item")[int(rng.integers(3))]
    if shape == "simple":
        load = np.zeros((items, k))
        load[np.arange(items), np.arange(items) % k] = rng.uniform(.5, .9, items) * rng.choice([-1, 1], items)
        load += rng.normal(size=load.shape) * .02
        turn = np.linalg.qr(rng.normal(size=(k, k)))[0]
        mixed = load @ turn
    else:
        if shape == "zero item":
            load[int(rng.integers(items))] = 0
        mixed = load
    alpha = float(rng.choice([.25, .5, 1, 2]))
    seed = int(rng.integers(1000))
    where = f"{shape} {items}x{k} alpha {alpha} orthogonal {orthogonal}"
    held = mixed.copy()
    options = {"seed": seed}
    guess = None
    if rng.random() < .4:
        guess = rng.uniform(.1, 3, k * (k - 1))
        options["initial_guess"] = guess
    if orthogonal:
        options["orthogonal"] = True
    if alpha != .5:
        options["alpha"] = alpha
    kept = None if guess is None else guess.copy()
    rotated, bases = mon.call("returns", sparsify_loadings, mixed, **options)
    mon.same("unchanged", mixed, held, msg="loadings")
    if guess is not None:
        mon.same("unchanged", guess, kept, msg="initial guess")
    mon.check("unit", np.shape(bases) == (k, k) and np.shape(rotated) == mixed.shape, f"{where}: shapes")
    mon.close("unit", (bases ** 2).sum(1), np.ones(k), 1e-10, msg=f"{where}: unit length bases")
    mon.close("rotation", rotated @ bases, mixed, 1e-7, msg=f"{where}: rotated times bases")
    if orthogonal:
        mon.close("orthonormal", bases @ bases.T, np.eye(k), 1e-3, msg=where)
        mon.close("orthonormal", (rotated ** 2).sum(1), (mixed ** 2).sum(1), 5e-3, 5e-3, msg=f"{where}: communalities")
    weight = 50.0 if orthogonal else alpha
    here = criterion(mixed, bases, weight)
    starts = [np.eye(k)]
    if guess is not None:
        starts.append(np.array([own_vector(g) for g in guess.reshape(k, -1)]))
    for start in starts[1:]:
        mon.check("criterion", here <= criterion(mixed, start, weight) + 1e-3, f"{where}: worse than its starting point",
                  got=here, start=criterion(mixed, start, weight))
    # a better point next to the solution would show that another criterion was minimised
    for _ in range(12):
        near = bases + rng.normal(size=bases.shape) * float(rng.choice([.3, .05]))
        near /= np.linalg.norm(near, axis=1)[:, None]
        mon.check("criterion", here <= criterion(mixed, near, weight) + .02, f"{where}: a nearby rotation has a lower criterion",
                  got=here, near=criterion(mixed, near, weight))
    if shape == "simple" and k == 2:                        # the structure that was mixed is among the candidates
        best = criterion(mixed, turn, weight)
        mon.check("simple structure", here <= best + .1, f"{where}: structure not found", got=here, best=best)
    again = sparsify_loadings(mixed, **options)
    mon.same("seed", again[0], rotated, msg=f"{where}: same seed, loadings")
    mon.same("seed", again[1], bases, msg=f"{where}: same seed, bases")
    generator = dict(options, seed=np.random.default_rng(seed))
    other = dict(options, seed=np.random.default_rng(seed))
    mon.same("seed", sparsify_loadings(mixed, **generator)[1], sparsify_loadings(mixed, **other)[1], msg=f"{where}: same generator")
    mon.state("sparsify", shape, items, k, orthogonal, alpha, guess is None)
    mon.sample(kind="sparsify", where=where, criterion=here)


def procrustes(rng, mon):
    n, k = int(rng.integers(2, 30)), int(rng.integers(1, 7))
    kind = ("general", "rotated", "reflected", "deficient", "scaled")[int(rng.integers(5))]
    second = rng.normal(size=(n, k))
    turn = np.linalg.qr(rng.normal(size=(k, k)))[0]
    target = rng.normal(size=(n, k))
    if kind in ("rotated", "reflected"):
        if (np.linalg.det(turn) < 0) != (kind == "reflected"):
            turn[:, 0] *= -1
        target = second @ turn
    if kind == "deficient" and k > 1:
        second[:, -1] = second[:, 0]
    if kind == "scaled":
        target, second = target * 1e4, second * 1e-3
    held = target.copy(), second.copy()
    rotation = mon.call("returns", procrustes_rotation, target, second)
    mon.same("unchanged", target, held[0], msg="target")
    mon.same("unchanged", second, held[1], msg="collected")
    where = f"{kind} {n}x{k}"
    mon.close("orthogonal", rotation @ rotation.T, np.eye(k), 1e-10, msg=where)
    mon.close("orthogonal", rotation.T @ rotation, np.eye(k), 1e-10, msg=where)

    def miss(r):
        return ((target - second @ r) ** 2).sum()
    here = miss(rotation)
    # the least squares optimum: squared norms less twice the nuclear norm
    best = (target ** 2).sum() + (second ** 2).sum() - 2 * np.linalg.svd(target.T @ second, compute_uv=False).sum()
    size = (target ** 2).sum() + (second ** 2).sum()
    mon.close("closest", here, best, 1e-9 * size, msg=f"{where}: least squares optimum")
    for _ in range(10):
        step = np.linalg.qr(rng.normal(size=(k, k)))[0]
        mon.check("closest", miss(step) >= here - 1e-9 * size, f"{where}: another rotation is closer", got=here, other=miss(step))
    mon.check("closest", miss(np.eye(k)) >= here - 1e-9 * size, f"{where}: no rotation is closer")
    if kind in ("rotated", "reflected") and n > k:
        mon.close("closest", rotation, turn, 1e-8, msg=f"{where}: recovered")
    mon.state("procrustes", kind, n, k)
    mon.sample(kind="procrustes", where=where)


def sphere(rng, mon):
    for _ in range(12):
        n = int(rng.integers(2, 9))
        vector = rng.normal(size=n) * float(rng.choice([1e-6, 1, 1e6]))
        kind = ("general", "zero tail", "sparse", "axis", "negative", "integer", "flat")[int(rng.integers(7))]
        if kind == "zero tail":
            vector[int(rng.integers(1, n)):] = 0
        elif kind == "sparse":
            vector[rng.random(n) < .6] = 0
        elif kind == "axis":
            vector = np.zeros(n)
            vector[int(rng.integers(n))] = float(rng.choice([-2, 3]))
        elif kind == "negative":
            vector = -np.abs(vector)
        elif kind == "integer":
            vector = rng.integers(-3, 4, n)
        elif kind == "flat":
            vector[-1] = vector[0] * 1e-9
        if not np.any(vector):
            vector[0] = 1
        held = vector.copy()
        angles = mon.call("returns", hyperspherical_angles, vector)
        mon.same("unchanged", vector, held, msg="vector")
        mon.check("round trip", np.shape(angles) == (n - 1,) and np.isfinite(angles).all(), f"{kind} {n}: angles", angles=angles)
        back = mon.call("returns", hyperspherical_vector, angles)
        mon.close("round trip", back, vector / np.linalg.norm(vector), 5e-8, msg=f"{kind} {n}: vector to angles and back",
                  vector=vector, angles=angles)
        mon.check("round trip", (angles[:-1] >= 0).all() and (angles[:-1] <= np.pi).all() and 0 <= angles[-1] <= 2 * np.pi,
                  f"{kind} {n}: ranges of the angles", angles=angles)
        given = np.r_[rng.uniform(.05, np.pi - .05, n - 2), rng.uniform(.05, 2 * np.pi - .05)]
        unit = mon.call("returns", hyperspherical_vector, given)
        mon.close("vector", unit, own_vector(given), 1e-13, msg=f"{n}: formula")
        mon.close("vector", np.sum(unit ** 2), 1.0, 1e-12, msg=f"{n}: unit length")
        mon.close("round trip", hyperspherical_angles(unit * float(rng.choice([.2, 1, 7]))), given, 1e-6,
                  msg=f"{n}: angles to vector and back", given=given)
        wild = rng.uniform(-20, 20, n - 1)
        mon.close("vector", hyperspherical_vector(list(wild)), own_vector(wild), 1e-12, msg=f"{n}: any angles")
        mon.state("sphere", kind, n)
    mon.sample(kind="sphere", vector=vector, angles=angles)


def entropies(rng, mon):
    for _ in range(12):
        shape = (int(rng.integers(1, 20)), int(rng.integers(1, 8)))
        kind = ("normal", "sparse", "integer", "large", "zero row")[int(rng.integers(5))]
        a = rng.normal(size=shape)
        if kind == "sparse":
            a[rng.random(shape) < .5] = 0
        elif kind == "integer":
            a = rng.integers(-4, 5, shape)
        elif kind == "large":
            a = a * 1e5
        elif kind == "zero row":
            a[int(rng.integers(shape[0]))] = 0
        held = a.copy()
        mon.close("entropy", mon.call("returns", entropy, a), own_entropy(a), 1e-9, 1e-9, msg=f"{kind} {shape}: rows")
        mon.close("entropy", mon.call("returns", entropy, a, axis=0), own_entropy(a, 0), 1e-9, 1e-9, msg=f"{kind} {shape}: columns")
        mon.same("unchanged", a, held, msg="array")
        # rows sum, never negative, at most rows * log(columns), free of the scale of a row
        mon.check("entropy", -1e-9 <= entropy(a) <= shape[0] * math.log(shape[1]) + 1e-9, f"{kind} {shape}: bounds", got=entropy(a))
        mon.close("entropy", entropy(a * 3.0 * np.arange(1, shape[0] + 1)[:, None]), entropy(a), 1e-9, 1e-9, msg="rows rescaled")
        mon.state("entropy", kind, shape)
    mon.sample(kind="entropy", shape=shape)


def run(spec, mon):
    rng = gen.rng_of(spec)
    kind = spec["kind"]
    if kind == "sparsify":
        sparsify(spec, rng, mon)
    else:
        for _ in range(8 if kind == "procrustes" else 1):
            {"procrustes": procrustes, "sphere": sphere, "entropy": entropies}[kind](rng, mon)
