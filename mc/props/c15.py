"""C15: density filtering keeps a sparse and covering set of instances."""

import math
from itertools import product

import numpy as np
from instancespace.utils.filter import compute_uniformity, do_filter, filter_instance

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every set of points on a grid with every performance and every labelling as good, "
    "for each of the four types and several distances, distances that occur exactly "
    "included; non-trivial: an instance is dropped"
)
BOUNDS = {
    "quick": "4 points on a line of 4 with 1 algorithm of 2 performances; 5 points on a "
    "line of 4 and 6 on a line of 3 with 1 good algorithm; 4 points on a 2x2 grid with "
    "2 algorithms; 3 with 3 features; 3 with 5 algorithms; the first point at the edge; "
    "12 sets of 8 to 60 instances each with up to 5 features and 7 algorithms",
    "thorough": "5 points on a line of 4 with 1 algorithm; 7 points; 5 points on a 2x2 "
    "grid with 2 algorithms; 15 sets of up to 100 instances",
}
TYPES = ["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]


def cases(tier):
    deep = tier == "thorough"
    grid = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0)]
    line = [(float(i),) for i in range(4)]
    spaces = [
        # points, number, performances of an instance, labels of an instance, distances
        (line, 5 if deep else 4, [(0.0,), (1.5,)], [(0,), (1,)], [1.0, 1.5]),
        (line, 6 if deep else 5, [(0.0,)], [(0,), (1,)], [0.0, 1.0, 2.0] if deep else [0.0, 1.0]),
        (line[:3], 7 if deep else 6, [(0.0,)], [(1,)], [0.5, 1.0]),
        (grid, 5 if deep else 4, [(0.0, 0.0), (1.0, 0.0)],
         [(0, 1), (1, 1)] if not deep else [(0, 0), (0, 1), (1, 1)], [1.0, 1.5] if not deep else [1.0, 1.2, 1.5]),
        (grid, 3, [(0.0, 0.0, 0.0), (1.0, 0.0, 1.0), (1.0, 0.0, 0.0)],
         [(1, 1, 1), (1, 0, 1), (0, 1, 0)], [0.9, 1.0, 1.5]),
        ([(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 1.0)], 3, [(0.0,), (0.5,), (1.0,)],
         [(0,), (1,)], [1.0, 1.5, 2.0]),
        ([(0.0, 0.0), (1.0, 0.0)], 3, [(0.0,) * 5, (1.0, 0.0, 0.0, 1.0, 0.0)],
         [(1,) * 5, (1, 1, 1, 0, 1), (0, 0, 0, 0, 1)], [0.5, 1.0]),
    ]
    for n, f, a in product((8, 15, 31, 60) if not deep else (8, 15, 31, 60, 100),
                           (1, 2, 5), (1, 2, 4, 7)):
        yield {"many": (n, f, a)}
    for number, (points, n, ys, bins, distances) in enumerate(spaces):
        for xs in product(range(len(points)), repeat=n):
            # Translations and reflections of the same points are the same.
            if not deep and xs[0] > (number == 1):
                continue
            yield {"space": number, "x": [points[i] for i in xs], "ys": ys,
                   "bins": bins, "distances": distances}


def comparable(kind, dy, gamma, both):
    return {
        "Ftr": True,
        "Ftr&AP": dy <= gamma,
        "Ftr&Good": both,
        "Ftr&AP&Good": both and dy <= gamma,
    }[kind]


def relation(x, y, b, kind, distance):
    """Which pairs are close, and which are close and comparable."""
    n = len(x)
    gamma = math.sqrt(y.shape[1] / x.shape[1]) * distance
    near, similar = {}, {}
    for i in range(n):
        for j in range(n):
            close = math.dist(x[i], x[j]) <= distance
            near[i, j] = close
            similar[i, j] = close and comparable(
                kind, math.dist(y[i], y[j]), gamma, all(b[i]) and all(b[j]),
            )
    return near, similar


def reference(x, y, b, kind, distance):
    """The set of kept instances: the first ones, greedily."""
    _, similar = relation(x, y, b, kind, distance)
    kept = []
    for j in range(len(x)):
        if not any(similar[i, j] for i in kept):
            kept.append(j)
    return kept


def many(n, f, a, rec):
    """More instances, features and algorithms: values with ties, in a mixed order."""
    i, j, k = np.arange(n)[:, None], np.arange(f), np.arange(a)
    x = ((i * (7 + 4 * j) + i * i * (j + 1)) % 11 / 2).astype(float)
    y = ((i * (5 + 3 * k) + i * i) % 4).astype(float)
    b = (i * (3 + k) + i * i // 3) % 9 > 0
    for kind in TYPES:
        for distance in (0.5, 1.0, 2.0, 2.7, 3.5):
            one(x, y, b, kind, distance, rec)
            one(x[::-1].copy(), y, b, kind, distance, rec)


def run(case, rec):
    if "many" in case:
        many(*case["many"], rec)
        return
    x = np.array(case["x"], dtype=float)
    n = len(x)
    ys = [tuple(v) for v in case["ys"]]
    bins = [tuple(v) for v in case["bins"]]
    for y, b in product(product(ys, repeat=n), product(bins, repeat=n)):
        for kind in TYPES:
            for distance in case["distances"]:
                one(x, np.array(y), np.array(b, dtype=bool), kind, distance, rec)


def one(x, y, b, kind, distance, rec):
    rec.evaluations += 1
    rec.step()
    rec.trace()
    n = len(x)
    what = (f"{kind} with {distance} of features {x.tolist()}, performances "
            f"{y.tolist()}, good {b.astype(int).tolist()}")
    before = x.copy(), y.copy(), b.copy()
    if rec.evaluations % 8:
        dropped, different, visa = filter_instance(x, y, b, kind, distance)
        uniformity = compute_uniformity(x, dropped)
    else:
        dropped, different, visa, uniformity = do_filter(x, y, b, kind, distance)
    rec.check(all(np.array_equal(p, q) for p, q in zip(before, (x, y, b))),
              lambda: f"{what}: the inputs were modified")
    near, similar = relation(x, y, b, kind, distance)
    dropped = [bool(v) for v in dropped]
    kept = [i for i in range(n) if not dropped[i]]
    rec.state((kind, distance, x.tolist(), y.tolist(), b.tolist(), kept), any(dropped))
    rec.check(len(dropped) == n and not dropped[0],
              lambda: f"{what}: the first instance is dropped")
    for i in kept:
        for j in kept:
            if i < j:
                rec.check(not similar[i, j],
                          lambda: f"{what}: {i} and {j} are both kept of {kept}")
    for j in range(n):
        if dropped[j]:
            rec.check(any(similar[i, j] for i in kept),
                      lambda: f"{what}: {j} is dropped, but only {kept} are kept")
        close = any(near[i, j] for i in kept if i < j)
        rec.check(bool(different[j]) == (not close),
                  lambda: f"{what}: {j} marked dissimilar {different[j]}, kept {kept}")
        rec.check(
            bool(visa[j]) == (close and not dropped[j] and kind != "Ftr"),
            lambda: f"{what}: {j} marked as close but kept: {visa[j]}, kept {kept}",
        )
    if len(kept) > 2:
        nearest = [
            min(math.dist(x[i], x[j]) for j in kept if j != i) for i in kept
        ]
        mean = sum(nearest) / len(nearest)
        deviation = math.sqrt(
            sum((v - mean) ** 2 for v in nearest) / (len(nearest) - 1),
        )
        if mean > 0:
            rec.check(abs(uniformity - (1 - deviation / mean)) < 1e-9,
                      lambda: f"{what}: uniformity {uniformity} of {kept}")
    if len(kept) == 3 and n == 5:
        rec.sample({"case": what, "kept": kept})
