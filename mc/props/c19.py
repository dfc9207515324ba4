"""C19: the estimated boundary is the hull of the feasible feature extremes."""

from itertools import product

import numpy as np
from instancespace.data.options import CloisterOptions
from instancespace.stages.cloister import CloisterInput, CloisterStage

from mc.props.c16 import correlation

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every assignment of the features to up to three sources, with either sign, spread "
    "around zero, positive or negative only, constant, or with zero as its least or "
    "largest value; at three scales of the data; with every threshold, "
    "significance level and projection; non-trivial: an extreme is pruned"
)
BOUNDS = {
    "quick": "2-3 features with every combination, 4-5 features spread around zero; 7 "
    "pairs of thresholds and levels, 2 projections for 2 features",
    "thorough": "2-5 features with every combination, 6 features of 2 sources, 6 "
    "thresholds, 4 levels, 4 projections",
}
N = 14
QUICK = [(0.0, 1.0), (0.0, 0.01), (0.5, 0.01), (0.5, 1.0), (0.93, 0.01), (0.93, 1.0), (0.5, 0.0)]


def cases(tier):
    deep = tier == "thorough"
    for f in range(2, 6 if deep else 5):
        for groups in product(range(min(f, 3)), repeat=f):
            if list(dict.fromkeys(groups)) != list(range(max(groups) + 1)):
                continue
            yield {"groups": groups, "shifts": "0" if f > 3 and not deep else "0+-czZ"[:8 - f],
                   "deep": deep}
    for f in (5, 6) if deep else (5,):
        for groups in product((0, 1), repeat=f - 1):
            yield {"groups": (0, *groups), "shifts": "0", "deep": deep}
    for f in range(2, 5 if deep else 4):
        for groups in product((0, 1), repeat=f - 1):
            for scale in (2.0**-14, 2.0**12):
                yield {"groups": (0, *groups), "shifts": "0+", "deep": deep,
                       "scale": scale}


def data(groups, signs, shifts, noise):
    rng = np.random.default_rng(11)
    sources = rng.normal(size=(N, 3))
    columns = []
    for j, (g, sign, shift) in enumerate(zip(groups, signs, shifts)):
        column = sign * (sources[:, g] + noise * (j + 1) * rng.normal(size=N))
        column = column * (1 + 0.37 * j) + {"+": 9.0, "-": -9.0}.get(shift, 0.05)
        if shift == "c":
            column = np.full(N, 1.3 + j)
        if shift in "zZ":
            column = column - (column.min() if shift == "z" else column.max())
        columns.append(column)
    return np.column_stack(columns)


def projection(f, number):
    return np.array([
        [np.sin(3.1 * j + 1 + number), np.cos(2.3 * j * j + 0.4 + 2 * number)]
        for j in range(f)
    ]).T


def hull(points):
    """Corners of the convex hull in counter-clockwise order, or none if it is flat."""
    points = sorted(set(map(tuple, np.round(points, 10).tolist())))
    scale = max((abs(v) for p in points for v in p), default=1)

    def half(points):
        found = []
        for p in points:
            while len(found) > 1:
                (ax, ay), (bx, by) = found[-2:]
                turn = (bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)
                if turn > 1e-9 * scale * scale:
                    break
                found.pop()
            found.append(p)
        return found[:-1]

    corners = half(points) + half(points[::-1])
    return corners if len(corners) > 2 else []


def same(got, want):
    """Whether two polygons have the same corners in the same cyclic order."""
    got = np.asarray(got, dtype=float)
    if len(want) == 0 or got.size == 0:
        return len(want) == 0 and got.size == 0
    want = np.asarray(want)
    if got.shape != want.shape:
        return False
    return any(np.allclose(np.roll(got, k, axis=0), want, atol=1e-6)
               for k in range(len(got)))


def run(case, rec):
    f = len(case["groups"])
    deep = case["deep"]
    for signs in product((1, -1), repeat=f - 1):
        for shifts in product(case["shifts"], repeat=f):
            x = data(case["groups"], (1, *signs), shifts, 0.12) * case.get("scale", 1)
            stats = {(j, k): correlation(x[:, j], x[:, k])
                     for j in range(f) for k in range(j)}
            low, high = x.min(axis=0), x.max(axis=0)
            corners = np.array(list(product(*zip(low, high))))
            for c, p in product(
                (0.0, 0.5, 0.7, 0.93, 0.99, 1.0), (0.0, 1e-5, 0.05, 1.0),
            ) if deep else QUICK:
                one(case, x, corners, stats, signs, shifts, c, p, rec)


def one(case, x, corners, stats, signs, shifts, c, p, rec):
    f = x.shape[1]
    kept = []
    for corner in corners:
        good = True
        for (j, k), (r, level) in stats.items():
            if r != r or level > p or abs(r) <= c:
                continue
            agree = np.sign(corner[j]) == np.sign(corner[k])
            good = good and agree == (r > 0)
        kept.append(good)
    kept = np.array(kept)
    for number in range(4 if case["deep"] else 1 + (f < 3)):
        rec.evaluations += 1
        rec.step()
        a = projection(f, number)
        before = x.copy(), a.copy()
        out = CloisterStage._run(  # noqa: SLF001
            CloisterInput(x, a, CloisterOptions(p_val=p, c_thres=c)),
        )
        rec.trace()
        rec.check(np.array_equal(x, before[0]) and np.array_equal(a, before[1]),
                  "the inputs were modified")
        what = (f"sources {case['groups']}, signs {signs}, shifts {shifts}, threshold "
                f"{c}, level {p}, projection {number}, scale {case.get('scale', 1)}")
        unit = case.get("scale", 1)
        full = hull(corners @ a.T / unit)
        pruned = hull(corners[kept] @ a.T / unit) if kept.any() else []
        rec.check(same(np.asarray(out.z_edge) / unit, full),
                  lambda: f"{what}: boundary {np.asarray(out.z_edge).tolist()}, not "
                  f"{full} times the scale")
        rec.check(same(np.asarray(out.z_ecorr) / unit, pruned or full),
                  lambda: f"{what}: pruned boundary {np.asarray(out.z_ecorr).tolist()}, "
                  f"not {pruned or full} times the scale")
        rec.state((what, kept.tolist()), not kept.all())
        rec.count("pruned" if pruned and not kept.all() else
                  "nothing left" if not pruned else "complete")
        if pruned and 3 < kept.sum() < 9:
            rec.sample({"case": what, "kept": int(kept.sum()), "boundary": pruned})
