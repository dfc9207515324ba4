"""C18: the projection, its model and its reported errors are consistent."""

from itertools import product

import numpy as np
from instancespace.data.options import PilotOptions
from instancespace.stages.pilot import PilotInput, PilotStage

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every number of features, algorithms and instances and kind of data of the family, "
    "solved analytically, from random and given starting points, and from given "
    "solutions (as arrays and as lists, of the right and of wrong shapes), and with the "
    "rows, features and algorithms in other orders, and with missing performances; every case is non-trivial"
)
BOUNDS = {
    "quick": "2-4 features, 1-3 algorithms, 6, 9 or 13 instances, 5 kinds of data; "
    "12 features once",
    "thorough": "2-7 features, 1-5 algorithms, 6 numbers of instances, 5 kinds of data "
    "in 3 versions, up to 12 trials",
}
KINDS = ["normal", "grid", "related", "linear", "pairs"]


def cases(tier):
    deep = tier == "thorough"
    for f, a, n, kind, version in product(
        range(2, 8 if deep else 5), range(1, 6 if deep else 4),
        (9, 12, 15, 20, 33, 50) if deep else (6, 9, 13), KINDS, range(3 if deep else 1),
    ):
        yield {"f": f, "a": a, "n": n, "kind": kind, "version": version,
               "tries": 12 if deep and f < 5 else 3}


    yield {"f": 12, "a": 2, "n": 20, "kind": "normal", "version": 0, "tries": 2}


def make(case):
    f, a, n = case["f"], case["a"], case["n"]
    rng = np.random.default_rng([f, a, n, case["version"], KINDS.index(case["kind"])])
    x = rng.normal(size=(n, f))
    if case["kind"] == "grid":
        x = np.array([[(i * (j + 2) + i // (j + 2)) % 5 - 2.0 for j in range(f)]
                      for i in range(n)])
        x[0] = x[1]  # the same instance twice
        x += np.eye(n, f) * 0.5
    elif case["kind"] == "related":
        x[:, -1] = x[:, 0] + 0.1 * x[:, -1]
    elif case["kind"] == "pairs":
        # in the second feature the instances that are near are apart
        x[:, 0] = 4 * (np.arange(n) // 2)
        x[:, 1] = np.arange(n) % 2 * 2 - 1 + 0.01 * x[:, 1]
        x[:, 2:] *= 0.1
        x -= x.mean(axis=0)
    y = np.exp(np.clip(x, -3, 3) @ rng.normal(size=(f, a)) * 0.3) + 0.1 * rng.normal(size=(n, a))
    if case["kind"] == "linear":
        y = x @ rng.normal(size=(f, a))
    return x, y


def solve(x, y, options, rec, names=None):
    rec.evaluations += 1
    rec.step()
    names = names or [f"feature_{'zyxwvutsrqpo'[j]}" for j in range(x.shape[1])]
    before = x.copy(), y.copy()
    kept = [None if v is None else np.array(v, dtype=float)
            for v in (options.x0, options.alpha)]
    out = PilotStage._run(PilotInput(x, y, list(names), options))  # noqa: SLF001
    rec.trace()
    rec.check(np.array_equal(x, before[0], equal_nan=True) and np.array_equal(y, before[1], equal_nan=True),
              "the inputs were modified")
    for v, w in zip((options.x0, options.alpha), kept):
        rec.check(v is None or np.array_equal(np.array(v, dtype=float), w),
                  "the options were modified")
    return out, names


def near(a, b, tolerance=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tolerance, atol=tolerance,
                                              equal_nan=True)


def objective(alpha, x, y):
    f, m = x.shape[1], x.shape[1] + y.shape[1]
    a, b = alpha[: 2 * f].reshape(2, f), alpha[2 * f :].reshape(m, 2)
    # Every instance counts the same, also if some of its performances are missing.
    return float(np.mean(
        np.nanmean((np.hstack([x, y]) - x @ a.T @ b.T) ** 2, axis=1),
    ))


def distances(z):
    n = len(z)
    return np.array([np.linalg.norm(z[i] - z[j])
                     for i in range(n) for j in range(i + 1, n)])


def consistent(out, names, x, y, what, rec, loose=1e-7):
    """The equations that relate the parts of any solution."""
    f, a = x.shape[1], y.shape[1]
    rec.check(
        out.a.shape == (2, f) and out.z.shape == (len(x), 2) and out.b.shape == (f, 2)
        and out.c.shape == (2, a),
        lambda: f"{what}: shapes {out.a.shape}, {out.z.shape}, {out.b.shape}, "
        f"{out.c.shape}",
    )
    rec.check(near(out.z, x @ out.a.T), lambda: f"{what}: Z is not X A'")
    again = out.z @ np.vstack([out.b, out.c.T]).T
    both = np.hstack([x, y])
    error = float(np.sum((both - again) ** 2))
    rec.check(abs(out.error - error) <= 1e-7 * (1 + error),
              lambda: f"{what}: error {out.error}, not {error}")
    r2 = [np.corrcoef(both[:, j], again[:, j])[0, 1] ** 2 for j in range(f + a)]
    rec.check(near(out.r2, r2, loose), lambda: f"{what}: R2 {out.r2}, not {r2}")
    # The approximation is not just any: it explains the features and performances.
    rec.check(error <= np.sum(both**2) * (1 + 1e-9),
              lambda: f"{what}: error {error} is worse than none")
    table = out.pilot_summary
    rec.check(
        list(table.columns)[1:] == names
        and list(table.iloc[:, 0]) == ["Z_{1}", "Z_{2}"]
        and near(table.iloc[:, 1:].to_numpy(dtype=float), out.a),
        lambda: f"{what}: summary {table}",
    )
    rec.state((what, np.round(out.a, 6).tolist()))
    return both, again


def chosen(out, x, y, what, rec):
    """The numerical solution is the trial that preserves distances best."""
    f, m = x.shape[1], x.shape[1] + y.shape[1]
    tries = out.alpha.shape[1]
    rec.check(
        out.alpha.shape[0] == 2 * m + 2 * f and len(out.eoptim) == len(out.perf) == tries,
        lambda: f"{what}: {out.alpha.shape}, {out.eoptim}, {out.perf}",
    )
    far = distances(x)
    perf = []
    for i in range(tries):
        value = objective(out.alpha[:, i], x, y)
        rec.check(abs(value - out.eoptim[i]) <= 1e-9 * (1 + value),
                  lambda: f"{what}: optimum {out.eoptim[i]} of trial {i}, not {value}")
        start = objective(out.X0[:, i], x, y)
        rec.check(value <= start + 1e-12,
                  lambda: f"{what}: trial {i} ends at {value}, above {start}")
        a = out.alpha[: 2 * f, i].reshape(2, f)
        with np.errstate(invalid="ignore"):
            perf.append(np.corrcoef(far, distances(x @ a.T))[0, 1])
    rec.check(near(out.perf, perf), lambda: f"{what}: performance {out.perf}, not {perf}")
    if np.isnan(perf).all():
        return
    best = int(np.nanargmax(out.perf))
    match(out, out.alpha[:, best], f, what, rec)


def match(out, alpha, f, what, rec):
    a = alpha[: 2 * f].reshape(2, f)
    b = alpha[2 * f :].reshape(-1, 2)
    rec.check(near(out.a, a) and near(out.b, b[:f]) and near(out.c, b[f:].T),
              lambda: f"{what}: A, B and C are not those of the chosen solution")


def run(case, rec):
    x, y = make(case)
    f, a, n = case["f"], case["a"], case["n"]
    size = 2 * (f + a) + 2 * f
    tries = case["tries"]
    what = f"{case['kind']} data, {f} features, {a} algorithms, {n} instances"

    # Analytically.
    label = what + ", analytic"
    out, names = solve(x, y, PilotOptions.default(analytic=True), rec)
    both, _ = consistent(out, names, x, y, label, rec, 2e-3)
    v = np.vstack([out.b, out.c.T])
    values, vectors = np.linalg.eigh(both.T @ both)
    rec.check(near(v.T @ v, np.eye(2), 1e-6), lambda: f"{label}: B is not orthonormal")
    if values[-2] - values[-3] > 1e-6 * values[-1]:
        top = vectors[:, -2:]
        rec.check(near(v @ v.T, top @ top.T, 1e-6),
                  lambda: f"{label}: B does not span the principal directions")
    # Given B, no other A has a smaller error.
    slope = v.T @ (both - x @ out.a.T @ v.T).T @ x
    rec.check(np.max(np.abs(slope)) < 1e-6 * (1 + np.sum(both**2)),
              lambda: f"{label}: A is not optimal, slope {slope.tolist()}")
    if case["kind"] == "linear" and f == 2:
        rec.check(out.error < 1e-9 * np.sum(both**2),
                  lambda: f"{label}: exact data is not reproduced, error {out.error}")
    for turn in (1, n // 2):
        order = np.roll(np.arange(n)[::-1], turn)
        other, _ = solve(x[order], y[order], PilotOptions.default(analytic=True), rec)
        if values[-2] - values[-3] > 1e-6 * values[-1] < values[-1] - values[-2]:
            signs = np.sign(np.sum(other.z * out.z[order], axis=0))
            rec.check(near(other.z * signs, out.z[order], 1e-5),
                      lambda: f"{label}: differs when the rows are reordered")
    swapped = list(range(f))[::-1]
    other, _ = solve(x[:, swapped], y, PilotOptions.default(analytic=True), rec,
                     [names[j] for j in swapped])
    consistent(other, [names[j] for j in swapped], x[:, swapped], y,
               label + " reversed", rec, 2e-3)
    rec.check(abs(other.error - out.error) < 1e-6 * (1 + out.error),
              lambda: f"{label}: the error depends on the order of the features")

    # Numerically, from random starting points.
    label = what + ", numerical"
    options = PilotOptions.default(n_tries=tries)
    out, _ = solve(x, y, options, rec)
    consistent(out, names, x, y, label, rec)
    rec.check(out.alpha.shape[1] == tries, lambda: f"{label}: {out.alpha.shape[1]} tries")
    chosen(out, x, y, label, rec)
    again, _ = solve(x, y, options, rec)
    rec.check(np.array_equal(again.alpha, out.alpha) and np.array_equal(again.z, out.z),
              lambda: f"{label}: a second run differs")

    # From given starting points.
    label = what + ", given start"
    start = np.array([[np.sin(i * 3 + 7 * k + f) * (1 + 2 * k) for k in range(2)]
                      for i in range(size)])
    for given in (start, start.tolist()):
        out, _ = solve(x, y, PilotOptions.default(n_tries=2, x0=given), rec)
        rec.check(near(out.X0, start), lambda: f"{label}: the start is not used")
        consistent(out, names, x, y, label, rec)
        chosen(out, x, y, label, rec)

    # From starting points of which one leads nowhere: its projection is a point.
    label = what + ", degenerate start"
    for k in range(3):
        start = np.array([[np.sin(i * 3 + 7 * j + f) for j in range(3)]
                          for i in range(size)])
        start[:, k] = 0
        out, _ = solve(x, y, PilotOptions.default(n_tries=3, x0=start), rec)
        consistent(out, names, x, y, label, rec)
        chosen(out, x, y, label, rec)

    # From starting points that are so near to nothing that they are kept as they are.
    label = what + ", stalled start"
    start = np.zeros((size, 3))
    for k in range(3):
        start[(k, f + k % 2), k] = 1e-8, 2e-9
        start[2 * f :, k] = [1e-8 * np.sin(i + k) for i in range(size - 2 * f)]
    out, _ = solve(x, y, PilotOptions.default(n_tries=3, x0=start), rec)
    consistent(out, names, x, y, label, rec)
    chosen(out, x, y, label, rec)
    rec.count("negative correlations of distances", int(np.sum(out.perf < -0.1)))

    # With missing performances.
    label = what + ", missing performances"
    part = y.copy()
    part[::4, 0] = np.nan
    part[1::5, a - 1] = np.nan
    out, _ = solve(x, part, PilotOptions.default(n_tries=2), rec)
    chosen(out, x, part, label, rec)
    rec.check(near(out.z, x @ out.a.T) and np.all(np.isfinite(out.z)),
              lambda: f"{label}: Z is not X A'")
    again = out.z @ np.vstack([out.b, out.c.T]).T
    full = [j for j in range(f + a) if j < f or not np.isnan(part[:, j - f]).any()]
    r2 = {j: np.corrcoef(np.hstack([x, part])[:, j], again[:, j])[0, 1] ** 2
          for j in full}
    rec.check(
        len(out.r2) == f + a and all(near(out.r2[j], r2[j]) for j in full),
        lambda: f"{label}: R2 {out.r2}, not {r2}",
    )

    # From a given solution.
    label = what + ", given solution"
    solution = np.array([[np.cos(i * 5 + a)] for i in range(size)]) * 0.3
    for given in (solution, solution.tolist()):
        out, _ = solve(x, y, PilotOptions.default(alpha=given), rec)
        match(out, solution[:, 0], f, label, rec)
        rec.check(near(out.z, x @ out.a.T), lambda: f"{label}: Z is not X A'")
        again = out.z @ np.vstack([out.b, out.c.T]).T
        error = np.sum((both - again) ** 2)
        rec.check(abs(out.error - error) < 1e-7 * (1 + error),
                  lambda: f"{label}: error {out.error}, not {error}")
    # One of another shape is not a solution.
    for wrong in (solution[:-1], solution.T, solution[:, 0], np.hstack([solution] * 2)):
        out, _ = solve(x, y, PilotOptions.default(alpha=wrong, n_tries=1), rec)
        consistent(out, names, x, y, label + " of another shape", rec)
        chosen(out, x, y, label + " of another shape", rec)
    rec.sample({"case": what, "error": float(out.error)})
