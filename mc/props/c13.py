"""C13: normalisation is monotone, standardised and invertible from its parameters."""

from itertools import combinations_with_replacement, product

import numpy as np

from mc.props.prelimlib import NAN, close, options, prelim

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every column over an alphabet with ties, constants, negative and missing values as "
    "a feature and as the performances of an algorithm, with every setting of bounding "
    "and normalisation; every pair of columns; non-trivial: not constant"
)
BOUNDS = {
    "quick": "all columns of 1-3 values of 5, all multisets of 4-6 values; all pairs of "
    "columns of 3 values of 4; all columns of 3-4 values of 3 that are all but equal; all "
    "columns of 2-4 values of 4 that are large or far below zero",
    "thorough": "all columns of 1-6 values of 5, all multisets of 7-10 values of 6; all "
    "pairs of columns of 4 values of 4",
}
ALPHABET = [0.0, 1.0, 2.5, -30.0, NAN, 700.0]
PACK = 60


def cases(tier):
    short, longs = (3, (4, 5, 6)) if tier == "quick" else (6, (7, 8, 9, 10))
    for n in range(1, short + 1):
        yield from packed(product(ALPHABET[:5], repeat=n))
    size = 5 if tier == "quick" else 6
    for n in longs:
        yield from packed(
            tuple(c[(3 * i) % n] if n % 3 else c[-i] for i in range(n))
            for c in combinations_with_replacement(ALPHABET[:size], n)
        )
    # A spread that is small, or small for the size of the values, is a spread.
    for small in (2**-20, 2**-30):
        for n in (3, 4) if tier == "quick" else (2, 3, 4, 5):
            yield from packed(
                tuple(v * small + 1 for v in c)
                for c in product((0.0, 1.0, 2.0), repeat=n)
            )
    # Values that are large, or far below zero.
    for scale, offset in ((2048.0, -6144.0), (2.0**20, 2.0**21), (1.0, -1100.0)):
        for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
            yield from packed(
                tuple(v * scale + offset for v in c)
                for c in product((0.0, 1.0, 3.0, NAN), repeat=n)
            )
    rows = 3 if tier == "quick" else 4
    # The rows are in the order of the first column: see C14 for their alignment.
    for first in combinations_with_replacement([0.0, 1.0, -30.0, NAN], rows):
        yield {"pairs": first}


def packed(columns):
    pack = []
    for column in columns:
        if all(v != v for v in column):
            continue
        pack.append(column)
        if len(pack) == PACK:
            yield {"columns": pack}
            pack = []
    if pack:
        yield {"columns": pack}


def from_json(case):
    def value(v):
        return NAN if v is None or v != v else v

    return {
        k: [value(v) for v in c] if k == "pairs" else [[value(v) for v in d] for d in c]
        for k, c in case.items()
    }


def boxcox(values, lam):
    return np.log(values) if lam == 0 else np.expm1(lam * np.log(values)) / lam


def run(case, rec):
    if "columns" in case:
        columns = [list(c) for c in case["columns"]]
        for start in range(0, len(columns), 12):
            # A few performances at a time: they share their minimum.
            some = columns[start : start + 12]
            one(some, some[::-1], rec)
        return
    first = list(case["pairs"])
    for second in product([0.0, 1.0, -30.0, NAN], repeat=len(first)):
        if any(v == v for v in first) and any(v == v for v in second):
            one([first, list(second)], [list(second), first], rec)


def one(xs, ys, rec):
    x, y = np.array(xs, dtype=float).T, np.array(ys, dtype=float).T
    off = prelim(x, y, options(), rec)
    rec.check(np.array_equal(off.x, x, equal_nan=True)
              and np.array_equal(off.y, y, equal_nan=True),
              lambda: f"{x.tolist()} changes although normalisation is off")
    bounded = prelim(x, y, options(bound=True), rec)
    on = both = prelim(x, y, options(norm=True), rec)
    if not np.array_equal(bounded.x, x, equal_nan=True):
        both = prelim(x, y, options(bound=True, norm=True), rec)
    for out in (on, both):
        rec.check(np.array_equal(out.x_raw, x, equal_nan=True)
                  and np.array_equal(out.y_raw, y, equal_nan=True),
                  "normalisation changes the raw values")
        rec.check(abs(out.min_y - np.nanmin(y)) < 1e-9,
                  lambda: f"the least performance of {y.tolist()} is {out.min_y}")
    tiny = np.finfo(float).eps
    for j in range(len(xs)):
        rec.evaluations += 1
        column(x[:, j], np.nanmin(x[:, j]) - 1, on.x[:, j], on.min_x[j] - 1,
               on.lambda_x[j], on.mu_x[j], on.sigma_x[j], "feature", rec)
        start = bounded.x[:, j]
        column(start, np.nanmin(start) - 1, both.x[:, j], both.min_x[j] - 1,
               both.lambda_x[j], both.mu_x[j], both.sigma_x[j],
               "bounded feature", rec)
    for j in range(len(ys)):
        shift = np.nanmin(y) - tiny
        column(y[:, j], shift, on.y[:, j], on.min_y - tiny, on.lambda_y[j],
               on.mu_y[j], on.sigma_y[j], "performance", rec)
        rec.check(close(both.y[:, j], on.y[:, j]),
                  "bounding the features changes the performances")


def column(before, shift, after, said, lam, mu, sigma, kind, rec):
    what = f"{kind} {before.tolist()} normalised to {after.tolist()}"
    missing = np.isnan(before)
    rec.check(abs(shift - said) < 1e-9, lambda: f"{what}: reported shift {said}")
    rec.check(np.array_equal(np.isnan(after), missing),
              lambda: f"{what}: missing values differ")
    here, now = before[~missing], after[~missing]
    rec.state((kind, before.tolist(), shift), len(set(here)) > 1)
    if len(set(here)) <= 1:
        rec.check(np.array_equal(now, np.zeros(len(here))),
                  lambda: f"{what}: a constant does not become zero")
        return
    rec.check(np.all(np.isfinite(now)), lambda: f"{what}: not finite")
    rec.check(abs(np.mean(now)) < 1e-6 and abs(np.std(now, ddof=1) - 1) < 1e-6,
              lambda: f"{what}: mean {np.mean(now)}, deviation {np.std(now, ddof=1)}")
    order = np.argsort(here, kind="stable")
    rec.check(np.all(np.diff(now[order]) >= -1e-9),
              lambda: f"{what}: the order is changed")
    same = np.diff(here[order]) == 0
    rec.check(np.all(np.abs(np.diff(now[order])[same]) < 1e-9),
              lambda: f"{what}: equal values become different")
    scale = np.finfo(float).eps if kind == "performance" else 1.0
    shifted = here - np.min(here) + (np.min(here) - (said + scale)) + scale
    again = boxcox(shifted, lam)
    rec.check(
        close((again - mu) / sigma, now, 1e-6),
        lambda: f"{what}: lambda {lam}, mean {mu} and deviation {sigma} give "
        f"{((again - mu) / sigma).tolist()}",
    )
    if len(here) > 4:
        rec.sample({"kind": kind, "before": before.tolist(), "after": after.tolist(),
                    "lambda": lam})
