"""C12: outliers are bounded at the median plus and minus five quartile ranges."""

import math
from itertools import combinations_with_replacement, product

import numpy as np

from mc.props.prelimlib import NAN, close, options, prelim

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every feature column over an alphabet with outliers, ties and missing values, with "
    "bounding on and off, packed into tables; every pair of short columns in a table of "
    "their own; non-trivial: some value is replaced, or missing"
)
BOUNDS = {
    "quick": "all columns of 1-5 values of 6, all multisets of 6-12 values in 2 orders, "
    "those of 13-20 values of 4, "
    "those of 5-11 values with infinite ones, all pairs of columns of 3 values of 4",
    "thorough": "all columns of 1-7 values of 6, all multisets of 8-16 values in 4 "
    "orders, those of 5-14 values with infinite ones, all pairs of columns of 4 values",
}
ALPHABET = [0.0, 1.0, 2.7, 100.0, -40.0, NAN]
PACK = 400


def cases(tier):
    short, longs = (5, range(6, 13)) if tier == "quick" else (7, range(8, 17))
    for n in range(1, short + 1):
        yield from packed(product(ALPHABET, repeat=n))
    for n in longs:
        turns = (0, 3) if tier == "quick" else (0, 1, 3, 5)
        yield from packed(
            spread(c, t) for c in combinations_with_replacement(ALPHABET, n)
            for t in turns
        )
    for n in range(13, 21) if tier == "quick" else range(17, 26):
        yield from packed(
            spread(c, n % 5)
            for c in combinations_with_replacement([1.0, 2.7, 100.0, NAN], n)
        )
    infinite = [math.inf, -math.inf, 1.0, 2.5, NAN]
    for n in (5, 6) if tier == "quick" else (5, 6, 7):
        yield from packed(product(infinite, repeat=n))
    for n in range(7, 12 if tier == "quick" else 15):
        yield from packed(
            spread(c, t)
            for c in combinations_with_replacement([*infinite, 0.0, 100.0], n)
            if math.inf in c or -math.inf in c
            for t in (0, 3)
        )
    rows = 3 if tier == "quick" else 4
    for first in product([0.0, 1.0, 100.0, NAN], repeat=rows):
        yield {"pairs": first}


def has_quartiles(column):
    """Whether the quartiles and their neighbours, and so the bounds, are finite."""
    here = sorted(v for v in column if v == v)
    last = len(here) - 1
    around = [here[min(int(q * last) + i, last)] for q in (0.25, 0.75) for i in (0, 1)]
    return not any(map(math.isinf, around))


def spread(column, turn):
    """Another order of the column: every seventh value, starting at a turn."""
    n = len(column)
    step = next(s for s in (7, 5, 3, 11, 13, 1) if np.gcd(s, n) == 1)
    return tuple(column[(turn + i * step) % n] for i in range(n))


def packed(columns):
    pack = []
    for column in columns:
        if all(v != v for v in column):
            continue  # preprocessing removes such features
        if not has_quartiles(column):
            continue
        pack.append(column)
        if len(pack) == PACK:
            yield {"columns": pack}
            pack = []
    if pack:
        yield {"columns": pack}


def from_json(case):
    def value(v):
        return NAN if v is None or v != v else v

    return {
        k: [value(v) for v in c] if k == "pairs" else [[value(v) for v in d] for d in c]
        for k, c in case.items()
    }


def quantile(values, q):
    """The quantile, as the midpoint of the neighbours of an inexact rank."""
    rank = q * (len(values) - 1)
    low, high = int(np.floor(rank)), int(np.ceil(rank))
    return values[low] if low == high else (values[low] + values[high]) / 2


def bounds(column):
    here = sorted(v for v in column if v == v)
    n = len(here)
    median = (here[(n - 1) // 2] + here[n // 2]) / 2
    iqr = quantile(here, 0.75) - quantile(here, 0.25)
    return median, iqr, median + 5 * iqr, median - 5 * iqr


def run(case, rec):
    if "columns" in case:
        one([list(c) for c in case["columns"]], rec)
        return
    first = list(case["pairs"])
    for second in product([0.0, 1.0, 100.0, NAN], repeat=len(first)):
        if any(v == v for v in first) and any(v == v for v in second):
            one([first, list(second)], rec)


def one(columns, rec):
    x = np.array(columns, dtype=float).T
    n, f = x.shape
    y = np.array([[i + 1.0, 2.0 * i] for i in range(n)])
    on = prelim(x, y, options(bound=True), rec)
    off = prelim(x, y, options(bound=False), rec)
    for out in (on, off):
        rec.check(close(out.y, y, 0), lambda: f"bounding changes performances {y}")
    rec.check(np.array_equal(off.x, x, equal_nan=True),
              "features are changed although bounding is off")
    rec.check(np.array_equal(on.x_raw, x, equal_nan=True), "raw features are changed")
    for j, column in enumerate(columns):
        rec.evaluations += 1
        median, iqr, high, low = bounds(column)
        for out in (on, off):
            got = [out.med_val[j], out.iq_range[j], out.hi_bound[j], out.lo_bound[j]]
            rec.check(
                close(got, [median, iqr, high, low]),
                lambda: f"{column}: median, range and bounds are {got}, not "
                f"{[median, iqr, high, low]}",
            )
        high, low = on.hi_bound[j], on.lo_bound[j]
        want = [high if v > high else low if v < low else v for v in column]
        got = on.x[:, j].tolist()
        rec.check(
            all(a == b or a != a and b != b or (abs(a - b) < 1e-9 and b != c)
                for a, b, c in zip(got, want, column)),
            lambda: f"{column} is bounded to {got}, not {want}",
        )
        rec.state((column, want), want != column or NAN in column)
        if n > 8 and want != column and iqr:
            rec.sample({"column": column, "bounded": want})
