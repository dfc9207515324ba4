"""C11: good, best and beta performance follow their definitions exactly."""

from fractions import Fraction
from itertools import product

import numpy as np

from mc.props.prelimlib import NAN, close, options, prelim

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every row of performances over an alphabet with ties, zeros, missing values and "
    "exact thresholds, or with values that are all but equal, for every setting; every pair of rows of two algorithms; "
    "non-trivial: a tie, a zero, a missing value or a value at the threshold"
)
BOUNDS = {
    "quick": "rows of 1-4 algorithms over 6 values (7 for absolute thresholds) in 2 "
    "directions with 4 absolute, 4 relative and 11 beta thresholds; rows of 2-3 over 6 values "
    "that are all but equal; all pairs of rows "
    "of 2 algorithms; all rows of 3 with bounding and normalisation too",
    "thorough": "rows of up to 6 algorithms, all pairs of rows of 3 algorithms",
}
RELATIVE = [0.0, 0.75, 1.0, 1.5, 2.0, NAN]
ABSOLUTE = [-1.0, 0.0, 0.75, 1.0, 1.5, 2.0, NAN]
# Performances that are all but equal are not ties.
NEAR = [0.75, 1.0, 1 + 2**-30, 2.0, 2 - 2**-29, NAN]
BETAS = (0.32, 0.34, 0.49, 0.66, 0.67, 0.98)
SETTINGS = [
    (direction, absolute, epsilon, beta)
    for direction in (True, False)
    for absolute, eps in ((True, (-1.0, 0.0, 0.75, 1.0)), (False, (0.0, 0.25, 0.5, 1.0)))
    for epsilon in eps
    for beta in (0.0, 0.5, 0.55, 0.75, 1.0)
]


def cases(tier):
    most, pair = (4, 2) if tier == "quick" else (6, 3)
    for setting in SETTINGS:
        for n in range(1, most + 1):
            yield {"kind": "rows", "setting": setting, "algos": n}
    for setting in SETTINGS:
        if setting[3] != 0.5:
            continue
        alphabet = ABSOLUTE if setting[1] else RELATIVE
        for first in product(alphabet, repeat=pair):
            yield {"kind": "pairs", "setting": setting, "first": first}
        for n in (2, 3) if tier == "quick" else (2, 3, 4):
            yield {"kind": "near", "setting": setting, "algos": n}
        for beta in BETAS:
            yield {"kind": "rows", "setting": (*setting[:3], beta), "algos": 3}
        for n in (1, 2, 3):
            yield {"kind": "processed", "setting": setting, "algos": n}


def run(case, rec):
    setting = tuple(case["setting"])
    alphabet = ABSOLUTE if setting[1] else RELATIVE
    if case["kind"] == "pairs":
        for second in product(alphabet, repeat=len(case["first"])):
            y = np.array([case["first"], second], dtype=float)
            if not np.all(np.isnan(y)):
                one(y, setting, rec)
        return
    if case["kind"] == "near":
        alphabet = NEAR
    rows = np.array(list(product(alphabet, repeat=case["algos"])))
    if case["kind"] in ("rows", "near"):
        # Rows are independent: see the pairs.
        one(rows, setting, rec)
        one(rows[::-1].copy(), setting, rec)
    else:
        for bound, norm in ((True, False), (False, True), (True, True)):
            one(rows[: len(rows) // 2 + 1], setting, rec, bound=bound, norm=norm)


def good(row, setting):
    """Which performances are good, by the definition."""
    direction, absolute, epsilon, _ = setting
    here = [v for v in row if v == v]
    if not here:
        return [False] * len(row)
    best = max(here) if direction else min(here)
    found = []
    for v in row:
        if v != v:
            found.append(False)
        elif absolute:
            found.append(v >= epsilon if direction else v <= epsilon)
        elif v == best:
            found.append(True)
        elif direction:
            # Nothing is negative here: a best of zero means that all are.
            found.append(1 - Fraction(v) / Fraction(best) <= Fraction(epsilon))
        else:
            found.append(1 - Fraction(best) / Fraction(v) <= Fraction(epsilon))
    return found


def one(y, setting, rec, **processing):
    direction, absolute, epsilon, beta = setting
    if np.isnan(y).all(axis=0).any() and processing.get("norm"):
        return
    opts = options(direction, absolute, epsilon, beta, **processing)
    n, algos = y.shape
    rec.evaluations += n
    x = np.arange(2.0 * n).reshape(n, 2) ** 2
    out = prelim(x, y, opts, rec)
    what = f"with {opts} "
    rec.check(np.array_equal(out.y_raw, y, equal_nan=True),
              lambda: what + f"raw performances of {y.tolist()} are changed")
    rec.check(
        out.y_bin.shape == y.shape and len(out.p) == len(out.y_best) == n
        and len(out.beta) == len(out.num_good_algos) == n,
        lambda: what + f"the results for {y.shape} are not one per instance",
    )
    tiny = np.finfo(float).eps
    for i in range(n):
        row = y[i].tolist()
        here = [v for v in row if v == v]
        want = good(row, setting)
        rec.check(
            [bool(v) for v in out.y_bin[i]] == want,
            lambda: what + f"good in {row} are {out.y_bin[i].tolist()}, not {want}",
        )
        number = sum(want)
        rec.check(out.num_good_algos[i] == number,
                  lambda: what + f"{row} has {out.num_good_algos[i]} good algorithms")
        rec.check(
            bool(out.beta[i]) == (number > beta * algos),
            lambda: what + f"beta of {row} with {number} good is {out.beta[i]}",
        )
        if here:
            best = max(here) if direction else min(here)
            rec.check(
                out.y_best[i] == best
                or (best == 0 and not absolute and out.y_best[i] == tiny),
                lambda: what + f"the best of {row} is {out.y_best[i]}",
            )
            rec.check(out.p[i] == row.index(best) + 1,
                      lambda: what + f"the best algorithm of {row} is {out.p[i]}")
            if not processing.get("norm") and all(v > 0 for v in here):
                now = [
                    v if absolute else 1 - (v / best if direction else best / v)
                    for v in row
                ]
                rec.check(close(out.y[i], now),
                          lambda: what + f"{row} becomes {out.y[i].tolist()}")
        rec.state(
            (row, setting, want, number > beta * algos),
            len(here) < len(row) or 0 in row or len(set(here)) < len(here)
            or epsilon in row,
        )
    if n > 30 and algos == 3:
        rec.sample({"setting": setting, "row": y[17].tolist(),
                    "good": out.y_bin[17].tolist(), "best": int(out.p[17])})
