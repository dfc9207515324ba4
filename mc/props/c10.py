"""C10: preprocessing keeps every part of the data aligned and complete."""

from fractions import Fraction
from itertools import permutations, product

import numpy as np
import pandas as pd
from instancespace.data.options import SelvarsOptions
from instancespace.stages.preprocessing import PreprocessingInput, PreprocessingStage

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every pattern of missing values over small tables, every selection of features "
    "and algorithms (in any order, with unknown names, or nothing known), every kind of "
    "index, with and without sources; every number of missing values in a column of "
    "every length; instances with equal values; non-trivial: something is missing or selected"
)
BOUNDS = {
    "quick": "tables of n instances, f features and a algorithms for (n,f,a) up to "
    "(4,2,1), (3,2,2), (6,1,1), (2,4,2); all selections of 3 features and 2 algorithms; "
    "columns of up to 21 values; up to 30 instances with equal values; "
    "every set of features and algorithms without spread among up to 7 and 3",
    "thorough": "up to (5,2,2), (4,3,2), (7,1,1), (2,6,3), (3,3,3); all selections of 4 "
    "features and 3 algorithms; columns of up to 41 values; up to 60 instances with "
    "equal values; features and algorithms without spread among up to 8 and 4",
}
SIZES = {
    "quick": [(1, 3, 3), (2, 2, 2), (2, 4, 2), (3, 2, 2), (4, 2, 1), (4, 1, 2),
              (6, 1, 1)],
    "thorough": [(1, 4, 4), (2, 4, 2), (2, 6, 3), (3, 3, 3), (4, 3, 2), (5, 2, 2),
                 (7, 1, 1), (6, 2, 1)],
}
# Some names are the beginning of others, or of them in another case.
FEATURES = ["feature_cc", "feature_c", "feature_C", "feature_b_c", "feature_d",
            "feature_1", "feature_12", "feature_2"]
ALGORITHMS = ["algo_zz", "algo_Z", "algo_y", "algo_Zz"]
INDEXES = ["default", "reversed", "gaps", "text", "same"]


def cases(tier):
    for n, f, a in SIZES[tier]:
        bits = n * (f + a)
        step = 512
        for start in range(0, 2**bits, step):
            yield {"kind": "missing", "size": (n, f, a), "start": start,
                   "stop": min(start + step, 2**bits)}
    for length in range(1, 22 if tier == "quick" else 42):
        yield {"kind": "share", "length": length}
    for n in (2, 3, 12, 24, 30) if tier == "quick" else range(2, 61):
        for distinct in sorted({1, 2, 3, n // 2, n - 1} - {0, n}):
            yield {"kind": "repeat", "rows": n, "distinct": distinct}
    for size in ((7, 4, 2), (6, 6, 1), (11, 7, 3)) if tier == "quick" else (
            (7, 4, 2), (6, 6, 1), (11, 7, 3), (12, 8, 4), (3, 5, 4)):
        yield {"kind": "equal", "size": size}
    f, a = (3, 2) if tier == "quick" else (4, 3)
    for n in range(3):
        yield {"kind": "select", "features": f, "algorithms": a, "rows": n}


def index(kind, n):
    return {
        "default": list(range(n)),
        "reversed": list(range(n))[::-1],
        "gaps": [10 * i + 5 for i in range(n)],
        "text": [f"row{i}" for i in range(n)],
        "same": [3] * n,
    }[kind]


def values(n, f, a):
    x = np.array([[10.0 * i + j + 1 for j in range(f)] for i in range(n)])
    y = np.array([[-(10.0 * i + j + 1) for j in range(a)] for i in range(n)])
    return x.reshape(n, f), y.reshape(n, a)


def run(case, rec):
    if case["kind"] == "missing":
        n, f, a = case["size"]
        for code in range(case["start"], case["stop"]):
            x, y = values(n, f, a)
            bits = [(code >> b) & 1 for b in range(n * (f + a))]
            gone = np.array(bits, dtype=bool).reshape(n, f + a)
            x[gone[:, :f]] = np.nan
            y[gone[:, f:]] = np.nan
            one(x, y, None, None, INDEXES[code % 5], (code // 5) % 2 == 0, rec)
    elif case["kind"] == "share":
        n = case["length"]
        for missing in range(n + 1):
            for dropped in range(0, 3):
                # Rows that are dropped do not count for the share of a feature.
                x, y = values(n + dropped, 2, 1)
                x[:missing, 1] = np.nan
                y[n:] = np.nan
                one(x, y, None, None, "gaps", True, rec)
                one(x[::-1].copy(), y[::-1].copy(), None, None, "text", False, rec)
    elif case["kind"] == "equal":
        # Features, performances and instances without any spread are kept too.
        n, f, a = case["size"]
        for code in range(2 ** (f + a)):
            x, y = values(n, f, a)
            for j in range(f):
                if code >> j & 1:
                    x[:, j] = (0.0, 5.0, -1.0)[j % 3]
            for j in range(a):
                if code >> f + j & 1:
                    y[:, j] = (1.0, 0.0)[j % 2]
            if code % 3 == 1:
                x[code % n, code % f] = np.nan
            one(x, y, None, None, INDEXES[code % 5], code % 2 == 0, rec)
    elif case["kind"] == "repeat":
        # Instances with the same values are all kept.
        n, m = case["rows"], case["distinct"]
        for f, a in ((1, 1), (3, 2)):
            x, y = values(n, f, a)
            for same_y in (True, False):
                if same_y:
                    y = y[np.arange(n) % m]
                one(x[np.arange(n) % m], y, None, None, "text", same_y, rec)
                one(x[np.arange(n) * m // n], y, None, None, "gaps", True, rec)
    else:
        f, a = case["features"], case["algorithms"]
        fnames = FEATURES[:f]
        anames = ALGORITHMS[:a]
        chosen = [None, []]
        for k in range(1, f + 1):
            chosen += [list(p) for p in permutations(fnames, k)]
        chosen += [["feature_none"], ["feature_none", fnames[-1]], [fnames[0]] * 2]
        # Names in another case, or parts of names, are unknown.
        chosen += [[name.upper() for name in fnames], [fnames[0].title()],
                   [name[len("feature_") :] for name in fnames],
                   [f" {fnames[-1]}", f"{fnames[0]} "]]
        algos = [None, [], ["algo_none"], [anames[-1], "algo_none"],
                 [name.title() for name in anames], [anames[0][:-1]],
                 [name.lower() for name in ALGORITHMS]]
        for k in range(1, a + 1):
            algos += [list(p) for p in permutations(anames, k)]
        for number, (feats, algs) in enumerate(product(chosen, algos)):
            x, y = values(6, f, a)
            if case["rows"] == 1:  # an instance without any selected value
                x[2, : f - 1] = np.nan
                y[4, 1:] = np.nan
            elif case["rows"] == 2:
                x[1:3, 0] = np.nan
                y[0] = np.nan
            one(x, y, feats, algs, INDEXES[number % 5], number % 3 > 0, rec)


def one(x, y, feats, algos, kind, sources, rec):
    rec.evaluations += 1
    n, f = x.shape
    a = y.shape[1]
    fnames = FEATURES[:f]
    anames = ALGORITHMS[:a]
    ids = index(kind, n)
    labels = pd.Series([f"inst{i}" for i in range(n)], index=ids)
    source = pd.Series([f"src{i}" for i in range(n)], index=ids) if sources else None
    what = (f"x {x.tolist()}, y {y.tolist()}, features {feats}, algorithms {algos}, "
            f"index {kind}")

    # The reference.
    fsel = [j for j, name in enumerate(fnames) if feats and name in feats]
    fsel = fsel or list(range(f))
    asel = [j for j, name in enumerate(anames) if algos and name in algos]
    asel = asel or list(range(a))
    rows = [
        i for i in range(n)
        if any(x[i, j] == x[i, j] for j in fsel)
        and any(y[i, j] == y[i, j] for j in asel)
    ]
    kept = []
    if rows:
        kept = [
            j for j in fsel
            if Fraction(sum(x[i, j] != x[i, j] for i in rows), len(rows))
            < Fraction(1, 5)
        ]

    selvars = SelvarsOptions.default(
        feats=None if feats is None else list(feats),
        algos=None if algos is None else list(algos),
    )
    given = PreprocessingInput(
        list(fnames), list(anames), labels.copy(),
        None if source is None else source.copy(), x.copy(), y.copy(), selvars,
    )
    rec.step()
    rec.trace()
    try:
        out = PreprocessingStage._run(given)  # noqa: SLF001
    except Exception as error:  # noqa: BLE001
        # Without any instance left there is nothing to analyse.
        rec.check(not rows, lambda: f"{what}: {type(error).__name__}: {error}")
        rec.state(("nothing left", what))
        return
    want_labels = [f"inst{i}" for i in rows]
    rec.check(list(out.inst_labels) == want_labels,
              lambda: f"{what}: instances {list(out.inst_labels)}, not {want_labels}")
    rec.check(list(out.feat_labels) == [fnames[j] for j in kept],
              lambda: f"{what}: features {out.feat_labels}, not "
              f"{[fnames[j] for j in kept]}")
    rec.check(list(out.algo_labels) == [anames[j] for j in asel],
              lambda: f"{what}: algorithms {out.algo_labels}")
    want_x, want_y = x[np.ix_(rows, kept)], y[np.ix_(rows, asel)]
    for name, got, want in (("x", out.x, want_x), ("x_raw", out.x_raw, want_x),
                            ("y", out.y, want_y), ("y_raw", out.y_raw, want_y)):
        rec.check(
            got.shape == want.shape and np.array_equal(got, want, equal_nan=True),
            lambda: f"{what}: {name} is {got.tolist()}, not {want.tolist()}",
        )
    if source is None:
        rec.check(out.s is None, lambda: f"{what}: sources appeared")
    else:
        rec.check(
            out.s is not None and list(out.s) == [f"src{i}" for i in rows],
            lambda: f"{what}: sources {out.s!r}",
        )
    rec.check(
        np.array_equal(given.features, x, equal_nan=True)
        and np.array_equal(given.algorithms, y, equal_nan=True)
        and given.instance_labels.equals(labels)
        and given.feature_names == fnames and given.algorithm_names == anames,
        lambda: f"{what}: the inputs were modified",
    )
    rec.state(
        (rows, kept, asel, n, f, a, kind, sources, np.isnan(x).tolist()),
        len(rows) < n or len(kept) < f or len(asel) < a,
    )
    if len(kept) < f and len(rows) < n and n > 3:
        rec.sample({"case": what, "instances": rows, "features": kept})
