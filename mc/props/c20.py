"""C20: the selected algorithm is the most precise one predicted to be good."""

from itertools import combinations, product

import numpy as np
from instancespace.data.model import PythiaOut

from mc.props import pythialib as lib

LEVEL = "model_checking"
RULE = (
    "every precision of each algorithm (over its predictions of all prediction patterns "
    "of an instance), whether the instances without a prediction are good, every "
    "labelling and prediction of few instances, with performances without and with "
    "ties, missing and negative values; non-trivial: several algorithms are predicted "
    "good with different precisions, or none is"
)
BOUNDS = {
    "quick": "3 algorithms on the 8 prediction patterns with 8 labellings each in 2 "
    "orders; 2 algorithms on 4 patterns with all labellings and on 5 instances; 1 "
    "algorithm on 4 instances with all labellings and predictions; 3 algorithms on 400 instances with up "
    "to 326 right predictions of 326; trained models",
    "thorough": "also 3 algorithms with all choices of good instances up to 25 "
    "labellings, 4 algorithms on 16 patterns, 2 algorithms on 4 instances with all "
    "labellings and predictions",
}


def columns(hat, every):
    """Labellings of the instances: every precision, and the others good or not."""
    hat = np.array(hat, dtype=bool)
    found = []
    inside, outside = np.flatnonzero(hat), np.flatnonzero(~hat)
    for k in range(len(inside) + 1):
        choices = list(combinations(inside, k))
        for some in choices if every else choices[:: max(1, len(choices) - 1)][:1]:
            for rest in (0, 1):
                good = np.zeros(len(hat), dtype=bool)
                good[list(some)] = True
                good[outside] = rest
                if 0 < good.sum() < len(hat):
                    found.append(tuple(map(int, good)))
    return list(dict.fromkeys(found))


def patterns(a, order):
    rows = list(product((0, 1), repeat=a))
    if order:
        rows = [rows[(5 * i + 3) % len(rows)] for i in range(len(rows))]
    return rows


def cases(tier):
    deep = tier == "thorough"
    for order, kind in product((0, 1), "pt"):
        hat = patterns(3, order)
        for good in product(*(columns([r[j] for r in hat], False) for j in range(3))):
            if (order == 0) == (kind == "p") or deep:
                yield {"hat": hat, "good": list(zip(*good)), "kind": kind}
    for kind in "ptm":
        hat = patterns(2, 0)
        labels = [c for c in product((0, 1), repeat=4) if 0 < sum(c) < 4]
        for good in product(labels, repeat=2):
            yield {"hat": hat, "good": list(zip(*good)), "kind": kind}
        for hat, good in product(product((0, 1), repeat=4), labels):
            yield {"hat": [(v,) for v in hat], "good": [(v,) for v in good],
                   "kind": kind}
    # Several algorithms, and instances for which none is predicted to be good.
    for hats in product(((1, 0, 0, 1, 1), (0, 0, 0, 0, 0), (1, 1, 1, 1, 1),
                         (0, 1, 0, 1, 0)), repeat=2):
        for good in product(((1, 0, 0, 1, 0), (0, 1, 1, 1, 0), (0, 1, 0, 0, 1)),
                            repeat=2):
            yield {"hat": list(zip(*hats)), "good": list(zip(*good)), "kind": "m"}
    # Many instances: precisions that are low, or nearly the same.
    for right in product((0, 1, 2, 9, 200, 201, 329, 400), repeat=3):
        if deep or len(set(right)) == 3 and right[0] > 1 or right in (
            (1, 1, 0), (0, 1, 1), (0, 0, 0), (1, 0, 1)
        ):
            yield {"right": right, "kind": "pmt"[sum(right) % 3]}
    for seed in range(30 if deep else 6):
        for a in (1, 2, 3):
            yield {"seed": seed, "a": a, "kind": "ptm"[seed % 3]}
    if deep:
        hat = patterns(3, 1)
        for good in product(*(columns([r[j] for r in hat], True)[::2]
                              for j in range(3))):
            yield {"hat": hat, "good": list(zip(*good)), "kind": "m"}
        hat = patterns(4, 1)
        for good in product(*(columns([r[j] for r in hat], False)[j % 2 :: 2]
                              for j in range(4))):
            yield {"hat": hat, "good": list(zip(*good)), "kind": "t"}
        for hats in product(product((0, 1), repeat=4), repeat=2):
            for good in product(labels, repeat=2):
                yield {"hat": list(zip(*hats)), "good": list(zip(*good)), "kind": "p"}


def performances(n, a, kind):
    """Plain ones, ones with many ties, negative ones with missing values, or centred."""
    if kind == "c":  # the mean is one of them
        zeros = 2 - n * a % 2
        half = [0.5 + (5 * i) % 7 * 0.25 for i in range((n * a - zeros) // 2)]
        y = np.array([0.0] * zeros + half + [-v for v in half])
        return y[np.argsort(np.arange(n * a) * 7 % 11, kind="stable")].reshape(n, a)
    y = np.array([[(3 * i * i + 5 * j + i * j) % 11 + 0.25 for j in range(a)]
                  for i in range(n)])
    if kind == "t":
        y = np.round(y) % 3
    elif kind == "m":
        y = y - 6
        if a > 1:
            y[np.arange(n), (np.arange(n) ** 2 + 1) % a] = np.nan
    return y


def run(case, rec):
    if "seed" in case:
        rng = np.random.default_rng([case["seed"], case["a"]])
        z = rng.normal(size=(14, 2))
        good = z @ rng.normal(size=(2, case["a"])) + rng.normal(size=(14, 1)) > 0
        good[0], good[1] = True, False
        good[2], good[3] = True, False
        y = performances(14, case["a"], case["kind"])
        with lib.cheap():
            out, given = lib.pythia(z, y, good, lib.options(case["a"]), rec)
    elif "right" in case:
        n, right = 400, case["right"]
        a = len(right)
        rows = np.arange(n)
        hat = np.column_stack([rows % 7 != j for j in range(a)])
        hat[380:] = False
        good = np.zeros((n, a), dtype=bool)
        for j in range(a):
            good[np.flatnonzero(hat[:, j])[::-1][: right[j]], j] = True
        good[390:] = True
        predicted(hat, good, case["kind"], rec)
        return
    else:
        hat, good = np.array(case["hat"], dtype=bool), np.array(case["good"], dtype=bool)
        predicted(hat, good, case["kind"], rec)
        return
    judge(out, given, rec)


def predicted(hat, good, kind, rec):
    n, a = hat.shape
    z = np.array([[float(i), (7 * i * i) % 5 + 0.5 * i] for i in range(n)])
    y = performances(n, a, kind)
    with lib.cheap(), lib.table(z, hat, ~hat):
        out, given = lib.pythia(z, y, good, lib.options(a), rec)
    rec.check(np.array_equal(out.y_hat, hat),
              lambda: f"predicted {out.y_hat.tolist()}, not {hat.tolist()}")
    judge(out, given, rec)


def judge(out, given, rec):
    good, y = np.asarray(given.y_bin), np.asarray(given.y_raw)
    hat, precision = np.asarray(out.y_hat, dtype=bool), np.asarray(out.precision)
    n, a = good.shape
    rec.check(precision.shape == (a,) and hat.shape == (n, a), "wrong shapes")
    often = good.sum(axis=0)
    fallback = int(np.flatnonzero(often == often.max())[0])
    first, second = np.asarray(out.selection0), np.asarray(out.selection1)
    rec.check(first.shape == (n,) and second.shape == (n,),
              lambda: f"selections of shape {first.shape} and {second.shape}")
    several = False
    for i in range(n):
        candidates = [j for j in range(a) if hat[i, j]]
        want = -1
        if candidates:
            top = max(precision[j] for j in candidates)
            want = next(j for j in candidates if precision[j] == top)
            several |= len({precision[j] for j in candidates}) > 1
            if top <= 0 and first[i] == -1:
                want = -1  # predicted by algorithms that are never right only
        rec.check(
            first[i] == want,
            lambda: f"instance {i}: predicted good {candidates}, precision "
            f"{precision.tolist()}: selected {first[i]}, not {want}",
        )
        rec.check(
            second[i] == (want if want >= 0 else fallback),
            lambda: f"instance {i}: fallback selection {second[i]}, not "
            f"{want if want >= 0 else fallback}",
        )
    model = PythiaOut.from_stage_runner_output(out._asdict())
    for name, mine in (("selection0", first), ("selection1", second)):
        rec.check(
            np.array_equal(np.asarray(getattr(model, name)).ravel(), mine + 1),
            lambda: f"{name} in the model is {getattr(model, name)}, for {mine}",
        )
    summary(out, given, first, second, rec)
    rec.state((good.tolist(), hat.tolist(), first.tolist(), second.tolist()),
              several or (first < 0).any())
    rec.count("several precisions" if several else "same precision")
    rec.count("instances without selection", int((first < 0).sum()))
    if several and (first < 0).any():
        rec.sample({"predicted": hat.astype(int).tolist(),
                    "precision": precision.tolist(), "selected": first.tolist(),
                    "fallback": second.tolist()})


def mean_std(values):
    values = np.asarray(values, dtype=float)
    values = values[~np.isnan(values)]
    if values.size == 0:
        return None, None
    mean = sum(values.tolist()) / len(values)
    return mean, (sum((v - mean) ** 2 for v in values.tolist()) / len(values)) ** 0.5


def summary(out, given, first, second, rec):
    good, y = np.asarray(given.y_bin), np.asarray(given.y_raw)
    n, a = good.shape
    hat = np.asarray(out.y_hat, dtype=bool)
    frame = out.pythia_summary
    rec.check(list(frame["Algorithms"]) == [*given.algo_labels, "Oracle", "Selector"],
              lambda: f"the summary has rows {list(frame['Algorithms'])}")
    chosen = [y[i, first[i]] for i in range(n) if first[i] >= 0]
    full = [y[i, second[i]] for i in range(n)]
    right = sum(good[i, first[i]] for i in range(n) if first[i] >= 0)
    selected = int((first >= 0).sum())
    parts = {
        "Avg_Perf_all_instances": (0, [*y.T, given.y_best, full]),
        "Std_Perf_all_instances": (1, [*y.T, given.y_best, full]),
        "Avg_Perf_selected_instances":
            (0, [*(y[hat[:, j], j] for j in range(a)), [], chosen]),
        "Std_Perf_selected_instances":
            (1, [*(y[hat[:, j], j] for j in range(a)), [], chosen]),
    }
    want = {k: [mean_std(v)[which] for v in rows] for k, (which, rows) in parts.items()}
    want["Probability_of_good"] = [
        *good.mean(axis=0), 1, sum(good[i, second[i]] for i in range(n)) / n,
    ]
    for name, values in want.items():
        for label, got, value in zip(frame["Algorithms"], frame[name], values):
            same(got, value, f"{name} of {label}", rec)
    row = frame.iloc[-1]
    same(row["CV_model_precision"], 100 * right / selected if selected else 0,
         "precision of the selector", rec)
    same(row["CV_model_recall"], 100 * right / good.sum(), "recall of the selector", rec)


def same(got, value, what, rec):
    if value is None:
        fine = got == "" or (isinstance(got, float) and got != got)
    else:
        fine = got != "" and abs(float(got) - value) <= 0.00101
    rec.check(fine, lambda: f"{what} is {got!r} in the summary, not {value}")
