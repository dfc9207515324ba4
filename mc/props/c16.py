"""C16: feature selection keeps exactly the features correlated with performance."""

from itertools import combinations, permutations, product

import numpy as np
import pandas as pd
from instancespace.data.options import ParallelOptions, SelvarsOptions, SiftedOptions
from instancespace.stages.sifted import SiftedInput, SiftedStage
from scipy.special import betainc

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every combination and order of features from a pool with designed correlations "
    "(strong, weak, negative, none, constant, equal, with missing values), with one, "
    "two or three algorithms and each threshold, on or off; non-trivial: a feature is "
    "removed"
)
BOUNDS = {
    "quick": "all combinations of 1-5 of 9 features and all orders of 4 of 5, 5 sets of "
    "algorithms, 5 thresholds; 5 combinations of 4 features of 3000 instances, with "
    "faint correlations",
    "thorough": "all combinations of 2-9 of 9 features, all orders of 5 of 7, 7 sets of "
    "algorithms, 7 thresholds, two numbers of instances",
}
NAN = float("nan")


def pool(n):
    """Feature and performance columns."""
    rng = np.random.default_rng(5)
    a, b, noise = rng.normal(size=(3, n))
    ramp = np.arange(n, dtype=float)
    gaps = a.copy()
    gaps[::4] = NAN
    features = {
        "a": a, "minus": -2 * a + 0.01 * noise, "b": b, "ab": a + b,
        "noise": noise, "const": np.full(n, 2.0), "same": a.copy(), "gaps": gaps,
        "weak": 0.7 * a + noise,
    }
    lost = b.copy()
    lost[: n // 2] = NAN
    single = np.full(n, NAN)
    single[1] = 3.0
    algos = {
        "a": 3 * a + 1, "b": b - 0.2 * noise, "ramp": ramp % 5, "lost": lost,
        "flat": np.full(n, 1.0), "single": single, "mix": a - b,
    }
    if n > 1000:
        # significant all the same
        features["faint"] = 0.04 * a + noise
    return features, algos


def cases(tier):
    deep = tier == "thorough"
    names = list(pool(12)[0])
    for chosen in combinations(("a", "b", "noise", "faint", "weak"), 4):
        yield {"n": 3000, "features": chosen, "algos": [("a", "b"), ("mix",)],
               "rhos": [0.0, 0.03, 0.5]}
    sets = [("a",), ("a", "b"), ("ramp", "flat"), ("lost", "mix", "b"), ("single", "a")]
    rhos = [0.0, 0.1, 0.5, 0.9, 1.0]
    sizes = (12,)
    if deep:
        sets += [("flat",), ("mix", "ramp", "a")]
        rhos += [0.3, 0.7]
        sizes = (12, 30)
    groups = []
    for k in range(1, 10 if deep else 6):
        groups += combinations(names, k)
    groups += permutations(names[:7] if deep else names[1:6], 5 if deep else 4)
    for n in sizes:
        for chosen in groups:
            yield {"n": n, "features": chosen, "algos": sets, "rhos": rhos}


def correlation(x, y):
    """Pearson's coefficient of the pairs without missing values, and its p-value."""
    both = ~np.isnan(x) & ~np.isnan(y)
    x, y = x[both], y[both]
    if len(x) < 2 or np.ptp(x) == 0 or np.ptp(y) == 0:
        return NAN, NAN
    x, y = x - x.mean(), y - y.mean()
    r = float(np.clip((x @ y) / np.sqrt((x @ x) * (y @ y)), -1, 1))
    if len(x) == 2:
        return r, 1.0
    m = len(x) / 2 - 1
    return r, float(2 * betainc(m, m, 0.5 * (1 - abs(r))))


def run(case, rec):
    n = case["n"]
    features, algos = pool(n)
    x = np.column_stack([features[f] for f in case["features"]])
    for names, rho in product(case["algos"], case["rhos"]):
        y = np.column_stack([algos[a] for a in names])
        for flag in (True, False) if rho == 0.5 else (True,):
            one(x, y, case["features"], names, rho, flag, rec)


def one(x, y, features, algos, rho, flag, rec):
    rec.evaluations += 1
    rec.step()
    rec.trace()
    n, f = x.shape
    what = f"features {features}, algorithms {algos}, rho {rho}, flag {flag}"
    labels = [f"feature_{v}" for v in features]
    data = {
        "y": y, "y_bin": y > 0, "x_raw": x + 5, "y_raw": y - 5,
        "beta": np.arange(n) % 3 > 0, "num_good_algos": np.arange(n) % 2,
        "y_best": np.arange(n) * 1.5, "p": np.arange(n) % y.shape[1] + 1,
        "inst_labels": pd.Series([f"i{k}" for k in range(n)]),
        "s": pd.Series([f"s{k}" for k in range(n)]),
    }
    given = SiftedInput(
        x=x.copy(), feat_labels=list(labels), data_dense=None,
        sifted_options=SiftedOptions.default(flag=flag, rho=rho, k=20),
        selvars_options=SelvarsOptions.default(),
        parallel_options=ParallelOptions.default(),
        **{k: v.copy() for k, v in data.items()},
    )
    stats = [[correlation(x[:, i], y[:, j]) for j in range(y.shape[1])]
             for i in range(f)]
    strength = np.array([
        [abs(r) if r == r and p <= 0.05 else 0.0 for r, p in row] for row in stats
    ])
    near = 1e-9  # a correlation of one is a matter of rounding
    must = {i for i in range(f) if strength[i].max() >= rho + near or rho == 0}
    may = {i for i in range(f) if strength[i].max() >= rho - near}
    tops = [
        {i for i in range(f) if strength[i, j] >= strength[:, j].max() - near}
        for j in range(y.shape[1])
    ]
    everything = not flag or f <= 3
    try:
        out = SiftedStage._run(given)  # noqa: SLF001
    except Exception as error:  # noqa: BLE001
        # With a single feature there is no plane to project to.
        rec.check(
            type(error).__name__ == "NotEnoughFeatureError"
            and (f == 1 or (not everything and len(must) <= 1
                            and set.intersection(*tops))),
            lambda: f"{what}: {type(error).__name__}: {error}",
        )
        rec.state((what, "one feature"))
        return
    rec.check(f > 1, lambda: f"{what}: one feature is accepted")
    kept = [int(i) for i in out.selvars]
    if everything:
        rec.check(kept == list(range(f)), lambda: f"{what}: kept {kept} of all")
    else:
        rec.check(
            kept == sorted(set(kept)) and must <= set(kept)
            and set(kept) <= may.union(*tops)
            and all(set(kept) & top for top in tops),
            lambda: f"{what}: kept {kept}, but {sorted(must)} reach the threshold and "
            f"{tops} are the most correlated",
        )
        extra = [i for i in kept if i not in may]
        rec.check(len(extra) <= y.shape[1], lambda: f"{what}: kept {extra} too")
        for i in range(f):
            for j in range(y.shape[1]):
                r, p = stats[i][j]
                got_r, got_p = out.rho[i, j], out.pval[i, j]
                want = r if r == r and p <= 0.05 else 0.0
                rec.check(
                    abs(got_r - want) < 1e-8,
                    lambda: f"{what}: correlation of {features[i]} with {algos[j]} is "
                    f"{got_r}, not {want} (p-value {p})",
                )
                rec.check(
                    (p != p and got_p != got_p) or abs(got_p - p) < 1e-8,
                    lambda: f"{what}: p-value of {features[i]} and {algos[j]} is {got_p}"
                    f", not {p}",
                )
        rec.check(out.rho.shape == strength.shape, lambda: f"{what}: {out.rho.shape}")
    rec.check(
        [int(i) for i in out.idx] == kept
        and list(out.feat_labels) == [labels[i] for i in kept],
        lambda: f"{what}: kept {kept}, indices {out.idx}, labels {out.feat_labels}",
    )
    rec.check(np.array_equal(out.x, x[:, kept], equal_nan=True),
              lambda: f"{what}: the columns are not those of {kept}")
    for part, want in data.items():
        for source in (getattr(out, part), getattr(given, part)):
            same = (source.equals(want) if isinstance(want, pd.Series)
                    else np.array_equal(source, want, equal_nan=True))
            rec.check(same, lambda: f"{what}: {part} is changed")
    rec.check(np.array_equal(given.x, x, equal_nan=True)
              and given.feat_labels == labels, lambda: f"{what}: inputs modified")
    rec.state((what, kept), len(kept) < f)
    if not everything and len(kept) < f:
        rec.count("features removed", f - len(kept))
        rec.sample({"case": what, "kept": [features[i] for i in kept]})
