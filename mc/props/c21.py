"""C21: the reported prediction quality matches the predictions."""

from itertools import product

import numpy as np
from sklearn.base import clone
from sklearn.svm import SVC

from mc.props import pythialib as lib
from mc.props.c20 import performances

LEVEL = "model_checking"
RULE = (
    "every labelling of few instances with every pattern of predictions for held-out and "
    "for trained instances, and the trained models of every kernel, weighting, number of "
    "folds and source of parameters over a family of labellings; non-trivial: held-out "
    "predictions differ from the others"
)
BOUNDS = {
    "quick": "5 instances with all pairs of labelling and held-out predictions of one "
    "algorithm (2 to 4 of them combined), 3 patterns for trained instances; 128 settings "
    "with trained models, one of them of 1012 instances; 12 settings with a search for parameters, 2 with "
    "the Bayesian search of given ones",
    "thorough": "also 6 instances, 1024 settings with trained models, 48 with a search, "
    "2 with the Bayesian search",
}
FALLS = "train-metrics"


def cases(tier):
    deep = tier == "thorough"
    for n in (5, 6) if deep else (5,):
        labels = [c for c in product((0, 1), repeat=n) if 1 < sum(c) < n - 1]
        subs = list(product((0, 1), repeat=n))
        for i, good in enumerate(labels):
            for k, kind in enumerate("ptm"):
                # Two to four algorithms with different held-out predictions together.
                size, at = 2 + (i + k) % 3, 0
                while at < len(subs):
                    group = subs[at : at + size]
                    at += size
                    goods = [labels[(i + j * j) % len(labels)]
                             for j in range(len(group))]
                    yield {"good": list(zip(*goods)), "sub": list(zip(*group)),
                           "hat": k, "kind": kind}
    for poly, weights, folds, seed in product(
        (False, True), (False, True), (2, 3, 5, 7) if deep else (2, 3),
        range(64 if deep else 16),
    ):
        yield {"poly": poly, "weights": weights, "folds": folds, "seed": seed,
               "search": False}
    # More instances than the code recommends the polynomial kernel for.
    yield {"poly": False, "weights": True, "folds": 2, "seed": 6, "search": False,
           "n": 1012}
    for poly in (False, True):
        # The Bayesian search, of given parameters or of the best ones.
        yield {"poly": poly, "weights": not poly, "folds": 2, "seed": 3,
               "search": False, "bayes": True}
        if deep:
            yield {"poly": poly, "weights": poly, "folds": 3, "seed": 1,
                   "search": True, "bayes": True}
    for poly, weights, seed in product((False, True), (False, True),
                                       range(12 if deep else 3)):
        yield {"poly": poly, "weights": weights, "folds": 2 + seed % 2, "seed": seed,
               "search": True}


def run(case, rec):
    if "sub" in case:
        good = np.array(case["good"], dtype=bool)
        sub = np.array(case["sub"], dtype=bool)
        hat = (~sub, good, np.roll(sub, 1, axis=0))[case["hat"]]
        n, a = good.shape
        z = np.array([[float(i), (7 * i * i) % 5 + 0.5 * i] for i in range(n)])
        y = performances(n, a, case["kind"])
        with lib.cheap(), lib.table(z, hat, sub):
            out, given = lib.pythia(z, y, good, lib.options(a), rec)
        rec.check(np.array_equal(out.y_sub, sub),
                  lambda: f"predictions for held-out instances are {sub.tolist()}, but "
                  f"reported are {np.asarray(out.y_sub).tolist()}")
        rec.check(np.array_equal(out.y_hat, hat),
                  lambda: f"predictions are {hat.tolist()}, but reported are "
                  f"{np.asarray(out.y_hat).tolist()}")
        rec.check(np.allclose(out.pr0_sub, np.where(sub, 0.75, 0.25))
                  and np.allclose(out.pr0_hat, np.where(hat, 0.75, 0.25)),
                  "wrong probabilities")
        quality(out, given, np.array([[i + 1, 0.5] for i in range(a)]), rec)
        return
    trained(case, rec)


def trained(case, rec):
    seed = case["seed"]
    a = 1 + seed % 3 if not case["search"] else 2
    rng = np.random.default_rng([seed, case["poly"], case["weights"], case["folds"]])
    n = case.get("n", 18 + seed % 5)
    z = rng.normal(size=(n, 2)) * (3, 0.2) + (5, -2)
    good = (z - (5, -2)) @ rng.normal(size=(2, a)) + rng.normal(size=(n, a)) * 0.6 > 0
    for j in range(a):  # enough of both classes
        good[j : 2 * a + 8 : 2, j] = True
        good[j + 1 : 2 * a + 9 : 2, j] = False
    y = performances(n, a, "ptmc"[seed % 4])
    params = np.array([[2.0 ** (j - seed % 3), 2.0 ** (seed % 4 - j)]
                       for j in range(a)])
    wrong = seed % 5 == 4 and not case["search"] and seed < 5
    opts = lib.options(
        a, folds=case["folds"], poly=case["poly"], weights=case["weights"],
        params=None if case["search"] else params[:, :1] if wrong else params,
        grid=not case.get("bayes"),
    )
    with lib.cheap():
        tried = []
        fit = SVC.fit

        def watched(self, x, *args, **kwargs):
            tried.append((float(self.C), float(self.gamma)))
            return fit(self, x, *args, **kwargs)

        SVC.fit = watched
        try:
            out, given = lib.pythia(z, y, good, opts, rec)
        finally:
            SVC.fit = fit
    quality(out, given, None if case["search"] or wrong else params, rec)

    zn = (z - z.mean(axis=0)) / z.std(axis=0, ddof=1)
    for j in range(a):
        svm = out.svm[j]
        what = f"algorithm {j}"
        rec.check(
            (svm.kernel, svm.degree, svm.coef0) == ("poly", 2, 1) if case["poly"]
            else svm.kernel == "rbf",
            lambda: f"{what}: the kernel is {svm.kernel} of degree {svm.degree} with "
            f"constant {svm.coef0}")
        folds = list(out.cp.split(zn, good[:, j]))
        rec.check(len(folds) == case["folds"]
                  and sorted(i for _, o in folds for i in o) == list(range(n))
                  and not any(set(i) & set(o) for i, o in folds),
                  lambda: f"{what}: {len(folds)} folds instead of {case['folds']}")
        rec.check(
            np.array_equal(svm.predict(zn), out.y_hat[:, j])
            and np.allclose(svm.predict_proba(zn)[:, 1], out.pr0_hat[:, j]),
            lambda: f"{what}: the predictions are not those of the model",
        )
        sub, pr0 = np.zeros(n, dtype=bool), np.zeros(n)
        for inside, outside in out.cp.split(zn, good[:, j]):
            other = clone(svm).fit(zn[inside], good[inside, j],
                                   sample_weight=out.w[inside, j])
            sub[outside] = other.predict(zn[outside])
            pr0[outside] = other.predict_proba(zn[outside])[:, 1]
        rec.check(np.array_equal(sub, out.y_sub[:, j]),
                  lambda: f"{what}: held-out predictions {sub.tolist()}, but reported "
                  f"are {np.asarray(out.y_sub[:, j]).tolist()}")
        rec.check(np.allclose(pr0, out.pr0_sub[:, j]),
                  lambda: f"{what}: the probabilities are not those of the folds")
        whole = clone(svm).fit(zn, good[:, j], sample_weight=out.w[:, j].copy())
        rec.check(np.allclose(whole.decision_function(zn), svm.decision_function(zn)),
                  lambda: f"{what}: the model was not trained with the reported weights "
                  "on all instances")
        if case["search"]:
            search(case, out, zn, good, j, sorted(set(tried)), rec)


def search(case, out, zn, good, j, tried, rec):
    """The reported parameters have the best cross-validated accuracy of those tried."""
    rec.check(len(tried) >= 30, lambda: f"only {len(tried)} parameters were tried")
    folds = list(out.cp.split(zn, good[:, j]))
    scores = {}
    mine = (out.box_consnt[j], out.k_scale[j])
    rec.check(mine in tried, "the reported parameters were not tried")
    for c, gamma in tried:
        model = clone(out.svm[j]).set_params(C=c, gamma=gamma, probability=False)
        right = [
            np.mean(clone(model).fit(zn[i], good[i, j], sample_weight=out.w[i, j])
                    .predict(zn[o]) == good[o, j])
            for i, o in folds
        ]
        scores[c, gamma] = np.mean(right)
    # Both algorithms' candidates are in `tried`: this one's are the 30 among which the
    # reported ones are the best, so at least 29 are not better.
    better = sum(s > scores[mine] + 1e-9 for s in scores.values())
    rec.check(better <= len(tried) - 30,
              lambda: f"algorithm {j}: {better} of {len(tried)} parameters are better")


def quality(out, given, params, rec):
    z, good, y = given.z, np.asarray(given.y_bin), np.asarray(given.y_raw)
    n, a = good.shape
    rec.check(np.allclose(out.mu, z.mean(axis=0))
              and np.allclose(out.sigma, z.std(axis=0, ddof=1)),
              lambda: f"mean {out.mu} and deviation {out.sigma} of {z.tolist()}")
    want = np.ones((n, a))
    if given.pythia_options.use_weights:
        present = y[~np.isnan(y)]
        want = np.abs(y - present.mean())
        want[want == 0] = min(v for v in want.ravel() if v > 0)
        want[np.isnan(want)] = max(v for v in want.ravel() if v == v)
    rec.check(np.allclose(out.w, want),
              lambda: f"weights {np.asarray(out.w).tolist()}, not {want.tolist()}")
    frame = out.pythia_summary
    differ = False
    for j in range(a):
        truth, sub, hat = good[:, j], out.y_sub[:, j], out.y_hat[:, j]
        what = f"algorithm {j} of {a}, good {truth.astype(int).tolist()}"
        cells = [int(np.sum(~truth & ~sub)), int(np.sum(~truth & sub)),
                 int(np.sum(truth & ~sub)), int(np.sum(truth & sub))]
        rec.check(list(out.cvcmat[j]) == cells,
                  lambda: f"{what}: confusion counts {list(out.cvcmat[j])}, not {cells}")
        if params is not None:
            rec.check(np.allclose((out.box_consnt[j], out.k_scale[j]), params[j]),
                      lambda: f"{what}: parameters {out.box_consnt[j]}, "
                      f"{out.k_scale[j]}, not {params[j]}")
        rec.check(np.allclose((out.svm[j].C, out.svm[j].gamma),
                              (out.box_consnt[j], out.k_scale[j])),
                  lambda: f"{what}: the model does not have the reported parameters")
        got = (out.accuracy[j], out.precision[j], out.recall[j])
        for name, mine, column in zip(
            ("accuracy", "precision", "recall"), got,
            ("CV_model_accuracy", "CV_model_precision", "CV_model_recall"),
        ):
            cell = frame[column].iloc[j]
            rec.check(cell != "" and abs(float(cell) - 100 * mine) < 0.00101,
                      lambda: f"{what}: {name} {mine} is {cell} in the summary")
        for column, mine in (("BoxConstraint", out.box_consnt[j]),
                             ("KernelScale", out.k_scale[j])):
            rec.check(abs(float(frame[column].iloc[j]) - mine) < 0.00101,
                      lambda: f"{what}: {column} {mine} is {frame[column].iloc[j]} in "
                      "the summary")
        wanted, fallen = measures(truth, sub), measures(truth, hat)
        differ |= wanted != fallen
        if not np.allclose(got, wanted):
            rec.check(
                False,
                f"{what}: accuracy, precision and recall {got} are not those of the "
                f"held-out predictions, {wanted}"
                + (", but of the training set" if np.allclose(got, fallen) else ""),
                key=FALLS if np.allclose(got, fallen) else None,
            )
    rec.state((good.tolist(), out.y_sub.tolist(), out.y_hat.tolist()), differ)
    rec.count("held-out predictions differ" if differ else "same predictions")
    if differ:
        rec.sample({"confusion": np.asarray(out.cvcmat).tolist(),
                    "accuracy": list(map(float, out.accuracy))})


def measures(truth, predicted):
    right = int(np.sum(truth & predicted))
    return (
        float(np.mean(truth == predicted)),
        right / int(predicted.sum()) if predicted.any() else 0.0,
        right / int(truth.sum()),
    )
