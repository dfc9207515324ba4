"""Running PYTHIA with the real classifier, or one that predicts a given table."""

import contextlib
from unittest import mock

import numpy as np
import pandas as pd
import sklearn
from instancespace.data.options import ParallelOptions, PythiaOptions
from instancespace.stages.pythia import PythiaInput, PythiaStage
from sklearn.svm import SVC


def options(a, *, folds=2, poly=False, weights=False, params="given", grid=True):
    if isinstance(params, str):
        params = np.array([[i + 1.0, 0.5] for i in range(a)])
    return PythiaOptions(
        cv_folds=folds, is_poly_krnl=poly, use_weights=weights, use_grid_search=grid,
        params=params,
    )


@contextlib.contextmanager
def cheap():
    """Leave out the printing of tables and the validation of parameters."""
    with mock.patch.object(pd.DataFrame, "__repr__", lambda _: "table"), \
            sklearn.config_context(skip_parameter_validation=True):
        yield


@contextlib.contextmanager
def table(z, hat, sub):
    """Replace the classifier by one that predicts given labels.

    The algorithm is known by its parameter C (counted from 1). An instance that the
    classifier was trained with is predicted as in `hat`, any other as in `sub`.
    """
    hat, sub = np.asarray(hat, dtype=bool), np.asarray(sub, dtype=bool)
    places = ((z - z.mean(axis=0)) / z.std(axis=0, ddof=1))[:, 0]

    def rows(x):
        return [int(np.argmin(np.abs(places - v))) for v in np.asarray(x)[:, 0]]

    def fit(self, x, y, sample_weight=None):  # noqa: ARG001
        self.seen_ = set(rows(x))
        self.classes_ = np.array([False, True])
        return self

    def predict(self, x):
        j = round(float(self.C)) - 1
        return np.array([(hat if i in self.seen_ else sub)[i, j] for i in rows(x)])

    def proba(self, x):
        p = np.where(self.predict(x), 0.75, 0.25)
        return np.column_stack([1 - p, p])

    with mock.patch.object(SVC, "fit", fit), mock.patch.object(SVC, "predict", predict), \
            mock.patch.object(SVC, "predict_proba", proba):
        yield


def pythia(z, y, good, opts, rec, labels=None, best=None):
    """Run the stage, and check that its inputs are left as they are."""
    a = good.shape[1]
    given = PythiaInput(
        z=np.array(z, dtype=float), y_raw=np.array(y, dtype=float), y_bin=good.copy(),
        y_best=np.nanmax(y, axis=1) if best is None else best.copy(),
        algo_labels=list(labels or [f"algo_{'dcba'[i]}" for i in range(a)]),
        pythia_options=opts, parallel_options=ParallelOptions(flag=False, n_cores=1),
    )
    kept = {k: np.array(getattr(given, k)) for k in ("z", "y_raw", "y_bin", "y_best")}
    params = None if opts.params is None else np.array(opts.params)
    rec.step()
    out = PythiaStage._run(given)  # noqa: SLF001
    rec.trace()
    for name, want in kept.items():
        rec.check(
            np.array_equal(getattr(given, name), want, equal_nan=name != "y_bin"),
            lambda: f"the input {name} was changed from {want.tolist()} to "
            f"{np.asarray(getattr(given, name)).tolist()}",
        )
    rec.check(params is None or np.array_equal(opts.params, params),
              "the parameters in the options were changed")
    return out, given
