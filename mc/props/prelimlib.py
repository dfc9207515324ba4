"""Running the prelim stage, for C11 to C14."""

import numpy as np
import pandas as pd
from instancespace.data.options import PrelimOptions, SelvarsOptions
from instancespace.stages.prelim import PrelimInput, PrelimStage

NAN = float("nan")


def options(max_perf=False, abs_perf=True, epsilon=0.0, beta=0.5, bound=False,
            norm=False):
    return PrelimOptions(
        max_perf=max_perf, abs_perf=abs_perf, epsilon=epsilon, beta_threshold=beta,
        bound=bound, norm=norm,
    )


def prelim(x, y, opts, rec, selvars=None, labels=None, sources=None):
    """Run the stage, and check that its inputs are left as they are."""
    x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    n = x.shape[0]
    if labels is None:
        labels = pd.Series([f"i{k}" for k in range(n)])
    given = PrelimInput(
        x.copy(), y.copy(), x.copy(), y.copy(),
        None if sources is None else sources.copy(), labels.copy(), opts,
        selvars or SelvarsOptions.default(),
    )
    rec.step()
    out = PrelimStage._run(given)  # noqa: SLF001
    rec.trace()
    for name, want in (("x", x), ("y", y), ("x_raw", x), ("y_raw", y)):
        got = getattr(given, name)
        rec.check(
            np.array_equal(got, want, equal_nan=True),
            lambda: f"prelim of x {x.tolist()}, y {y.tolist()} with {opts} changed its "
            f"input {name} to {got.tolist()}",
        )
    rec.check(given.inst_labels.equals(labels), "the labels were modified")
    return out


def close(a, b, tolerance=1e-9):
    return np.allclose(a, b, rtol=tolerance, atol=tolerance, equal_nan=True)
