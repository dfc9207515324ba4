"""C26: web colours index the colour table in the order of the values."""

from itertools import product

import matplotlib as mpl
import numpy as np

from mc.props import modellib as lib
from mc.props.modellib import NAN

LEVEL = "model_checking"
RULE = (
    "every column over an alphabet of values as a feature and as an algorithm, and every "
    "small table over it for the colours of whole tables, in different numeric types; "
    "non-trivial: the column or table has different values"
)
BOUNDS = {
    "quick": "columns of 1-4 values from 7, tables of up to 2x2 values from 7 and 3x2 "
    "values from 4",
    "thorough": "columns of up to 6 values from 7, tables of up to 2x3 from 7 and 4x2 "
    "from 5",
}
VALUES = [0.0, 1.0, -2.0, 0.3, NAN, 1e6, 1e-9]
SMALL = [0.0, 1.0, NAN, -0.7, 254.6]


def cases(tier):
    deep = tier == "thorough"
    for n in range(1, 7 if deep else 5):
        for first in product(range(len(VALUES)), repeat=max(0, n - 3)):
            yield {"n": n, "first": first}
    for n, a in ((1, 1), (2, 1), (1, 2), (2, 2), *([(2, 3)] if deep else [])):
        for first in product(range(7), repeat=max(0, n * a - 3)):
            yield {"n": n, "a": a, "first": first, "alphabet": "VALUES"}
    for n, a in ((3, 2), *([(4, 2)] if deep else [])):
        for first in product(range(5 if deep else 4), repeat=n * a - 3):
            yield {"n": n, "a": a, "first": first,
                   "alphabet": "SMALL" if deep else "SMALL4"}


def run(case, rec):
    n = case["n"]
    if "a" not in case:
        rest = n - len(case["first"])
        columns = [[VALUES[k] for k in (*case["first"], *more)]
                   for more in product(range(len(VALUES)), repeat=rest)]
        # Columns without any value do not occur: they are removed when preprocessing.
        columns = [c for c in columns if not np.all(np.isnan(c))]
        if not columns:
            return
        table = np.array(columns).T
        count = np.nan_to_num(table[:, 0]) % 3
        save(table, table[:, ::-1], table[:, ::-1], table, count, rec)
        for column in columns:
            rec.state(column, len(set(column)) > 1)
        return
    a = case["a"]
    alphabet = {"VALUES": VALUES, "SMALL": SMALL, "SMALL4": SMALL[:4]}[case["alphabet"]]
    rest = n * a - len(case["first"])
    for more in product(range(len(alphabet)), repeat=rest):
        cells = [alphabet[k] for k in (*case["first"], *more)]
        table = np.array(cells).reshape(n, a)
        if np.isnan(table).all(axis=0).any():
            continue
        whole = np.nan_to_num(table).astype(int)
        count = np.array([abs(row).sum() % 4 for row in whole], dtype=float)
        save(np.ones((n, 1)), table, table, -table, count, rec,
             kind=sum(case["first"]) % 2)
        rec.state(cells, len(set(cells)) > 1)


def save(x, y, x_raw, y_raw, count, rec, kind=0):
    f = x.shape[1]
    # The features' raw values are stored in another order, with one that isn't used.
    order = [(j * 3 + 1) % (f + 1) for j in range(f + 1)]
    idx = list(range(f)) if (f + 1) % 3 == 0 else order[:f]
    raw = np.full((x.shape[0], f + 1), 7.5)
    raw[:, idx] = x_raw if x_raw.shape == x.shape else x
    count = count.astype(int) if kind else count
    model = lib.model(x, y, x_raw=raw, y_raw=y_raw, idx=idx)
    object.__setattr__(model.data, "num_good_algos", count)
    before = lib.state(model)
    data = model.data
    with lib.scratch() as where:
        rec.step()
        model.save_for_web(where)
        rec.trace()
        rec.check(lib.state(model) == before, "saving changed the model")
        names = set()
        for name, columns, values, per_column in (
            ("feature_raw", data.feat_labels, raw[:, idx], True),
            ("feature_process", data.feat_labels, data.x, True),
            ("algorithm_raw_single", data.algo_labels, data.y_raw, True),
            ("algorithm_process_single", data.algo_labels, data.y, True),
            ("algorithm_raw", data.algo_labels, data.y_raw, False),
            ("algorithm_process", data.algo_labels, data.y, False),
            ("good_algos", ["NumGoodAlgos"], count[:, None], False),
        ):
            path = where / f"{name}_color.csv"
            names.add(path.name)
            rec.check(path.is_file(), lambda: f"{path.name} is missing")
            got = lib.table(path)
            rec.check(got[0] == ["Row", *columns], lambda: f"{path.name} has columns "
                      f"{got[0]}, not {columns}")
            rec.check([r[0] for r in got[1:]] == list(data.inst_labels),
                      lambda: f"{path.name} has rows {[r[0] for r in got[1:]]}")
            cells = [r[1:] for r in got[1:]]
            if per_column:
                for label, colours, column in zip(columns, zip(*cells), values.T):
                    judge(colours, column, f"{path.name}, {label}", rec)
            else:
                judge(sum(cells, []), values.ravel(), path.name, rec)
        colour_table(where / "color_table.csv", rec)
        names.add("color_table.csv")
        rec.check({p.name for p in where.iterdir()} == names,
                  lambda: f"files {sorted(p.name for p in where.iterdir())}")


def judge(cells, values, what, rec):
    rec.check(all(c.lstrip("-").isdigit() and 0 <= int(c) <= 255 for c in cells),
              lambda: f"{what}: colours {cells} of {values.tolist()}")
    colours = [int(c) for c in cells]
    present = [(v, c) for v, c in zip(values.tolist(), colours) if v == v]
    if not present:
        return
    low, high = min(v for v, _ in present), max(v for v, _ in present)
    if low == high:
        rec.count("constant")
        return
    for v, c in present:
        want = 255 * ((v - low) / (high - low))
        exact = v in (low, high)
        rec.check(abs(c - want) <= (0 if exact else 1),
                  lambda: f"{what}: colours {cells} of {values.tolist()}")
    rec.check(all(c <= d for (v, c), (w, d) in zip(sorted(present), sorted(present)[1:])),
              lambda: f"{what}: colours {cells} of {values.tolist()} are not in order")
    rec.count("scaled")
    if len(set(colours)) > 2:
        rec.sample({"values": values.tolist(), "colours": colours})


EXPECTED = []


def colour_table(path, rec):
    if not EXPECTED:
        colours = mpl.colormaps["viridis"].resampled(256)(range(256))
        EXPECTED.extend((colours[:, :3] * 255).astype(int).tolist())
    rec.check(path.is_file(), "color_table.csv is missing")
    got = lib.table(path)
    rec.check(got[0][-3:] == ["R", "G", "B"]
              and [[int(c) for c in r[-3:]] for r in got[1:]] == EXPECTED,
              "color_table.csv is not the colour map")
