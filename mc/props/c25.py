"""C25: saved tables reproduce the model exactly."""

from itertools import product

import numpy as np
import pandas as pd
from scipy.io import loadmat
from shapely.geometry import MultiPolygon, box

from mc.props import modellib as lib
from mc.props.modellib import NAN

LEVEL = "model_checking"
RULE = (
    "every shape of the model (numbers of instances, selected features in any order, "
    "algorithms, polygons, labels and kinds of values), and every sequence of saves of "
    "different kinds into two directories; non-trivial: a selection of the features, or "
    "more than one save"
)
BOUNDS = {
    "quick": "1-4 and 15 instances, 1-3 of 4 features in 10 orders, 1-3 algorithms, 25 pairs of "
    "footprints, 6 kinds of labels; all sequences of up to 3 of 6 saves of tables, and of 2 with "
    "one of graphs",
    "thorough": "1-6, 15 and 40 instances, all orders of up to 3 of 4 features, 1-4 algorithms; all "
    "sequences of up to 4 of 8 saves",
}
LABELS = {
    "plain": lambda n: pd.Series([f"inst {i}" for i in range(n)]),
    "numbers": lambda n: pd.Series([str(7 * i % 11) for i in range(n)]),
    "reversed": lambda n: pd.Series([f"i{i}" for i in range(n)], index=range(n)[::-1]),
    "text index": lambda n: pd.Series([f"i{i}" for i in range(n)],
                                      index=[f"k{i}" for i in range(n)]),
    "special": lambda n: pd.Series(['a,"b"', "c\nd", " é'", "NULL", "-0", "x;y"][:n]),
    "same": lambda n: pd.Series(["twin"] * n),
}
ORDERS = [(0,), (3,), (0, 1), (2, 1), (1, 3), (3, 0), (0, 1, 2), (2, 0, 3), (3, 2, 1),
          (1, 2, 3)]
ISLANDS = MultiPolygon([box(5, 5, 6, 6), box(-3, -2, -1, 0), box(0, 8, 1, 9)])
NAMES = ["algo_d", "Algo C, v2", "b'é", "a.b"]


def cases(tier):
    deep = tier == "thorough"
    orders = [o for k in (1, 2, 3) for o in product(range(4), repeat=k)
              if len(set(o)) == k] if deep else ORDERS
    number = 0
    for n, order, a in product(range(1, 7 if deep else 5), orders,
                               range(1, 5 if deep else 4)):
        for kind in range(3):
            number += 1
            yield {"n": n, "order": order, "a": a, "kind": kind,
                   "labels": list(LABELS)[number % 6], "polygons": number % 25}
    for polygons, labels in product(range(25), LABELS):
        yield {"n": 3, "order": (2, 0), "a": 2, "kind": polygons % 3, "labels": labels,
               "polygons": polygons}
    for n, kind, labels in product((15, 40) if deep else (15,), range(3), LABELS):
        if labels != "special":
            yield {"n": n, "order": (3, 1), "a": 1 + kind, "kind": kind,
                   "labels": labels, "polygons": (n + kind) % 25}
    for kind, a in product(range(3), (1, 2, 3)):
        yield {"n": 3, "order": (2, 0), "a": a, "kind": kind, "labels": "plain",
               "polygons": "islands"}
    operations = [f"{kind} {where}" for kind in ("csv", "web", "mat", "graphs")
                  for where in ("one", "two")]
    for length in range(1, 5 if deep else 4):
        for history in product(operations, repeat=length):
            graphs = sum("graphs" in o for o in history)
            if deep or graphs == 0 or graphs == 1 and length < 3:
                yield {"history": history}
    for wrong in ("absent", "file"):
        for kind, text in product(("csv", "web", "graphs"), (False, True)):
            yield {"wrong": wrong, "kind": kind, "text": text}


def values(n, columns, kind):
    """Plain values, ones that need every digit, or with missing and equal ones."""
    grid = np.array([[i * 3.5 + j * 0.7 + 0.1 * i * j - 2 for j in range(columns)]
                     for i in range(n)])
    if kind == 1:
        grid = np.array([0.1 + 0.2, 1e-300, -1e22, 1 / 3, 5e-324, 2.0**53 + 2, -0.0])[
            (np.arange(n)[:, None] * 3 + np.arange(columns)) % 7]
    elif kind == 2:
        grid = np.round(grid) % 3
        grid[(np.arange(n)[:, None] + np.arange(columns)) % 4 == 1] = NAN
    return grid


def build(case):
    n, order, a, kind = case["n"], case["order"], case["a"], case["kind"]
    names = list(lib.POLYGONS)
    if case["polygons"] == "islands":
        names = lib.POLYGONS["two"], ISLANDS
        polygons = names[::1 - 2 * (kind % 2)]
    else:
        polygons = [names[case["polygons"] % 5], names[case["polygons"] // 5]]
    raw = values(n, 4, kind)
    y_raw = values(n, a, (kind + 1) % 3)
    return lib.model(
        values(n, len(order), 0) + 100, values(n, a, 0) - 50, idx=order,
        feat_idx=order, x_raw=raw, y_raw=y_raw, labels=LABELS[case["labels"]](n),
        features=[f"feature_{'wxyz'[j]}" for j in order], algorithms=NAMES[:a],
        best=[polygons[j % 2] for j in range(a)],
        goods=[polygons[1 - j % 2] for j in range(a)], bounds=2 + n,
        sources=pd.Series(["s"] * n) if n % 2 else None,
        count=np.arange(n) % (a + 1), beta=np.arange(n) % 2 == 0,
        p=(np.arange(n) * 2) % a + 1, selection=(np.arange(n) * 3) % (a + 1),
        hat=(np.arange(n)[:, None] * 2 + np.arange(a)) % 3 == 0,
        good=(np.arange(n)[:, None] + np.arange(a)) % 2 == 0,
    )


def run(case, rec):
    if "history" in case:
        history(case["history"], rec)
    elif "wrong" in case:
        wrong(case, rec)
    else:
        model = build(case)
        before = lib.state(model)
        with lib.scratch() as where:
            rec.step()
            model.save_to_csv(where if case["n"] % 2 else str(where))
            rec.trace()
            rec.check(lib.state(model) == before, "saving changed the model")
            tables(model, where, rec, str(case))
            matlab(model, where, rec, str(case))
            rec.check(lib.state(model) == before, "saving for MATLAB changed the model")
        rec.state(case, len(case["order"]) > 1)


def tables(model, where, rec, what):
    data, x, expected = model.data, model.data.feat_labels, set()

    def check(name, columns, rows, cells):
        expected.add(name)
        lib.compare(where / name, columns, rows, cells, rec, what)

    rows, y = list(data.inst_labels), data.algo_labels
    check("coordinates.csv", ["z_1", "z_2"], rows, model.pilot.z)
    check("feature_raw.csv", x, rows, data.x_raw[:, list(model.sifted.idx)])
    check("feature_process.csv", x, rows, data.x)
    check("algorithm_raw.csv", y, rows, data.y_raw)
    check("algorithm_process.csv", y, rows, data.y)
    check("algorithm_bin.csv", y, rows, data.y_bin)
    check("algorithm_svm.csv", y, rows, model.pythia.y_hat)
    check("good_algos.csv", ["NumGoodAlgos"], rows, data.num_good_algos)
    check("beta_easy.csv", ["IsBetaEasy"], rows, data.beta)
    check("portfolio.csv", ["Best_Algorithm"], rows, data.p)
    check("portfolio_svm.csv", ["Best_Algorithm"], rows, model.pythia.selection0)
    for name, points in (("bounds.csv", model.cloister.z_edge),
                         ("bounds_prunned.csv", model.cloister.z_ecorr)):
        check(name, ["z_1", "z_2"], [f"bnd_pnt_{i + 1}" for i in range(len(points))],
              points)
    for kind, footprints in (("best", model.trace.best), ("good", model.trace.good)):
        for label, f in zip(y, footprints):
            name = f"footprint_{label}_{kind}.csv"
            if f.polygon is None or f.polygon.is_empty:
                if (where / name).exists():
                    expected.add(name)
                    rec.check(len(lib.table(where / name)) == 1,
                              lambda: f"{what}: {name} of an empty footprint has rows")
                continue
            outline(f.polygon, where / name, rec, what)
            expected.add(name)
    summary(where / "footprint_performance.csv", model.trace.summary[
        ["Algorithm", "Area_Good_Normalised", "Density_Good_Normalised", "Purity_Good",
         "Area_Best_Normalised", "Density_Best_Normalised", "Purity_Best"]], rec)
    summary(where / "projection_matrix.csv", model.pilot.summary, rec)
    summary(where / "svm_table.csv", model.pythia.summary, rec)
    expected |= {"footprint_performance.csv", "projection_matrix.csv", "svm_table.csv"}
    got = {f.name for f in where.iterdir() if f.suffix == ".csv"
           and "color" not in f.name}
    rec.check(got == expected, lambda: f"{what}: saved {sorted(got - expected)} too, and "
              f"not {sorted(expected - got)}")


def matlab(model, where, rec, what):
    """The file for MATLAB has the labels of the algorithms, filled up with spaces."""
    rec.step()
    model.save_to_mat(str(where) if len(what) % 2 else where)
    path = where / "model.mat"
    rec.check(path.is_file(), lambda: f"{what}: there is no file for MATLAB")
    found = loadmat(path)["data"]["algolabels"][0, 0]
    got = [str(label).rstrip(" ") for label in np.atleast_1d(found).tolist()]
    rec.check(got == model.data.algo_labels,
              lambda: f"{what}: the file for MATLAB has the labels {got}")


def outline(polygon, path, rec, what):
    """The points of the outlines, whether or not the first ones are repeated."""
    parts = polygon.geoms if isinstance(polygon, MultiPolygon) else [polygon]
    outlines = [list(p.exterior.coords) for p in parts]
    allowed = [sum(outlines, [])[:-1], sum(outlines, []),
               sum((o[:-1] for o in outlines), [])]
    rec.check(path.is_file(), lambda: f"{what}: {path.name} is missing")
    got = lib.table(path)
    points = [(float(x), float(y)) for _, x, y in got[1:]]
    rec.check(got[0] == ["Row", "z_1", "z_2"]
              and [r[0] for r in got[1:]]
              == [f"bnd_pnt_{i + 1}" for i in range(len(points))]
              and points in allowed,
              lambda: f"{what}: {path.name} has {got}, for {outlines}")


def summary(path, frame, rec):
    rec.check(path.is_file(), lambda: f"{path.name} is missing")
    got = lib.table(path)
    names = list(map(str, frame.columns))
    rec.check(got[0][1:] == names[1:] and len(got) == len(frame) + 1,
              lambda: f"{path.name} has columns {got[0]} and {len(got) - 1} rows")
    for row, want in zip(got[1:], frame.to_numpy().tolist()):
        rec.check(len(row) == len(want)
                  and all(lib.same_cell(c, v) for c, v in zip(row, want)),
                  lambda: f"{path.name} has {row}, not {want}")


SAVES = {"csv": "save_to_csv", "web": "save_for_web", "mat": "save_to_mat",
         "graphs": "save_graphs"}


def contents(where):
    """The files of a directory. Those for MATLAB contain the time."""
    return {f.name: f.read_bytes() if f.suffix != ".mat" else b""
            for f in sorted(where.iterdir())}


def history(operations, rec):
    model = build({"n": 3, "order": (2, 0), "a": 2, "kind": 0, "labels": "plain",
                   "polygons": 13})
    before = lib.state(model)
    with lib.scratch() as top, lib.no_drawing():
        (top / "one").mkdir()
        (top / "two").mkdir()
        single = {}
        for kind, method in SAVES.items():
            if any(o.startswith(kind) for o in operations):
                (top / kind).mkdir()
                fresh = build({"n": 3, "order": (2, 0), "a": 2, "kind": 0,
                               "labels": "plain", "polygons": 13})
                getattr(fresh, method)(top / kind)
                single[kind] = contents(top / kind)
                rec.check(single[kind], f"saving {kind} wrote nothing")
        want = {"one": {}, "two": {}}
        for operation in operations:
            kind, where = operation.split()
            rec.step()
            getattr(model, SAVES[kind])(top / where)
            want[where].update(single[kind])
            for place in want:
                got = contents(top / place)
                rec.check(
                    got == want[place],
                    lambda: f"{operations}: after {operation}, directory {place} has "
                    f"{sorted(set(got) ^ set(want[place]))} too or not, and other "
                    f"contents of {[k for k in got if got[k] != want[place].get(k)]}",
                )
            rec.check(lib.state(model) == before,
                      lambda: f"{operations}: {operation} changed the model")
        rec.trace()
        for place in want:
            if f"csv {place}" in operations:
                tables(model, top / place, rec, str(operations))
        rec.check({p.name for p in top.iterdir()} == {"one", "two", *single},
                  "something was written elsewhere")
    rec.state(operations)
    rec.count("histories")


def wrong(case, rec):
    model = build({"n": 2, "order": (0,), "a": 1, "kind": 0, "labels": "plain",
                   "polygons": 0})
    with lib.scratch() as top, lib.no_drawing():
        target = top / "x"
        if case["wrong"] == "file":
            target.write_text("kept")
        rec.step()
        try:
            getattr(model, SAVES[case["kind"]])(str(target) if case["text"] else target)
        except (ValueError, OSError):
            rec.count("refused")
        else:
            rec.fail(f"saving {case['kind']} to a {case['wrong']} path succeeds")
        rec.trace()
        left = [p.name for p in top.iterdir()]
        rec.check(left == (["x"] if case["wrong"] == "file" else [])
                  and (not left or target.read_text() == "kept"),
                  lambda: f"saving {case['kind']} to a {case['wrong']} path left {left}")
    rec.state(case)
