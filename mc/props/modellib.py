"""Models of every shape, and what their files should contain."""

import csv
import hashlib
import io
import shutil
import tempfile
from contextlib import contextmanager
from dataclasses import fields, is_dataclass
from pathlib import Path
from unittest import mock

import numpy as np
import pandas as pd
from instancespace.data.model import (
    CloisterOut,
    Data,
    FeatSel,
    Footprint,
    PilotOut,
    PrelimOut,
    PythiaOut,
    SiftedOut,
    TraceOut,
)
from instancespace.data.options import InstanceSpaceOptions
from instancespace.model import Model
from shapely.geometry import MultiPolygon, Polygon, box

NAN = float("nan")
POLYGONS = {
    "none": None,
    "empty": Polygon(),
    "triangle": Polygon([(0, 0), (1.5, 0.25), (0.1 + 0.2, 2)]),
    "hole": Polygon([(-1, -1), (2, -1), (2, 3), (-1, 3)], [[(0, 0), (1, 0), (0, 1)]]),
    "two": MultiPolygon([box(0, 0, 1, 1), Polygon([(2, 2), (3, 2), (2.5, 4)])]),
}
TRACE_COLUMNS = ["Area_Good", "Area_Good_Normalised", "Density_Good",
                 "Density_Good_Normalised", "Purity_Good", "Area_Best",
                 "Area_Best_Normalised", "Density_Best", "Density_Best_Normalised",
                 "Purity_Best"]


@contextmanager
def scratch():
    where = Path(tempfile.mkdtemp(prefix="verif-"))
    try:
        yield where
    finally:
        shutil.rmtree(where)


def footprint(name):
    polygon = POLYGONS[name] if isinstance(name, str) else name
    if polygon is None:
        return Footprint(None, 0, 0, 0, 0, 0)
    return Footprint(polygon, polygon.area, 3, 2, 0.5, 2 / 3)


def model(
    x, y, *, idx=None, x_raw=None, y_raw=None, labels=None, features=None,
    algorithms=None, sources=None, p=None, selection=None, hat=None, good=None,
    count=None, beta=None, best=None, goods=None, z=None, sim=True, bounds=4,
    feat_idx=None,
):
    """A model of given processed features and performances."""
    x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    n, f = x.shape
    a = y.shape[1]
    features = features or [f"feature_{'zyxwv'[j % 5]}{j // 5 or ''}" for j in range(f)]
    algorithms = algorithms or [f"algo_{'dcba'[j % 4]}{j // 4 or ''}" for j in range(a)]
    idx = np.arange(f) if idx is None else np.array(idx)
    x_raw = x.copy() if x_raw is None else np.array(x_raw, dtype=float)
    y_raw = y.copy() if y_raw is None else np.array(y_raw, dtype=float)
    labels = pd.Series([f"inst {i}" for i in range(n)]) if labels is None else labels
    good = (y_raw > 0) if good is None else np.array(good, dtype=bool)
    hat = ~good if hat is None else np.array(hat, dtype=bool)
    p = np.arange(n) % a + 1 if p is None else np.array(p)
    selection = (p + 1) % (a + 1) if selection is None else np.array(selection)
    z = (np.array([[i * 0.3 - 1, (i * i) % 3 - 1.1] for i in range(n)])
         if z is None else np.array(z, dtype=float))
    data = Data(
        inst_labels=labels, feat_labels=list(features), algo_labels=list(algorithms),
        x=x, y=y, x_raw=x_raw, y_raw=y_raw, y_bin=good, y_best=y_raw.max(axis=1), p=p,
        num_good_algos=good.sum(axis=1).astype(float) if count is None
        else np.array(count, dtype=float),
        beta=good.any(axis=1) if beta is None else np.array(beta, dtype=bool),
        s=sources,
    )
    best = best or ["triangle"] * a
    goods = goods or ["hole"] * a
    summary = pd.DataFrame(
        [[algorithms[j], *[round(0.37 * (j + 1) * (k + 2), 3) for k in range(10)]]
         for j in range(a)], columns=["Algorithm", *TRACE_COLUMNS])
    svm = pd.DataFrame({"Algorithms": [*algorithms, "Oracle", "Selector"],
                        "Avg": [round(1.5 * j - 1, 3) for j in range(a + 1)] + [""],
                        "CV_model_accuracy": [100.0] * a + ["", ""]})
    projection = pd.DataFrame([["Z_{1}", *[0.1 + j / 7 for j in range(f)]],
                               ["Z_{2}", *[-1e-9 * (j + 1) for j in range(f)]]],
                              columns=["", *features])
    ones = np.ones(f)
    return Model(
        data=data, data_dense=data,
        feat_sel=FeatSel(idx=idx if feat_idx is None else np.array(feat_idx)),
        prelim=PrelimOut(ones, ones, ones, ones, ones, ones, ones, ones, 0.0,
                         np.ones(a), np.ones(a), np.ones(a)),
        sifted=SiftedOut(selvars=idx, idx=idx, rho=None, pval=None,
                         silhouette_scores=None, clust=None),
        pilot=PilotOut(X0=None, alpha=None, eoptim=None, perf=None, a=np.ones((2, f)), z=z,
                       c=np.ones((a, 2)), b=np.ones((f, 2)), error=np.array(0.1),
                       r2=np.ones(f + a), summary=projection),
        cloister=CloisterOut(
            z_edge=np.array([[k * 1.1, k * k / 3] for k in range(bounds)]),
            z_ecorr=np.array([[k / 7, -k * 1.5] for k in range(max(3, bounds - 1))])),
        pythia=PythiaOut(
            mu=[0.0, 0.0], sigma=[1.0, 1.0], cp=None, svm=[], cvcmat=np.ones((a, 4)),
            y_sub=hat, y_hat=hat, pr0_sub=hat * 0.5, pr0_hat=hat * 0.5,
            box_consnt=[1.0] * a, k_scale=[1.0] * a, precision=[1.0] * a,
            recall=[1.0] * a, accuracy=[1.0] * a, selection0=selection,
            selection1=np.maximum(selection, 1), summary=svm),
        trace=TraceOut(space=footprint("hole"), good=[footprint(g) for g in goods],
                       best=[footprint(b) for b in best], hard=footprint("none"),
                       summary=summary),
        opts=InstanceSpaceOptions.default(
            trace=type(InstanceSpaceOptions.default().trace)(use_sim=sim, purity=0.5)),
    )


def state(value):
    """A hash of everything in a model."""
    h = hashlib.blake2b(digest_size=16)

    def add(v):
        h.update(type(v).__name__.encode())
        if isinstance(v, np.ndarray):
            h.update(repr((v.shape, v.dtype)).encode() + v.tobytes())
        elif isinstance(v, pd.DataFrame):
            h.update((repr(list(v.columns)) + v.to_csv()).encode())
        elif isinstance(v, pd.Series):
            h.update(repr((list(v.index), list(v), v.name)).encode())
        elif is_dataclass(v):
            for f in fields(v):
                h.update(f.name.encode())
                add(getattr(v, f.name))
        elif isinstance(v, (list, tuple)):
            for w in v:
                add(w)
        elif hasattr(v, "wkb"):
            h.update(v.wkb)
        else:
            h.update(repr(v).encode())

    add(value)
    return h.hexdigest()


def table(path):
    """The cells of a saved table."""
    with Path(path).open(newline="", encoding="utf-8") as file:
        return list(csv.reader(file))


def same_cell(cell, value):
    """Whether a cell contains exactly this value."""
    if isinstance(value, str):
        return cell == value
    if isinstance(value, (bool, np.bool_)):
        return cell in (("True", "1", "1.0") if value else ("False", "0", "0.0"))
    value = float(value)
    if value != value:
        return cell in ("", "nan", "NaN")
    try:
        return float(cell) == value
    except ValueError:
        return False


def compare(path, columns, rows, values, rec, what):
    """Check a table of labelled rows and columns."""
    rec.check(path.is_file(), lambda: f"{what}: {path.name} is missing")
    got = table(path)
    rec.check(got and got[0] == ["Row", *columns],
              lambda: f"{what}: {path.name} has columns {got[:1]}, not {columns}")
    rec.check([r[0] for r in got[1:]] == [str(r) for r in rows],
              lambda: f"{what}: {path.name} has rows {[r[0] for r in got[1:]]}, not "
              f"{list(rows)}")
    values = np.asarray(values)
    values = values.reshape(len(rows), -1)
    for r, row, want in zip(rows, got[1:], values):
        rec.check(
            len(row) == len(want) + 1
            and all(same_cell(c, v) for c, v in zip(row[1:], want)),
            lambda: f"{what}: {path.name} has {row[1:]} for {r}, not {want.tolist()}",
        )


@contextmanager
def no_drawing():
    """Write small files instead of the graphs."""
    from matplotlib.figure import Figure  # noqa: PLC0415

    def savefig(self, target, *_args, **_kwargs):
        Path(target).write_bytes(b"graph " + Path(target).name.encode())

    with mock.patch.object(Figure, "savefig", savefig):
        yield


def text(rows):
    out = io.StringIO()
    csv.writer(out).writerows(rows)
    return out.getvalue()
