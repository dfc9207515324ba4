"""C27: graphs show every instance, algorithm and footprint where it belongs."""

from itertools import product
from unittest import mock

import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from matplotlib.collections import PathCollection
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure

from mc.props import modellib as lib
from mc.props.modellib import NAN

LEVEL = "model_checking"
RULE = (
    "every assignment of best and of selected algorithms to the instances, with "
    "footprints of every kind, good and predicted labels, values with ties, missing and "
    "negative ones and constants, and sources; non-trivial: some algorithm is best or selected nowhere "
    "or no algorithm is selected somewhere"
)
BOUNDS = {
    "quick": "2 algorithms on 3 instances with all pairs of assignments of best and "
    "(none included) selected ones in turn, 3 algorithms on 3 instances with all best "
    "ones and in turn all selected ones, all 25 pairs of footprints, 8 assignments of 26 instances "
    "with 13 sources and 3 algorithms, or 12 and 13 features",
    "thorough": "2 algorithms on 3 instances with all pairs, 3 algorithms on 4 instances",
}
NAMES = ["algo_d", "algo_c_x", "plain", *(f"v_{k}" for k in range(9))]
# Instances within the usual limits of the space, and beyond.
SCALES = [(1, 1), (9, 1), (1, -8), (-20, 30), (0.1, 0.1)]
SOURCES = ["west", "a east", "mid"]


def cases(tier):
    deep = tier == "thorough"
    number = 0
    for p in product((1, 2), repeat=3):
        for k, selection in enumerate(product(range(3), repeat=3)):
            number += 1
            if deep or (k + sum(p)) % 3 == 0:
                yield make(2, p, selection, number)
    for n, number in product((1, 2), range(25)):
        yield {**make(2, tuple(1 + (i + number) % 2 for i in range(n)),
                      tuple((i + number) % 3 for i in range(n)), number * (3 - n)),
               "polygons": number if number % 2 else number % 2 * 5}
    n = 4 if deep else 3
    selections = list(product(range(4), repeat=n))
    for i, p in enumerate(product((1, 2, 3), repeat=n)):
        for k in range(0, len(selections), len(selections) // (32 if deep else 3)):
            yield make(3, p, selections[(k + i * 5) % len(selections)], i + k)
    for pair in range(25):
        for sim in (False, True):
            yield {**make(2, (1, 2, 2, 1), (2, 0, 1, 2), pair), "polygons": pair,
                   "sim": sim}
    for number in range(8):
        n = 26
        a = 12 if number % 2 else 3
        yield {**make(a, tuple((i * i + i // 3 + number) % a + 1 for i in range(n)),
                      tuple((i * 3 + i // 4 + number) % (a + 1) for i in range(n)),
                      number), "sources": 4}


def make(a, p, selection, number):
    return {"a": a, "p": p, "selection": selection, "polygons": number * 7 % 25,
            "kind": number % 4, "sim": number // 3 % 2 == 0, "good": number % 11,
            "sources": number // 4 % 4, "scale": number % len(SCALES)}


def build(case):
    a, n = case["a"], len(case["p"])
    names = list(lib.POLYGONS)
    polygons = [names[case["polygons"] % 5], names[case["polygons"] // 5], "triangle"] * 4
    f = 13 if a == 12 else 2
    x = np.array([[i * i - 2 * i * j + 0.5 for j in range(f)] for i in range(n)])
    y = np.array([[0.5 + (i * 3 + j * 2 + i * j) % 5 * (j + 1.0) for j in range(a)]
                  for i in range(n)])
    if case["kind"] == 1:
        x[:, 1], y[:, 0] = 3.0, 2.0
    elif case["kind"] == 2:
        y[1:2, a - 1] = NAN
        y[:, 0] = -0.5
    elif case["kind"] == 3:
        y -= (1.5, 3.0, 40.0)[case["good"] % 3]
    bits = case["good"]
    good = np.array([[(bits >> ((i * a + j) % 4)) & 1 for j in range(a)]
                     for i in range(n)], dtype=bool)
    hat = np.array([[(bits >> ((i + 2 * j) % 3)) & 1 for j in range(a)]
                    for i in range(n)], dtype=bool)
    sources = None
    if case["sources"]:
        names_of = SOURCES if case["sources"] < 4 else [f"s{k}" for k in range(13)]
        sources = pd.Series([names_of[(i * case["sources"]) % len(names_of)]
                             for i in range(n)],
                            index=range(n)[::-1] if case["sources"] == 2 else None)
    return lib.model(
        x, y + 10 * (np.arange(a) + 1), y_raw=y, p=case["p"], features=["feature_a_b", "feature_z",
                                         *(f"feature_{k}_x_y_z" for k in range(f - 2))],
        selection=case["selection"], algorithms=NAMES[:a], good=good, hat=hat,
        beta=[(bits + i) % 3 == 0 for i in range(n)], sources=sources,
        best=polygons[:a], goods=polygons[2::-1] * (a // 3) if a > 2 else polygons[2:0:-1], sim=case["sim"],
        z=[[(i * 0.7 - 1) * SCALES[case["scale"]][0],
            ((2 - i) * 1.1 + i * i / 3) * SCALES[case["scale"]][1]] for i in range(n)],
    )


def run(case, rec):
    plt.close("all")
    drawn = {}

    def savefig(self, target, *_args, **_kwargs):
        from pathlib import Path  # noqa: PLC0415

        drawn[Path(target).name] = read(self)
        Path(target).write_bytes(b"graph")

    model = build(case)
    before = lib.state(model)
    with lib.scratch() as where, mock.patch.object(Figure, "savefig", savefig):
        rec.step()
        model.save_graphs(where)
        rec.trace()
        rec.check({p.name for p in where.iterdir()} == set(drawn),
                  "graphs were written elsewhere")
    plt.close("all")
    rec.check(lib.state(model) == before, "saving changed the model")
    Judge(model, drawn, rec, str(case)).all()
    n, a = len(case["p"]), case["a"]
    rec.state(case, len(set(case["p"])) < a or 0 in case["selection"])
    rec.count("graphs", len(drawn))
    rec.count("instances", n)


def read(figure):
    """The points and polygons in the first axes of a figure."""
    axes = figure.axes[0]
    points, polygons = [], []
    for c in axes.collections:
        if isinstance(c, PathCollection):
            values = c.get_array()
            points.append({
                "at": np.ma.filled(np.ma.asarray(c.get_offsets(), float), NAN).tolist(),
                "values": None if values is None else
                np.ma.filled(np.ma.asarray(values, float), NAN).tolist(),
                "limits": c.get_clim(),
                "colours": [tuple(k) for k in np.asarray(c.get_facecolors())],
                "label": c.get_label(),
            })
    for p in axes.patches:
        if isinstance(p, mpl.patches.Polygon):
            polygons.append({"at": p.get_xy().tolist(),
                             "colour": to_rgba(p.get_facecolor())})
    legend = axes.get_legend()
    return {
        "points": points, "polygons": polygons,
        "x": sorted(axes.get_xlim()), "y": sorted(axes.get_ylim()),
        "legend": None if legend is None else [t.get_text() for t in legend.texts],
        "title": "".join(t.get_text() for t in figure.texts) or figure.get_suptitle(),
    }


def ordered(points):
    return sorted(tuple(round(v, 9) for v in p) for p in points)


class Judge:
    def __init__(self, model, drawn, rec, what):
        self.model, self.drawn, self.rec, self.what = model, drawn, rec, what
        self.z = model.pilot.z
        self.left = set(drawn)

    def check(self, condition, message):
        self.rec.check(condition, lambda: f"{self.what}: {message}")

    def get(self, name):
        self.check(name in self.drawn, f"{name} is missing")
        self.left.discard(name)
        drawn = self.drawn[name]
        for points in drawn["points"]:
            for p in points["at"]:
                self.check(all(not v == v or low <= v <= high for v, (low, high) in
                               zip(p, (drawn["x"], drawn["y"]))),
                           f"{name} does not show the instance at {p}: its axes are from "
                           f"{drawn['x'][0]}, {drawn['y'][0]} to {drawn['x'][1]}, "
                           f"{drawn['y'][1]}")
        return drawn

    def all(self):
        m, data = self.model, self.model.data
        a = len(data.algo_labels)
        for j, label in enumerate(data.feat_labels):
            self.values(f"distribution_feature_{label}.png", scaled(data.x[:, j]),
                        label.replace("_", " "))
        logs = None
        if np.nanmin(data.y_raw) >= 0:
            logs = np.log10(data.y_raw + 1)
            logs = scaled(logs.ravel()).reshape(logs.shape)
        foot = m.pythia.y_hat if m.opts.trace.use_sim else data.y_bin
        pairs: list = []
        for j, label in enumerate(data.algo_labels):
            title = label.replace("_", " ")
            name = f"distribution_performance_global_normalized_{label}.png"
            if logs is None:
                pairs += self.any_values(name, data.y_raw[:, j], title)
            else:
                self.values(name, logs[:, j], title)
            self.values(f"distribution_performance_individual_normalized_{label}.png",
                        scaled(data.y_raw[:, j]), title)
            self.binary(f"binary_performance_{label}.png", data.y_bin[:, j], title)
            self.binary(f"binary_svm_{label}.png", m.pythia.y_hat[:, j], title)
            drawn = self.binary(f"footprint_{label}.png", foot[:, j], title)
            if foot[:, j].any() or drawn["polygons"]:
                self.polygons(drawn, [m.trace.good[j]], f"footprint_{label}.png")
        # The logarithm of negative performances is up to the graph, but not their order
        # nor that the normalised ones are from 0 to 1.
        pairs.sort()
        for (one, shown), (other, then) in zip(pairs, pairs[1:]):
            self.check(shown < then if one < other else abs(shown - then) < 1e-9,
                       f"performances {one} and {other} have the normalised ones "
                       f"{shown} and {then}")
        if pairs and pairs[0][0] < pairs[-1][0]:
            self.check(abs(pairs[0][1]) < 1e-9 and abs(pairs[-1][1] - 1) < 1e-9,
                       f"normalised performances are from {pairs[0]} to {pairs[-1]}")
        self.values("distribution_number_good_algos.png", data.num_good_algos / a, None)
        self.binary("distribution_beta_score.png", data.beta, None)
        names = ["None", *(label.replace("_", " ") for label in data.algo_labels)]
        self.classes("distribution_portfolio.png", data.p, names)
        self.classes("distribution_svm_portfolio.png", m.pythia.selection0, names)
        chosen = m.pythia.selection0 if m.opts.trace.use_sim else data.p
        drawn = self.classes("footprint_portfolio.png", chosen, names)
        self.polygons(drawn, [m.trace.best[j] for j in range(a)
                              if (np.asarray(chosen) == j + 1).any()],
                      "footprint_portfolio.png",
                      [m.trace.best[j] for j in range(a)])
        for j in range(a):
            shown = [p["colours"][0][:3] for p in drawn["points"]
                     if p["label"] == names[j + 1] and p["at"]]
            for outline in parts(m.trace.best[j]) if shown else []:
                colours = [p["colour"][:3] for p in drawn["polygons"]
                           if ordered(p["at"]) == outline]
                self.check(any(np.allclose(shown[0], c) for c in colours),
                           f"footprint_portfolio.png has the footprint of "
                           f"{names[j + 1]} in {colours}, not in {shown[0]}")
        if data.s is not None:
            found = np.array([sorted(set(data.s)).index(v) for v in data.s])
            self.classes("distribution_sources.png", found, sorted(set(data.s)))
        self.check(not self.left, f"drew {sorted(self.left)} too")

    def values(self, name, values, title):
        drawn = self.get(name)
        self.title(drawn, title, name)
        self.check(len(drawn["points"]) == 1, f"{name} has {len(drawn['points'])} plots")
        points = drawn["points"][0]
        self.check(points["values"] is not None
                   and len(points["values"]) == len(points["at"]) == len(self.z),
                   f"{name} has {len(points['at'])} points")
        # Instances without a value are not drawn, or without a colour.
        got = sorted((tuple(p), v) for p, v in zip(
            np.round(points["at"], 9).tolist(), np.round(points["values"], 9).tolist())
            if v == v)
        want = sorted((tuple(p), v) for p, v in zip(
            np.round(self.z, 9).tolist(), np.round(values, 9).tolist()) if v == v)
        self.check(got == want, f"{name} shows {got}, not {want}")
        present = [v for v in values if v == v]
        low, high = points["limits"]
        constant = min(present) == max(present)
        self.check(low <= present[0] <= high if constant else
                   abs(low - min(present)) < 1e-9 and abs(high - max(present)) < 1e-9,
                   f"{name} has colours from {low} to {high} for {present}")
        self.rec.count("values")

    def any_values(self, name, values, title):
        """The values and what they are shown as."""
        drawn = self.get(name)
        self.title(drawn, title, name)
        self.check(len(drawn["points"]) == 1, f"{name} has {len(drawn['points'])} plots")
        points = drawn["points"][0]
        shown = {tuple(np.round(p, 9)): v for p, v in
                 zip(points["at"], points["values"] or []) if v == v}
        places = [tuple(p) for p in np.round(self.z, 9)]
        self.check(set(shown) == {p for p, v in zip(places, values) if v == v},
                   f"{name} shows {shown} for {values.tolist()}")
        low, high = points["limits"]
        self.check(all(low - 1e-9 <= v <= high + 1e-9 for v in shown.values()),
                   f"{name} has colours from {low} to {high} for {shown}")
        self.rec.count("values")
        return [(v, shown[p]) for p, v in zip(places, values) if v == v]

    def title(self, drawn, title, name):
        self.check(title is None or title in drawn["title"],
                   f"{name} is titled {drawn['title']!r}")

    def binary(self, name, flags, title):
        drawn = self.get(name)
        self.title(drawn, title, name)
        flags = np.asarray(flags).astype(bool)
        found = {}
        for points in drawn["points"]:
            self.check(points["label"] in ("GOOD", "BAD")
                       and points["label"] not in found,
                       f"{name} has a plot for {points['label']}")
            found[points["label"]] = points
        for label, mask in (("GOOD", flags), ("BAD", ~flags)):
            at = found.get(label, {"at": []})["at"]
            self.check(ordered(at) == ordered(self.z[mask]),
                       f"{name} shows {label} instances at {at}, not "
                       f"{self.z[mask].tolist()}")
        colours = [p["colours"][0] for p in found.values()]
        self.check(len(set(colours)) == len(colours), f"{name}: colours {colours}")
        self.check(sorted(drawn["legend"] or []) == sorted(found),
                   f"{name} has the legend {drawn['legend']}")
        return drawn

    def classes(self, name, assigned, names):
        drawn = self.get(name)
        assigned = np.asarray(assigned).ravel()
        found = {}
        for points in drawn["points"]:
            if not points["at"]:
                continue
            self.check(points["label"] in names and points["label"] not in found,
                       f"{name} has a plot for {points['label']}")
            found[points["label"]] = points
        for k, label in enumerate(names):
            mask = assigned == k
            at = found.get(label, {"at": []})["at"]
            self.check(ordered(at) == ordered(self.z[mask]),
                       f"{name} shows {label} at {at}, not {self.z[mask].tolist()}")
        colours = [tuple(np.round(p["colours"][0], 6)) for p in found.values()]
        self.check(len(set(colours)) == len(colours), f"{name}: colours {colours}")
        self.check(set(found) <= set(drawn["legend"] or []),
                   f"{name} has the legend {drawn['legend']}")
        self.rec.count("classes", len(found))
        return drawn

    def polygons(self, drawn, footprints, name, more=()):
        """The outlines of exactly these footprints, or some of the others too."""
        outlines = [outline for f in footprints for outline in parts(f)]
        allowed = [outline for f in more for outline in parts(f)]
        got = [ordered(p["at"]) for p in drawn["polygons"] if p["at"]]
        for outline in outlines:
            self.check(outline in got, f"{name} lacks the footprint {outline}: {got}")
        for outline in got:
            self.check(outline in outlines or outline in allowed,
                       f"{name} has the footprint {outline}, not of {outlines}")
        self.check(len(got) >= len(outlines), f"{name} lacks footprints")
        self.rec.count("footprints", len(outlines))


def parts(f):
    if f.polygon is None or f.polygon.is_empty:
        return []
    return [ordered(p.exterior.coords) for p in getattr(f.polygon, "geoms", [f.polygon])]


def scaled(values):
    present = [v for v in values.tolist() if v == v]
    low, high = min(present), max(present)
    return (values - low) / (high - low if high > low else 1)
