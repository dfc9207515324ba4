"""C14: selecting a subset of instances selects the same rows everywhere."""

import itertools
import math
import os
import tempfile

import numpy as np
import pandas as pd
from instancespace.data.options import ParallelOptions, SelvarsOptions, SiftedOptions
from instancespace.stages.sifted import SiftedInput, SiftedStage

from mc.props import c15
from mc.props.prelimlib import options, prelim

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every subset of the instances by an index file in several layouts, every fraction, "
    "every type and distance of density filtering, alone and combined, with and without "
    "sources, bounding and normalisation, for several indexes of the labels; density "
    "filtering again after the features are selected; non-trivial: a proper subset"
)
BOUNDS = {
    "quick": "all subsets of 6 instances in 6 layouts, 9 fractions of 2-11 instances and 79 of 40, "
    "4 types with 6 distances on 12 data sets, 3 data sets after feature selection",
    "thorough": "all subsets of 9 instances in 6 layouts, 19 fractions of 2-30 and 2n-1 of 40, 80 and 125 "
    "instances, 12 distances on 100 data sets, 12 data sets after feature selection",
}
LAYOUTS = ["lines", "row", "reversed", "twice", "outside", "table"]
INDEXES = ["default", "reversed", "text", "gaps", "same"]


def cases(tier):
    deep = tier == "thorough"
    n = 9 if deep else 6
    for layout in LAYOUTS:
        for start in range(0, 2**n, 16):
            yield {"kind": "file", "n": n, "layout": layout, "start": start}
    for n in range(2, 31 if deep else 12):
        yield {"kind": "fraction", "n": n, "steps": 20 if deep else 10}
    # Fractions of several digits matter for more instances.
    for n in (40, 80, 125) if deep else (40,):
        yield {"kind": "fraction", "n": n, "steps": 2 * n}
    for data in range(100 if deep else 12):
        for kind in c15.TYPES:
            yield {"kind": "density", "data": data, "type": kind,
                   "distances": 12 if deep else 6}
    for flags in itertools.product([0, 1], repeat=3):
        yield {"kind": "flags", "flags": flags}
    for data in range(12 if deep else 3):
        for kind in c15.TYPES:
            yield {"kind": "sifted", "data": data, "type": kind}


def table(n, data=0, features=2):
    """Features and performances that tell the instances apart, in no simple order."""
    step = [7, 11, 13, 17][data % 4]
    x = np.array([
        [(i * step + j * 5 + data) % 23 + 0.5 * j + 0.01 * i for j in range(features)]
        for i in range(n)
    ])
    y = np.array([[(i * 5 + data) % 7 + 1.0, (i * 3 + data) % 5 + 1.5]
                  for i in range(n)])
    return x, y


def labels(n, kind):
    index = {
        "default": list(range(n)), "reversed": list(range(n))[::-1],
        "text": [f"r{i}" for i in range(n)], "gaps": [3 * i + 7 for i in range(n)],
        "same": [1] * n,
    }[kind]
    return (pd.Series([f"inst{i}" for i in range(n)], index=index),
            pd.Series([f"src{i % 3}-{i}" for i in range(n)], index=index))


PARTS = ["x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p", "num_good_algos", "beta"]


def compare(out, full, n, rec, what, columns=None):
    """All parts hold the rows of the same instances; returns them."""
    names = [str(v) for v in out.inst_labels]
    rec.check(all(v.startswith("inst") for v in names), lambda: f"{what}: {names}")
    chosen = [int(v[4:]) for v in names]
    rec.check(chosen == sorted(set(chosen)) and all(0 <= i < n for i in chosen),
              lambda: f"{what}: instances {chosen} are not a subset in order")
    for part in PARTS:
        want = np.asarray(getattr(full, part))[chosen]
        if part == "x" and columns is not None:
            want = want[:, columns]
        got = np.asarray(getattr(out, part))
        rec.check(
            got.shape == want.shape and np.array_equal(got, want, equal_nan=True),
            lambda: f"{what}: {part} of {chosen} is {got.tolist()}, not "
            f"{want.tolist()}",
        )
    if full.s is None:
        rec.check(out.s is None, lambda: f"{what}: sources appeared")
    else:
        want = [f"src{i % 3}-{i}" for i in chosen]
        rec.check(out.s is not None and list(out.s) == want,
                  lambda: f"{what}: sources of {chosen} are {out.s}")
    rec.state((what, chosen), len(chosen) < n)
    return chosen


def both(x, y, number, selvars, rec):
    """The same analysis with and without the restriction."""
    n = len(x)
    label, source = labels(n, INDEXES[number % 5])
    source = source if number % 3 else None
    opts = options(epsilon=2.0, bound=number % 2 == 0, norm=number % 4 == 1)
    rec.evaluations += 1
    full = prelim(x, y, opts, rec, None, label, source)
    out = prelim(x, y, opts, rec, selvars, label, source)
    for part in ("med_val", "iq_range", "hi_bound", "lo_bound", "min_x", "lambda_x",
                 "mu_x", "sigma_x", "min_y", "lambda_y", "mu_y", "sigma_y"):
        rec.check(np.array_equal(getattr(out, part), getattr(full, part)),
                  lambda: f"the restriction changes {part}")
    return full, out


def layout(kind, chosen, n):
    numbers = [i + 1 for i in chosen]
    if kind == "row":
        return ",".join(map(str, numbers)) + "\n"
    if kind == "table":
        # Several in a line, filled up with the last one.
        numbers += numbers[-1:] * (-len(numbers) % 3)
        return "".join(
            ",".join(map(str, numbers[i : i + 3])) + "\n"
            for i in range(0, len(numbers), 3)
        )
    if kind == "reversed":
        numbers = numbers[::-1]
    elif kind == "twice":
        numbers = numbers + numbers[:1]
    elif kind == "outside":
        numbers = [0, *numbers, n + 1, -1]
    return "".join(f"{v}\n" for v in numbers)


def run(case, rec):
    kind = case["kind"]
    if kind == "file":
        n = case["n"]
        for code in range(case["start"], min(case["start"] + 16, 2**n)):
            chosen = [i for i in range(n) if code >> i & 1]
            if not chosen:
                continue
            by_file(n, chosen, case["layout"], code, rec)
    elif kind == "fraction":
        n = case["n"]
        x, y = table(n)
        for step in range(1, case["steps"]):
            share = step / case["steps"]
            size = math.ceil(share * n - 1e-9)
            if size >= n:
                continue
            selvars = SelvarsOptions.default(small_scale_flag=True, small_scale=share)
            kept = []
            for number in (step * 2, step * 2 + 1):
                full, out = both(x, y, number * 2, selvars, rec)
                kept.append(compare(out, full, n, rec, f"{share} of {n}"))
                rec.check(len(kept[-1]) == size,
                          lambda: f"{share} of {n} instances are {kept[-1]}")
                rec.check(out.data_dense is None, "dense data without density")
            rec.check(kept[0] == kept[1], lambda: f"{share} of {n}: {kept} differ")
    elif kind == "density":
        n = 7 + case["data"] % 5
        x, y = table(n, case["data"])
        for d in range(1, case["distances"] + 3):
            distance = d * 24.0 / case["distances"] - 1.37
            if d > case["distances"]:
                distance = (d - case["distances"]) * 7  # a whole number
            number = case["data"] * 2 + d
            selvars = SelvarsOptions.default(
                density_flag=True, selvars_type=case["type"], min_distance=distance,
            )
            full, out = both(x, y, number, selvars, rec)
            what = f"{case['type']} {distance} of data {case['data']}"
            chosen = compare(out, full, n, rec, what)
            want = c15.reference(full.x, full.y, full.y_bin, case["type"], distance)
            rec.check(chosen == want, lambda: f"{what}: {chosen}, not {want}")
            dense = out.data_dense
            rec.check(dense is not None, lambda: f"{what}: no dense data")
            rec.check(compare(dense, full, n, rec, what + " dense") == list(range(n)),
                      lambda: f"{what}: the dense data is not complete")
    elif kind == "flags":
        small, file, density = case["flags"]
        n = 9
        x, y = table(n)
        with tempfile.NamedTemporaryFile("w", suffix=".csv", delete=False) as f:
            f.write("2\n3\n7\n")
        try:
            for number in range(12):
                selvars = SelvarsOptions.default(
                    small_scale_flag=bool(small), small_scale=0.4,
                    file_idx_flag=bool(file), file_idx=f.name,
                    density_flag=bool(density), selvars_type="Ftr", min_distance=6.0 if number % 2 else 6,
                )
                full, out = both(x, y, number, selvars, rec)
                what = f"flags {case['flags']}"
                chosen = compare(out, full, n, rec, what)
                rec.check(any(case["flags"]) == (len(chosen) < n),
                          lambda: f"{what}: {chosen}")
                if out.data_dense is not None:
                    rec.check(
                        compare(out.data_dense, full, n, rec, what + " dense")
                        == list(range(n)), "the dense data is not complete",
                    )
        finally:
            os.unlink(f.name)
    else:
        sifted(case["data"], case["type"], rec)


def by_file(n, chosen, kind, number, rec):
    x, y = table(n)
    with tempfile.NamedTemporaryFile("w", suffix=".csv", delete=False) as f:
        f.write(layout(kind, chosen, n))
    try:
        selvars = SelvarsOptions.default(file_idx_flag=True, file_idx=f.name)
        full, out = both(x, y, number, selvars, rec)
    finally:
        os.unlink(f.name)
    what = f"indices {chosen} as {kind}"
    got = compare(out, full, n, rec, what)
    rec.check(got == chosen, lambda: f"{what}: selected {got}")
    rec.check(out.data_dense is None, lambda: f"{what}: dense data without density")
    if len(chosen) == 3:
        rec.sample({"file": layout(kind, chosen, n), "selected": got})


def sifted(data, kind, rec):
    """Density filtering is repeated with the selected features."""
    n = 24
    rng = np.random.default_rng(data)
    base = rng.normal(size=(n, 2))
    x = np.hstack([
        base, base + rng.normal(size=(n, 2)) * 0.3, rng.normal(size=(n, 1)) + base[:, :1],
    ])
    y = np.exp(base @ np.array([[1.0, 0.3], [0.2, 1.0]]))
    distance = 1 if data % 4 == 2 else 1.2 + 0.2 * (data % 3)
    selvars = SelvarsOptions.default(
        density_flag=True, selvars_type=kind, min_distance=distance,
    )
    label, source = labels(n, INDEXES[data % 5])
    source = None if data % 3 == 2 else source
    opts = options(epsilon=1.5, norm=True)
    full = prelim(x, y, opts, rec, None, label, source)
    out = prelim(x, y, opts, rec, selvars, label, source)
    sifted_options = SiftedOptions.default(
        rho=0.0, k=3, n_trees=3, max_iter=20, replicates=2, num_generations=2,
        num_parents_mating=2, sol_per_pop=4, keep_elitism=1,
    )
    rec.evaluations += 1
    rec.step()
    names = [f"f{j}" for j in range(x.shape[1])]
    got = SiftedStage._run(SiftedInput(  # noqa: SLF001
        out.x, out.y, out.y_bin, out.x_raw, out.y_raw, out.beta, out.num_good_algos,
        out.y_best, out.p, out.inst_labels, names, out.s, sifted_options, selvars,
        out.data_dense, ParallelOptions.default(),
    ))
    rec.trace()
    what = f"{kind} {distance} of data {data} after selection of features"
    columns = [int(v) for v in got.selvars]
    rec.check(len(columns) < x.shape[1], lambda: f"{what}: no features are removed")
    rec.check([int(v) for v in got.idx] == columns
              and list(got.feat_labels) == [names[j] for j in columns],
              lambda: f"{what}: features {got.idx}, {columns}, {got.feat_labels}")
    chosen = compare(got, full, n, rec, what, columns)
    want = c15.reference(full.x[:, columns], full.y, full.y_bin, kind, distance)
    rec.check(chosen == want, lambda: f"{what}: kept {chosen}, not {want}")
    rec.count("sifted subsets", len(chosen) < n)
