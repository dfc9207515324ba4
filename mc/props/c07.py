"""C07: metadata tables are parsed completely and aligned."""

import csv
import math
import os
import tempfile
from itertools import permutations, product
from pathlib import Path

import numpy as np
import pandas as pd
from instancespace.data.metadata import Metadata, from_csv_file

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every order of every column set (instances, features, algorithms, source, "
    "unrelated) with every row count, label kind and spelling; and every table of "
    "cells over an alphabet with missing values; non-trivial: more than the minimum "
    "of one column of a kind, or a missing cell"
)
BOUNDS = {
    "quick": "all orders of up to 7 columns (2 features, 2 algorithms, source, "
    "unrelated), 1-2 rows, 11 label kinds, 5 kinds of sources, 5 spellings, every casing of each word; all 2x3 tables of cells over "
    "5 values",
    "thorough": "up to 3 features, 8 columns, 1-3 rows; all 2x4 tables of cells over 6 values",
}
LABELS = {
    "text": ["beta", "alpha", "gamma"],
    "int": ["12", "3", "7"],
    "float": ["1.5", "0.25", "3.75"],
    "same": ["x", "x", "x"],
    "mixed": ["1", "b c", "a,b"],
    "zeros": ["007", "7", "07"],
    "absent": ["NA", "nan", "None"],
    "exponents": ["1e3", "1000", "True"],
    "spaces": ["x ", "x", " x"],
    "cases": ["ab", "AB", "Ab"],
    "marks": ["#1", "a\"b", "x\ny;z"],
}
SOURCES = [["src1", "src0", "src2"], ["01", "1", "1.0"], ["NA", "null", "-"],
           ["a b", "#", "a b"], ["s ", "s", "S"]]
OTHERS = ["my_feature_x", "algorithm", "sources", "instance", "feat_a", "Feature",
          "source ", " Source", " instances", "instances.", " feature_a", "_algo_"]
# Other names of features and algorithms.
ENDS = ["", ".", "_", "a.b", " a", "-", "\u00e9", "1", "feature_a", "algo_a", "source", "A"]
ALPHABET = ["1.5", "", "0", "-2", "1e300", "7"]
SPELL = {
    "lower": str.lower,
    "upper": str.upper,
    "title": lambda s: s[0].upper() + s[1:],
    "inverse": lambda s: s[0] + s[1:].upper(),
    "zigzag": lambda s: "".join(
        c.upper() if i % 2 else c for i, c in enumerate(s)
    ),
}


def cases(tier):
    feats = (1, 2) if tier == "quick" else (1, 2, 3)
    rows = (1, 2) if tier == "quick" else (1, 2, 3)
    for nf, na, source, other in product(feats, (1, 2), (0, 1), (0, 1)):
        columns = (
            ["instances"]
            + [f"feature_{'qcx'[i]}" for i in range(nf)]
            + [f"algo_{'zb'[i]}" for i in range(na)]
            + ["source"] * source
            + ["?"] * other
        )
        if len(columns) > 8:
            continue
        orders = list(permutations(columns))
        for start in range(0, len(orders), 60):
            yield {"kind": "orders", "orders": orders[start : start + 60],
                   "rows": rows, "start": start}
    width = 3 if tier == "quick" else 4
    size = 5 if tier == "quick" else 6
    for first in product(ALPHABET[:size], repeat=width):
        yield {"kind": "cells", "first": first, "width": width, "size": size}
    yield {"kind": "frames"}
    yield {"kind": "names"}
    for word in ("instances", "source", "feature", "algo"):
        yield {"kind": "casing", "word": word}


def run(case, rec):
    if case["kind"] == "orders":
        for i, order in enumerate(case["orders"]):
            n = case["start"] + i
            # The longest orders alternate the number of rows.
            sizes = case["rows"] if len(order) < 7 else [n % max(case["rows"]) + 1]
            for rows in sizes:
                # Spelling and labels rotate through all combinations with the order.
                label = list(LABELS)[(n // 5 + rows) % len(LABELS)]
                other = OTHERS[(n // 7) % len(OTHERS)]
                names = [other if c == "?" else c for c in order]
                # Every column has its own spelling.
                names = [
                    c if c == other else list(SPELL.values())[(n + j * (n // 25)) % 5](c)
                    for j, c in enumerate(names)
                ]
                table = []
                for r in range(rows):
                    row = []
                    for j, c in enumerate(names):
                        low = c.lower()
                        if low == "instances":
                            row.append(LABELS[label][r])
                        elif low == "source":
                            row.append(SOURCES[(n // 3) % len(SOURCES)][r])
                        elif c == other:
                            row.append("junk" if r else "5")
                        else:
                            row.append(repr(r * 100 + j * 7 + 0.5))
                    table.append(row)
                one(names, table, label in ("int", "float"), rec)
    elif case["kind"] == "cells":
        w = case["width"]
        for second in product(ALPHABET[: case["size"]], repeat=w):
            # One column is a feature, the last is an algorithm.
            names = ["Instances"]
            names += [f"feature_{i}" for i in range(w - 1)] + ["algo_x"]
            table = [["i1", *case["first"]], ["i0", *second]]
            one(names, table, False, rec)
        one(["algo_x", "Instances", *names[1:-1]],
            [[case["first"][-1], "i1", *case["first"][:-1]]], False, rec)
    elif case["kind"] == "names":
        for a, b, c in product(ENDS, repeat=3):
            if a == b:
                continue
            names = ["Instances", f"feature_{a}", f"Algo_{c}", f"Feature_{b}", "algo_z"]
            one(names, [["i1", "1.5", "-2", "0.5", "4"], ["i0", "", "7", "0.25", "8"]],
                False, rec)
    elif case["kind"] == "casing":
        # Every way to write one of the words.
        names = ["instances", "feature_p", "algo_q", "source"]
        at = next(i for i, n in enumerate(names) if n.startswith(case["word"]))
        for casing in product((str.lower, str.upper), repeat=len(case["word"])):
            word = "".join(f(c) for f, c in zip(casing, case["word"], strict=True))
            spelled = list(names)
            spelled[at] = word + names[at][len(word) :]
            one(spelled, [["i1", "1.5", "-2", "s"], ["i0", "", "7", "t"]], False, rec)
    else:
        # Data frames made in memory, with any index.
        for index in ([5, 3, 9], list("abc"), [0, 0, 0], [2, 1, 0]):
            for number, order in enumerate(permutations(range(5))):
                data = [
                    ("Instances", [[30, 10, 20], [1.5, 0.25, 1.0], ["b", "a", "b"],
                                   [-1, 0, 2**60 + 1]][number % 4]),
                    ("Feature_A", [1, 2, 3]),
                    ("algo_A", [0.5, math.nan, 2.5]),
                    ("Source", [["u", "v", "u"], [1, 2, 1], ["w"] * 3][number % 3]),
                    # Another column, with nearly the same name.
                    [("Algo_A", [4, 5, 6]), ("algo_a", [7.0, math.nan, 8.5]),
                     ("Feature_a", [0.5, -1, 9])][number // 2 % 3],
                ]
                data = [data[i] for i in order]
                names = [n for n, _ in data]
                frame = pd.concat(
                    [pd.Series(v, index=range(3)) for _, v in data], axis=1,
                )
                frame.columns = names
                frame.index = index
                before = frame.copy(deep=True)
                got = Metadata.from_data_frame(frame)
                table = [
                    ["" if v[r] != v[r] else str(v[r]) for _, v in data]
                    for r in range(3)
                ]
                compare(got, names, table, True, rec, f"data frame with index {index}")
                rec.check(frame.equals(before), "the data frame was modified")


def one(names, table, numeric, rec):
    fd, path = tempfile.mkstemp(suffix=".csv")
    try:
        with os.fdopen(fd, "w", newline="") as f:
            writer = csv.writer(f)
            writer.writerow(names)
            writer.writerows(table)
        given = path if len(table) % 2 else Path(path)
        got = from_csv_file(given)
    finally:
        os.unlink(path)
    compare(got, names, table, numeric, rec, "file")


def number(cell):
    return float(cell) if cell else math.nan


def compare(got, names, table, numeric, rec, what):
    rec.evaluations += 1
    rec.step()
    rec.trace()
    what = f"{what} with columns {names} and rows {table}"
    rec.check(got is not None, lambda: f"{what} could not be loaded")
    low = [n.lower() for n in names]
    feats = [j for j, n in enumerate(low) if n.startswith("feature_")]
    algos = [j for j, n in enumerate(low) if n.startswith("algo_")]
    for part, idx, label, data in (
        ("feature", feats, got.feature_names, got.features),
        ("algorithm", algos, got.algorithm_names, got.algorithms),
    ):
        rec.check(
            isinstance(label, list) and label == [names[j] for j in idx],
            lambda: f"{what}: {part} names {label}",
        )
        want = np.array([[number(row[j]) for j in idx] for row in table])
        data = np.asarray(data, dtype=float)
        rec.check(
            data.shape == want.shape and np.array_equal(data, want, equal_nan=True),
            lambda: f"{what}: {part} values {data.tolist()}, not {want.tolist()}",
        )
    at = low.index("instances")
    labels = got.instance_labels
    rec.check(
        isinstance(labels, pd.Series) and len(labels) == len(table),
        lambda: f"{what}: instance labels {labels!r}",
    )
    rec.check(
        all(isinstance(v, str) for v in labels)
        and [str(v) for v in labels] == [row[at] for row in table],
        lambda: f"{what}: instance labels {list(labels)}",
    )
    if "source" in low:
        at = low.index("source")
        rec.check(
            isinstance(got.instance_sources, pd.Series)
            and [str(v) for v in got.instance_sources] == [row[at] for row in table],
            lambda: f"{what}: sources {got.instance_sources!r}",
        )
    else:
        rec.check(
            got.instance_sources is None,
            lambda: f"{what}: sources {got.instance_sources!r} although there are none",
        )
    rec.state(
        (names, table), len(names) > 3 or any("" in row for row in table),
    )
    if len(table) == 1 and len(names) == 7:
        rec.sample({"columns": names, "rows": table})
