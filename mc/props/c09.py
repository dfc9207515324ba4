"""C09: broken input files are reported, never half-loaded."""

import json
import math
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
from instancespace.data.metadata import from_csv_file
from instancespace.data.options import from_json_file
from instancespace.instance_space import (
    InstanceSpace,
    instance_space_from_directory,
    instance_space_from_files,
)

from mc.props import c08

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every truncation point, every replacement, removal and insertion of a byte of an "
    "alphabet, every removed or swapped line of each input file, every kind of missing "
    "or unreadable file, and every pair of (intact, missing, cut off) files given to an "
    "instance space; non-trivial: the file is not intact"
)
BOUNDS = {
    "quick": "3 metadata and 2 options files of up to 160 bytes, an alphabet of 7 bytes",
    "thorough": "7 metadata and 4 options files, an alphabet of 16 bytes, all pairs of "
    "replaced bytes of one short file of each kind",
}
TABLES = [
    b"Instances,feature_a,Source,algo_x,feature_b,algo_y\n"
    b"i1,0.5,s,10,-2,3\ni2,1.5,t,,4,5\ni3,,s,20,6,7.25\n",
    b"algo_x,other,instances,feature_a\r\n1.25,q,7,2\r\n2.5,r,8,3\r\n",
    b"Instances,feature_a,algo_x,\none,1,2,\ntwo,3,4,\n",
    b"Instances,feature_a,algo_x\nonly,1,2",
    b"Instances,feature_a,algo_x\n\none,1,2\n\n\ntwo,3,4\n",
    b"Source,Instances,feature_a,algo_x\ns,one,1\nt,two,3,4\n",
    b"Instances,feature_a,algo_x\n",
]
OPTIONS = [
    b'{"perf": {"MaxPerf": true, "epsilon": 0.25}, "trace": {"PI": 0.75}, '
    b'"pilot": {"x0": [[1.0], [2.0]]}}\n',
    b'{"sifted": {"k": 12, "flag": false}, "selvars": {"feats": ["feature_\xc3\xa9"]}}',
    b"{}",
    b'{"selvars": {"feats": ["feature_a"], "type": "Ftr"},\n "norm": {}}\n',
]
QUICK_BYTES = [0x00, 0xFF, 0x2C, 0x0A, 0x22, 0x78, 0x0D]
MORE_BYTES = [0x20, 0x7B, 0x7D, 0x5B, 0x5D, 0x3A, 0x31, 0x2D, 0xC3]
KINDS = ["missing", "directory", "loop", "dangling", "device", "unreadable", "noparent",
         "empty", "blank", "toolong"]


def cases(tier):
    tables = TABLES[:3] if tier == "quick" else TABLES
    options = OPTIONS[:2] if tier == "quick" else OPTIONS
    alphabet = QUICK_BYTES if tier == "quick" else QUICK_BYTES + MORE_BYTES
    for which, files in (("csv", tables), ("json", options)):
        for i, data in enumerate(files):
            yield {"which": which, "file": i, "kind": "truncate"}
            yield {"which": which, "file": i, "kind": "lines"}
            for b in alphabet:
                for kind in ("replace", "insert"):
                    yield {"which": which, "file": i, "kind": kind, "byte": b}
            yield {"which": which, "file": i, "kind": "remove"}
        for kind in KINDS:
            yield {"which": which, "kind": kind}
        if tier == "thorough":
            i = {"csv": 3, "json": 1}[which]
            for b in alphabet:
                for at in range(len(files[i])):
                    yield {"which": which, "file": i, "kind": "pair", "byte": b,
                           "at": at, "alphabet": alphabet}
    for i in range(len(KINDS) + 3):
        yield {"which": "space", "row": i}


def variants(case, data):
    kind = case["kind"]
    if kind == "truncate":
        for n in range(len(data) + 1):
            yield data[:n]
    elif kind == "remove":
        for n in range(len(data)):
            yield data[:n] + data[n + 1 :]
    elif kind == "lines":
        lines = data.splitlines(keepends=True)
        for i in range(len(lines)):
            yield b"".join(lines[:i] + lines[i + 1 :])
            yield b"".join(lines[: i + 1] + lines[i:])
            for j in range(i):
                swapped = list(lines)
                swapped[i], swapped[j] = lines[j], lines[i]
                yield b"".join(swapped)
        yield data + data
    elif kind == "pair":
        b = bytes([case["byte"]])
        for n in range(len(data)):
            for c in case["alphabet"]:
                if n != case["at"]:
                    broken = bytearray(data)
                    broken[case["at"]] = b[0]
                    broken[n] = c
                    yield bytes(broken)
    else:
        b = bytes([case["byte"]])
        for n in range(len(data) + (kind == "insert")):
            yield data[:n] + b + data[n + (kind == "replace") :]


def damaged(kind, folder, name):
    """Make a file of the kind, and return its path."""
    path = folder / name
    if kind == "directory":
        path.mkdir()
    elif kind == "loop":
        path.symlink_to(path)
    elif kind == "dangling":
        path.symlink_to(folder / "absent")
    elif kind == "device":
        path.symlink_to("/dev/null")
    elif kind == "unreadable":
        # Reading the first page of a process' memory fails with an I/O error.
        path.symlink_to("/proc/self/mem")
    elif kind == "noparent":
        path = folder / "absent" / name
    elif kind == "toolong":
        path = folder / ("x" * 300 + name)
    elif kind == "empty":
        path.write_bytes(b"")
    elif kind == "blank":
        path.write_bytes(b"\n\n  \n")
    return path


def run(case, rec):
    with tempfile.TemporaryDirectory() as name:
        folder = Path(name)
        if case["which"] == "space":
            space(case, folder, rec)
            return
        load = from_csv_file if case["which"] == "csv" else from_json_file
        if "file" not in case:
            path = damaged(case["kind"], folder, "input")
            for given in (path, str(path)):
                got = attempt(load, given, rec, f"{case['kind']} file")
                if case["which"] == "csv" and case["kind"] == "blank" and got:
                    rec.check(not got.feature_names and not got.algorithm_names
                              and got.features.size == 0, f"a blank file is {got}")
                else:
                    rec.check(got is None, lambda: f"{case['kind']} file is {got}")
            rec.state((case["which"], case["kind"]))
            return
        data = (TABLES if case["which"] == "csv" else OPTIONS)[case["file"]]
        path = folder / "input"
        for broken in variants(case, data):
            path.write_bytes(broken)
            got = attempt(load, path, rec, f"{broken!r}")
            rec.state((case["which"], broken, got is None), broken != data)
            rec.count("refused" if got is None else "loaded")
            if case["which"] == "csv":
                table(got, broken, broken == data, rec)
            else:
                options(got, broken, broken == data, rec)
            if case["kind"] == "truncate" and got is not None and len(broken) > 60:
                rec.sample(broken.decode("utf-8", "replace"))


def attempt(load, path, rec, what):
    rec.evaluations += 1
    rec.step()
    rec.trace()
    try:
        return load(path)
    except Exception as error:  # noqa: BLE001
        rec.fail(f"{what}: loading raises {type(error).__name__}: {error}")


def table(got, broken, intact, rec):
    if got is None:
        rec.check(not intact, lambda: f"{broken!r} is refused")
        return
    what = f"{broken!r}"
    n = len(got.instance_labels)
    for names, values in ((got.feature_names, got.features),
                          (got.algorithm_names, got.algorithms)):
        rec.check(values.ndim == 2 and values.shape[1] == len(names),
                  lambda: f"{what}: {len(names)} names for {values.shape}")
    rec.check(
        got.features.shape[0] == got.algorithms.shape[0]
        and (not isinstance(got.instance_labels, pd.Series)
             or n == got.features.shape[0])
        and (got.instance_sources is None or len(got.instance_sources)
             == got.features.shape[0]),
        lambda: f"{what}: {n} labels, {got.features.shape[0]} rows of features, "
        f"{got.algorithms.shape[0]} of algorithms",
    )
    if b'"' in broken or b"\0" in broken or b"\xff" in broken or b"\xc3" in broken:
        return
    text = broken.decode().replace("\r\n", "\n").replace("\r", "\n")
    rows = [line.split(",") for line in text.split("\n") if line.strip()]
    header, rows = rows[0], rows[1:]
    width = len(header)
    for i, row in enumerate(rows):
        rec.check(
            not any(row[width:]),
            lambda: f"{what}: row {i} has cells {row[width:]} without a column, but is "
            "loaded",
        )
    if len({h.lower() for h in header}) < width:
        return  # Names that occur twice are told apart by pandas.
    rows = [[*row[:width], *[""] * (width - len(row))] for row in rows]
    low = [h.lower() for h in header]
    for prefix, names, values in (
        ("feature_", got.feature_names, got.features),
        ("algo_", got.algorithm_names, got.algorithms),
    ):
        cols = [j for j, h in enumerate(low) if h.startswith(prefix)]
        rec.check(list(names) == [header[j] for j in cols],
                  lambda: f"{what}: {prefix} columns {names}")
        rec.check(values.shape[0] == len(rows), lambda: f"{what}: {values.shape}")
        for i, row in enumerate(rows):
            for v, j in zip(values[i], cols):
                rec.check(
                    cell_equal(v, row[j]),
                    lambda: f"{what}: {header[j]} of row {i} is {v!r}, not {row[j]!r}",
                )
    for name, values in (("instances", got.instance_labels),
                         ("source", got.instance_sources)):
        if low.count(name) == 1 and values is not None:
            j = low.index(name)
            found = list(values)
            rec.check(
                len(found) == len(rows)
                and all(cell_equal(v, row[j]) for v, row in zip(found, rows)),
                lambda: f"{what}: {name} are {found}",
            )
    if "source" in low:
        rec.check(got.instance_sources is not None, lambda: f"{what}: no sources")


def cell_equal(value, cell):
    cell = cell.strip()
    if value is None or (isinstance(value, float | np.floating) and math.isnan(value)):
        return cell == ""
    if str(value).strip() == cell:
        return True
    try:
        return float(value) == float(cell)
    except (TypeError, ValueError):
        return cell == "" and str(value).lower() == "nan"


def options(got, broken, intact, rec):
    try:
        said = json.loads(broken.decode(), object_pairs_hook=lambda p: ("object", p))
    except (ValueError, UnicodeDecodeError):
        said = None
    want = None if said is None else meaning(said)
    what = f"{broken!r}"
    if got is None:
        rec.check(want is None and not intact, lambda: f"{what} is refused")
        return
    rec.check(want is not None, lambda: f"{what} is loaded as {got}")
    c08.compare(got, want, rec, what)


def meaning(said):
    """The sections and fields (by their proper names) of a valid file, or None."""
    if not isinstance(said, tuple):
        return None
    found = {}
    for section, value in said[1]:
        if section not in c08.TABLE or not isinstance(value, tuple):
            return None
        fields = {}
        for name, v in value[1]:
            proper = [
                f for f, (alias, _, _) in c08.TABLE[section].items()
                if name.lower() in (f, alias)
            ]
            if not proper:
                return None
            fields[proper[0]] = json.loads(json.dumps(v))
        found[section] = fields
    return found


def space(case, folder, rec):
    good = {
        "metadata.csv": (TABLES[0], TABLES[0][:-40]),
        "options.json": (OPTIONS[0], OPTIONS[1]),
    }
    kinds = [*KINDS, "cut", "good", "good2"]
    a = kinds[case["row"]]
    for b in kinds:
        sub = folder / b
        sub.mkdir()
        paths = []
        for kind, name in ((a, "metadata.csv"), (b, "options.json")):
            if kind in ("good", "good2", "cut"):
                path = sub / name
                data = good[name][kind == "good2"]
                if kind == "cut":
                    data = b"a,b\n1,2\n3,4,5\n" if name[0] == "m" else data[:-3]
                path.write_bytes(data)
            else:
                path = damaged(kind, sub, name)
            paths.append(path)
        want = a.startswith("good") and b.startswith("good")
        got = attempt(lambda p: instance_space_from_files(*p), paths, rec,
                      f"instance space from {a} metadata and {b} options")
        both = [got]
        if "noparent" not in (a, b) and "toolong" not in (a, b):
            both.append(attempt(instance_space_from_directory, sub, rec,
                                f"directory with {a} metadata and {b} options"))
        for got in both:
            if a == "blank":
                # A table without columns: whether this is a failure is not stated.
                rec.check(got is None or b.startswith("good"), "built without options")
                continue
            rec.check(
                (got is not None) == want,
                lambda: f"{a} metadata and {b} options: {got}",
            )
            if got is not None:
                rec.check(isinstance(got, InstanceSpace), "not an instance space")
                table(got.metadata, good["metadata.csv"][a == "good2"], True, rec)
                options(got.options, good["options.json"][b == "good2"], True, rec)
        rec.state(("space", a, b), not want)
