"""C08: options files overlay the defaults exactly."""

import copy
import json
import os
import tempfile
from dataclasses import fields, is_dataclass
from inspect import signature
from itertools import combinations, permutations, product

from instancespace.data.options import (
    InstanceSpaceOptions,
    PrelimOptions,
    from_json_file,
)

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every subset of sections, of fields in a section, every spelling of a field, every "
    "empty value, unknown names at every place, every order of repeated loads; "
    "non-trivial: something besides the defaults is loaded"
)
BOUNDS = {
    "quick": "all subsets of 12 sections; all subsets of the fields of each section of "
    "up to 9 fields, all subsets of up to 3 or all but up to 2 fields of the section of "
    "17, in files and made by the default methods; histories of 3 loads",
    "thorough": "all subsets of the fields of every section, all pairs of fields of "
    "different sections; histories of 4 loads",
}
# section -> field -> (name in files besides the field's own, default, other value)
TABLE = {
    "parallel": {"flag": (None, False, True), "n_cores": ("ncores", 2, 5)},
    "perf": {
        "max_perf": ("maxperf", False, True),
        "abs_perf": ("absperf", True, False),
        "epsilon": (None, 0.2, 0.35),
        "beta_threshold": ("betathreshold", 0.55, 0.7),
    },
    "auto": {"preproc": (None, True, False)},
    "bound": {"flag": (None, True, False)},
    "norm": {"flag": (None, True, False)},
    "selvars": {
        "small_scale_flag": ("smallscaleflag", False, True),
        "small_scale": ("smallscale", 0.5, 0.25),
        "file_idx_flag": ("fileidxflag", False, True),
        "file_idx": ("fileidx", "", "idx.csv"),
        "feats": (None, None, ["feature_a"]),
        "algos": (None, None, ["algo_a", "algo_b"]),
        "selvars_type": ("type", "Ftr&Good", "Ftr"),
        "min_distance": ("mindistance", 0.1, 0.3),
        "density_flag": ("densityflag", False, True),
    },
    "sifted": {
        "flag": (None, True, False),
        "rho": (None, 0.1, 0.45),
        "k": (None, 6, 11),
        "n_trees": ("ntrees", 50, 21),
        "max_iter": ("maxiter", 1000, 31),
        "replicates": (None, 100, 41),
        "num_generations": (None, 100, 51),
        "num_parents_mating": (None, 2, 3),
        "sol_per_pop": (None, 50, 61),
        "parent_selection_type": (None, "tournament", "sss"),
        "k_tournament": (None, 4, 7),
        "keep_elitism": (None, 2, 1),
        "crossover_type": (None, "scattered", "uniform"),
        "cross_over_probability": (None, 0.8, 0.6),
        "mutation_type": (None, "random", "swap"),
        "mutation_probability": (None, 0.05, 0.15),
        "stop_criteria": (None, "saturate_5", "saturate_9"),
    },
    "pilot": {
        "x0": (None, None, [[1.0], [2.0]]),
        "alpha": (None, None, [0.5, 1.5]),
        "analytic": (None, False, True),
        "n_tries": ("ntries", 5, 9),
    },
    "cloister": {"p_val": ("pval", 0.05, 0.01), "c_thres": ("cthres", 0.7, 0.9)},
    "pythia": {
        "cv_folds": ("cvfolds", 5, 3),
        "is_poly_krnl": ("ispolykrnl", False, True),
        "use_weights": ("useweights", False, True),
        "use_grid_search": ("uselibsvm", False, True),
        "params": (None, None, [[1.0, 2.0]]),
    },
    "trace": {"use_sim": ("usesim", True, False), "purity": ("pi", 0.55, 0.8)},
    "outputs": {
        "csv": (None, True, False), "web": (None, False, True),
        "png": (None, True, False),
    },
}
EMPTY = [False, 0, 0.0, "", [], None]


def _subsets(names, tier):
    n = len(names)
    for k in range(n + 1):
        if n > 9 and tier == "quick" and 3 < k < n - 2:
            continue
        yield from combinations(names, k)


def cases(tier):
    yield {"kind": "names"}
    sections = list(TABLE)
    for k in range(len(sections) + 1):
        chunk = list(combinations(sections, k))
        for start in range(0, len(chunk), 150):
            yield {"kind": "sections", "sets": chunk[start : start + 150]}
    for section in sections:
        chunk = []
        for chosen in _subsets(list(TABLE[section]), tier):
            chunk.append(chosen)
            if len(chunk) == 1000:
                yield {"kind": "fields", "section": section, "sets": chunk}
                chunk = []
        yield {"kind": "fields", "section": section, "sets": chunk}
        yield {"kind": "spelling", "section": section}
        yield {"kind": "unknown", "section": section}
        yield {"kind": "made", "section": section}
    yield {"kind": "prelim"}
    yield {"kind": "notobject"}
    depth = 3 if tier == "quick" else 4
    for first in range(6):
        yield {"kind": "history", "depth": depth, "first": first}
    if tier == "thorough":
        for a, b in combinations(sections, 2):
            yield {"kind": "pairs", "sections": [a, b]}


def content(section, names):
    return {f: copy.deepcopy(TABLE[section][f][2]) for f in names}


def expected(given):
    """The value of every field for a file with canonical names."""
    return {
        (s, f): given.get(s, {}).get(f, default)
        for s, table in TABLE.items()
        for f, (_, default, _) in table.items()
    }


def read(options):
    found = {}
    for part in fields(options):
        section = getattr(options, part.name)
        if not is_dataclass(section):
            found[part.name, None] = section
            continue
        for f in fields(section):
            found[part.name, f.name] = getattr(section, f.name)
    return found


def same(a, b):
    return type(a) is type(b) and a == b


def compare(options, given, rec, what, nontrivial=True):
    rec.trace()
    want, found = expected(given), read(options)
    wrong = {
        k: (found.get(k), want.get(k))
        for k in {*want, *found}
        if k not in found or k not in want or not same(found[k], want[k])
    }
    rec.check(
        not wrong,
        lambda: f"{what}: "
        + ", ".join(
            f"{'.'.join(map(str, k))} is {v[0]!r}, not {v[1]!r}"
            for k, v in wrong.items()
        ),
    )
    rec.state((what, sorted(map(repr, found.items()))), nontrivial)


def load(given, rec):
    rec.evaluations += 1
    rec.step()
    before = copy.deepcopy(given)
    options = InstanceSpaceOptions.from_dict(given)
    rec.check(given == before, lambda: f"loading {before} changed it to {given}")
    return options


def load_file(given, rec):
    rec.evaluations += 1
    rec.step()
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(given, f)
        return from_json_file(path)
    finally:
        os.unlink(path)


def refused(given, rec, what):
    rec.evaluations += 1
    rec.step()
    rec.trace()
    try:
        InstanceSpaceOptions.from_dict(given)
    except ValueError:
        pass
    else:
        rec.fail(f"{what}: {given} is accepted")
    rec.check(load_file(given, rec) is None, lambda: f"{what}: file {given} is loaded")
    rec.state(("refused", repr(given)))


def made(section, rec):
    """Options made by the default methods."""
    default = getattr(InstanceSpaceOptions.default(), section)
    known = list(signature(type(default).default).parameters)
    for chosen in _subsets([f for f in TABLE[section] if f in known], "quick"):
        rec.evaluations += 1
        rec.step()
        given = content(section, chosen)
        one = type(default).default(**given)
        what = f"{section} made with {chosen}"
        compare(InstanceSpaceOptions.default(**{section: one}), {section: given}, rec,
                what)
        compare(InstanceSpaceOptions.default(), {}, rec, f"the defaults after {what}",
                False)


def prelim(rec):
    """The options of the preliminary processing follow from those of the sections."""
    perf = TABLE["perf"]
    for preproc, bound, norm in product((False, True), repeat=3):
        for chosen in _subsets(list(perf), "quick"):
            given = {"perf": content("perf", chosen), "auto": {"preproc": preproc},
                     "bound": {"flag": bound}, "norm": {"flag": norm}}
            got = PrelimOptions.from_options(load(given, rec))
            want = {f: given["perf"].get(f, d) for f, (_, d, _) in perf.items()}
            want |= {"bound": preproc and bound, "norm": preproc and norm}
            found = {f: getattr(got, f) for f in want}
            rec.trace()
            rec.check(
                all(same(found[f], want[f]) for f in want),
                lambda: f"options of PRELIM for {given} are {found}, not {want}",
            )
            rec.state(("prelim", repr(given)))


def run(case, rec):
    kind = case["kind"]
    if kind == "names":
        found = {s: set() for s in TABLE}
        default = InstanceSpaceOptions.default()
        compare(default, {}, rec, "the default options", False)
        for s, f in read(default):
            found.setdefault(s, set()).add(f)
        compare(load({}, rec), {}, rec, "an empty object", False)
        rec.sample({s: sorted(map(str, f)) for s, f in found.items()})
    elif kind == "sections":
        for chosen in case["sets"]:
            given = {s: content(s, TABLE[s]) for s in chosen}
            what = f"sections {chosen}"
            compare(load(given, rec), given, rec, what, bool(chosen))
            if len(chosen) % 3 == 1:
                got = load_file(dict(reversed(given.items())), rec)
                rec.check(got is not None, lambda: f"{what} cannot be loaded")
                compare(got, given, rec, what + " from a file")
    elif kind == "fields":
        section = case["section"]
        for chosen in case["sets"]:
            given = {section: content(section, chosen)}
            compare(load(given, rec), given, rec, f"{section} with {chosen}",
                    bool(chosen))
    elif kind == "spelling":
        section = case["section"]
        for field, (alias, _, other) in TABLE[section].items():
            for value in [other, *EMPTY, -1, 0.123, 10**12]:
                for name in (field, alias):
                    if name is None:
                        continue
                    for spelled in (name, name.upper(), name.title()):
                        want = {section: {field: value}}
                        given = {section: {spelled: copy.deepcopy(value)}}
                        what = f"{section}.{spelled} = {value!r}"
                        compare(load(given, rec), want, rec, what)
                        if spelled == name:
                            got = load_file(given, rec)
                            rec.check(got is not None, lambda: what + " is refused")
                            compare(got, want, rec, what + " in a file")
            # Together with all others of the section, before or after them.
            if alias is not None:
                others = content(section, [f for f in TABLE[section] if f != field])
                for given in ({alias: other, **others}, {**others, alias: other}):
                    want = {section: {**others, field: other}}
                    compare(load({section: given}, rec), want, rec,
                            f"{section} with {list(given)}")
                for given in ({alias: other, field: other}, {field: 1, alias: 2},
                              {alias: 1, **others, field: 2}):
                    refused({section: given}, rec, "a field given twice")
            refused({section: {field: other, field.upper(): other}}, rec,
                    "a field given twice")
    elif kind == "unknown":
        section = case["section"]
        every = {s: content(s, TABLE[s]) for s in TABLE}
        known = set(TABLE[section]) | {
            a for a, _, _ in TABLE[section].values() if a
        }
        wrong = {"unknown", "", "flags", "default", "opts", section}
        for s, table in TABLE.items():
            wrong |= {s, *table} | {a for a, _, _ in table.values() if a}
        wrong |= {f + "x" for f in TABLE[section]} | {
            f.replace("_", "-") for f in TABLE[section] if "_" in f
        }
        for name in sorted(wrong - known):
            if name.replace("_", "") in known:
                continue
            for value in (1, None, {}):
                for base in ({}, content(section, list(TABLE[section])[:1])):
                    refused({section: {name: value, **base}}, rec, "an unknown field")
                    refused({section: {**base, name: value}}, rec, "an unknown field")
            full = copy.deepcopy(every)
            full[section] = {**full[section], name: 3}
            refused(full, rec, "an unknown field")
    elif kind == "made":
        made(case["section"], rec)
    elif kind == "prelim":
        prelim(rec)
    elif kind == "notobject":
        every = {s: content(s, TABLE[s]) for s in TABLE}
        for name in ["unknown", "", "Perf", "PERF", "general", "flag", "n_cores",
                     *(s + "s" for s in TABLE), *(s.upper() for s in TABLE)]:
            if name in TABLE:
                continue
            for value in ({}, None, 1):
                refused({name: value}, rec, "an unknown section")
                refused({**every, name: value}, rec, "an unknown section")
                refused({name: value, **every}, rec, "an unknown section")
        for value in (1, "x", [], [1], True, None, 0.5):
            rec.evaluations += 1
            rec.check(load_file(value, rec) is None, lambda: f"{value!r} is loaded")
            for section in TABLE:
                refused({section: value}, rec, "a section that is no object")
                refused({**every, section: value}, rec, "a section that is no object")
    elif kind == "history":
        # Loads in sequence do not influence each other, refused ones included.
        files = [
            {},
            {s: content(s, TABLE[s]) for s in TABLE},
            {"pilot": content("pilot", ["x0", "alpha"]),
             "selvars": content("selvars", ["feats"])},
            {"perf": {"wrong": 1}, "pilot": content("pilot", TABLE["pilot"])},
            {"trace": content("trace", TABLE["trace"]), "wrong": {}},
            {s: {f: d for f, (_, d, _) in t.items()} for s, t in TABLE.items()},
        ]
        for rest in permutations(range(len(files)), case["depth"] - 1):
            kept = []
            for i in (case["first"], *rest, case["first"]):
                given = copy.deepcopy(files[i])
                if i in (3, 4):
                    refused(given, rec, "an unknown name")
                    continue
                got = load(given, rec)
                kept.append((i, got))
                compare(got, files[i], rec, f"load of file {i}")
            for i, got in kept:
                compare(got, files[i], rec, f"file {i} after later loads")
            compare(InstanceSpaceOptions.default(), {}, rec, "defaults after loads")
    else:
        a, b = case["sections"]
        for fa in TABLE[a]:
            for fb in TABLE[b]:
                given = {b: content(b, [fb]), a: content(a, [fa])}
                compare(load(given, rec), given, rec, f"{a}.{fa} and {b}.{fb}")
