"""C32: names are only names, and the order of the columns only an order."""

import csv
from dataclasses import fields, is_dataclass, replace
from itertools import permutations, product

import numpy as np
import pandas as pd
from instancespace.data.metadata import Metadata, from_csv_file
from instancespace.data.options import (
    CloisterOptions,
    InstanceSpaceOptions,
    ParallelOptions,
    PilotOptions,
    SelvarsOptions,
    SiftedOptions,
)
from instancespace.instance_space import InstanceSpace
from instancespace.stages.cloister import CloisterInput, CloisterStage
from instancespace.stages.pilot import PilotInput, PilotStage
from instancespace.stages.preprocessing import PreprocessingInput, PreprocessingStage
from instancespace.stages.sifted import (
    NotEnoughFeatureError,
    SiftedInput,
    SiftedStage,
)

from mc.props import modellib, prelimlib, pythialib, tracelib
from mc.props.c16 import correlation
from mc.props.prelimlib import close

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every combination of ways to name the features, algorithms and instances (rising, "
    "falling, one the prefix of another, different by their case only, numbers, words of "
    "the header, special characters; instances also all of the same name), and of having "
    "sources, for analyses with the real stages; and every order of the columns of the "
    "algorithms and of the features for the stages that treat them alike; non-trivial: "
    "the names or the order differ from the first ones"
)
BOUNDS = {
    "quick": "4 features, 3 algorithms and 30 instances: 7 x 7 ways to name the features and "
    "the algorithms, 8 ways to name the instances and 4 kinds of sources taking turns, 3 "
    "analyses; all 6 orders of 3 algorithms and all 24 of 4 features, 6 settings of 2 data "
    "sets each",
    "thorough": "all combinations with the 8 ways to name the instances, 6 analyses; all 24 orders of "
    "4 algorithms and all 120 of 5 features, 12 settings of 4 data sets each",
}
ASSUMPTIONS = [
    "the parameters of the support vector machines are given, as the search draws "
    "different ones for the algorithms in their order",
    "there are no ties, which the order of the algorithms decides (C11, C20)",
]
# The part after the prefix.
WAYS = {
    "rising": ["a", "b", "c", "d"], "falling": ["z", "y", "x", "w"],
    "prefixes": ["v1", "v", "v11", "v_1"], "cases": ["qq", "QQ", "qQ", "Qq"],
    "numbers": ["10", "9", "1e3", "-0"], "words": ["algo_x", "source", "instances", "nan"],
    "special": ["a b", "\u00e9,\"'", "$x_1^{(", "%s/{0}\\"],
}
INSTANCES = ("rising", "falling", "numbers", "decimals", "same", "words", "special",
             "lines")
SOURCES = ("none", "one", "many", "numbers")
N = 30
ANALYSES = {
    "plain": {}, "density": {"selvars": {"density_flag": True, "selvars_type": "Ftr",
                                         "min_distance": 0.4}},
    "sifted": {"sifted": {"flag": True, "k": 3, "num_generations": 2, "sol_per_pop": 4,
                          "num_parents_mating": 2}},
    "chosen": {"chosen": True}, "fraction": {
        "selvars": {"small_scale_flag": True, "small_scale": 0.7}},
    "numerical": {"pilot": {"analytic": False, "n_tries": 2}},
}


def cases(tier):
    deep = tier == "thorough"
    # The first ones are all sifted, so that they are spread.
    for number, (analysis, features) in enumerate(product(
            list(ANALYSES)[:6 if deep else 3], WAYS)):
        yield {"kind": "names", "analysis": analysis, "features": features,
               "deep": deep, "number": number}
    for seed, setting in product(range(4 if deep else 2), range(12 if deep else 6)):
        for what in ("algorithms", "features", "instances"):
            yield {"kind": what, "seed": seed, "setting": setting, "deep": deep}


def run(case, rec):
    if case["kind"] == "names":
        names(case, rec)
    else:
        {"algorithms": algorithms, "features": features,
         "instances": instances}[case["kind"]](case, rec)


# --- names ---------------------------------------------------------------------------


def rows(way):
    if way == "words":
        return (["nan", "None", "", "Instances", "feature_a", "NA", "null", "True"] * N)[:N]
    return {
        "rising": [f"i{k:02}" for k in range(N)],
        "falling": [f"i{99 - k}" for k in range(N)],
        "numbers": [str((7 * k) % N) for k in range(N)],
        "decimals": [f"{k // 2}.{'0' * (k % 2 + 1)}" for k in range(N)],
        "same": ["i"] * N,
        "special": [f"\u00e9,\" {k}'" for k in range(N)],
        "lines": [f"a\n{k % 4}" for k in range(N)],
    }[way]


def sources(way):
    return {
        "none": None, "one": ["here"] * N,
        "many": [f"s{9 - k % 5}" for k in range(N)],
        "numbers": [str(k % 3) for k in range(N)],
    }[way]


def values():
    rng = np.random.default_rng(8)
    x = rng.normal(size=(N, 4)) * [1, 2, 0.5, 1] + 4
    x[:, 3] = x[:, 0] + 0.4 * rng.normal(size=N)
    angles = 2 * np.pi * np.arange(3) / 3
    y = np.exp(0.6 * (np.outer(x[:, 0] - 4, np.cos(angles))
                      + np.outer((x[:, 1] - 4) / 2, np.sin(angles)))
               + 0.2 * rng.normal(size=(N, 3)))
    x[5] = np.nan
    y[11] = np.nan
    return x, y


def options(analysis, chosen):
    d = InstanceSpaceOptions.default()
    how = ANALYSES[analysis]
    change = {name: replace(getattr(d, name), **{
        **{"sifted": {"flag": False}, "pilot": {"analytic": True}}.get(name, {}),
        **how.get(name, {})}) for name in ("selvars", "sifted", "pilot")}
    if "chosen" in how:
        change["selvars"] = replace(change["selvars"], feats=chosen[0], algos=chosen[1])
    a = 2 if "chosen" in how else 3
    return replace(
        d, **change,
        perf=replace(d.perf, max_perf=True, abs_perf=False, epsilon=0.3,
                     beta_threshold=0.5),
        pythia=replace(d.pythia, cv_folds=3, use_grid_search=True,
                       params=[[1.0 + j, 0.5] for j in range(a)]),
        trace=replace(d.trace, use_sim=False, purity=0.55),
        parallel=replace(d.parallel, flag=False, n_cores=1))


def names(case, rec):
    wanted = None
    with modellib.scratch() as where:
        combos = [("rising", "rising", "rising", "none")]
        turn = case["number"]
        for algos in WAYS:
            turn += 1
            for k, instance in enumerate(INSTANCES):
                if case["deep"] or k == (turn * 3) % len(INSTANCES):
                    combos.append((case["features"], algos, instance,
                                   SOURCES[(turn + turn // 4 + k) % len(SOURCES)]))
        for combo in combos:
            rec.evaluations += 1
            got = analyse(where / "metadata.csv", case["analysis"], *combo, rec)
            if wanted is None:
                wanted = got
            for part, value in wanted.items():
                rec.check(
                    alike(got.get(part), value),
                    lambda: f"with features, algorithms, instances and sources named "
                    f"{combo}, the analysis '{case['analysis']}' gives another {part}: "
                    f"{str(got.get(part))[:200]} instead of {str(value)[:200]}")
            rec.state((case["analysis"], combo), combo != combos[0])
            rec.count(f"analyses '{case['analysis']}'")


def analyse(path, analysis, features, algos, instance, source, rec):
    x, y = values()
    feature_names = [f"{'feature' if k else 'Feature'}_{s}"
                     for k, s in enumerate(WAYS[features])]
    algo_names = [f"{'algo' if k else 'ALGO'}_{s}" for k, s in enumerate(WAYS[algos][:3])]
    labels, origins = rows(instance), sources(source)
    with path.open("w", newline="", encoding="utf-8") as file:
        out = csv.writer(file)
        out.writerow(["Instances", *(["Source"] if origins else []), *feature_names,
                      *algo_names])
        for k in range(N):
            out.writerow([labels[k], *([origins[k]] if origins else []),
                          *("" if v != v else repr(float(v)) for v in (*x[k], *y[k]))])
    metadata = from_csv_file(path)
    chosen = [feature_names[k] for k in (0, 1, 3)], [algo_names[k] for k in (1, 2)]
    rec.step()
    model = InstanceSpace(metadata, options(analysis, chosen)).build()
    rec.trace()
    of = {s: f"feature {k}" for k, s in enumerate(feature_names)}
    where = {s: f"algorithm {k}" for k, s in enumerate(algo_names)}
    found = {"features": [of.get(s, s) for s in model.data.feat_labels],
             "algorithms": [where.get(s, s) for s in model.data.algo_labels]}
    mine, theirs = list(model.data.inst_labels), []
    if origins:
        theirs = list(model.data.s)
        rec.check(len(theirs) == len(mine), "the sources are not those of the instances")
    rec.check(model.data.s is None or origins is not None, "there are sources")
    left = [k for k in range(N) if k not in (5, 11)]  # without any values
    if len(mine) == len(left):
        rec.check(mine == [labels[k] for k in left],
                  lambda: f"the instances {[labels[k] for k in left]} are now {mine}")
        rec.check(not origins or theirs == [origins[k] for k in left],
                  lambda: f"the sources {[origins[k] for k in left]} are now {theirs}")
    for part in ("prelim", "sifted", "pilot", "cloister", "pythia", "trace", "data"):
        one = getattr(model, part)
        for f in fields(one):
            value = getattr(one, f.name)
            if part == "data" and (f.name in ("inst_labels", "s", "feat_labels",
                                              "algo_labels")):
                continue
            if f.name == "svm":
                value = [(m.support_, m.dual_coef_, m.intercept_) for m in value]
            if f.name == "cp":
                value = str(value)
            found[f"{part}'s {f.name}"] = plain(value, {**of, **where})
    return found


def plain(value, known):
    """Data without names."""
    if is_dataclass(value):
        return [plain(getattr(value, f.name), known) for f in fields(value)]
    if isinstance(value, pd.DataFrame):
        return [[known.get(str(c), c) for c in value.columns],
                [[known.get(v, v) if isinstance(v, str) else v for v in row]
                 for row in value.to_numpy().tolist()]]
    if isinstance(value, pd.Series):
        return plain(value.to_numpy(), known)
    if isinstance(value, np.ndarray):
        return value.tolist()
    if isinstance(value, (list, tuple)):
        return [plain(v, known) for v in value]
    if hasattr(value, "wkb"):
        return value.wkb
    return value


def alike(one, other):
    if isinstance(one, list) and isinstance(other, list):
        return len(one) == len(other) and all(map(alike, one, other))
    return one == other or (one != one and other != other)


# --- the order of the columns --------------------------------------------------------


def table(seed, n, f, a):
    """Features and performances without ties, and with values whose sums are exact."""
    rng = np.random.default_rng([seed, n])
    x = rng.permutation(n * f * 8)[: n * f].reshape(n, f) / 16.0 + 1
    x[:, 1] += x[:, 0]
    y = rng.permutation(n * a * 8)[: n * a].reshape(n, a) / 32.0 + 1
    for j in range(a):
        y[:, j] += (-1) ** j * np.round(2 * x[:, (0, 2, 3, 1)[j]])
    y -= np.floor(y.min()) - 1
    y[::7, 0] = np.nan
    return x, y


def settings(number):
    return {"max_perf": bool(number & 1), "abs_perf": number % 3 != 0,
            "epsilon": 0.25 if number % 3 == 0 else 12.0, "beta": 0.5,
            "bound": number % 2 == 0, "norm": number % 4 != 1}


def both(got, want, what, rec, tolerance=0.0):
    got, want = np.asarray(got), np.asarray(want)
    if got.dtype == object or got.dtype.kind in "US":
        same = got.tolist() == want.tolist()
    elif tolerance:
        same = got.shape == want.shape and close(got.astype(float), want.astype(float),
                                                 tolerance)
    else:
        same = np.array_equal(got, want, equal_nan=got.dtype.kind == "f")
    rec.check(same, lambda: f"{what} is {got.tolist()}, not {want.tolist()}")


def orders(count):
    return [list(p) for p in permutations(range(count))]


def algorithms(case, rec):
    n, f, a = 24, 4, 4 if case["deep"] else 3
    x, y = table(case["seed"], n, f, a)
    how = settings(case["setting"])
    base = prelimlib.prelim(x, y, prelimlib.options(**how), rec)
    z = np.column_stack([x[:, 0] + x[:, 2], x[:, 1] - x[:, 3]])
    z = z / (3 * z.std(axis=0))
    good = np.array(base.y_bin)
    for j in range(a):  # every class has to be there for all folds
        good[(2 * j, 2 * j + 1, n - 1 - j), j] = True
        good[(2 * j + 8, 2 * j + 9, n - 9 - j), j] = False
    weights = case["setting"] % 2 == 0
    params = np.array([[1.0 + j, 0.5 + 0.25 * j] for j in range(a)])
    best = np.asarray(base.p) - 1

    def predict(order):
        with pythialib.cheap():
            return pythialib.pythia(
                z, y[:, order], good[:, order], pythialib.options(
                    a, folds=3, weights=weights, poly=case["setting"] % 3 == 1,
                    params=params[order]), rec, labels=[f"algo_{j}" for j in order])[0]

    def footprints(order):
        back = np.argsort(order)
        return tracelib.trace(z, good[:, order], back[best], np.asarray(base.beta), rec,
                              sim=case["setting"] % 2 == 1,
                              labels=[f"algo_{j}" for j in order])[0]

    models, prints = predict(list(range(a))), footprints(list(range(a)))
    for order in orders(a):
        rec.evaluations += 1
        back = np.argsort(order)
        what = f"with the algorithms {order} of data {case['seed']} and {how}, "
        got = prelimlib.prelim(x, y[:, order], prelimlib.options(**how), rec)
        for name in ("y_bin", "y_raw"):
            both(getattr(got, name), getattr(base, name)[:, order], what + name, rec)
        for name in ("beta", "num_good_algos", "y_best", "x", "med_val", "hi_bound",
                     "lo_bound", "iq_range"):
            both(getattr(got, name), getattr(base, name), what + name, rec)
        both(np.asarray(got.p) - 1, back[best], what + "p", rec)
        both(got.y, base.y[:, order], what + "y", rec, 1e-9)
        for name in ("lambda_y", "mu_y", "sigma_y"):
            if how["norm"]:
                both(getattr(got, name), getattr(base, name)[order], what + name, rec, 1e-9)
        both(got.min_y, base.min_y, what + "min_y", rec)
        mine = predict(order)
        for name in ("y_sub", "y_hat"):
            both(getattr(mine, name), getattr(models, name)[:, order], what + name, rec)
        for name in ("pr0_sub", "pr0_hat"):
            both(getattr(mine, name), getattr(models, name)[:, order], what + name, rec,
                 1e-6)
        for name in ("cvcmat", "accuracy", "precision", "recall", "box_consnt", "k_scale"):
            both(getattr(mine, name), np.asarray(getattr(models, name))[order],
                 what + name, rec)
        if len(set(models.precision)) == a:
            for name in ("selection0",):
                was = np.asarray(getattr(models, name)).astype(int)
                both(getattr(mine, name), np.where(was < 0, was, back[was]), what + name,
                     rec)
            rec.count("orders with different precisions")
        shapes = footprints(order)
        for name in ("space", "hard"):
            rec.check(tracelib.same(getattr(shapes, name).polygon,
                                    getattr(prints, name).polygon),
                      what + f"the {name} footprint changes")
        for k, j in enumerate(order):
            rec.check(tracelib.same(shapes.good[k].polygon, prints.good[j].polygon),
                      what + f"the good footprint of algorithm {j} changes")
            rec.check(shapes.good[k].elements == prints.good[j].elements
                      and shapes.good[k].good_elements == prints.good[j].good_elements,
                      what + f"the figures of the footprint of algorithm {j} change")
        rec.state(("algorithms", case["seed"], case["setting"], tuple(order)),
                  order != sorted(order))
        rec.count("orders of algorithms")


def features(case, rec):
    n, f, a = 20, 5 if case["deep"] else 4, 2
    x, y = table(case["seed"], n, f, a)
    x[3, 2] = np.nan
    how = settings(case["setting"])
    base = prelimlib.prelim(x, y, prelimlib.options(**how), rec)
    whole = np.nan_to_num(base.x)
    rho = (0.0, 0.2, 0.3, 0.5)[case["setting"] % 4]
    labels = [f"feature_{j}" for j in range(f)]
    chosen = select(base, whole, labels, rho, rec)
    # Where nothing is significant for an algorithm, the first feature is its best one.
    certain = all(any(correlation(whole[:, i], base.y[:, j])[1] < 0.045 for i in range(f))
                  for j in range(a))
    shape = project(whole, base.y, rec)
    edges = boundary(whole, shape.a, case["setting"], rec)
    kept = parse(x, y, labels, rec)
    for order in orders(f):
        rec.evaluations += 1
        what = f"with the features {order} of data {case['seed']} and {how}, "
        got = prelimlib.prelim(x[:, order], y, prelimlib.options(**how), rec)
        for name in ("x", "x_raw"):
            both(getattr(got, name), getattr(base, name)[:, order], what + name, rec)
        for name in ("y", "y_bin", "y_best", "beta", "p", "num_good_algos", "lambda_y",
                     "mu_y", "sigma_y"):
            both(getattr(got, name), getattr(base, name), what + name, rec)
        for name, there in (("med_val", True), ("hi_bound", how["bound"]),
                            ("lo_bound", how["bound"]), ("iq_range", how["bound"]),
                            ("lambda_x", how["norm"]), ("mu_x", how["norm"]),
                            ("sigma_x", how["norm"]), ("min_x", how["norm"])):
            value = np.asarray(getattr(base, name))
            if there and value.shape == (f,):
                both(getattr(got, name), value[order], what + name, rec)
        # Projected
        turned = project(whole[:, order], base.y, rec)
        for axis in (0, 1):
            sign = np.sign(turned.z[:, axis] @ shape.z[:, axis])
            for name, value, want in (
                    ("z", turned.z[:, axis], shape.z[:, axis]),
                    ("a", turned.a[axis], shape.a[axis][order]),
                    ("b", turned.b[:, axis], shape.b[order, axis]),
                    ("c", turned.c[axis], shape.c[axis])):
                both(value, sign * want, what + f"{name} of axis {axis}", rec, 1e-6)
        both(turned.error, shape.error, what + "the error", rec, 1e-6)
        # Bounded
        border = boundary(whole[:, order], shape.a[:, order], case["setting"], rec)
        for name in ("z_edge", "z_ecorr"):
            rec.check(same_ring(getattr(border, name), getattr(edges, name)),
                      lambda: what + f"{name} is {getattr(border, name).tolist()}, not "
                      f"{getattr(edges, name).tolist()}")
        again = parse(x[:, order], y, [labels[j] for j in order], rec)
        both(again.x, kept.x[:, order], what + "parsed x", rec)
        both(again.feat_labels, [labels[j] for j in order], what + "parsed labels", rec)
        rec.state(("features", case["seed"], case["setting"], tuple(order)),
                  order != sorted(order))
        rec.count("orders of features")
        # Selected by correlation
        if not certain:
            rec.count("orders without a certain selection")
            continue
        mine = select(got, whole[:, order], [labels[j] for j in order], rho, rec)
        if mine is None or chosen is None:
            rec.check(mine is chosen, what + "there are not enough features")
            rec.count("too few features")
            continue
        both(sorted(mine.feat_labels), sorted(chosen.feat_labels),
             what + "the selection", rec)
        both(mine.feat_labels, [labels[order[k]] for k in mine.selvars],
             what + "the labels", rec)
        if chosen.rho is not None:
            both(mine.rho, chosen.rho[order], what + "the correlations", rec, 1e-9)


def select(base, x, labels, rho, rec):
    rec.step()
    given = SiftedInput(
        x=x.copy(), y=base.y.copy(), y_bin=base.y_bin.copy(), x_raw=base.x_raw.copy(),
        y_raw=base.y_raw.copy(), beta=base.beta.copy(),
        num_good_algos=base.num_good_algos.copy(), y_best=base.y_best.copy(),
        p=base.p.copy(), inst_labels=pd.Series([f"i{k}" for k in range(len(x))]),
        s=None, feat_labels=list(labels), data_dense=None,
        sifted_options=SiftedOptions.default(flag=True, rho=rho, k=20),
        selvars_options=SelvarsOptions.default(),
        parallel_options=ParallelOptions.default())
    try:
        out = SiftedStage._run(given)  # noqa: SLF001
    except NotEnoughFeatureError:
        out = None
    rec.trace()
    return out


def project(x, y, rec):
    rec.step()
    out = PilotStage._run(PilotInput(  # noqa: SLF001
        x=x.copy(), y=np.nan_to_num(y), feat_labels=[f"feature_{k}" for k in
                                                     range(x.shape[1])],
        pilot_options=PilotOptions.default(analytic=True)))
    rec.trace()
    return out


def boundary(x, a, setting, rec):
    rec.step()
    out = CloisterStage._run(CloisterInput(  # noqa: SLF001
        x=x.copy(), a=a.copy(), cloister_options=CloisterOptions.default(
            p_val=(0.05, 0.5)[setting % 2], c_thres=(0.3, 0.7)[setting // 2 % 2])))
    rec.trace()
    return out


def same_ring(one, other):
    """Whether two closed or open rings have the same corners, in the same sense."""
    def corners(ring):
        ring = np.asarray(ring)
        if len(ring) > 1 and np.allclose(ring[0], ring[-1]):
            ring = ring[:-1]
        return ring

    one, other = corners(one), corners(other)
    if one.shape != other.shape:
        return False
    return any(np.allclose(np.roll(one, k, axis=0), other, atol=1e-7)
               for k in range(len(one)))


def parse(x, y, labels, rec):
    """The first stage, with one feature's column being mostly missing values."""
    n = len(x)
    rec.step()
    out = PreprocessingStage._run(PreprocessingInput(  # noqa: SLF001
        feature_names=list(labels), algorithm_names=[f"algo_{j}" for j in
                                                     range(y.shape[1])],
        instance_labels=pd.Series([f"i{k}" for k in range(n)]), instance_sources=None,
        features=x.copy(), algorithms=y.copy(), selvars_options=SelvarsOptions.default()))
    rec.trace()
    return out


def instances(case, rec):
    """The order of the instances, for what treats all of them alike."""
    n, f, a = 24, 4, 3
    x, y = table(case["seed"], n, f, a)
    how = settings(case["setting"])
    base = prelimlib.prelim(x, y, prelimlib.options(**how), rec)
    whole = np.nan_to_num(base.x)
    z = np.column_stack([x[:, 0] + x[:, 2], x[:, 1] - x[:, 3]])
    z = z / (3 * z.std(axis=0))
    best = np.asarray(base.p) - 1
    prints = tracelib.trace(z, base.y_bin, best, base.beta, rec)[0]
    shape = project(whole, base.y, rec)
    edges = boundary(whole, shape.a, case["setting"], rec)
    some = [list(range(n))[::-1], [*range(n // 2, n), *range(n // 2)],
            [*range(0, n, 2), *range(1, n, 2)], list(np.argsort(y[:, 1])),
            list(np.argsort(x[:, 0]))]
    some += [[*range(k, k + 1), *(i for i in range(n) if i != k)]
             for k in range(0, n, 1 if case["deep"] else 4)]
    for order in some:
        rec.evaluations += 1
        what = f"with the instances {order} of data {case['seed']} and {how}, "
        got = prelimlib.prelim(x[order], y[order], prelimlib.options(**how), rec)
        for name in ("y_bin", "y_best", "beta", "p", "num_good_algos", "x_raw", "y_raw"):
            both(getattr(got, name), getattr(base, name)[order], what + name, rec)
        for name in ("x", "y"):
            both(getattr(got, name), getattr(base, name)[order], what + name, rec, 1e-5)
        for name in ("med_val", "hi_bound", "lo_bound", "iq_range"):
            both(getattr(got, name), getattr(base, name), what + name, rec, 1e-9)
        border = boundary(whole[order], shape.a, case["setting"], rec)
        for name in ("z_edge", "z_ecorr"):
            rec.check(same_ring(getattr(border, name), getattr(edges, name)),
                      lambda: what + f"{name} is {getattr(border, name).tolist()}, not "
                      f"{getattr(edges, name).tolist()}")
        shapes = tracelib.trace(z[order], base.y_bin[order], best[order],
                                base.beta[order], rec)[0]
        pairs = [(shapes.space, prints.space), (shapes.hard, prints.hard),
                 *zip(shapes.good, prints.good), *zip(shapes.best, prints.best)]
        for k, (one, other) in enumerate(pairs):
            rec.check(tracelib.same(one.polygon, other.polygon)
                      and one.elements == other.elements
                      and one.good_elements == other.good_elements,
                      what + f"footprint {k} changes")
        rec.state(("instances", case["seed"], case["setting"], tuple(order)))
        rec.count("orders of instances")
