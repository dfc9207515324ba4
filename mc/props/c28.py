"""C28: analyses are deterministic and aligned from end to end.

Executed as a program, it analyses directories in a fresh process and prints digests.
"""

import csv
import hashlib
import json
import os
import random
import subprocess
import sys
from dataclasses import asdict, replace
from itertools import product
from pathlib import Path

if __name__ == "__main__":
    sys.path[:0] = [os.environ["VERIF_REPO"],
                    str(Path(__file__).resolve().parent.parent.parent)]

import numpy as np  # noqa: E402
from instancespace.data.options import (  # noqa: E402
    InstanceSpaceOptions,
    ParallelOptions,
)
from instancespace.instance_space import (  # noqa: E402
    InstanceSpace,
    instance_space_from_directory,
)

from mc.core import REPO  # noqa: E402
from mc.props import modellib, tracelib  # noqa: E402

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every combination of preprocessing, subset of the instances and selection of "
    "features with every definition of good performance, the other options taking turns,"
    " on small data sets in files; each analysed three times with the real stages: "
    "built, stepped through with other states of the random number generators, and built "
    "in a fresh process with another hash seed and another number of workers; "
    "non-trivial: instances or features are left out"
)
BOUNDS = {
    "quick": "5 settings of the preprocessing, 4 subsets, 2 selections of features, 4 "
    "definitions of good performance, 1 data set each of 40 instances, 3 algorithms and "
    "4 or 5 features: 160 analyses, three times each",
    "thorough": "all combinations also with projections, kernels, weights, sources of the labels of "
    "footprints and the presence of instance sources, on 2 data sets: 10240 analyses, "
    "three times each",
}
ASSUMPTIONS = [
    "the parameters of the support vector machines are given, as their search takes too "
    "long here; C21 explores the search",
]
PRE = {
    "none": (False, False, False), "auto": (True, False, False),
    "bound": (True, True, False), "norm": (True, False, True),
    "both": (True, True, True),
}
SUBSETS = ("all", "fraction", "file", "density")
PERFORMANCE = list(product((True, False), (True, False)))


def cases(tier):
    number = 0
    for pre, subset, sift in product(PRE, SUBSETS, (False, True)):
        for part in range(16 if tier == "thorough" else 1):
            yield {"pre": pre, "subset": subset, "sift": sift, "part": part,
                   "number": number, "deep": tier == "thorough"}
            number += 1


def settings(case):
    """The analyses of a case, by name."""
    if case["deep"]:
        poly, weights, sim, sources = ((case["part"] >> k) & 1 for k in range(4))
        rest = product(PERFORMANCE, (True, False), [(poly, weights, sim, sources)],
                       (0, 1))
    else:
        k = case["number"]
        rest = ((performance, analytic,
                 tuple((k * 5 + i * 3 + j) >> shift & 1
                       for shift, j in ((0, 0), (1, 0), (0, i // 2), (2, i // 4))), k % 2)
                for i, (performance, analytic) in
                enumerate(product(PERFORMANCE, (True, False)))
                if (i + i // 2 + k) % 2)
    for (largest, absolute), analytic, (poly, weights, sim, sources), seed in rest:
        yield {
            "pre": case["pre"], "subset": case["subset"], "sift": case["sift"],
            "largest": largest, "absolute": absolute, "analytic": analytic,
            "poly": bool(poly), "weights": bool(weights), "sim": bool(sim),
            "sources": bool(sources), "seed": seed,
        }


def make(how, where):
    """Write the metadata and options of an analysis."""
    rng = np.random.default_rng([how["seed"], how["sift"]])
    n, f, a = 40, 5 if how["sift"] else 4, 3
    x = rng.normal(size=(n, f)) * [1, 2, 0.5, 1, 3][:f] + 4
    angles = 2 * np.pi * np.arange(a) / a
    score = (np.outer(x[:, 0] - 4, np.cos(angles))
             + np.outer((x[:, 1] - 4) / 2, np.sin(angles)))
    if f > 4:
        x[:, 3] = x[:, 0] + 0.3 * rng.normal(size=n)
    y = np.exp(0.5 * (score if how["largest"] else -score)
               + 0.2 * rng.normal(size=(n, a)))
    labels = [f"i{(7 * i + how['seed']) % n}" for i in range(n)]
    features = [f"feature_{c}" for c in "cadbe"[:f]]
    algorithms = [f"algo_{c}" for c in "yzx"]
    gone = [3, 17, n - 2]
    x[gone[0]] = np.nan
    y[gone[1]] = np.nan
    x[gone[2]] = y[gone[2]] = np.nan
    with (where / "metadata.csv").open("w", newline="") as file:
        out = csv.writer(file)
        sources = ["Source"] if how["sources"] else []
        out.writerow(["Instances", *sources, *features, *algorithms])
        for i in range(n):
            out.writerow([
                labels[i], *([f"from {labels[i][-1]}"] if how["sources"] else []),
                *("" if v != v else repr(float(v)) for v in (*x[i], *y[i]))])
    (where / "rows.csv").write_text(
        "\n".join(str(i) for i in range(36, 0, -1) if i % 7 != 4) + "\n")
    preproc, bound, norm = PRE[how["pre"]]
    d = InstanceSpaceOptions.default()
    options = replace(
        d,
        auto=replace(d.auto, preproc=preproc), bound=replace(d.bound, flag=bound),
        norm=replace(d.norm, flag=norm),
        perf=replace(d.perf, max_perf=how["largest"], abs_perf=how["absolute"],
                     epsilon=1.0 if how["absolute"] else 0.25, beta_threshold=0.5),
        selvars=replace(
            d.selvars, small_scale_flag=how["subset"] == "fraction", small_scale=0.8,
            file_idx_flag=how["subset"] == "file", file_idx=str(where / "rows.csv"),
            density_flag=how["subset"] == "density", selvars_type="Ftr",
            min_distance=0.3),
        sifted=replace(d.sifted, flag=how["sift"], k=3, n_trees=3, num_generations=2,
                       sol_per_pop=4, num_parents_mating=2),
        pilot=replace(d.pilot, analytic=how["analytic"], n_tries=2),
        pythia=replace(d.pythia, cv_folds=3, use_grid_search=True,
                       is_poly_krnl=how["poly"], use_weights=how["weights"],
                       params=[[1.0 + j, 0.5] for j in range(a)]),
        trace=replace(d.trace, use_sim=how["sim"], purity=0.55),
        parallel=replace(d.parallel, flag=False, n_cores=1),
    )
    (where / "options.json").write_text(json.dumps(asdict(options)))
    return dict(zip(labels, x)), dict(zip(labels, y)), features, algorithms, [
        labels[i] for i in range(n) if i not in gone]


def digest(model):
    """A hash of everything in a model that should not depend on how it was made."""
    pythia = replace(model.pythia, cp=str(model.pythia.cp), svm=[
        (m.support_, m.dual_coef_, m.intercept_, m.C, m.gamma) for m in model.pythia.svm])
    parts = {name: modellib.state(getattr(model, name)) for name in
             ("data", "data_dense", "feat_sel", "prelim", "sifted", "pilot", "cloister",
              "trace")}
    parts["pythia"] = modellib.state(pythia)
    parts["opts"] = modellib.state(replace(model.opts, parallel=None))
    return parts


def disturb(seed):
    random.seed(seed)
    np.random.seed(seed)  # noqa: NPY002


def load(where):
    space = instance_space_from_directory(where)
    if space is None:
        raise ValueError("the analysis cannot be loaded")
    return space


def inputs(space):
    """A hash of what an analysis starts from."""
    return modellib.state([space.metadata, space.options])


def run(case, rec):
    all_of_them = list(settings(case))
    with modellib.scratch() as top:
        wanted = []
        for k, how in enumerate(all_of_them):
            where = top / str(k)
            where.mkdir()
            truth = make(how, where)
            rec.evaluations += 1
            wanted.append(once(how, where, truth, rec))
        cores = 2 + case["number"] % 3
        env = {**os.environ, "PYTHONHASHSEED": str(17 * case["number"] + 3),
               "VERIF_REPO": str(REPO)}
        done = subprocess.run(
            [sys.executable, "-B", __file__, str(top), str(len(all_of_them)),
             str(cores if case["number"] % 4 == 0 else 0)],
            env=env, capture_output=True, text=True, timeout=600, check=False)
        lines = [s for s in done.stdout.splitlines() if s.startswith("DIGEST ")]
        rec.check(len(lines) == len(all_of_them),
                  lambda: "a fresh process fails where this one did not: "
                  f"{done.stderr[-700:]}")
        for how, want, line in zip(all_of_them, wanted, lines):
            got = json.loads(line[len("DIGEST "):])
            rec.step()
            rec.trace()
            rec.count("fresh processes' analyses")
            same(got, want, how, "a fresh process", rec)


def same(got, want, how, who, rec):
    rec.check(got == want,
              lambda: f"{who} gives another model: "
              f"{[k for k in want if got.get(k) != want[k]]} differ with {how}")


def once(how, where, truth, rec):
    disturb(1)
    space = load(where)
    before = inputs(space)
    rec.step()
    model = space.build()
    rec.trace()
    rec.check(inputs(space) == before,
              lambda: f"the analysis changes its metadata or options with {how}")
    aligned(model, how, truth, rec)
    wanted = digest(model)
    rec.check(space.model is model and digest(space.model) == wanted,
              "the model is another one when asked for again")
    disturb(99)
    other = load(where)
    rec.step()
    for _ in other.run_iter():
        disturb(int(hashlib.sha256(repr(how).encode()).hexdigest()[:6], 16))
    rec.trace()
    same(digest(other.model), wanted, how, "stepping through the analysis", rec)
    # Again in the same object: the first model must not change, either.
    if how["analytic"]:
        disturb(5)
        rec.step()
        again = space.build()
        rec.trace()
        same(digest(again), wanted, how, "building again", rec)
        same(digest(model), wanted, how, "the first model, after building again,", rec)
    rec.state(wanted, how["sift"] or how["subset"] != "all")
    for name in ("pre", "subset"):
        rec.count(f"{name} {how[name]}")
    return wanted


def rising(raw, got):
    """Whether one column is a (not strictly) rising function of another."""
    order = np.argsort(raw, kind="stable")
    return bool((np.diff(np.asarray(got)[order]) >= -1e-9).all())


def aligned(model, how, truth, rec):
    x_of, y_of, features, algorithms, left = truth
    data, pythia, pilot = model.data, model.pythia, model.pilot
    labels = list(data.inst_labels)
    n, a = len(labels), len(algorithms)
    what = f"with {how}"
    rec.check(len(set(labels)) == n and labels == [s for s in left if s in set(labels)],
              lambda: f"the instances are {labels}, of {left}, {what}")
    if how["subset"] == "all":
        rec.check(labels == left, lambda: f"instances {set(left) - set(labels)} are lost "
                  f"{what}")
    elif how["subset"] == "file":
        want = [s for i, s in enumerate(left, 1) if i % 7 != 4 and i <= 36]
        rec.check(labels == want, lambda: f"the instances are {labels}, not {want}")
    elif how["subset"] == "fraction":
        rec.check(abs(n - 0.8 * len(left)) <= 1,
                  lambda: f"{n} of {len(left)} instances {what}")
    rec.count("instances left out", len(left) - n)
    rec.check((data.s is None) == (not how["sources"]), "the sources are lost")
    if data.s is not None:
        rec.check(list(data.s) == [f"from {s[-1]}" for s in labels],
                  lambda: f"sources {list(data.s)} of {labels} {what}")
    rec.check(list(data.algo_labels) == algorithms,
              lambda: f"the algorithms are {data.algo_labels} {what}")
    for name, size in (("x", n), ("y", n), ("x_raw", n), ("y_raw", n), ("y_bin", n),
                       ("y_best", n), ("p", n), ("beta", n), ("num_good_algos", n)):
        rec.check(len(getattr(data, name)) == size,
                  lambda: f"{name} has {len(getattr(data, name))} rows for {n} instances")
    x_raw = np.array([x_of[s] for s in labels])
    y_raw = np.array([y_of[s] for s in labels])
    rec.check(np.allclose(data.y_raw, y_raw, rtol=1e-12),
              lambda: f"the performances are not those of their instances {what}")
    rec.check(np.allclose(data.x_raw, x_raw, rtol=1e-12),
              lambda: f"the raw features are not those of their instances {what}")
    # What is good, from the metadata.
    largest = how["largest"]
    best = y_raw.max(axis=1) if largest else y_raw.min(axis=1)
    if how["absolute"]:
        used = y_raw
        good = y_raw >= 1 if largest else y_raw <= 1
    else:  # the distance from the best performance
        used = 1 - y_raw / best[:, None] if largest else 1 - best[:, None] / y_raw
        good = used <= 0.25
    rec.check(np.array_equal(data.y_bin, good),
              lambda: f"good performances are mislabelled {what}")
    rec.check(np.allclose(data.y_best, best, rtol=1e-12),
              lambda: f"the best performances are wrong {what}")
    first = y_raw.argmax(axis=1) if largest else y_raw.argmin(axis=1)
    rec.check(np.array_equal(np.asarray(data.p), first + 1),
              lambda: f"the best algorithms are wrong {what}")
    rec.check(np.array_equal(data.num_good_algos, good.sum(axis=1)),
              lambda: f"the numbers of good algorithms are wrong {what}")
    rec.check(np.array_equal(data.beta, good.sum(axis=1) > 0.5 * a),
              lambda: f"the beta-good instances are wrong {what}")
    # Processed columns are rising functions of their own raw ones.
    kept = list(data.feat_labels)
    rec.check(data.x.shape[1] == len(kept) == len(set(kept)) and set(kept)
              <= set(features), lambda: f"the features are {kept} {what}")
    rec.count("features left out", len(features) - len(kept))
    rec.check(how["sift"] or kept == features, lambda: f"features are lost {what}")
    chosen = [features.index(s) for s in kept]
    rec.check(list(model.feat_sel.idx) == chosen,
              lambda: f"feature indices {list(model.feat_sel.idx)} of {kept} {what}")
    for j, k in enumerate(chosen):
        rec.check(rising(x_raw[:, k], data.x[:, j]) and np.ptp(data.x[:, j]) > 0,
                  lambda: f"column {j} is not feature {kept[j]} {what}")
        if how["pre"] == "none":
            rec.check(np.allclose(data.x[:, j], x_raw[:, k]),
                      lambda: f"feature {kept[j]} is changed {what}")
    for j in range(a):
        rec.check(rising(used[:, j], data.y[:, j]) and np.ptp(data.y[:, j]) > 0,
                  lambda: f"column {j} is not of algorithm {algorithms[j]} {what}")
    # The projection, the predictions and the footprints belong to the same instances.
    rec.check(pilot.z.shape == (n, 2) and np.allclose(pilot.z, data.x @ pilot.a.T),
              lambda: f"the coordinates are not those of the instances {what}")
    rec.check(list(pilot.summary.columns[1:]) == kept
              and np.allclose(pilot.summary.iloc[:, 1:].to_numpy(dtype=float), pilot.a),
              lambda: f"the projection is of {list(pilot.summary.columns)} {what}")
    zn = (pilot.z - pilot.z.mean(axis=0)) / pilot.z.std(axis=0, ddof=1)
    for j in range(a):
        rec.check(np.array_equal(pythia.svm[j].predict(zn), pythia.y_hat[:, j])
                  and pythia.svm[j].kernel == ("poly" if how["poly"] else "rbf"),
                  lambda: f"predictions of algorithm {j} are of other instances {what}")
        sub = good[:, j]
        cells = [int((~sub & ~pythia.y_sub[:, j]).sum()),
                 int((~sub & pythia.y_sub[:, j]).sum()),
                 int((sub & ~pythia.y_sub[:, j]).sum()),
                 int((sub & pythia.y_sub[:, j]).sum())]
        rec.check(list(pythia.cvcmat[j]) == cells,
                  lambda: f"confusion counts of algorithm {j} {what}")
    chosen = np.asarray(pythia.selection0)
    rec.check(all(pythia.y_hat[i, s - 1] if s else not pythia.y_hat[i].any()
                  for i, s in enumerate(chosen)),
              lambda: f"selected algorithms are of other instances {what}")
    labelled = pythia.y_hat if how["sim"] else good
    space, goods, bests, hard = tracelib.footprints(
        pilot.z, labelled, chosen - 1 if how["sim"] else first, data.beta, 0.55)
    pairs = [("space", model.trace.space, space), ("hard", model.trace.hard, hard)]
    pairs += [(f"good {j}", model.trace.good[j], goods[j]) for j in range(a)]
    if how["sim"]:  # see the known finding of C24
        pairs += [(f"best {j}", model.trace.best[j], bests[j]) for j in range(a)]
    for name, mine, other in pairs:
        rec.check(tracelib.same(mine.polygon, other),
                  lambda: f"the {name} footprint is not that of the instances {what}")
        rec.count("footprints" if tracelib.area(other) else "empty footprints")
    edge = model.cloister.z_edge
    rec.check(edge.shape[1] == 2 and np.isfinite(edge).all()
              and model.cloister.z_ecorr.shape[1] == 2, f"no boundary {what}")


def fresh(argv):
    top, count, cores = Path(argv[0]), int(argv[1]), int(argv[2])
    import contextlib  # noqa: PLC0415
    import io  # noqa: PLC0415

    for k in range(count):
        with contextlib.redirect_stdout(io.StringIO()):
            space = load(top / str(k))
            if cores:
                space = InstanceSpace(space.metadata, replace(
                    space.options, parallel=ParallelOptions(flag=True, n_cores=cores)))
            parts = digest(space.build())
        print("DIGEST " + json.dumps(parts), flush=True)


if __name__ == "__main__":
    from mc.core import load_repo

    load_repo()
    fresh(sys.argv[1:])
