"""C17: feature clustering picks one feature of each cluster."""

from itertools import product

import numpy as np
import pandas as pd
import pygad
from instancespace.data.options import ParallelOptions, SelvarsOptions, SiftedOptions
from instancespace.stages import sifted as module
from instancespace.stages.pilot import PilotStage
from instancespace.stages.sifted import SiftedInput, SiftedStage
from sklearn.cluster import KMeans

from mc.props.c16 import correlation

LEVEL = "model_checking"
RULE = (
    "every partition of the features into clusters, up to the names of the clusters, "
    "realised as data, with and without irrelevant features that are dropped before; "
    "every evaluated combination of features is recorded; each run twice; non-trivial: "
    "a cluster with several features"
)
BOUNDS = {
    "quick": "all partitions of 4 and 5 features into 2-4 clusters and of 6 into 3, "
    "13 into 3 and 12 into 11, "
    "with 0 or 1 irrelevant feature, 8 combinations of settings, 1-5 algorithms, the projection replaced by a cheap "
    "one, 4 data sets with the real one",
    "thorough": "all partitions of 4-7 features into 2-6 clusters, 0-2 irrelevant "
    "features, 13 into 3 and 12 into 11, 8 combinations of settings, 1-5 algorithms, 2 data sets each, 20 with the real projection",
}
ASSUMPTIONS = [
    "The combinations evaluated by the genetic search are observed where it calls "
    "PilotStage.pilot and cross_val_score in instancespace.stages.sifted, its settings "
    "where pygad.GA.run and those of the clustering where KMeans.fit are called.",
]
N = 30


def partitions(n, k):
    """All assignments of n features to k clusters, numbered by first appearance."""
    for code in product(range(k), repeat=n):
        seen = list(dict.fromkeys(code))
        if seen == list(range(k)):
            yield code


def cases(tier):
    deep = tier == "thorough"
    spaces = [(4, 2), (4, 3), (5, 2), (5, 3), (5, 4), (6, 3)]
    if deep:
        spaces = [(n, k) for n in (4, 5, 6, 7) for k in range(2, n)]
    number = 0
    for n, k in spaces:
        for code in partitions(n, k):
            for data in range(2 if deep else 1):
                number += 1
                yield {"clusters": code, "k": k, "algos": 1 + number % 3 + 2 * (number % 5 == 3),
                       "noise": (0, 1, 2)[number % 3] if deep else number // 3 % 2,
                       "data": data, "settings": number % 8, "real": number % (40 if deep else 30) == 7}


    # More features, and more clusters.
    for code, k in (((0, 1, 2) * 4 + (2,), 3), ((*range(11), 4), 11)):
        yield {"clusters": code, "k": k, "algos": 2, "noise": 0, "data": 0,
               "settings": k % 8, "real": False}


def settings(case):
    """Several settings of the search."""
    s = case["settings"]
    return {
        "n_trees": 3, "max_iter": 50 + s, "replicates": (4, 13)[s % 2],
        "num_generations": 3 + s % 3, "num_parents_mating": 2 + s % 2,
        "sol_per_pop": 5 + s // 2, "keep_elitism": 1 + s % 2,
        "parent_selection_type": ("tournament", "sss", "rank")[s % 3],
        "k_tournament": 2 + s % 2,
        "crossover_type": ("scattered", "uniform", "scattered")[s % 3],
        "cross_over_probability": (0.8, 0.6)[s // 2 % 2],
        "mutation_type": "random", "mutation_probability": (0.3, 0.45)[s // 4],
        "stop_criteria": ("saturate_5", "saturate_2")[s // 4],
    }


SEARCH = {
    "num_generations": "num_generations", "num_parents_mating": "num_parents_mating",
    "sol_per_pop": "sol_per_pop", "keep_elitism": "keep_elitism",
    "parent_selection_type": "parent_selection_type", "K_tournament": "k_tournament",
    "crossover_type": "crossover_type", "mutation_type": "mutation_type",
    "crossover_probability": "cross_over_probability",
    "mutation_probability": "mutation_probability",
}


def make(case):
    rng = np.random.default_rng(1000 * case["data"] + case["k"])
    k = case["k"]
    # Orthogonal centres, far apart.
    centres = np.linalg.qr(rng.normal(size=(N, k + 2)))[0] * 20
    columns = [centres[:, c] + rng.normal(size=N) * 0.8 for c in case["clusters"]]
    x = np.column_stack(columns)
    weights = rng.uniform(0.8, 1.2, size=(k, case["algos"]))
    y = centres[:, :k] @ weights
    names = [f"f{i}" for i in range(x.shape[1])]
    # Irrelevant features are orthogonal to the performances.
    where = [2, 0][: case["noise"]]
    for w in where:
        column = rng.normal(size=N)
        basis = np.linalg.qr(np.column_stack([np.ones(N), y]))[0]
        column -= basis @ (basis.T @ column)
        x = np.insert(x, w, column * 5, axis=1)
        names.insert(w, f"noise{w}")
    code = list(case["clusters"])
    for w in where:
        code.insert(w, None)
    if case["noise"]:
        # C16 decides that these are the ones that are kept at this stage.
        keep = []
        for i in range(x.shape[1]):
            found = [correlation(x[:, i], y[:, j]) for j in range(y.shape[1])]
            if any(p <= 0.05 and abs(r) >= 0.12 for r, p in found):
                keep.append(i)
    else:
        keep = list(range(x.shape[1]))
    return code, keep, x, y, names


class Watch:
    """Record the evaluated combinations, as columns of x and the errors."""

    def __init__(self, x, real) -> None:
        self.x, self.real, self.found = x, real, []
        self.searches, self.clusterings = [], []

    def __enter__(self):
        self.run, self.fit = pygad.GA.run, KMeans.fit
        searches, clusterings, search, fit = (
            self.searches, self.clusterings, self.run, self.fit,
        )

        def run(instance):
            found = {name: getattr(instance, name) for name in SEARCH}
            found["stop_criteria"] = instance.stop_criteria
            searches.append(found)
            return search(instance)

        def cluster(model, *args, **kwargs):
            clusterings.append((model.n_clusters, model.n_init, model.max_iter))
            return fit(model, *args, **kwargs)

        pygad.GA.run, KMeans.fit = run, cluster
        self.pilot = PilotStage.pilot
        self.score = getattr(module, "cross_val_score", None)
        watch = self

        def pilot(x, *args, **kwargs):
            columns = []
            for j in range(x.shape[1]):
                same = [i for i in range(watch.x.shape[1])
                        if np.array_equal(watch.x[:, i], x[:, j])]
                columns += same[:1]
            watch.found.append([tuple(columns), []])
            if watch.real:
                return watch.pilot(x, *args, **kwargs)

            class Out:
                z = x[:, :2] if x.shape[1] > 1 else np.hstack([x, x])

            return Out

        def score(model, z, y, *args, **kwargs):
            result = watch.score(model, z, y, *args, **kwargs)
            if watch.found:
                watch.found[-1][1].append((np.asarray(y).tolist(), -result.mean()))
            return result

        PilotStage.pilot = staticmethod(pilot)
        if self.score is not None:
            module.cross_val_score = score
        return self

    def __exit__(self, *_):
        pygad.GA.run, KMeans.fit = self.run, self.fit
        PilotStage.pilot = staticmethod(self.pilot)
        if self.score is not None:
            module.cross_val_score = self.score


def execute(case, rec):
    code, keep, x, y, names = make(case)
    opts = SiftedOptions.default(
        rho=0.12 if case["noise"] else 0.0, k=case["k"], **settings(case),
    )
    y_bin = y > np.median(y, axis=0) + np.linspace(-3, 3, y.shape[1])
    given = SiftedInput(
        x=x.copy(), y=y.copy(), y_bin=y_bin.copy(), x_raw=x + 1, y_raw=y - 1,
        beta=np.arange(N) % 2 > 0, num_good_algos=y_bin.sum(axis=1), y_best=y.max(axis=1),
        p=y.argmax(axis=1) + 1, inst_labels=pd.Series([f"i{i}" for i in range(N)]),
        feat_labels=list(names), s=None, sifted_options=opts,
        selvars_options=SelvarsOptions.default(), data_dense=None,
        parallel_options=ParallelOptions.default(),
    )
    with Watch(x, case["real"]) as watch:
        out = SiftedStage._run(given)  # noqa: SLF001
    rec.step(len(watch.found) + 1)
    rec.check(
        np.array_equal(given.x, x) and np.array_equal(given.y, y)
        and np.array_equal(given.y_bin, y_bin) and given.feat_labels == names,
        "the inputs were modified",
    )
    return code, x, y_bin, names, keep, out, watch


def run(case, rec):
    full, x, y_bin, names, keep, out, watch = execute(case, rec)
    k = case["k"]
    code = [full[i] for i in keep]
    if len(keep) <= k:
        rec.count("too few features correlated")
        rec.check([int(v) for v in out.selvars] == keep, "not all features are kept")
        return
    if len(set(code)) < k or None in code:
        raise RuntimeError(f"the case {case} is not as designed: {code}")
    what = f"clusters {code}, {len(keep)} of features {names}"
    columns = [int(v) for v in out.selvars]
    rec.check(
        [int(v) for v in out.idx] == columns
        and list(out.feat_labels) == [names[j] for j in columns]
        and np.array_equal(out.x, x[:, columns]),
        lambda: f"{what}: columns {columns}, indices {out.idx}, labels {out.feat_labels}",
    )
    clust = np.asarray(out.clust)
    rec.check(clust.shape == (len(keep), k), lambda: f"{what}: clusters {clust.shape}")
    rec.check(np.all(clust.sum(axis=1) == 1) and np.all(clust.sum(axis=0) > 0),
              lambda: f"{what}: clusters {clust.astype(int).tolist()}")
    label = [int(np.argmax(row)) for row in clust]
    rec.check(
        all((label[i] == label[j]) == (code[i] == code[j])
            for i in range(len(keep)) for j in range(len(keep))),
        lambda: f"{what}: clustered as {label}",
    )
    chosen = [code[keep.index(c)] if c in keep else None for c in columns]
    rec.check(sorted(map(str, chosen)) == sorted(map(str, range(k))),
              lambda: f"{what}: selected {columns} of the clusters {chosen}")
    for score in out.silhouette_scores:
        rec.check(-1 - 1e-9 <= score <= 1 + 1e-9, lambda: f"{what}: silhouette {score}")
    rec.check(len(out.silhouette_scores) == len(keep) - 2,
              lambda: f"{what}: silhouettes {out.silhouette_scores}")
    best = int(np.argmax(out.silhouette_scores)) + 2
    rec.count("silhouette finds the clusters", best == k)

    used = settings(case)
    rec.check(
        (k, used["replicates"], used["max_iter"]) in watch.clusterings
        or not watch.clusterings,
        lambda: f"{what}: clustered with the settings {watch.clusterings}, not those of "
        f"the options, {used}",
    )
    for found in watch.searches:
        wrong = {name: found[name] for name, option in SEARCH.items()
                 if found[name] != used[option]}
        kind, number = used["stop_criteria"].split("_")
        if [str(found["stop_criteria"][0][0]), float(found["stop_criteria"][0][1])] != [
            kind, float(number)
        ]:
            wrong["stop_criteria"] = found["stop_criteria"]
        rec.check(not wrong, lambda: f"{what}: the search has {wrong}, not {used}")
    rec.count("observed searches", bool(watch.searches))

    # The selection is the best of the evaluated combinations.
    errors = {}
    for combination, scores in watch.found:
        if not scores:
            continue
        rec.check(
            sorted(t for t, _ in scores) == sorted(
                y_bin[:, j].astype(int).tolist() for j in range(y_bin.shape[1])
            ),
            lambda: f"{what}: {len(scores)} of {y_bin.shape[1]} algorithms are evaluated",
        )
        error = max(v for _, v in scores)
        errors.setdefault(combination, error)
        rec.state((code, case["noise"], case["algos"], combination, error))
        rec.check(
            len(set(combination)) == k == len({code[keep.index(c)]
                                               for c in combination if c in keep}),
            lambda: f"{what}: {combination} is evaluated",
        )
    if errors:
        mine = errors.get(tuple(columns))
        rec.check(mine is not None, lambda: f"{what}: {columns} was never evaluated")
        least = min(errors.values())
        rec.check(
            mine <= least + 1e-12,
            lambda: f"{what}: {columns} with error {mine} is selected of {errors}",
        )
        rec.count("combinations", len(errors))
        rec.count("better or worse ones", len(set(errors.values())) > 1)
    else:
        rec.count("unobserved searches")
    again = execute(case, rec)[5]
    rec.check(
        np.array_equal(again.selvars, out.selvars)
        and np.array_equal(again.clust, out.clust)
        and list(again.silhouette_scores) == list(out.silhouette_scores),
        lambda: f"{what}: a second run selects {again.selvars}, not {columns}",
    )
    rec.trace(2)
    rec.state((case, columns), k < len(code))
    if len(errors) > 3:
        rec.sample({"case": what, "errors": {str(c): e for c, e in errors.items()},
                    "selected": columns})
