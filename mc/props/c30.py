"""C30: footprints are built from dense clusters of the right instances."""

import numpy as np

from mc.props import tracelib as lib

LEVEL = "model_checking"
RULE = (
    "every labelling of the instances of each space as good for the first of one to "
    "three algorithms, with others for the rest, required purities and either source of "
    "the labels; non-trivial: a footprint is not empty and the required purity removes "
    "some of it"
)
BOUNDS = {
    "quick": "16 spaces of 4-96 instances, and one of more than 1000 as a whole: all but one instance of 3 spaces, all labellings of 4, every fourth of 10 (all "
    "of one space), all labellings of 7 groups of the instances of the larger ones "
    "(4 for the largest), 3 purities and 1-3 algorithms in turn",
    "thorough": "all labellings of up to 10 instances, those of 12 groups of instances "
    "in 3 ways for the larger spaces, all 3 purities",
}
PURITIES = (0.2, 0.55, 0.95)


def cases(tier):
    deep = tier == "thorough"
    yield {"space": "huge", "labels": [1] * len(lib.HUGE), "a": 1, "purity": 0.55,
           "sim": False}
    # All instances but one.
    for space, every in (("mid", 1), ("large", 1 if deep else 3), ("copies", 7)):
        n = len(lib.SPACES[space])
        for i in range(0, n, every):
            yield {"space": space, "labels": [int(j != i) for j in range(n)], "a": 1,
                   "purity": 0.95 if i % 2 else 1.0, "sim": i % 3 == 0}
    for space, points in lib.SPACES.items():
        n = len(points)
        most = 4096 if deep else 1024 if space == "one" else 256 if n < 11 else 128
        if n > 50:
            most = 256 if deep else 16
        for number, labels in enumerate(lib.labellings(n, most, (1, 2, 3) if deep else
                                                       (1 + n % 2,))):
            for purity in PURITIES if deep else (PURITIES[number % 3],):
                yield {"space": space, "labels": labels, "a": 1 + number // 3 % 3,
                       "purity": purity, "sim": number % 2 == 0}


def run(case, rec):
    z = np.array(lib.SPACES.get(case["space"], lib.HUGE))
    a, labels = case["a"], case["labels"]
    good = np.array([lib.other(labels, j) for j in range(a)], dtype=bool).T
    best = np.array([next((j for j in range(a) if row[j]), -1 if case["sim"] else 0)
                     for row in good])
    beta = ~np.array(lib.other(labels, 2), dtype=bool)
    if case["space"] == "huge":
        beta[:] = False
    out, _ = lib.trace(z, good, best, beta, rec, purity=case["purity"],
                       sim=case["sim"])
    space, goods, bests, hard = lib.footprints(z, good, best, beta, case["purity"])
    for name, got, want in (
        ("space", [out.space], [space]), ("good", out.good, goods),
        ("best", out.best, bests), ("hard", [out.hard], [hard]),
    ):
        rec.check(len(got) == len(want), lambda: f"{len(got)} {name} footprints")
        for j, (mine, other) in enumerate(zip(got, want)):
            rec.check(
                lib.same(mine.polygon, other),
                lambda: f"{name} footprint {j} of {case['space']} is "
                f"{mine.polygon}, not {other}",
            )
            rec.count(f"{name} empty" if other is None or other.is_empty else name)
    pure = False
    for j in range(a):
        full = lib.build(z, good[:, j], 0.0)
        if full is not None and not lib.same(full, goods[j]):
            pure = True
            rec.count("pieces removed")
            if goods[j] is not None:
                rec.sample({"space": case["space"], "good": good[:, j].tolist(),
                            "area": goods[j].area, "of": full.area})
    rec.state((case["space"], labels, case["purity"], a), pure)
