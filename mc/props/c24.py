"""C24: contradicting best footprints are resolved in favour of the purer one."""

from itertools import product

import numpy as np
from instancespace.data.model import Footprint
from instancespace.data.options import ParallelOptions, TraceOptions
from instancespace.stages.trace import TraceStage
from shapely.geometry import Polygon, box

from mc.props import prelimlib
from mc.props import tracelib as lib

LEVEL = "model_checking"
RULE = (
    "every assignment of the best algorithms to the groups of instances of spaces in "
    "which footprints overlap, and every pair of overlapping, nested, touching and "
    "disjoint polygons with every assignment of the instances in them; non-trivial: an "
    "overlap is resolved"
)
BOUNDS = {
    "quick": "3 spaces of 14-20 instances with all assignments of 8 groups of instances "
    "to 2 algorithms or of 5 groups to 3 or 4 to 4 algorithms, 2 purities in turn; 8 "
    "polygons on 16 instances and 4 on 35 in pairs with all 81 assignments of 4 groups "
    "to two algorithms or none; 8 analyses from performances",
    "thorough": "all assignments of 12 groups to 2 and of 7 groups to 3 algorithms, each "
    "with 3 purities; polygons with all assignments of 7 groups",
}
ONE_BASED = "one-based-p"
SHAPES = {
    "left": box(-0.3, -0.3, 0.5, 0.9),
    "right": box(0.2, -0.3, 0.9, 0.9),
    "top": box(-0.3, 0.25, 0.9, 0.9),
    "whole": box(-0.5, -0.5, 1, 1),
    "middle": box(0.05, 0.05, 0.45, 0.45),
    "slant": Polygon([(-0.3, -0.3), (0.7, -0.2), (0.6, 0.9)]),
    "away": box(3, 3, 4, 4),
    "none": None,
}
NEEDLE = lib.lattice(7, 5, 0.17)[24]
# a stripe divides the field into parts of different sizes
FIELD = {"field": box(-0.2, -0.2, 1.2, 0.9), "stripe": box(0.58, -0.3, 0.78, 1),
         "early": box(0.1, -0.3, 0.26, 1),
         # only the tip around one instance overlaps with another one
         "needle": Polygon([(0.66, 1.3), (NEEDLE[0] - 0.012, NEEDLE[1] - 0.012),
                            (NEEDLE[0] + 0.012, NEEDLE[1] - 0.012)]),
         "plate": box(-0.2, -0.2, 1.2, NEEDLE[1] + 0.006),
         "slash": Polygon([(0.1, -0.3), (0.4, -0.3), (1.0, 1), (0.7, 1)])}


def cases(tier):
    deep = tier == "thorough"
    number = 0
    for space in ("dense", "wide", "square", "mid", "large", "copies"):
        crowded = space in ("large", "copies")
        for a, k in ((2, 12 if deep else 6 if crowded else 8), (3, 7 if deep else 5),
                     *(((4, 5 if deep else 4),) if space == "square" else ())):
            for groups in product(range(a), repeat=k):
                for purity in (0.1, 0.3, 0.6) if deep else (
                    (0.1,) if number % 2 else (0.4,)
                ):
                    yield {"space": space, "a": a, "groups": groups, "purity": purity,
                           "sim": number % 3 > 0}
                number += 1
    for base, test in (*product(SHAPES, repeat=2), *product(FIELD, repeat=2)):
        for first in product(range(3), repeat=3 if deep else 0):
            yield {"base": base, "test": test, "first": first}
    for variant in range(8):
        yield {"pipeline": variant}


def run(case, rec):
    if "base" in case:
        pair(case, rec)
        return
    if "pipeline" in case:
        pipeline(case, rec)
        return
    z = np.array(lib.SPACES[case["space"]])
    n, a, groups = len(z), case["a"], case["groups"]
    best = np.array([groups[(3 * i + i // 4) % len(groups)] for i in range(n)])
    good = best[:, None] == np.arange(a)
    good[: n // 2] |= True
    beta = good.sum(axis=1) > 1
    out, _ = lib.trace(z, good, best, beta, rec, purity=case["purity"], sim=case["sim"])
    events = []
    want = lib.footprints(z, good, best, beta, case["purity"], events)[2]
    for j in range(a):
        rec.check(
            lib.same(out.best[j].polygon, want[j]),
            lambda: f"best {best.tolist()}: footprint {j} is {out.best[j].polygon}, not "
            f"{want[j]} (overlaps: {events})",
        )
    rec.state((case["space"], best.tolist(), case["purity"]), bool(events))
    rec.count(", ".join(events) or "no overlap")
    if events and events[0] != "equal":
        rec.sample({"space": case["space"], "best": best.tolist(), "overlaps": events,
                    "areas": [lib.area(w) for w in want]})


def pair(case, rec):
    """Resolve the overlap of two given footprints, on either side."""
    if not hasattr(TraceStage, "contra"):
        rec.count("no separate resolution")
        return
    shapes = FIELD if case["base"] in FIELD else SHAPES
    z = np.array(lib.lattice(*(7, 5) if shapes is FIELD else (4, 4), 0.17))
    n = len(z)
    for rest in product(range(3), repeat=4):
        groups = (*case["first"], *rest)
        best = np.array([groups[(2 * i + i // 4) % len(groups)] for i in range(n)])
        mine, theirs = best == 0, best == 1
        stage = TraceStage(z, np.column_stack([mine, theirs]), best, mine, ["a", "b"],
                           TraceOptions(use_sim=True, purity=0.2),
                           ParallelOptions(flag=False, n_cores=1))
        base, test = (Footprint.from_polygon(shapes[case[k]], z, flags)
                      for k, flags in (("base", mine), ("test", theirs)))
        rec.step()
        got = stage.contra(base, test, mine, theirs)
        rec.trace()
        events = []
        want = lib.resolve(base.polygon, test.polygon, z, mine, theirs, 0.2, events)
        for name, one, other in zip(("base", "test"), got, want):
            rec.check(
                lib.same(one.polygon, other),
                lambda: f"{case['base']} against {case['test']}, best {best.tolist()}: "
                f"{name} is {one.polygon}, not {other} ({events})",
            )
        rec.state((case["base"], case["test"], best.tolist()), bool(events))
        rec.count("pair: " + (", ".join(events) or "no overlap"))


def pipeline(case, rec):
    """The best footprints of an analysis of experimental performances."""
    z = np.array(lib.SPACES["apart"])
    n, variant = len(z), case["pipeline"]
    best = np.array([(i // 9 if variant % 2 else i * 2 // 9 % 3) for i in range(n)])
    a = 2 if variant % 2 else 3
    if variant & 4:
        best = a - 1 - best
    y = 1.0 + (best[:, None] != np.arange(a)) + 0.01 * np.arange(n)[:, None]
    if variant & 2:
        y = -y
    done = prelimlib.prelim(np.ones((n, 2)) + z, y, prelimlib.options(
        max_perf=bool(variant & 2), epsilon=0.5), rec)
    out, _ = lib.trace(z, done.y_bin, np.ravel(done.p), done.beta, rec, purity=0.3,
                       others=(~done.y_bin, np.full(n, -1)))
    want = [lib.footprints(z, done.y_bin, best + shift, done.beta, 0.3)[2]
            for shift in (0, 1)]
    rec.state(("pipeline", variant), True)
    for j in range(a):
        if not lib.same(out.best[j].polygon, want[0][j]):
            rec.check(
                False,
                f"best footprint {j} has area {out.best[j].area}, not "
                f"{lib.area(want[0][j])}: it is not that of the instances "
                f"{np.flatnonzero(best == j).tolist()} where the algorithm is best",
                key=ONE_BASED if all(lib.same(o.polygon, w) for o, w in
                                     zip(out.best, want[1])) else None,
            )
