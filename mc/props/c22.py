"""C22: footprint figures describe the footprint's polygon exactly."""

from itertools import product

import numpy as np
from instancespace.data.model import Footprint
from shapely.geometry import MultiPolygon, Polygon, box

from mc.props import tracelib as lib

LEVEL = "model_checking"
RULE = (
    "every labelling of the instances of each space (dense, collinear, duplicated, few) "
    "as good for one of two algorithms, with others for the second one and the best "
    "ones, and every labelling of a grid of instances with each polygon of a family "
    "(with holes, of several parts, touching instances, empty, none); non-trivial: the "
    "footprint is not empty"
)
BOUNDS = {
    "quick": "5 spaces of 4-10 instances with every second labelling, 14 polygons on 9 "
    "instances with all 512 labellings, 4 larger spaces with 128 labellings",
    "thorough": "11 spaces of 4-74 instances with all labellings, or those of 12 groups "
    "of instances in 3 ways, and 3 purities",
}
POLYGONS = {
    "none": None,
    "empty": Polygon(),
    "cell": box(0.1, 0.1, 0.9, 0.9),
    "inner": box(0.5, 0.5, 1.5, 1.5),
    "unit": box(0, 0, 1, 1),
    "all": box(-1, -1, 3, 3),
    "left": box(-1, -1, 0.5, 3),
    "triangle": Polygon([(-0.5, -0.5), (2.5, -0.25), (0.5, 2.5)]),
    "bow": Polygon([(-0.5, -0.5), (1, 0.5), (2.5, -0.5), (2.5, 2.5), (1, 1.5),
                    (-0.5, 2.5)]),
    "hole": Polygon(box(-1, -1, 3, 3).exterior.coords,
                    [box(0.5, 0.5, 1.5, 1.5).exterior.coords]),
    "holes": Polygon(box(-1, -1, 3, 3).exterior.coords,
                     [box(0.5, 0.5, 1.5, 1.5).exterior.coords,
                      box(-0.5, -0.5, 0.5, 0.4).exterior.coords]),
    "two": MultiPolygon([box(-0.5, -0.5, 0.5, 0.5), box(1.5, 0.5, 2.5, 2.5)]),
    "three": MultiPolygon([box(-0.5, -0.5, 0.5, 0.5), box(1.5, 0.5, 2.5, 2.5),
                           Polygon(box(-0.9, 0.6, 1.2, 2.9).exterior.coords,
                                   [box(-0.1, 1.9, 0.1, 2.1).exterior.coords])]),
    "thin": box(0.9, -1, 1.1, 3),
}


def cases(tier):
    deep = tier == "thorough"
    for name in POLYGONS:
        for smooth in (False, True):
            for third in range(8):
                yield {"polygon": name, "smooth": smooth, "third": third}
    for space, purity in product(lib.SPACES, (0.3, 0.55, 0.9) if deep else (0.55,)):
        n = len(lib.SPACES[space])
        if n > 10 and not deep and space not in ("dense", "apart", "small", "sparse"):
            continue
        most = 4096 if deep else 512 if n < 11 else 128
        if n > 50:
            most = 128
        for number, labels in enumerate(lib.labellings(n, most, (1, 2, 3)[: 1 + 2 * deep])):
            yield {"space": space, "labels": labels, "purity": purity,
                   "sim": number % 3 > 0}


def labelling(code, n):
    return np.array([(code >> i) & 1 for i in range(n)], dtype=bool)


def run(case, rec):
    if "polygon" in case:
        drawn(case, rec)
        return
    z = np.array(lib.SPACES[case["space"]])
    n = len(z)
    first = np.array(case["labels"], dtype=bool)
    second = np.array(lib.other(case["labels"], 1), dtype=bool)
    good = np.column_stack([first, second])
    best = np.where(first, 0, np.where(second, 1, -1 if case["sim"] else 1))
    beta = first & second
    out, given = lib.trace(z, good, best, beta, rec, purity=case["purity"],
                           sim=case["sim"])
    total = measures(out.space, z, np.ones(n, dtype=bool), rec, "space")
    measures(out.hard, z, ~beta, rec, "hard")
    frame = out.trace_summary
    rec.check(list(frame["Algorithm"]) == list(given.algo_labels),
              lambda: f"the summary is about {list(frame['Algorithm'])}")
    rec.check(len(out.good) == len(out.best) == 2, "wrong number of footprints")
    for j in range(2):
        for footprint, flags, name in ((out.good[j], good[:, j], "Good"),
                                       (out.best[j], best == j, "Best")):
            rec.check(
                flags.sum() > 2 or empty(footprint),
                lambda: f"a footprint of {flags.sum()} instances is not empty",
            )
            mine = measures(footprint, z, flags, rec, f"{name} {j}")
            for title, value in (
                ("Area", mine[0]), ("Area_Normalised", mine[0] / (total[0] or 1)),
                ("Density", mine[3]), ("Density_Normalised", mine[3] / (total[3] or 1)),
                ("Purity", mine[4]),
            ):
                title, *rest = title.split("_")
                column = "_".join([title, name, *rest])
                got = float(frame[column].iloc[j])
                rec.check(abs(got - value) <= 1e-9 * max(1, abs(value)),
                          lambda: f"{column} of algorithm {j} is {got}, not {value}")
            rec.count("empty" if empty(footprint) else "footprints")
            if not empty(footprint):
                rec.sample({"space": case["space"], "footprint": f"{name} {j}",
                            "area": float(footprint.area),
                            "instances": int(footprint.elements),
                            "good": int(footprint.good_elements)})
    rec.state((case["space"], case["labels"], case["purity"]),
              not all(map(empty, [*out.good, *out.best])))


def empty(footprint):
    return footprint.polygon is None or footprint.polygon.is_empty


def measures(footprint, z, flags, rec, what):
    """Check the figures of a footprint, and return what they should be."""
    polygon = footprint.polygon
    if empty(footprint):
        want = (0, 0, 0, 0, 0)
    else:
        within = lib.contains(polygon, z)
        strict, border = lib.inside(polygon, z)
        rec.check(strict <= within.sum() <= strict + border,
                  lambda: f"{what}: {within.sum()} instances inside, but {strict} and "
                  f"{border} on the border by crossings")
        area = lib.area(polygon)
        elements, right = int(within.sum()), int(within[flags].sum())
        want = (area, elements, right, elements / area if area else 0,
                right / elements if elements else 0)
    got = (footprint.area, footprint.elements, footprint.good_elements,
           footprint.density, footprint.purity)
    rec.check(np.allclose(np.array(got, dtype=float), want, rtol=1e-7, atol=1e-9),
              lambda: f"{what}: area, instances, good ones, density and purity are "
              f"{got}, not {want}")
    return want


def drawn(case, rec):
    polygon = POLYGONS[case["polygon"]]
    z = np.array([[float(x), float(y)] for x in range(3) for y in range(3)])
    z[4] = z[3] + (0.2, 0)
    for code in range(64):
        flags = labelling(code * 8 + case["third"], 9)
        kept = z.copy(), flags.copy()
        rec.step()
        footprint = Footprint.from_polygon(polygon, z, flags, smoothen=case["smooth"])
        rec.trace()
        rec.check(np.array_equal(z, kept[0]) and np.array_equal(flags, kept[1]),
                  "the inputs were modified")
        measures(footprint, z, flags, rec, case["polygon"])
        rec.state((case["polygon"], case["smooth"], flags.tolist()),
                  not empty(footprint))
        if polygon is None or polygon.is_empty:
            rec.check(empty(footprint), "an empty polygon gives a footprint")
            continue
        change = footprint.polygon.symmetric_difference(polygon).area
        rec.check(change <= (0.001 * polygon.length if case["smooth"] else 1e-12),
                  lambda: f"the footprint's polygon differs from {case['polygon']} by "
                  f"an area of {change}")
