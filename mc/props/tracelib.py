"""Running TRACE, and an independent construction of its footprints."""

import numpy as np
import shapely
from alphashape import alphashape
from instancespace.data.options import ParallelOptions, TraceOptions
from instancespace.stages.trace import TraceInputs, TraceStage
from shapely.geometry import Polygon
from shapely.ops import triangulate, unary_union


def blob(n, at=(0.0, 0.0), size=0.34):
    """Points on a bent lattice: close enough to be dense, and none collinear."""
    points = []
    for i in range(n):
        x, y = i % 3, i // 3
        points.append((at[0] + size * (x + 0.13 * y * y),
                       at[1] + size * (y + 0.11 * (x - 1) ** 2 + 0.07 * x)))
    return points


def lattice(w, h, size):
    """Points of a jittered lattice."""
    state, points = 7, []
    for y in range(h):
        for x in range(w):
            jitter = []
            for _ in range(2):
                state = (state * 1103515245 + 12345) % 2**31
                jitter.append((state >> 8) % 1000 / 1000 - 0.5)
            points.append((size * (x + 0.4 * jitter[0]), size * (y + 0.4 * jitter[1])))
    return points


FAR = [(2.0, -1.0), (-1.5, 1.8)]
SPACES = {
    "dense": lattice(4, 3, 0.15) + FAR,
    "wide": lattice(6, 3, 0.18) + FAR,
    "square": lattice(4, 4, 0.2) + FAR,
    "apart": lattice(3, 3, 0.2) + [(x + 2.5, y + 2) for x, y in lattice(3, 3, 0.25)],
    # one dense cluster with a far instance, so that the neighbourhoods are large
    "one": blob(9) + [(2.2, -1.4)],
    "two": blob(6) + blob(6, (1.9, 1.1), 0.3),
    "dup": blob(7) + [blob(7)[0], blob(7)[4], (-1.8, 1.7)],
    "line": [(0.3 * i, 0.2 * i) for i in range(6)] + [(0.0, 1.5), (0.4, 1.6),
                                                      (0.2, 1.9), (9.0, -8.0)],
    "ring": [(0.42 * np.cos(k), 0.42 * np.sin(k)) for k in np.arange(7) * 0.9]
    + [(0.05, 0.03), (0.1, -0.12), (-2.0, 1.5)],
    "small": lattice(5, 4, 0.025) + [(0.4, 0.3)],
    "mid": lattice(6, 5, 0.2) + FAR,
    "large": lattice(9, 8, 0.2) + FAR,
    # repeated instances count towards the density that is asked for
    "copies": (lattice(4, 3, 0.2) + [(x + 1.5, y + 1.2) for x, y in
                                     lattice(2, 2, 0.25)]) * 6,
    # the shape of the ring covers that of the cluster in it
    "halo": [((0.44 + 0.015 * (i % 3)) * np.cos(i * 0.126),
              (0.44 + 0.015 * (i % 3)) * np.sin(i * 0.126)) for i in range(50)]
    + blob(9, (-0.06, -0.05), 0.06),
    # less than one instance for every unit of area
    "sparse": [(0.5 * i, 0.5 * j) for j in range(2) for i in range(14)]
    + [(1.55, 0.25), (-3.0, 3.0)],
    "many": [(x + 1.3 * (k % 4), y + 1.1 * (k // 4)) for k in range(13)
             for x, y in lattice(3, 2, 0.1)],
    "few": [(0.0, 0.0), (0.3, 0.1), (0.1, 0.4), (0.35, 0.42)],
}


# only as a whole: the density that is asked for is limited
HUGE = [(x, y) for x, y in lattice(40, 36, 0.05)
        if (x - 1) ** 2 / 1.1 + (y - 0.9) ** 2 < 0.85 and abs(x - 1) + y > 0.35] + [(x + 3, y + 2) for x, y in lattice(13, 4, 0.02)]


def trace(z, good, best, beta, rec, *, purity=0.55, sim=False, labels=None,
          cores=1, others=None):
    """Run the stage, and check that its inputs are left as they are."""
    z, good = np.array(z, dtype=float), np.array(good, dtype=bool)
    best, beta = np.array(best, dtype=int), np.array(beta, dtype=bool)
    a = good.shape[1]
    if others is None:
        others = ~good, (best + 1) % a
    given = TraceInputs(
        z=z, selection0=best if sim else others[1], p=others[1] if sim else best,
        beta=beta, algo_labels=list(labels or [f"algo_{'dcba'[i % 4]}" for i in range(a)]),
        y_hat=good if sim else others[0], y_bin=others[0] if sim else good,
        trace_options=TraceOptions(use_sim=sim, purity=purity),
        parallel_options=ParallelOptions(flag=False, n_cores=cores),
    )
    kept = {k: np.array(getattr(given, k)) for k in
            ("z", "selection0", "p", "beta", "y_hat", "y_bin")}
    rec.step()
    out = TraceStage._run(given)  # noqa: SLF001
    rec.trace()
    for name, want in kept.items():
        rec.check(np.array_equal(getattr(given, name), want),
                  lambda: f"the input {name} was changed")
    return out, given


def inside(polygon, z):
    """Number of instances strictly inside, and on the border, of a polygon.

    Winding by crossings, independent of the geometry library.
    """
    strict = border = 0
    for x, y in np.asarray(z, dtype=float).reshape(-1, 2).tolist():
        crossings, on = 0, False
        for ring in rings(polygon):
            for (ax, ay), (bx, by) in zip(ring, ring[1:]):
                length = ((bx - ax) ** 2 + (by - ay) ** 2) ** 0.5
                turn = (bx - ax) * (y - ay) - (by - ay) * (x - ax)
                if length and abs(turn) <= 1e-9 * length + 1e-12 and (
                    -1e-9 <= ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / length
                    <= length + 1e-9
                ):
                    on = True
                if (ay > y) != (by > y) and (
                    x < ax + (y - ay) / (by - ay) * (bx - ax)
                ):
                    crossings += 1
        border += on
        strict += not on and crossings % 2
    return strict, border


def parts(polygon):
    if polygon is None or polygon.is_empty:
        return []
    return [p for p in getattr(polygon, "geoms", [polygon]) if isinstance(p, Polygon)]


def rings(polygon):
    return [list(map(tuple, r.coords)) for p in parts(polygon)
            for r in (p.exterior, *p.interiors)]


def area(polygon):
    total = 0.0
    for p in parts(polygon):
        for ring, sign in [(p.exterior, 1)] + [(r, -1) for r in p.interiors]:
            c = np.array(ring.coords)
            x, y = c[:, 0], c[:, 1]
            total += sign * abs(np.dot(x[:-1], y[1:]) - np.dot(x[1:], y[:-1])) / 2
    return total


def clusters(points, wanted):
    """Groups of points linked by neighbourhoods, at least one of them dense."""
    k = max(min(int(np.ceil(wanted / 20)), 50), 3)
    m = len(points)
    spread = np.prod(points.max(axis=0) - points.min(axis=0))
    radius = (spread * k / (m * np.pi)) ** 0.5  # gamma(2) == 1
    near = [np.flatnonzero(((points - point) ** 2).sum(axis=1) ** 0.5 <= radius).tolist()
            for point in points]
    seen, found = set(), []
    for i in range(m):
        if i in seen or len(near[i]) < k + 1:
            continue
        group, todo = {i}, [i]
        while todo:
            for j in near[todo.pop()]:
                if j not in group:
                    group.add(j)
                    todo.append(j)
        seen |= group
        found.append(points[sorted(group)])
    return found


def fit(points, z, flags, purity):
    """The alpha shape of a cluster, without the pieces that are not pure enough."""
    if len(points) < 3 or flat(points):
        return None
    shape = alphashape(points, 2.15).simplify(0.05)
    if flags.all():
        return shape
    if shape.is_empty:
        return None
    for piece in triangulate(shape):
        within = contains(piece, z)
        if within.any() and within[flags].sum() / within.sum() < purity:
            shape = shape.difference(piece)
    return shape


def flat(points):
    steps = points - points[0]
    scale = np.abs(steps).max()
    return all(abs(a[0] * b[1] - a[1] * b[0]) <= 1e-12 * max(scale, 1e-300) ** 2
               for a in steps for b in steps)


def contains(shape, z):
    return np.array([shape.contains(shapely.Point(p)) for p in z], dtype=bool)


def build(z, flags, purity):
    """The footprint of the flagged instances, None if there is none."""
    points = np.unique(z[flags], axis=0)
    if len(points) < 3:
        return None
    shape = None
    for group in clusters(points, int(flags.sum())):
        piece = fit(group, z, flags, purity)
        if piece is not None and not piece.is_empty:
            shape = piece if shape is None else shape.union(piece)
    if shape is None:
        return None
    return shape.buffer(0.01).buffer(-0.01)


def tight(shape, z, flags, purity):
    """Footprint of the flagged instances inside each part of a shape."""
    found = []
    for part in parts(shape):
        points = np.unique(z[contains(part, z) & flags], axis=0)
        if len(points) < 3:
            continue
        piece = fit(points, z, flags, purity)
        if piece is not None and not piece.is_empty:
            found.append(piece)
    return unary_union(found) if found else None


def resolve(base, test, z, mine, theirs, purity, events=None):
    """Remove the overlap of two footprints from the less pure one, three times."""
    events = [] if events is None else events
    for attempt in range(3):
        if base is None or test is None or base.is_empty or test.is_empty:
            break
        overlap = base.intersection(test)
        if overlap.is_empty:
            break
        within = contains(overlap, z)
        ours, others = int(within[mine].sum()), int(within[theirs].sum())
        if not within.any() or ours == others:
            events.append("equal")
            break
        loser, flags = (test, theirs) if ours > others else (base, mine)
        loser = loser.difference(overlap)
        if attempt < 2:
            loser = tight(loser, z, flags, purity)
        events.append("test loses" if ours > others else "base loses")
        if ours > others:
            test = loser
        else:
            base = loser
    return base, test


def footprints(z, good, best, beta, purity, events=None):
    """Everything that TRACE builds: the space, good and best ones, and the hard one."""
    z, good = np.asarray(z, dtype=float), np.asarray(good, dtype=bool)
    best, beta = np.asarray(best), np.asarray(beta, dtype=bool)
    a = good.shape[1]
    bests = [build(z, best == j, purity) for j in range(a)]
    for i in range(a):
        for j in range(i + 1, a):
            bests[i], bests[j] = resolve(bests[i], bests[j], z, best == i, best == j,
                                         purity, events)
    return (build(z, np.ones(len(z), dtype=bool), purity),
            [build(z, good[:, j], purity) for j in range(a)], bests,
            build(z, ~beta, purity))


def same(mine, other, tolerance=1e-6):
    """Whether two footprints cover the same region."""
    a, b = area(mine), area(other)
    if min(a, b) <= tolerance:
        return max(a, b) <= tolerance
    return mine.symmetric_difference(other).area <= tolerance


def labellings(n, most, ways):
    """Every labelling of n instances, or if these are too many every labelling of
    groups of them, grouped in several ways."""
    if 2**n <= most or n <= 10:
        step = max(1, 2**n // most)
        for code in range(step // 2, 2**n, step):
            yield [(code >> i) & 1 for i in range(n)]
        return
    k = most.bit_length() - 1
    for way in ways:
        for code in range(2**k):
            yield [(code >> ((way * i + i // 5) % k)) & 1 for i in range(n)]


def other(labels, j):
    """Another labelling, for the j-th algorithm."""
    n = len(labels)
    return [labels[(i * 3 + j) % n] ^ (j > 0 and (i * j + i // 4) % 3 == 0)
            for i in range(n)] if j else list(labels)
