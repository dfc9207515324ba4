"""C23: footprints do not depend on thread scheduling."""

import sys
from itertools import product

import numpy as np
from instancespace.stages import trace as module

from mc.core import REPO
from mc.props import tracelib as lib
from mc.sched import InjectedError, Scheduler, controlled, explore

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every order in which the per-algorithm tasks start and complete and their results "
    "are collected, and every interleaving at the lines of the analysis within the "
    "bound on deviations from running one task after the other, for each number of "
    "algorithms and workers; with each of the tasks failing; non-trivial: a task is interrupted, or tasks end in another order than "
    "they started"
)
BOUNDS = {
    "quick": "1-4 algorithms and 1-4 workers without preemption; 2 algorithms with one "
    "preemption at any line, on 2 data sets, and with two preemptions at the starts and "
    "ends of functions",
    "thorough": "1-5 algorithms and 1-4 workers without preemption; 2-3 algorithms with "
    "one preemption at any line on 2 data sets; 2 algorithms with two preemptions at any "
    "line on 3 instances; 2 and 3 algorithms with two, and 2 with three, preemptions at "
    "the starts and ends of functions",
}
SOURCE = str(REPO / "instancespace")
DATA = {
    "tiny": ([(0.0, 0.0), (0.3, 0.1), (0.1, 0.4)], 1),
    "few": (lib.SPACES["few"], 3),
    "small": (lib.blob(6) + [(2.2, -1.4)], 5),
    "one": (lib.SPACES["one"], 9),
}


def cases(tier):
    deep = tier == "thorough"
    for a, workers in product(range(1, 6 if deep else 5), range(1, 5)):
        parts = 16 if a > 4 else 8 if a > 3 and workers > 1 else 1
        for part, fail in product(range(parts), [None, *range(a)]):
            if a == 4 and not deep and (fail in (1, 2) or fail == 0 and workers > 2):
                continue
            yield {"a": a, "workers": workers, "bound": 0, "data": "small",
                   "fail": fail, "part": part, "parts": parts}
    for a, data, bound, lines, parts in (
        [(2, "one", 1, True, 64), (2, "small", 1, True, 64), (3, "small", 1, True, 64),
         (2, "tiny", 2, True, 64), (2, "small", 2, False, 64),
         (3, "few", 2, False, 64), (2, "few", 3, False, 64)]
        if deep else
        [(2, "small", 1, True, 32), (2, "few", 1, True, 8), (2, "few", 2, False, 32)]
    ):
        for part in range(parts):
            yield {"a": a, "workers": 2, "bound": bound, "data": data, "fail": None,
                   "part": part, "parts": parts, "lines": lines}


def data(case):
    points, seed = DATA[case["data"]]
    z = np.array(points)
    n, a = len(z), case["a"]
    first = [(seed >> (i % 4)) & 1 == 0 or i % 3 == 0 for i in range(n)]
    good = np.array([[v != (i == j + 1 or i + j == 5)
                      for j in range(a)] for i, v in enumerate(first)])
    good[: 5 - n % 2, 0] = True
    best = np.array([i * a // n for i in range(n)])
    if n > 5:  # enough instances for a best footprint, of different algorithms
        best[:] = np.where(np.arange(n) < 5, a - 1, np.arange(n) % a)
    return z, good, best


def describe(out):
    """Everything that the stage returns, exactly."""
    def one(f):
        return (None if f.polygon is None else f.polygon.wkb, float(f.area),
                int(f.elements), int(f.good_elements), float(f.density),
                float(f.purity))

    return (one(out.space), [one(f) for f in out.good], [one(f) for f in out.best],
            one(out.hard), out.trace_summary.to_csv())


def run(case, rec):
    z, good, best = data(case)
    a = case["a"]
    beta = good.all(axis=1)
    arguments = dict(purity=0.3, cores=case["workers"])
    wanted = {}

    def execute(schedule, only_points=False):
        scheduler = Scheduler(schedule, SOURCE if case["bound"] else None, case["fail"],
                              case.get("lines", True))
        tracer = scheduler.tracer(-1)
        failed = out = None
        with controlled(scheduler, module):
            before = sys.gettrace()
            sys.settrace(tracer)
            try:
                out, _ = lib.trace(z, good, best, beta, rec, **arguments)
            except InjectedError as error:
                failed = error
            finally:
                sys.settrace(before)
        if only_points:
            return scheduler.points
        rec.evaluations += 1
        how = (f"{a} algorithms, {case['workers']} workers, schedule {schedule}, "
               f"completed in the order {scheduler.order}")
        if case["fail"] is not None and len(scheduler.tasks) > case["fail"]:
            rec.check(failed is not None,
                      lambda: f"{how}: the failure of task {case['fail']} is lost")
            rec.count("failed")
        else:
            rec.check(out is not None, "failed")
            got = describe(out)
            if "result" not in wanted:
                wanted["result"] = got
                correct(out, z, good, best, beta, rec)
            rec.check(
                got == wanted["result"],
                lambda: f"{how}: the results are {got}, and {wanted['result']} in "
                "another order",
            )
            rec.check(list(out.trace_summary["Algorithm"])
                      == [f"algo_{'dcba'[i % 4]}" for i in range(a)],
                      "wrong algorithms in the summary")
        rec.state((case["a"], case["workers"], case["data"], case["fail"],
                   sorted(schedule.items())),
                  scheduler.order != sorted(scheduler.order)
                  or len(scheduler.order) > 1 and bool(schedule))
        rec.count("schedules")
        rec.count("context switches", scheduler.switches)
        rec.count(f"{case['bound']} preemptions allowed")
        if scheduler.order != sorted(scheduler.order):
            rec.count("completed out of order")
            rec.sample({"algorithms": a, "schedule": sorted(schedule.items()),
                        "completion order": scheduler.order})
        return scheduler.points

    # The result of the default schedule, checked against an independent construction.
    if case["fail"] is None:
        out, _ = lib.trace(z, good, best, beta, rec, purity=0.3, cores=1)
        correct(out, z, good, best, beta, rec)
        wanted["result"] = describe(out)
    explore(execute, case["bound"], (case["part"], case["parts"]),
            free=not case["bound"])


def correct(out, z, good, best, beta, rec):
    space, goods, bests, hard = lib.footprints(z, good, best, beta, 0.3)
    for name, got, want in (
        ("space", [out.space], [space]), ("good", out.good, goods),
        ("best", out.best, bests), ("hard", [out.hard], [hard]),
    ):
        for j, (mine, other) in enumerate(zip(got, want)):
            rec.check(lib.same(mine.polygon, other),
                      lambda: f"{name} footprint {j} is {mine.polygon}, not {other}")
            rec.count("footprints" if lib.area(other) else "empty footprints")
