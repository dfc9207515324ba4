"""C04: any history of full, partial, repeated and failed runs uses the right data."""

from itertools import combinations_with_replacement, product

from mc import enginelib as lib
from mc import histories

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every sequence of operations of the stated length over a pipeline: run all (two "
    "data sets), run until, run one stage (with and without an override), iterate step "
    "by step, and a run in which one stage fails; non-trivial: more than one operation"
)
BOUNDS = {
    "quick": "5 pipelines of 3 stages to depth 4, 4 to depth 3, all 2-stage pipelines over {a,b} to "
    "depth 3, 3 pipelines of 4 stages to depth 3, 3 iterations with all that happens in "
    "between to depth 6; 2 pipelines of 7 stages to depth 5, after a run",
    "thorough": "the same one operation deeper, all 2-stage pipelines to depth 5",
}
# What may happen between the steps of an iteration, for longer histories of these.
STEPS = [("next",), ("run_all", "one"), ("until", 0), ("stage", 0),
         ("stage", 1)]


def cases(tier):
    deeper = 0 if tier == "quick" else 1
    shallow = ("plugin", "restricted", "unused", "mutate initial")
    plans = [
        (p, (3 if name in shallow else 4) + deeper)
        for name, p in histories.PIPELINES.items()
    ]
    plans += [(p, 3 + deeper) for p in histories.BIGGER.values()]
    subsets = ["", "a", "b", "ab"]
    shapes = [(i, o) for i in subsets for o in subsets]
    for pipeline in combinations_with_replacement(shapes, 2):
        for initial in ("a",) if tier == "quick" else ("a", "ab"):
            if lib.ref_resolve(pipeline, initial)[0] == "ok":
                plans.append(((pipeline, (), initial), 3 + 2 * deeper))
    for (pipeline, restrictions, initial), depth in plans:
        _, levels = lib.ref_resolve(pipeline, initial, restrictions)
        ops = histories.operations(pipeline, levels)
        for prefix in product(ops, repeat=2):
            yield {
                "shapes": pipeline,
                "restrictions": restrictions,
                "initial": initial,
                "prefix": prefix,
                "depth": depth,
            }
    # Going back in deep pipelines.
    for pipeline, restrictions, initial in histories.DEEP.values():
        for first in range(7):
            yield {"shapes": pipeline, "restrictions": restrictions, "initial": initial,
                   "prefix": (("run_all", "one"), ("stage", first)),
                   "depth": 5 + deeper, "only": [("stage", s) for s in range(7)]}
            yield {"shapes": pipeline, "restrictions": restrictions, "initial": initial,
                   "prefix": (("until", first),), "depth": 4 + deeper,
                   "only": [("stage", s) for s in range(7)]}
        _, levels = lib.ref_resolve(pipeline, initial, restrictions)
        for first in range(len(levels)):
            # Back to a level, from there on through all stages up to another one.
            for last in range(first, len(levels)):
                way = [("stage", s) for level in levels[first:last + 1]
                       for s in sorted(level)]
                yield {"shapes": pipeline, "restrictions": restrictions,
                       "initial": initial, "prefix": (("run_all", "one"), *way),
                       "depth": 1 + len(way) + 2,
                       "only": [("stage", s) for s in range(7)]}
    for name in ("chain", "fork", "overwrite"):
        pipeline, restrictions, initial = histories.PIPELINES[name]
        for prefix in product(STEPS, repeat=2):
            yield {"shapes": pipeline, "restrictions": restrictions, "initial": initial,
                   "prefix": (("iter", "two"), *prefix), "depth": 6 + deeper,
                   "steps": True}


def run(case, rec):
    lib.MODE["rude"] = False
    explore(case, rec)


def explore(case, rec):
    shapes = [tuple(s) for s in case["shapes"]]
    restrictions = [tuple(r) for r in case["restrictions"]]
    prefix = tuple(tuple(op) for op in case["prefix"])
    _, levels = lib.ref_resolve(shapes, case["initial"], restrictions)
    ops = STEPS if case.get("steps") else histories.operations(shapes, levels)
    if "only" in case:
        ops = [tuple(op) for op in case["only"]]
    for rest in product(ops, repeat=case["depth"] - len(prefix)):
        if "next" in {op[0] for op in prefix + rest} and not sensible(prefix + rest):
            continue
        rec.evaluations += 1
        histories.run_history(
            shapes,
            restrictions,
            case["initial"],
            prefix + rest,
            rec,
        )
    rec.sample({"stages": shapes, "history": prefix + rest})


def sensible(ops):
    """Stepping an iteration needs one that was started."""
    started = False
    for op in ops:
        if op[0] == "iter":
            started = True
        elif op[0] == "next" and not started:
            return False
    return True
