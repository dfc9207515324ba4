"""C05: a stage cannot corrupt what other stages, or the caller, see."""

from itertools import product

from mc import enginelib as lib
from mc import histories
from mc.props import c04

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "as C04, but every stage destroys in place each of the inputs it was handed before "
    "it returns or fails: the data of the other stages, of later and repeated runs, what earlier "
    "runs returned and what the caller passed in have to stay as they were"
)
BOUNDS = {
    "quick": "values of 8 kinds (nested lists and objects, dicts, arrays of objects and "
    "numbers, series, data frames); 12 pipelines of 3 and 4 stages, every history of 3 operations; one with stages of 16 inputs; 3 "
    "pipelines, every history of 4",
    "thorough": "12 pipelines, every history of 4; 3 pipelines, every history of 5",
}


def cases(tier):
    deeper = 0 if tier == "quick" else 1
    deep = ("fork", "mutator", "overwrite")
    everything = histories.PIPELINES | histories.BIGGER
    for name, (pipeline, restrictions, initial) in everything.items():
        _, levels = lib.ref_resolve(pipeline, initial, restrictions)
        ops = histories.operations(pipeline, levels)
        for prefix in product(ops, repeat=2):
            yield {
                "shapes": pipeline,
                "restrictions": restrictions,
                "initial": initial,
                "prefix": prefix,
                "depth": (4 if name in deep else 3) + deeper,
            }


    shapes, restrictions, initial = histories.WIDE
    ops = [("run_all", "one"), ("iter", "two"), ("next",)]
    ops += [(kind, s) for kind in ("until", "stage", "fail") for s in (0, 1, 2)]
    for prefix in product(ops, repeat=2):
        yield {"shapes": shapes, "restrictions": restrictions, "initial": initial,
               "prefix": prefix, "depth": 3 + deeper, "only": ops}


def run(case, rec):
    lib.MODE["rude"] = True
    try:
        c04.explore(case, rec)
    finally:
        lib.MODE["rude"] = False
