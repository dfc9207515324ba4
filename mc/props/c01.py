"""C01: a pipeline can be built exactly when its stages can be ordered."""

from itertools import combinations_with_replacement, permutations

from mc.enginelib import *  # noqa: F403
from mc import enginelib as lib

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every pipeline of up to N stages whose inputs and outputs are subsets of an "
    "alphabet of arguments (two types of one name included), for every set of initial "
    "inputs; non-trivial: at least two stages that share an argument"
)
BOUNDS = {
    "quick": "2 stages over 3 names, 3 stages over {a,b,A}, 4 stages over {a,b} and "
    "{a,A} (A: a of another type), all initial inputs; every tree of 6 stages and "
    "every chain of 6 with an extra dependency each; 2 iteration orders of sets, "
    "with all stages of the same name in one; 5 pairs of types; no stages at all",
    "thorough": "2 stages over 4 names, 3 over {a,b,c} and {a,b,A}, 5 over {a,b}; trees "
    "and chains of 7; all iteration orders up to 4 stages",
}


def _subsets(names):
    out = [""]
    for n in names:
        out += [s + n for s in out]
    # one name cannot have two types in a single record
    return [s for s in out if len({c.lower() for c in s}) == len(s)]


def _space(names, stages):
    subsets = _subsets(names)
    shapes = [(i, o) for i in subsets for o in subsets]
    for combo in combinations_with_replacement(shapes, stages):
        for initial in subsets:
            yield combo, initial


def cases(tier):
    spaces = (
        [("abc", 2), ("abA", 3), ("ab", 4), ("aA", 4)]
        if tier == "quick"
        else [("abcd", 2), ("abc", 3), ("abA", 3), ("ab", 4), ("aA", 4), ("ab", 5)]
    )
    batch = [[(), i] for i in _subsets("aA")]
    number = 0
    for names, stages in spaces:
        for combo, initial in _space(names, stages):
            batch.append([combo, initial])
            if len(batch) == 200:
                yield {"tier": tier, "pipelines": batch, "types": number}
                batch = []
                number += 1
    deep = 6 if tier == "quick" else 7
    for pipeline in [*lib.forests(deep), *lib.joins(deep)]:
        batch.append([pipeline, ""])
    if batch:
        yield {"tier": tier, "pipelines": batch}


def run(case, rec):
    lib.set_types(case.get("types", 0))
    try:
        for combo, initial in case["pipelines"]:
            one([tuple(s) for s in combo], initial, case["tier"], rec)
    finally:
        lib.set_types(0)
        lib.rename(same_name=False)


def one(shapes, initial, tier, rec):
    rec.evaluations += 1
    n = len(shapes)
    verdict, detail = lib.ref_resolve(shapes, initial)
    orders = [tuple(range(n)), tuple(reversed(range(n)))]
    if tier == "thorough" and n <= 4:
        orders = list(permutations(range(n)))
    what = f"stages {shapes} from initial inputs {initial!r}"
    for number, order in enumerate(orders):
        rec.step()
        # Names of classes are not unique.
        lib.rename(same_name=number % 2 == 1)
        try:
            runner = lib.build(shapes, (), initial, order, order)
        except lib.StageResolutionError as error:
            rec.trace()
            rec.check(
                verdict != "ok",
                lambda: f"{what} can be ordered as {detail}, but did not build: {error}",
            )
            if verdict == "unresolved" and number % 2 == 0:
                for slot in detail:
                    rec.check(
                        f"S{slot}" in str(error),
                        lambda: f"{what}: the error does not name the stage S{slot} "
                        f"that cannot run: {error}",
                    )
            continue
        rec.check(
            verdict == "ok",
            lambda: f"{what} must not build ({verdict} {detail}), but did",
        )
        lib.LOG.clear()
        ran = []
        available = {x for x, _ in lib.args(initial)}
        iterator = runner.run_iter(lib.initial_record(initial))
        for step in iterator:
            rec.step()
            slot = lib.STAGES.index(step.stage)
            needed = {x for x, _ in lib.args(shapes[slot][0])}
            rec.check(
                needed <= available,
                lambda: f"{what}: S{slot} ran before its inputs were available",
            )
            ran.append(slot)
            available |= {x for x, _ in lib.args(shapes[slot][1])}
        rec.check(
            sorted(ran) == list(range(n)),
            lambda: f"{what}: the stages ran were {ran}, not each exactly once",
        )
        rec.check(
            [name for name, _ in lib.LOG] == [f"S{s}" for s in ran],
            lambda: f"{what}: executed {lib.LOG}, reported {ran}",
        )
        rec.trace()
    rec.count(verdict)
    shared = any(
        set(a[0] + a[1]) & set(b[0] + b[1])
        for k, a in enumerate(shapes)
        for b in shapes[k + 1 :]
    )
    rec.state((shapes, initial, verdict), shared)
    if verdict == "ok" and n > 2:
        rec.sample({"stages": shapes, "initial": initial, "levels": detail})


def from_json(case):
    return case
