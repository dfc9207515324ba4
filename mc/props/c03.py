"""C03: what a pipeline computes does not depend on incidental ordering."""

from itertools import combinations_with_replacement, permutations

from mc import enginelib as lib
from mc.props import c02

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every pipeline of the stated shapes, under every order of adding its stages and "
    "every iteration order of the engine's sets of stages; the values are symbolic "
    "terms with their complete provenance; non-trivial: two stages share an argument"
)
BOUNDS = {
    "quick": "3 stages over {a,b} (also with one restriction) and 4 stages over {a,b} "
    "and {a,A}, all initial inputs, all 6 or 24 orders; trees and chains of 5 stages "
    "in all 120 orders",
    "thorough": "3 stages over {a,b,c}, 4 over {a,b} with one restriction, all orders; "
    "trees and chains of 6 stages in all 720 orders",
}


def cases(tier):
    spaces = (
        [("ab", 3, 1), ("ab", 4, 0)]
        if tier == "quick"
        else [("abc", 3, 0), ("ab", 3, 2), ("ab", 4, 1)]
    )
    for names, stages, most in spaces:
        shapes = c02._shapes(names)
        for combo in combinations_with_replacement(shapes, stages):
            for initial in dict.fromkeys(i for i, _ in shapes):
                sets = [
                    r
                    for r in c02._restrictions(stages, most)
                    if all(t != c02.N and s != t for s, _, t in r)
                ]
                yield {"shapes": combo, "initial": initial, "sets": sets}
    typed = [(i, o) for i in ("", "a", "A") for o in ("", "a", "A")]
    for combo in combinations_with_replacement(typed, 4):
        for initial in ("", "a", "A"):
            yield {"shapes": combo, "initial": initial, "sets": [()]}
    deep = 5 if tier == "quick" else 6
    for pipeline in [*lib.forests(deep), *lib.joins(deep)]:
        yield {"shapes": pipeline, "initial": "", "sets": [()]}


def run(case, rec):
    shapes = [tuple(s) for s in case["shapes"]]
    for restrictions in case["sets"]:
        one(shapes, case["initial"], [tuple(r) for r in restrictions], rec)


def one(shapes, initial, restrictions, rec):
    rec.evaluations += 1
    n = len(shapes)
    verdict, levels = lib.ref_resolve(shapes, initial, restrictions)
    if verdict == "unresolved":
        return
    what = f"stages {shapes} from {initial!r} with restrictions {restrictions}"
    if verdict == "ok":
        start = lib.initial_record(initial)._asdict()
        data, saw = lib.ref_run(shapes, levels, start)
    for order in permutations(range(n)):
        rec.step()
        reverse = tuple(reversed(order))
        try:
            runner = lib.build(shapes, restrictions, initial, reverse, order)
        except lib.StageResolutionError as error:
            rec.trace()
            rec.check(
                verdict == "ambiguous",
                lambda: f"{what} in set order {order} did not build: {error}",
            )
            continue
        rec.check(
            verdict == "ok",
            lambda: f"{what}: S{levels[0]} and S{levels[1]} are ambiguous, but it was "
            f"built in set order {order}",
        )
        lib.LOG.clear()
        result = runner.run_all(lib.initial_record(initial))
        rec.step(n)
        rec.trace()
        rec.check(
            dict(lib.LOG) == saw,
            lambda: f"{what} in set order {order}: the stages received "
            f"{dict(lib.LOG)} instead of {saw}",
        )
        rec.check(
            result == data,
            lambda: f"{what} in set order {order}: the result is {result} "
            f"instead of {data}",
        )
    rec.count(verdict)
    shared = any(
        set(a[0] + a[1]) & set(b[0] + b[1])
        for k, a in enumerate(shapes)
        for b in shapes[k + 1 :]
    )
    rec.state((shapes, initial, restrictions, verdict), shared)
    if verdict == "ok" and len(levels) > 1:
        rec.sample({"stages": shapes, "initial": initial, "levels": levels})
