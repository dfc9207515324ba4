"""C02: run-before and run-after restrictions are honoured or refused."""

from itertools import combinations, combinations_with_replacement

from mc import enginelib as lib

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every pipeline of the stated shapes with every set of at most K restrictions "
    "(before/after, between any two stages, on a stage that is not in the pipeline and "
    "on the stage itself); non-trivial: at least one restriction"
)
BOUNDS = {
    "quick": "2 stages over {a,b} and 3 stages over {a} with up to 3 restrictions, 3 "
    "stages over {a,b} with 1, 4 without data with up to 4, 2 iteration orders, all "
    "stages having the same name in one",
    "thorough": "3 stages over {a,b} with up to 2 restrictions, 3 over {a} with up to "
    "4, 4 over {a} with up to 2, 4 without data with up to 5",
}
N = lib.ABSENT_SLOT


def _shapes(names):
    subsets = [""]
    for n in names:
        subsets += [s + n for s in subsets]
    return [(i, o) for i in subsets for o in subsets]


def _restrictions(stages, most):
    single = [
        (s, kind, t)
        for s in range(stages)
        for kind in ("before", "after")
        for t in [*range(stages), N]
    ]
    for k in range(most + 1):
        yield from combinations(single, k)


def cases(tier):
    spaces = (
        [("ab", 2, 2), ("a", 3, 3), ("ab", 3, 1), ("", 4, 4)]
        if tier == "quick"
        else [("ab", 2, 4), ("a", 3, 4), ("ab", 3, 2), ("a", 4, 2), ("", 4, 5)]
    )
    for names, stages, most in spaces:
        initials = [i for i, _ in _shapes(names)]
        for combo in combinations_with_replacement(_shapes(names), stages):
            for initial in dict.fromkeys(initials):
                chunk = []
                for restrictions in _restrictions(stages, most):
                    chunk.append(restrictions)
                    if len(chunk) == 3000:
                        yield {"shapes": combo, "initial": initial, "sets": chunk}
                        chunk = []
                yield {"shapes": combo, "initial": initial, "sets": chunk}


def run(case, rec):
    shapes = [tuple(s) for s in case["shapes"]]
    try:
        for restrictions in case["sets"]:
            one(shapes, case["initial"], [tuple(r) for r in restrictions], rec)
    finally:
        lib.rename(same_name=False)


def one(shapes, initial, restrictions, rec):
    rec.evaluations += 1
    n = len(shapes)
    verdict, detail = lib.ref_resolve(shapes, initial, restrictions)
    what = f"stages {shapes} from {initial!r} with restrictions {restrictions}"
    for order in (tuple(range(n)), tuple(reversed(range(n)))):
        rec.step()
        # Names of classes are not unique.
        lib.rename(same_name=order[0] > 0)
        try:
            runner = lib.build(shapes, restrictions, initial, order, order)
        except lib.StageResolutionError as error:
            rec.trace()
            rec.check(
                verdict != "ok",
                lambda: f"{what} can be honoured by {detail}, but: {error}",
            )
            continue
        rec.check(
            verdict == "ok",
            lambda: f"{what} must be refused ({verdict} {detail}), but was built",
        )
        lib.LOG.clear()
        runner.run_all(lib.initial_record(initial))
        rec.step(n)
        rec.trace()
        ran = [int(name[1:]) for name, _ in lib.LOG]
        rec.check(
            sorted(ran) == list(range(n)),
            lambda: f"{what}: ran {ran}, not every stage once",
        )
        for slot, kind, other in restrictions:
            if other == N:
                continue
            first, then = (slot, other) if kind == "before" else (other, slot)
            rec.check(
                ran.index(first) < ran.index(then),
                lambda: f"{what}: ran in the order {ran}, although S{slot} has to run "
                f"{kind} S{other}",
            )
    rec.count(verdict)
    rec.state((shapes, initial, restrictions, verdict), bool(restrictions))
    if verdict == "ok" and restrictions and n > 2:
        rec.sample(
            {"stages": shapes, "restrictions": restrictions, "levels": detail},
        )
