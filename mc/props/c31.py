"""C31: a builder stands for exactly the stages that were added to it so far."""

from itertools import combinations_with_replacement, product
from typing import NamedTuple

from instancespace.stage_builder import StageBuilder
from instancespace.stages.stage import RunAfter, RunBefore

from mc import enginelib as lib

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every sequence of operations on one builder (add one of the stages, add one of them "
    "once more, add one with a restriction as an output, build from one of two initial "
    "records given as a record or as a set), with every pipeline of the stated shapes; "
    "every runner built on the way is run at the end; non-trivial: more than one build"
)
BOUNDS = {
    "quick": "2 stages over {a,b} with all sequences of up to 5 operations, 3 stages over {a} "
    "with all of up to 4, with up to two restrictions",
    "thorough": "2 stages over {a,b} with all sequences of up to 6 operations, 3 stages over "
    "{a,b} with all of up to 4",
}
BAD = 7
RESTRICTIONS = [(), ((0, "before", 1),), ((0, "after", 1),),
                ((0, "before", 1), (2, "before", 0)), ((0, "before", 1), (2, "after", 0))]


def _subsets(names):
    found = [""]
    for n in names:
        found += [s + n for s in found]
    return found


def _histories(stages, depth, initials):
    operations = [*(f"add {i}" for i in range(stages)), "add bad",
                  *(f"build {i}" for i in initials)]
    for length in range(1, depth + 1):
        for history in product(operations, repeat=length):
            # Operations after the last build change nothing that is looked at.
            if history[-1].startswith("build"):
                yield history


def cases(tier):
    deep = tier == "thorough"
    number = 0
    for names, stages, depth in (("ab", 2, 6 if deep else 5), ("ab" if deep else "a", 3, 4)):
        shapes = list(product(_subsets(names), repeat=2))
        for combo in combinations_with_replacement(shapes, stages):
            for restriction in RESTRICTIONS[: 3 if stages == 2 else 5]:
                number += 1
                yield {"shapes": combo, "restrictions": restriction, "depth": depth,
                       "initials": ["", names[-1]], "number": number}


def run(case, rec):
    shapes = [tuple(s) for s in case["shapes"]]
    restrictions = [tuple(r) for r in case["restrictions"]]
    stages = lib.spec_stages(shapes, restrictions)
    lib.set_order(range(10))
    kind = (RunBefore, RunAfter)[case["number"] % 2]
    lib._SPEC[f"S{BAD}"] = (  # noqa: SLF001
        lib.record("In", ()),
        NamedTuple("Out", [("z", int), ("restriction", kind[stages[0]])]),
    )
    expected = {}
    for history in _histories(len(shapes), case["depth"], case["initials"]):
        one(shapes, restrictions, stages, history, expected, rec)


def resolve(shapes, restrictions, added, initial, expected):
    """The reference schedule of these stages only, by their slots."""
    key = frozenset(added), initial
    if key not in expected:
        # The numbers of the stages that are there, and of others for the rest.
        of = {s: k for k, s in enumerate(sorted(added))}
        kept = [(of[s], how, of.get(t, 5)) for s, how, t in restrictions if s in of]
        verdict, detail = lib.ref_resolve([shapes[s] for s in sorted(added)], initial, kept)
        if verdict == "ok":
            back = sorted(added)
            detail = [[back[s] for s in level] for level in detail]
        expected[key] = verdict, detail
    return expected[key]


def one(shapes, restrictions, stages, history, expected, rec):
    rec.evaluations += 1
    builder = StageBuilder()
    added, built = [], []
    what = f"stages {shapes} with {restrictions}: {history}"
    for place, operation in enumerate(history):
        rec.step()
        verb, target = operation.split(" ")
        if verb == "add":
            slot = BAD if target == "bad" else int(target)
            refused = TypeError if target == "bad" else (
                ValueError if slot in added else None)
            try:
                back = builder.add_stage(lib.STAGES[slot])
            except (TypeError, ValueError) as error:
                rec.check(refused is not None and isinstance(error, refused),
                          lambda: f"{what}: operation {place} is refused: {error!r}")
                rec.count("refused to add")
            else:
                rec.check(refused is None, lambda: f"{what}: operation {place} is not refused")
                rec.check(back is builder, "adding does not return the builder")
                added.append(slot)
            continue
        verdict, detail = resolve(shapes, restrictions, added, target, expected)
        record = lib.record("Initial", lib.args(target))
        as_set = getattr(StageBuilder, "_named_tuple_to_stage_arguments", None)
        given = record if place % 2 or as_set is None else as_set(record)
        kept = set(given) if isinstance(given, set) else None
        try:
            runner = builder.build(given)
        except lib.StageResolutionError as error:
            rec.check(verdict != "ok",
                      lambda: f"{what}: build {place} of {added} fails: {error}")
            rec.count("refused to build")
        else:
            rec.check(verdict == "ok",
                      lambda: f"{what}: build {place} of {added} must be refused "
                      f"({verdict} {detail})")
            built.append((place, runner, list(added), target, detail))
        rec.check(kept is None or given == kept, "building changed the initial arguments")
    for place, runner, members, initial, levels in built:
        lib.LOG.clear()
        values = lib.initial_record(initial)
        final = runner.run_all(values)
        rec.step(len(members))
        ran = [int(name[1:]) for name, _ in lib.LOG]
        rec.check(sorted(ran) == sorted(members),
                  lambda: f"{what}: the runner of build {place} ran {ran}, not {members}")
        data, saw = lib.ref_run(shapes, levels, values._asdict())
        rec.check(dict(lib.LOG) == saw,
                  lambda: f"{what}: in the runner of build {place}, the stages got "
                  f"{lib.LOG}, not {saw}")
        rec.check(
            {k: lib.term_of(v) for k, v in final.items()}
            == {k: lib.term_of(v) for k, v in data.items()},
            lambda: f"{what}: the runner of build {place} ended with {final}, not {data}")
    rec.trace()
    builds = sum(o.startswith("build") for o in history)
    rec.state((shapes, restrictions, history), builds > 1)
    rec.count("runners", len(built))
    if len(built) > 1 and len(built[0][2]) < len(built[-1][2]):
        rec.sample({"stages": shapes, "history": history,
                    "levels": [b[4] for b in built]})
