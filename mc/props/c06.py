"""C06: an instance space feeds its stages, and exposes its model, consistently."""

from copy import deepcopy
from dataclasses import fields, is_dataclass
from itertools import combinations, product
from typing import NamedTuple

import numpy as np
import pandas as pd
from numpy.typing import NDArray
from instancespace.data.metadata import Metadata
from instancespace.data.model import Footprint
from instancespace.data.options import (
    InstanceSpaceOptions, PilotOptions, PrelimOptions,
)
from instancespace.instance_space import InstanceSpace
from instancespace.stage_builder import StageResolutionError
from instancespace.stage_runner import StageRunningError
from instancespace.stages.cloister import CloisterStage
from instancespace.stages.pilot import PilotStage
from instancespace.stages.prelim import PrelimStage
from instancespace.stages.preprocessing import PreprocessingStage
from instancespace.stages.pythia import PythiaStage
from instancespace.stages.sifted import SiftedStage
from instancespace.stages.stage import Stage
from instancespace.stages.trace import TraceStage

LEVEL = "model_checking"
BATCHED = True
RULE = (
    "every sequence of N operations on an instance space (build, iterate completely or "
    "in part, and finish an iteration later, run until a stage, run one stage with or "
    "without an override), whose "
    "seven stages are stand-ins with the real inputs and outputs that report what they "
    "get, return fresh tokens and destroy their inputs; after each operation the model "
    "is read; non-trivial: more than one operation"
)
BOUNDS = {
    "quick": "all sequences of 3 of 28 operations on the default pipeline, "
    "and an eighth stage with every pair of 7 inputs at every place",
    "thorough": "all sequences of 4 of 28 operations",
}
REAL = [
    PreprocessingStage, PrelimStage, SiftedStage, PilotStage, PythiaStage,
    CloisterStage, TraceStage,
]
LEVELS = [[0], [1], [2], [3], [4, 5], [6]]
LEVEL_OF = {s: i for i, level in enumerate(LEVELS) for s in level}
LOG: list = []
COUNT = [0]


def _token(stage, field):
    COUNT[0] += 1
    if field == "selection1" or field == "selection0":
        return np.array([COUNT[0]])
    return np.array([COUNT[0], REAL.index(stage)])


def _same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (
            isinstance(a, np.ndarray)
            and isinstance(b, np.ndarray)
            and a.dtype == b.dtype
            and np.array_equal(a, b)
        )
    if isinstance(a, pd.Series):
        return isinstance(b, pd.Series) and a.equals(b)
    return type(a) is type(b) and a == b


def _stand_in(real):
    class StandIn(Stage):
        @staticmethod
        def _inputs():
            return real._inputs()

        @staticmethod
        def _outputs():
            return real._outputs()

        @staticmethod
        def _run(inputs):
            seen = deepcopy(inputs._asdict())
            outputs = real._outputs()(
                **{f: _token(real, f) for f in real._outputs()._fields},
            )
            LOG.append((REAL.index(real), seen, outputs._asdict()))
            for value in inputs:
                if isinstance(value, np.ndarray):
                    value.fill(-1)
                elif isinstance(value, list):
                    value.clear()
                elif isinstance(value, pd.Series):
                    value.iloc[:] = "destroyed"
            return outputs

    StandIn.__name__ = "StandIn" + real.__name__
    return StandIn


STAND_INS = [_stand_in(real) for real in REAL]
SLOT = {stage: i for i, stage in enumerate(STAND_INS)}


def make(variant):
    metadata = Metadata(
        feature_names=["feature_a", "feature_b"],
        algorithm_names=["algo_a", "algo_b"],
        instance_labels=pd.Series(["i1", "i2", f"v{variant}"]),
        instance_sources=pd.Series(["s1", "s1", "s2"]) if variant == 0 else None,
        features=np.array([[1.0, 2], [3, 4], [5, 6 + variant]]),
        algorithms=np.array([[7.0, 8], [9, 10], [11, 12 + variant]]),
    )
    return metadata, InstanceSpaceOptions.default()


def initial_of(metadata, options):
    """The documented initial inputs of the stages."""
    data = {f.name: getattr(metadata, f.name) for f in fields(Metadata)}
    for f in fields(InstanceSpaceOptions):
        data[f.name + "_options"] = getattr(options, f.name)
    data["prelim_options"] = PrelimOptions.from_options(options)
    return data


OPS = (
    [("build",), ("iterate", 9)]
    + [("iterate", k) for k in (1, 3, 5, 6)]
    + [("until", s) for s in range(7)]
    + [("stage", s) for s in range(7)]
    + [("override", s) for s in (1, 3, 4, 5, 6)]
    + [("open", 3), ("open", 7), ("finish",)]
)


# Where an input of another stage comes from.
PLUGIN_INPUTS = {
    "feature_names": list[str], "pilot_options": PilotOptions,
    "iq_range": NDArray[np.double], "selvars": NDArray[np.intc],
    "z": NDArray[np.double], "precision": list[float], "hard": Footprint,
}
MORE = {"extra": 0.5, "other": [1, 2]}


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for names in combinations(PLUGIN_INPUTS, 2):
        for rotation in range(7):
            yield {"plugin": names, "rotation": rotation}
    for prefix in product(OPS, repeat=2):
        if prefix[0] == ("finish",):
            continue
        yield {"prefix": prefix, "depth": depth}


def run(case, rec):
    if "plugin" in case:
        plugin(case, rec)
        return
    prefix = tuple(tuple(op) for op in case["prefix"])
    for rest in product(OPS, repeat=case["depth"] - len(prefix)):
        rec.evaluations += 1
        history(prefix + rest, rec)
    rec.sample({"history": prefix + rest})


def plugin(case, rec):
    """Another stage, between, before or after the others, given in any order."""
    metadata, options = make(1)
    seen = []
    wanted = {n: PLUGIN_INPUTS[n] for n in case["plugin"]}
    what = f"a stage with the inputs {case['plugin']}"

    def another(more):
        ins = NamedTuple("PluginInput", [*wanted.items(), *more.items()])
        outs = NamedTuple("PluginOutput", [("found", dict[str, object])])

        class Plugin(Stage):
            @staticmethod
            def _inputs():
                return ins

            @staticmethod
            def _outputs():
                return outs

            @staticmethod
            def _run(inputs):
                seen.append(deepcopy(inputs._asdict()))
                return outs({"number": len(seen)})

        return Plugin

    def order(stage):
        stages = [*STAND_INS, stage]
        at = case["rotation"]
        return stages[at:] + stages[:at]

    def right(data, more):
        rec.check(
            len(seen) == 1 and seen[0].keys() == wanted.keys() | more.keys()
            and all(_same(seen[0][n], data[n]) for n in wanted)
            and all(_same(seen[0][n], more[n]) for n in more),
            lambda: f"{what} received {seen}",
        )
        seen.clear()

    def outputs():
        data = initial_of(metadata, options)
        for _, _, produced in LOG:
            data.update(produced)
        return data

    rec.evaluations += 1
    COUNT[0] = 0
    LOG.clear()
    simple = another({})
    space = InstanceSpace(metadata, options, order(simple))
    model = space.build()
    rec.step(8)
    rec.check(sorted(e[0] for e in LOG) == list(range(7)), f"{what}: {LOG} ran")
    right(outputs(), {})
    check_model(model, outputs(), options, rec, lambda: what)
    LOG.clear()
    steps = [s.stage for s in space.run_iter()]
    rec.check(set(steps) == {*STAND_INS, simple} and len(steps) == 8,
              lambda: f"{what}: iterated {steps}")
    right(outputs(), {})
    check_model(space.model, outputs(), options, rec, lambda: what)

    # With inputs that the instance space does not have.
    LOG.clear()
    more = {"extra": float, "other": list[int]}
    extra = another(more)
    try:
        InstanceSpace(metadata, options, order(extra))
    except StageResolutionError as error:
        rec.check("extra" in str(error), lambda: f"{what}: {error}")
    else:
        rec.fail(f"{what} and ones that do not exist was accepted")
    space = InstanceSpace(metadata, options, order(extra),
                          NamedTuple("Additional", list(more.items())))
    space.run_until_stage(STAND_INS[0])
    pending = order(extra)
    pending.remove(STAND_INS[0])
    while pending:
        left = []
        for stage in pending:
            try:
                space.run_stage(stage, **(deepcopy(MORE) if stage is extra else {}))
            except StageRunningError:
                left.append(stage)
        rec.check(len(left) < len(pending), lambda: f"{what}: {left} cannot run")
        pending = left
    right(outputs(), MORE)
    rec.step(8)
    rec.trace(3)
    rec.state(case)


def check_model(model, final, options, rec, what):
    """The parts of the model are the outputs of one complete run."""
    for part in fields(model):
        value = getattr(model, part.name)
        if part.name == "opts":
            rec.check(value == options, lambda: f"{what()}: other options")
            continue
        rec.check(is_dataclass(value), lambda: f"{what()}: {part.name} is {value!r}")
        for f in fields(value):
            key = f"{part.name}_summary" if f.name == "summary" else f.name
            expected = final[key]
            if f.name in ("selection0", "selection1"):
                expected = expected + 1
            rec.check(
                _same(getattr(value, f.name), expected),
                lambda: f"{what()}: {part.name}.{f.name} of the model is "
                f"{getattr(value, f.name)!r} instead of {expected!r}",
            )


def history(ops, rec):
    metadata, options = make(0)
    metadata_copy = deepcopy(metadata)
    space = InstanceSpace(metadata, options, stages=list(STAND_INS))
    initial_full = initial_of(metadata_copy, options)
    COUNT[0] = 0
    LOG.clear()
    initial: dict = {}
    outputs: dict = {}
    valid: set = set()
    finals: list = []
    done: list = []
    later = None  # an iteration to be finished, and the stages it yielded
    yielded: list = []

    def what():
        return f"history {done}"

    def current():
        for i, level in enumerate(LEVELS):
            if any(s not in valid for s in level):
                return i
        return len(LEVELS)

    def expected_input(slot, overrides):
        data = dict(initial)
        for level in LEVELS[: LEVEL_OF[slot]]:
            for s in level:
                data.update(outputs[s])
        data.update(overrides)
        names = REAL[slot]._inputs()._fields
        return {n: data[n] for n in names} if all(n in data for n in names) else None

    def follow(before, overrides):
        for slot, seen, produced in LOG[before:]:
            rec.step()
            rec.check(
                LEVEL_OF[slot] <= current(),
                lambda: f"{what()}: {REAL[slot].__name__} ran too early",
            )
            wanted = expected_input(slot, overrides)
            for name, value in seen.items():
                rec.check(
                    wanted is not None and _same(value, wanted[name]),
                    lambda: f"{what()}: {REAL[slot].__name__} received {value!r} as "
                    f"{name}, not {wanted and wanted[name]!r}",
                )
            for level in LEVELS[LEVEL_OF[slot] + 1 :]:
                valid.difference_update(level)
            outputs[slot] = deepcopy(produced)
            valid.add(slot)

    def everything():
        data = dict(initial)
        for level in LEVELS:
            for s in level:
                if s in valid:
                    data.update(outputs[s])
        return data

    def same_data(result):
        wanted = everything()
        rec.check(
            set(result) == set(wanted)
            and all(_same(result[k], wanted[k]) for k in wanted),
            lambda: f"{what()}: the returned data differs from the outputs of the run",
        )

    for op in ops:
        done.append(op)
        before = len(LOG)
        complete = False
        if op[0] in ("build", "iterate", "until", "open"):
            initial, outputs = dict(initial_full), {}
            valid.clear()
        if op[0] == "build":
            built = space.build()
            follow(before, {})
            complete = len(LOG) - before == 7
            rec.check(complete, lambda: f"{what()}: a build ran {len(LOG) - before}")
            check_model(built, everything(), options, rec, what)
        elif op[0] == "iterate":
            iterator = space.run_iter()
            count = 0
            for step in iterator:
                count += 1
                follow(before + count - 1, {})
                rec.check(
                    len(LOG) == before + count
                    and SLOT[step.stage] == LOG[-1][0]
                    and all(
                        _same(v, LOG[-1][2][k])
                        for k, v in step.output._asdict().items()
                    ),
                    lambda: f"{what()}: an iteration yielded {step.stage}, ran "
                    f"{[e[0] for e in LOG[before:]]}",
                )
                if count == op[1]:
                    break
            complete = op[1] == 9
            rec.check(
                count == min(op[1], 7),
                lambda: f"{what()}: the iteration yielded {count} stages",
            )
            iterator.close()
        elif op[0] == "open":
            later = space.run_iter()
            yielded = [SLOT[next(later).stage] for _ in range(op[1])]
            follow(before, {})
            rec.check(
                len(set(yielded)) == op[1] and [e[0] for e in LOG[before:]] == yielded,
                lambda: f"{what()}: yielded {yielded}",
            )
        elif op[0] == "finish":
            if later is None:
                return
            for _ in range(9):
                before = len(LOG)
                left = [s for s in SLOT.values() if s not in yielded]
                try:
                    step = next(later)
                except StopIteration:
                    complete = True
                    rec.check(
                        not left and len(valid) == 7 and len(LOG) == before,
                        lambda: f"{what()}: the iteration ended after {yielded} with "
                        f"valid outputs of {sorted(valid)}",
                    )
                    break
                except StageRunningError:
                    rec.check(
                        len(valid) < 7 and (
                            not left or any(LEVEL_OF[s] > current() for s in left)),
                        lambda: f"{what()}: the iteration refused to continue",
                    )
                    break
                follow(before, {})
                rec.check(
                    len(LOG) == before + 1 and SLOT[step.stage] == LOG[-1][0]
                    and SLOT[step.stage] not in yielded,
                    lambda: f"{what()}: yielded {step.stage}, ran {LOG[before:]}",
                )
                yielded.append(SLOT[step.stage])
            later = None
        elif op[0] == "until":
            result = space.run_until_stage(STAND_INS[op[1]])
            follow(before, {})
            wanted = {op[1]}.union(*LEVELS[: LEVEL_OF[op[1]]])
            rec.check(
                valid == wanted and len(LOG) - before == len(wanted),
                lambda: f"{what()}: ran {[e[0] for e in LOG[before:]]}",
            )
            same_data(result)
        else:
            slot = op[1]
            overrides = {}
            if op[0] == "override":
                name = {1: "x", 3: "x", 4: "z", 5: "a", 6: "p"}[slot]
                overrides = {name: np.array([-7])}
            allowed = LEVEL_OF[slot] <= current() and (
                expected_input(slot, overrides) is not None
            )
            downstream = LEVEL_OF[slot] < current()
            try:
                result = space.run_stage(STAND_INS[slot], **deepcopy(overrides))
            except Exception as error:  # noqa: BLE001
                rec.check(
                    not allowed,
                    lambda: f"{what()}: running {REAL[slot].__name__} gave {error!r}",
                )
                rec.check(
                    LEVEL_OF[slot] <= current()
                    or isinstance(error, StageRunningError),
                    lambda: f"{what()}: refused with {error!r}",
                )
                if downstream:
                    return
            else:
                rec.check(
                    allowed,
                    lambda: f"{what()}: {REAL[slot].__name__} ran too early",
                )
                follow(before, overrides)
                rec.check(
                    len(LOG) == before + 1
                    and LOG[-1][0] == slot
                    and all(
                        _same(v, LOG[-1][2][k]) for k, v in result._asdict().items()
                    ),
                    lambda: f"{what()}: ran {[e[0] for e in LOG[before:]]}",
                )
        if complete:
            finals.append(everything())
        rec.state((ops[: len(done)], sorted(valid), len(finals)), len(done) > 1)
        try:
            model = space.model
        except StageRunningError:
            rec.check(
                not finals or not complete,
                lambda: f"{what()}: no model after a complete run",
            )
        else:
            rec.check(
                bool(finals),
                lambda: f"{what()}: a model without a complete run",
            )
            check_model(model, finals[-1], options, rec, what)
        rec.step()
    for f in fields(Metadata):
        rec.check(
            _same(getattr(space.metadata, f.name), getattr(metadata_copy, f.name)),
            lambda: f"{what()}: the metadata's {f.name} changed",
        )
    rec.check(space.options == options, lambda: f"{what()}: the options changed")
    rec.trace()
