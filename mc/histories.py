"""Histories of a stage runner, checked against a reference model.

The model knows the initial data of the current run, the latest outputs of every stage
and which of them are valid.  A stage may run once every stage of the levels before its
own is valid; it sees the initial data, the valid outputs of those levels, and the
overrides of that one call.  Running it invalidates the levels after its own.
"""

from __future__ import annotations

import zlib
from copy import deepcopy

from mc import enginelib as lib

PIPELINES = {
    "chain": ([("a", "b"), ("b", "c"), ("c", "d")], (), "a"),
    "fork": ([("a", "b"), ("a", "c"), ("bc", "d")], (), "a"),
    "mutator": ([("a", "b"), ("b", "b"), ("b", "c")], (), "a"),
    "mutate initial": ([("a", "a"), ("a", "b"), ("ab", "c")], (), "a"),
    "overwrite": ([("a", "b"), ("b", "a"), ("ab", "c")], (), "a"),
    "plugin": ([("a", "b"), ("b", ""), ("b", "c")], (), "a"),
    "restricted": ([("a", "b"), ("a", "c"), ("a", "d")], ((1, "after", 0),), "a"),
    "two inputs": ([("a", "c"), ("b", "d"), ("ac", "b")], ((2, "after", 1),), "ab"),
    "unused": ([("", "a"), ("a", "b"), ("", "c")], (), ""),
}
DEEP = {
    "deep chain": ([("a" if i == 0 else "bcdefgh"[i - 1], "bcdefgh"[i])
                    for i in range(7)], (), "a"),
    "deep fork": ([("a", "b"), ("b", "c"), ("b", "d"), ("c", "e"), ("de", "f"),
                   ("f", "b"), ("bf", "g")], ((5, "after", 4),), "a"),
    "deep memory": ([("a", "b"), ("b", "c"), ("bc", "d"), ("abd", "e"), ("be", "f"),
                     ("ade", "g"), ("bcdefg", "h")], (), "a"),
}
# A stage with many inputs.
WIDE = ([("abcdefghijklmnop", "q"), ("abcdefghijklmnopq", "r"), ("qr", "a")], (),
        "abcdefghijklmnop")
BIGGER = {
    "diamond": ([("a", "b"), ("b", "c"), ("b", "d"), ("cd", "e")], (), "a"),
    "long chain": ([("a", "b"), ("b", "c"), ("c", "d"), ("d", "e")], (), "a"),
    "two chains": ([("a", "b"), ("b", "c"), ("a", "d"), ("d", "e")], (), "a"),
}


def operations(shapes, levels):
    """The alphabet of operations of a pipeline."""
    n = len(shapes)
    ops = [("run_all", "one"), ("iter", "two"), ("next",)]
    for s in range(n):
        ops += [("until", s), ("stage", s)]
        if shapes[s][0]:
            ops.append(("override", s))
        ops.append(("fail", s))
    return ops


class Model:
    """The reference model."""

    def __init__(self, shapes, levels) -> None:
        self.shapes, self.levels = shapes, levels
        self.level_of = {s: i for i, level in enumerate(levels) for s in level}
        self.initial: dict = {}
        self.out: dict = {}
        self.valid: set = set()

    def start(self, initial) -> None:
        self.initial, self.out, self.valid = dict(initial), {}, set()

    def current(self) -> int:
        for i, level in enumerate(self.levels):
            if any(s not in self.valid for s in level):
                return i
        return len(self.levels)

    def before(self, level: int) -> dict:
        data = dict(self.initial)
        for stages in self.levels[:level]:
            for s in stages:
                data.update(self.out[s])
        return data

    def sees(self, slot: int, overrides) -> tuple | None:
        """What the stage receives; None if something is missing."""
        data = self.before(self.level_of[slot]) | overrides
        names = [n for n, _ in lib.args(self.shapes[slot][0])]
        if any(n not in data for n in names):
            return None
        return tuple(sorted((n, lib.term_of(data[n])) for n in names))

    def ran(self, slot: int, outputs: dict) -> None:
        level = self.level_of[slot]
        for stages in self.levels[level + 1 :]:
            self.valid -= set(stages)
        self.out[slot] = outputs
        self.valid.add(slot)

    def data(self) -> dict:
        data = dict(self.initial)
        for stages in self.levels:
            for s in stages:
                if s in self.valid:
                    data.update(self.out[s])
        return data

    def key(self):
        return (
            sorted((k, lib.term_of(v)) for k, v in self.initial.items()),
            sorted(
                (s, sorted((k, lib.term_of(v)) for k, v in o.items()))
                for s, o in self.out.items()
            ),
            sorted(self.valid),
        )


def run_history(shapes, restrictions, initial, ops, rec, order=None) -> None:
    """Execute one history on the real runner, in step with the model."""
    n = len(shapes)
    verdict, levels = lib.ref_resolve(shapes, initial, restrictions)
    assert verdict == "ok"
    lib.MODE["nonce"] = 1
    lib.MODE["kinds"] = zlib.crc32(repr(ops).encode())
    lib.TERMS.clear()
    lib.FAIL.clear()
    order = order or tuple(range(n))
    runner = lib.build(shapes, restrictions, initial, order, order)
    model = Model(shapes, levels)
    iterator = None
    iterated: list = []
    kept: list = []
    done: list = []

    def what() -> str:
        return f"stages {shapes} {restrictions} from {initial!r}, history {done}"

    def observe(before: int) -> None:
        """Follow what ran in the log, stage by stage."""
        for name, seen in lib.LOG[before:]:
            slot = int(name[1:])
            expected = model.sees(slot, overrides)
            rec.check(
                model.level_of[slot] <= model.current(),
                lambda: f"{what()}: S{slot} ran before its prerequisites",
            )
            rec.check(
                seen == expected,
                lambda: f"{what()}: S{slot} received {seen}, not {expected}",
            )
            nonce[0] += 1
            tag = (seen, nonce[0])
            model.ran(
                slot,
                {f: lib.value((name, f, tag)) for f, _ in lib.args(shapes[slot][1])},
            )

    def compare(result) -> None:
        expected = model.data()
        rec.check(
            lib.same(result, expected),
            lambda: f"{what()}: returned {result}, not {expected}",
        )
        kept.append((result, deepcopy(result)))

    nonce = [1]
    lib.LOG.clear()
    for op in ops:
        done.append(op)
        overrides: dict = {}
        rec.step()
        before = len(lib.LOG)
        kind = op[0]
        if kind in ("run_all", "until", "fail"):
            start = lib.initial_record(initial, op[1] if kind == "run_all" else "run")
            kept.append((start, deepcopy(start)))
            model.start(start._asdict())
            if kind == "fail":
                lib.FAIL.add(f"S{op[1]}")
                try:
                    runner.run_all(start)
                except lib.InjectedError:
                    pass
                else:
                    rec.fail(f"{what()}: the failure of a stage was swallowed")
                finally:
                    lib.FAIL.clear()
                observe(before)
                rec.check(
                    op[1] not in model.valid and model.level_of[op[1]] == model.current(),
                    lambda: f"{what()}: ran {lib.LOG[before:]} around a failing stage",
                )
            elif kind == "run_all":
                result = runner.run_all(start)
                observe(before)
                rec.check(
                    len(lib.LOG) - before == n and len(model.valid) == n,
                    lambda: f"{what()}: ran {lib.LOG[before:]}, not every stage once",
                )
                compare(result)
            else:
                result = runner.run_until_stage(lib.STAGES[op[1]], start)
                observe(before)
                wanted = {op[1]}.union(*levels[: model.level_of[op[1]]])
                rec.check(
                    len(lib.LOG) - before == len(wanted) and model.valid == wanted,
                    lambda: f"{what()}: ran {lib.LOG[before:]}, not {sorted(wanted)}",
                )
                compare(result)
        elif kind in ("iter", "next"):
            if kind == "iter":
                start = lib.initial_record(initial, "iter")
                iterator = runner.run_iter(start)
                iterated = []
                model.start(start._asdict())
            elif iterator is None:
                return
            try:
                step = next(iterator)
            except StopIteration as stop:
                rec.check(
                    len(iterated) == n == len(model.valid) and len(lib.LOG) == before,
                    lambda: f"{what()}: the iteration ended after {iterated}, with "
                    f"valid outputs of {sorted(model.valid)}",
                )
                compare(stop.value)
                iterator = None
            except lib.StageRunningError:
                # Another operation went back to an earlier stage meanwhile
                left = [s for level in levels for s in level if s not in iterated]
                rec.check(
                    any(model.level_of[s] > model.current() for s in left)
                    or (not left and len(model.valid) < n),
                    lambda: f"{what()}: the iteration refused to continue",
                )
                iterator = None
            else:
                observe(before)
                slot = lib.STAGES.index(step.stage)
                rec.check(
                    len(lib.LOG) == before + 1
                    and lib.LOG[-1][0] == f"S{slot}"
                    and slot not in iterated
                    and lib.same(step.output._asdict(), model.out[slot]),
                    lambda: f"{what()}: yielded {step}, but ran {lib.LOG[before:]}",
                )
                iterated.append(slot)
                kept.append((step.output, deepcopy(step.output)))
        else:
            slot = op[1]
            if kind == "override":
                name = lib.args(shapes[slot][0])[-1][0]
                overrides = {name: lib.value(("override", len(done)))}
                kept.append((overrides, deepcopy(overrides)))
            expected = (
                model.sees(slot, overrides)
                if model.level_of[slot] <= model.current()
                else None
            )
            try:
                output = runner.run_stage(lib.STAGES[slot], **overrides)
            except lib.StageRunningError:
                rec.check(
                    model.level_of[slot] > model.current(),
                    lambda: f"{what()}: S{slot} was refused, although its "
                    "prerequisites ran",
                )
            except Exception as error:  # noqa: BLE001
                rec.check(
                    expected is None and model.level_of[slot] <= model.current(),
                    lambda: f"{what()}: S{slot} raised {error!r}",
                )
                # Whether a failed call invalidates what follows isn't specified
                if model.level_of[slot] < model.current():
                    return
            else:
                rec.check(
                    expected is not None,
                    lambda: f"{what()}: S{slot} ran, although its prerequisites or "
                    "inputs are missing",
                )
                observe(before)
                rec.check(
                    len(lib.LOG) == before + 1
                    and lib.LOG[-1][0] == f"S{slot}"
                    and lib.same(output._asdict(), model.out[slot]),
                    lambda: f"{what()}: running S{slot} gave {output}",
                )
                kept.append((output, deepcopy(output)))
        rec.state((shapes, model.key()), len(done) > 1)
    for value, copy in kept:
        rec.check(
            lib.same(value, copy),
            lambda: f"{what()}: a value handed in or out earlier changed from {copy} "
            f"to {value}",
        )
    rec.trace()
