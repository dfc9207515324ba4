"""Synthetic stages and the reference model of the pipeline engine.

The stage classes are real `Stage` subclasses, driven through the real builder and
runner.  Their outputs are symbolic terms that spell out where every value came from,
so comparing terms compares complete data provenance.  The hash of a stage class is
under our control: the engine keeps stages in sets, so choosing the hashes chooses the
order in which the engine meets them, which is otherwise up to memory addresses.
"""

from __future__ import annotations

import zlib
from abc import ABCMeta
from dataclasses import dataclass
from functools import lru_cache
from itertools import permutations
from typing import NamedTuple

import numpy as np
import pandas as pd
from instancespace.stage_builder import StageBuilder, StageResolutionError
from instancespace.stage_runner import StageRunningError
from instancespace.stages.stage import RunAfter, RunBefore, Stage
from numpy.typing import NDArray

__all__ = [
    "STAGES", "ABSENT", "spec_stages", "ref_resolve", "ref_run", "set_order", "LOG",
    "StageBuilder", "StageResolutionError", "StageRunningError", "record", "TYPES",
    "FAIL", "permutations", "build", "args",
]

# What the two types of arguments are.
KINDS_OF_TYPES = [
    (int, str), (list[int], list[str]), (NDArray[np.double], NDArray[np.bool_]),
    (int | None, int), (dict[str, list[int]], dict[str, list[str]]),
]
TYPES = {"int": int, "str": str}
LOG: list = []
FAIL: set = set()
MODE: dict = {"nonce": 0, "rude": False, "kinds": 0}
TERMS: dict = {}
_ORDER: dict = {}
_SPEC: dict = {}


class Box:
    """An object with something inside."""

    def __init__(self, content) -> None:
        self.content = content

    def __eq__(self, other) -> bool:
        return isinstance(other, Box) and self.content == other.content

    def __repr__(self) -> str:
        return f"Box({self.content!r})"

    __hash__ = None


@dataclass(frozen=True)
class Frozen:
    """An object that can't be changed, but what is in it can."""

    content: list


def value(term):
    """The value of a term: with rude stages around, of any type that can be modified."""
    if not MODE["rude"]:
        return [term]
    kind = (zlib.crc32(repr(term).encode()) + MODE["kinds"]) % 8
    if kind in (0, 1):
        return [term, [[0]], {"k": [0]}, ([0],), Box([0]), Frozen([0])]
    if kind == 2:
        return {"k": term, "inner": [0]}
    if kind == 3:
        return Box([term, [0]])
    if kind == 4:
        array = np.empty(2, dtype=object)
        array[:] = [term, [0]]
        return array
    if kind == 5:
        return np.array([[TERMS.setdefault(term, len(TERMS)), 0.0]])
    series = pd.Series([term, "x"], dtype=object)
    return series if kind == 6 else pd.DataFrame({"k": series, "y": [0.0, 1.0]})


def term_of(given):
    """The term of a value; None if it isn't one any more."""
    if isinstance(given, list):
        return given[0]
    if isinstance(given, dict):
        return given.get("k")
    if isinstance(given, Box):
        return given.content[0]
    if isinstance(given, pd.DataFrame):
        return given.iloc[0, 0]
    if isinstance(given, pd.Series):
        return given.iloc[0]
    if given.dtype == object:
        return given[0]
    return next((t for t, number in TERMS.items() if number == given[0, 0]), None)


def same(one, other) -> bool:
    """Whether two values, or data of values, are equal."""
    if type(one) is not type(other):
        return False
    if isinstance(one, dict):
        return one.keys() == other.keys() and all(same(one[k], other[k]) for k in one)
    if isinstance(one, list | tuple):
        return len(one) == len(other) and all(map(same, one, other))
    if isinstance(one, pd.DataFrame):
        return (list(one.columns) == list(other.columns)
                and same(one.to_numpy().tolist(), other.to_numpy().tolist()))
    if isinstance(one, pd.Series | np.ndarray):
        return one.dtype == other.dtype and same(one.tolist(), other.tolist())
    return one == other


def destroy(given) -> None:
    """Modify a value in place at every depth."""
    if isinstance(given, list):
        for item in given:
            destroy(item)
        given.append("destroyed")
        given[0] = "destroyed"
    elif isinstance(given, dict):
        for item in given.values():
            destroy(item)
        given["destroyed"] = given.pop("k")
    elif isinstance(given, tuple):
        for item in given:
            if isinstance(item, list):
                destroy(item)
    elif isinstance(given, Box):
        destroy(given.content)
        given.content = given.more = "destroyed"
    elif isinstance(given, Frozen):
        destroy(given.content)
    elif isinstance(given, np.ndarray):
        if given.dtype == object:
            destroy(given[1])
            given[:] = "destroyed"
        else:
            given[:] = -1
            given.sort()
    elif isinstance(given, pd.Series):
        given.iloc[0] = "destroyed"
        given.name = "destroyed"
    elif isinstance(given, pd.DataFrame):
        given.loc[0, "k"] = "destroyed"
        given["y"] *= 7
        given.drop(columns="y", inplace=True)
        given["z"] = "destroyed"


class InjectedError(Exception):
    """The fault a synthetic stage raises."""


class InjectedTypeError(InjectedError, TypeError):
    """The same, as a type error."""


class InjectedKeyError(InjectedError, KeyError):
    """The same, as a key error."""


ERRORS = [InjectedError, InjectedTypeError, InjectedKeyError]


class _Meta(ABCMeta):
    def __hash__(cls) -> int:
        return _ORDER.get(cls.slot_name, 0)

    def __eq__(cls, other) -> bool:
        return cls is other


def _make(slot: int):
    name = f"S{slot}"

    class _Synthetic(Stage, metaclass=_Meta):
        slot_name = name

        @staticmethod
        def _inputs():
            return _SPEC[name][0]

        @staticmethod
        def _outputs():
            return _SPEC[name][1]

        @staticmethod
        def _run(inputs):
            if name in FAIL:
                if MODE["rude"]:
                    for given in inputs:
                        destroy(given)
                raise ERRORS[MODE["kinds"] % 3](name)
            values = {
                field: term_of(getattr(inputs, field))
                for field in inputs._fields
                if not field.startswith("_restriction")
                and not field.startswith("restriction")
            }
            seen = tuple(sorted(values.items()))
            LOG.append((name, seen))
            out = _SPEC[name][1]
            tag = seen
            if MODE["nonce"]:
                MODE["nonce"] += 1
                tag = (seen, MODE["nonce"])
            outputs = out(**{f: value((name, f, tag)) for f in out._fields})
            if MODE["rude"]:
                # A rude stage: destroy what it was given
                for field in values:
                    destroy(getattr(inputs, field))
            return outputs

    _Synthetic.__name__ = _Synthetic.__qualname__ = name
    return _Synthetic


ABSENT_SLOT = 9
STAGES = [_make(i) for i in range(10)]
ABSENT = STAGES[ABSENT_SLOT]
for _i in range(10):
    _ORDER[f"S{_i}"] = _i
ALL = {s.__name__: s for s in STAGES}


@lru_cache(maxsize=100000)
def record(name: str, arguments: tuple, restrictions: tuple = ()):
    """A NamedTuple type of (name, type) arguments and ("before"/"after", slot)s."""
    fields = [(n, TYPES[t]) for n, t in arguments]
    for i, (kind, slot) in enumerate(restrictions):
        generic = RunBefore if kind == "before" else RunAfter
        fields.append((f"restriction{i}", generic[STAGES[slot]]))
    return NamedTuple(name, fields)


def rename(same_name: bool) -> None:
    """Give all stages the same name, or each its own."""
    for slot, stage in enumerate(STAGES):
        stage.__name__ = stage.__qualname__ = "Same" if same_name else f"S{slot}"


def set_types(number: int) -> None:
    """Choose the types of the arguments."""
    kinds = KINDS_OF_TYPES[number % len(KINDS_OF_TYPES)]
    if (TYPES["int"], TYPES["str"]) != kinds:
        TYPES["int"], TYPES["str"] = kinds
        record.cache_clear()


def args(names: str):
    """'a' is an int argument called a, 'A' is a str argument called a."""
    return tuple((n.lower(), "str" if n.isupper() else "int") for n in names)


def spec_stages(shapes, restrictions=()) -> list:
    """Give the first len(shapes) stages these inputs and outputs.

    shapes: [(inputs, outputs)], restrictions: [(slot, kind, other slot)].
    """
    for slot, (ins, outs) in enumerate(shapes):
        mine = tuple((kind, other) for s, kind, other in restrictions if s == slot)
        _SPEC[f"S{slot}"] = (
            record("In", args(ins), mine),
            record("Out", args(outs)),
        )
    return STAGES[: len(shapes)]


def set_order(order) -> None:
    """Choose the order in which sets of stages are iterated."""
    for position, slot in enumerate(order):
        _ORDER[f"S{slot}"] = position


def ref_resolve(shapes, initial, restrictions=()):
    """The documented schedule: levels of slots, or why there is none."""
    ins = [set(args(i)) for i, _ in shapes]
    outs = [set(args(o)) for _, o in shapes]
    n = len(shapes)
    before = {s: set() for s in range(n)}  # slots that have to come before
    for slot, kind, other in restrictions:
        if kind == "after":
            before[slot].add(other)
        elif other in before:
            before[other].add(slot)
    available = set(args(initial))
    done: list[int] = []
    levels: list[list[int]] = []
    while len(done) < n:
        ready = [
            s
            for s in range(n)
            if s not in done and ins[s] <= available and before[s] <= set(done)
        ]
        mutated = {s: ins[s] & outs[s] for s in ready}
        for s in ready:
            for t in ready:
                if s < t and mutated[s] & mutated[t]:
                    return "ambiguous", (s, t)
        level = [
            s
            for s in ready
            if not any(t != s and (mutated[t] - mutated[s]) & ins[s] for t in ready)
        ]
        for s in level:
            for t in level:
                if s < t and {a for a, _ in outs[s]} & {a for a, _ in outs[t]}:
                    return "ambiguous", (s, t)
        if not level:
            return "unresolved", sorted(set(range(n)) - set(done))
        for s in level:
            available |= outs[s]
        done += level
        levels.append(level)
    return "ok", levels


def ref_stage(shapes, slot, data):
    """The term a stage produces from this data."""
    ins, outs = shapes[slot]
    seen = tuple(sorted((n, term_of(data[n])) for n, _ in args(ins)))
    return seen, {n: value((f"S{slot}", n, seen)) for n, _ in args(outs)}


def ref_run(shapes, levels, initial_data):
    """Run the reference schedule: the final data and what each stage saw."""
    data = dict(initial_data)
    saw = {}
    for level in levels:
        fresh = {}
        for slot in level:
            saw[f"S{slot}"], outputs = ref_stage(shapes, slot, data)
            fresh.update(outputs)
        data.update(fresh)
    return data, saw


def forests(n):
    """Every way each of n stages can consume the output of one earlier stage."""
    names = "abcdefgh"

    def grow(parents):
        if len(parents) == n:
            yield [
                ("" if p is None else names[p], names[i])
                for i, p in enumerate(parents)
            ]
            return
        for p in [None, *range(len(parents))]:
            yield from grow([*parents, p])

    yield from grow([])


def joins(n):
    """A chain in which every stage also consumes one earlier output."""
    names = "abcdefgh"

    def grow(extra):
        if len(extra) == n:
            yield [
                ("".join(sorted({names[e], names[i - 1]})) if i else "", names[i])
                for i, e in enumerate(extra)
            ]
            return
        for e in range(max(1, len(extra))):
            yield from grow([*extra, e])

    yield from grow([])


def build(shapes, restrictions, initial, add_order, set_order_=None, as_tuple=True):
    """Build with the real builder; returns the runner or the resolution error."""
    stages = spec_stages(shapes, restrictions)
    set_order(set_order_ if set_order_ is not None else range(len(shapes)))
    builder = StageBuilder()
    for slot in add_order:
        builder.add_stage(stages[slot])
    return builder.build(record("Initial", args(initial)))


def initial_record(initial, tag="init"):
    """The values a run starts from."""
    names = [n for n, _ in args(initial)]
    return record("Initial", args(initial))(**{n: value((tag, n)) for n in names})
