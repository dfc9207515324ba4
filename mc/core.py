"""Common machinery of the checks.

A check enumerates a bounded space of cases completely, executes the real code from
/repo on every one of them and compares what it observes with a reference model or an
invariant.  Nothing here samples: the cases are a deterministic enumeration, split over
the processes by their index.
"""

from __future__ import annotations

import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
MAX_REPORTED = 20


class Violated(Exception):
    """Raised to stop a case at its first violation."""


def load_repo() -> None:
    """Import the code under test from the working tree, and nothing else."""
    sys.path.insert(0, str(REPO))
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        import instancespace  # noqa: PLC0415

    where = Path(instancespace.__file__).resolve()
    if REPO.resolve() not in where.parents:
        raise SystemExit(f"instancespace was imported from {where}, not from {REPO}")
    with contextlib.suppress(Exception):
        from loguru import logger  # noqa: PLC0415

        logger.remove()
    import logging  # noqa: PLC0415

    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    import numpy as np  # noqa: PLC0415

    np.seterr(all="ignore")


@contextlib.contextmanager
def quiet():
    """Silence the code under test."""
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def digest(value) -> int:
    """Hash any printable value to 64 bits, the same way in every process."""
    if not isinstance(value, bytes):
        value = repr(value).encode()
    return int.from_bytes(hashlib.blake2b(value, digest_size=8).digest(), "big")


class Recorder:
    """What one worker observed."""

    def __init__(self, known: set[str]) -> None:
        self.known = known
        self.states: set[int] = set()
        self.nontrivial: set[int] = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.counters: dict[str, int] = {}
        self.samples: list = []
        self.violations: list = []
        self.known_hits: dict[str, str] = {}
        self.case = None
        self._known_in_case = False

    def state(self, value, nontrivial: bool = True) -> None:
        """Count a distinct state (or observed outcome)."""
        h = digest(value)
        self.states.add(h)
        if nontrivial:
            self.nontrivial.add(h)

    def step(self, n: int = 1) -> None:
        """Count executed transitions: one operation of the real code each."""
        self.transitions += n

    def trace(self, n: int = 1) -> None:
        """Count a complete execution of the real code compared with the model."""
        self.traces += n

    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, value, limit: int = 3) -> None:
        if len(self.samples) < limit:
            self.samples.append(value)

    def fail(self, message: str, key: str | None = None) -> None:
        """Report a violation, or a listed known finding."""
        if key is not None and key in self.known:
            self.known_hits.setdefault(key, message)
            self.count("known:" + key)
            return
        if len(self.violations) < MAX_REPORTED:
            self.violations.append({"case": self.case, "message": message})
        self.count("violations")
        raise Violated(message)

    def check(self, condition, message, key: str | None = None) -> bool:
        """Check a condition. Message may be a callable, evaluated on failure."""
        if not condition:
            self.fail(message() if callable(message) else str(message), key)
            return False
        return True


def load_known() -> dict[str, dict[str, str]]:
    """Read the findings that were recorded instead of repaired."""
    known: dict[str, dict[str, str]] = {}
    path = VERIF / "KNOWN_FINDINGS.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known: "):
                fields = line.split(" ", 3)
                prop = fields[1].removeprefix("property=")
                key = fields[2].removeprefix("key=")
                known.setdefault(prop, {})[key] = fields[3]
    return known


def _run_one(module, case, rec: Recorder) -> None:
    rec.case = case
    if not getattr(module, "BATCHED", False):
        rec.evaluations += 1
    try:
        with quiet():
            module.run(case, rec)
    except Violated:
        pass
    except Exception as error:  # noqa: BLE001
        rec.counters["violations"] = rec.counters.get("violations", 0) + 1
        tb = traceback.extract_tb(error.__traceback__)
        where = [f"{Path(f.filename).name}:{f.lineno}:{f.name}" for f in tb][-4:]
        if len(rec.violations) < MAX_REPORTED:
            rec.violations.append(
                {
                    "case": case,
                    "message": f"unexpected {type(error).__name__}: "
                    f"{str(error)[:300]} at {where}",
                },
            )


_STATE: dict = {}


def _worker(args) -> dict:
    index, workers, stop_at = args
    module, tier, known = _STATE["module"], _STATE["tier"], _STATE["known"]
    rec = Recorder(known)
    done = True
    for i, case in enumerate(module.cases(tier)):
        if i % workers != index:
            continue
        if len(rec.violations) >= MAX_REPORTED:
            done = False
            break
        if time.time() > stop_at:
            done = False
            break
        _run_one(module, case, rec)
    with contextlib.suppress(Exception):
        if hasattr(module, "finish"):
            module.finish(rec)
    return {
        "states": rec.states,
        "nontrivial": rec.nontrivial,
        "transitions": rec.transitions,
        "traces": rec.traces,
        "evaluations": rec.evaluations,
        "counters": rec.counters,
        "samples": rec.samples,
        "violations": rec.violations,
        "known_hits": rec.known_hits,
        "done": done,
    }


def jsonable(value):
    """Make a case printable as JSON."""
    return json.loads(json.dumps(value, default=repr))


def main(argv: list[str]) -> int:
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else "quick"
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for variable in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[variable] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    started = time.time()
    load_repo()
    with quiet():
        module = importlib.import_module(f"mc.props.{prop.lower()}")
    known = load_known().get(prop, {})
    budget = 780.0 if tier == "quick" else float(getattr(module, "BUDGET", 6 * 3600))

    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        record = json.loads(Path(path).read_text())
        rec = Recorder(set(known))
        case = record["case"]
        if hasattr(module, "from_json"):
            case = module.from_json(case)
        _run_one(module, case, rec)
        for violation in rec.violations:
            print(violation["message"])
        print("reproduced" if rec.violations else "not reproduced")
        return 1 if rec.violations else 0

    _STATE.update(module=module, tier=tier, known=set(known))
    tasks = [(i, workers, started + budget) for i in range(workers)]
    if "--serial" in argv:
        results = [_worker((0, 1, started + budget))]
    else:
        context = multiprocessing.get_context("fork")
        with context.Pool(workers) as pool:
            results = pool.map(_worker, tasks, chunksize=1)

    states: set[int] = set()
    nontrivial: set[int] = set()
    counters: dict[str, int] = {}
    known_hits: dict[str, str] = {}
    samples: list = []
    violations: list = []
    for result in results:
        states |= result["states"]
        nontrivial |= result["nontrivial"]
        for name, n in result["counters"].items():
            counters[name] = counters.get(name, 0) + n
        known_hits.update(result["known_hits"])
        samples += result["samples"]
        violations += result["violations"]
    total = {
        name: sum(result[name] for result in results)
        for name in ("transitions", "traces", "evaluations")
    }
    done = all(result["done"] for result in results)
    coverage = {
        "evaluations": total["evaluations"],
        "distinct_nontrivial": len(nontrivial),
        "rule": module.RULE,
        "states": len(states),
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "exhaustive": done,
        "bounds": module.BOUNDS[tier],
        "counters": counters,
        "samples": jsonable(samples[:8]),
    }
    # A check that explored nothing proves nothing.
    floor = getattr(module, "FLOOR", {}).get(tier, 1)
    vacuous = not violations and (
        total["evaluations"] < floor or not states or not total["traces"]
    )
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    for key, message in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {known[key]} [{key}: {message[:200]}]")
    print(
        f"{prop} {tier}: {total['evaluations']} cases, {len(states)} states, "
        f"{total['transitions']} transitions, {total['traces']} traces validated, "
        f"{evidence['wall_s']} s{'' if done else ' (stopped early)'}",
    )
    if violations:
        (VERIF / "replay").mkdir(exist_ok=True)
        path = VERIF / "replay" / f"{prop}.json"
        first = min(violations, key=lambda v: len(json.dumps(v["case"], default=repr)))
        path.write_text(
            json.dumps(
                {
                    "property": prop,
                    "case": jsonable(first["case"]),
                    "message": first["message"],
                    "others": jsonable(violations[:MAX_REPORTED]),
                },
                indent=1,
            ),
        )
        print(f"  {first['message'][:1500]}")
        print(f"  case: {json.dumps(first['case'], default=repr)[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if vacuous or (not done and tier == "quick"):
        print(f"the exploration of {prop} is incomplete", file=sys.stderr)
        return 3
    return 0
