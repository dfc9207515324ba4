"""Keep a planted change: python3 tools/plant.py SPECS.py [ID ...]

SPECS.py defines BUGS, a list of dictionaries with id, property, edits [(file, old, new)],
needs, breaks and demo (a Python program).  A change is kept if it builds, passes the
tests, its demonstration tells it apart, and it only removes original lines.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
from pathlib import Path

REPO, TOP = Path("/repo"), Path(__file__).resolve().parent.parent
BASE = "c540acd"
PRELUDE = '''import contextlib, io, os, sys, tempfile, warnings
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")
import numpy as np
import pandas as pd
from pathlib import Path
real_stdout = sys.stdout
sys.stdout = io.StringIO()  # the code under test prints a lot
from loguru import logger
logger.remove()

def verdict(right, what=""):
    print("ok" if right else f"WRONG: {what}", file=real_stdout, flush=True)
    sys.exit(0 if right else 1)

'''


def sh(command, **kwargs):
    return subprocess.run(command, shell=True, text=True, capture_output=True,
                          check=False, **kwargs)


def plant(bug, check=True):
    work = Path(f"/tmp/plant-{bug['id']}")
    sh(f"rm -rf {work}; git -C {REPO} worktree prune; "
       f"git -C {REPO} worktree add --detach {work} HEAD")
    try:
        for name, old, new in bug["edits"]:
            path = work / name
            text = path.read_text()
            if text.count(old) != 1:
                return f"{name}: {text.count(old)} occurrences of {old[:60]!r}"
            path.write_text(text.replace(old, new))
        diff = sh("git diff", cwd=work).stdout
        if not originals(work, bug):
            return "no original line is changed"
        where = Path(f"/tmp/planted-{bug['id']}")
        shutil.rmtree(where, ignore_errors=True)
        where.mkdir()
        (where / "patch.diff").write_text(diff)
        (where / "demo.py").write_text(PRELUDE + bug["demo"])
        (where / "demo.sh").write_text(
            '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        (where / "meta.json").write_text(json.dumps(
            {"property": bug["property"], "needs": bug["needs"],
             "what_it_breaks": bug["breaks"]}, indent=1) + "\n")
        good = sh(f"bash {where}/demo.sh", cwd=REPO)
        bad = sh(f"bash {where}/demo.sh", cwd=work)
        if good.returncode != 0:
            return f"demo fails on the unchanged tree: {good.stdout} {good.stderr[-900:]}"
        if bad.returncode == 0:
            return f"demo passes with the change {bad.stdout}"
        said = bad.stdout.strip()[-200:] or bad.stderr.strip()[-200:]
        for name in ("build", "test"):
            text = Path(f"/opt/vp/{name}.sh").read_text()
            text = (text.replace("/repo", str(work)) if name == "build"
                    else text.replace("-C /repo ", f"-C {work} "))
            Path(f"/tmp/{name}-{bug['id']}.sh").write_text(text)
        built = sh(f"bash /tmp/build-{bug['id']}.sh")
        if built.returncode:
            return "does not build: " + built.stderr[-500:]
        out = f"/tmp/tests-{bug['id']}.json"
        tested = sh(f"bash /tmp/test-{bug['id']}.sh {out}")
        result = json.loads(Path(out).read_text())
        stable = json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"]
        passed = set(result.get("passed", []))
        missing = [t for t in stable if t not in passed]
        if missing:
            return f"{len(missing)} tests fail: {missing[:3]} {tested.stderr[-200:]}"
        target = TOP / "seeded" / bug["id"]
        shutil.rmtree(target, ignore_errors=True)
        shutil.copytree(where, target)
        caught = ""
        if check:
            env = {**os.environ, "VERIF_REPO": str(work), "VERIF_SEED": "1"}
            done = sh(f"/opt/venv/bin/python -B check.py {bug['property']}", cwd=TOP,
                      env=env)
            caught = ("CAUGHT " if done.returncode == 1 and
                      f"VIOLATION property={bug['property']}" in done.stdout
                      else f"MISSED ({done.returncode}) ") + " ".join(
                          done.stdout.split("\n")[-4:-3])[:200]
        return f"kept [{said}] {caught}"
    finally:
        sh(f"git -C {REPO} worktree remove --force {work}; rm -f /tmp/*-{bug['id']}.sh "
           f"/tmp/tests-{bug['id']}.json")


def originals(work, bug):
    """Whether the change removes a line of the original repository."""
    for name in {e[0] for e in bug["edits"]}:
        blame = sh(f"git blame -s HEAD -- {name}", cwd=work).stdout.splitlines()
        spans = [s.split()[1][1:] for s in
                 sh(f"git diff -U0 -- {name}", cwd=work).stdout.splitlines()
                 if s.startswith("@@")]
        for span in spans:
            at, _, count = span.partition(",")
            for k in range(int(at), int(at) + int(count or 1)):
                if blame[k - 1].lstrip("^").startswith(BASE):
                    return True
    return False


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    wanted = [a for a in sys.argv[2:] if not a.startswith("-")]
    for bug in bugs:
        if not wanted or bug["id"] in wanted:
            print(bug["id"], bug["property"], plant(bug, "--no-check" not in sys.argv),
                  flush=True)
