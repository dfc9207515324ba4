"""Plant small changes automatically: mutate.py FILE [--share N/M] [--jobs N] [--list]

Every change is applied to a copy of /repo of its own, and the checks of the properties
that depend on the file are run until one of them reports it.  Prints the changes that
none reports: each is either without an effect or something that no check sees.
"""

import argparse
import ast
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

REPO, TOP = Path("/repo"), Path(__file__).resolve().parent.parent
CHECKS = {
    "stage_builder.py": "C01 C02 C03 C04",
    "stage_runner.py": "C01 C04 C03 C05 C02 C06",
    "instance_space.py": "C06 C09",
    "data/metadata.py": "C07 C09",
    "data/options.py": "C08 C09 C06",
    "data/default_options.py": "C08",
    "data/model.py": "C22 C06 C25",
    "stages/stage.py": "C01 C04",
    "stages/preprocessing.py": "C10 C14",
    "stages/prelim.py": "C11 C12 C13 C14",
    "utils/filter.py": "C15",
    "stages/sifted.py": "C16 C17 C14",
    "stages/pilot.py": "C18",
    "stages/cloister.py": "C19",
    "stages/pythia.py": "C20 C21",
    "stages/trace.py": "C22 C30 C24 C23",
    "_serialisers.py": "C25 C26 C27",
    "model.py": "C06 C29 C25 C26 C27",
}
COMPARE = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
           ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
           ast.NotIn: "in"}
ARITHMETIC = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
              ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*", ast.FloorDiv: "/"}
NAMES = {
    "nanmax": "nanmin", "nanmin": "nanmax", "max": "min", "min": "max", "all": "any",
    "any": "all", "argmax": "argmin", "argmin": "argmax", "floor": "ceil",
    "ceil": "floor", "nanmean": "mean", "mean": "median", "nanmedian": "nanmean",
    "nansum": "sum", "x": "x_raw", "x_raw": "x", "y": "y_raw", "y_raw": "y",
    "y_hat": "y_sub", "y_sub": "y_hat", "pr0_hat": "pr0_sub", "pr0_sub": "pr0_hat",
    "good": "best", "best": "good", "feat_labels": "algo_labels", "mu": "sigma",
    "sigma": "mu", "selection0": "selection1", "selection1": "selection0",
    "y_bin": "beta", "y_best": "y", "p": "num_good_algos", "union": "intersection",
    "difference": "intersection", "intersection": "union", "append": "index",
    "columns": "index", "index": "columns", "update": "difference",
    "logical_and": "logical_or", "logical_or": "logical_and", "vstack": "hstack",
    "nanstd": "std", "unique": "sort", "train": "test", "isnan": "isfinite",
}


def places(text):
    """All changes, as (start, end, replacement, description)."""
    tree = ast.parse(text)
    starts = [0]
    for line in text.encode().splitlines(keepends=True):
        starts.append(starts[-1] + len(line))

    def at(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    raw = text.encode()
    found = []

    def add(node, new):
        begin, end = at(node)
        found.append((begin, end, new, node.lineno))

    def source(node):
        begin, end = at(node)
        return raw[begin:end].decode()

    def boring(node):
        words = source(node)[:60]
        return any(w in words for w in ("print(", "logger", "warnings.", "raise ",
                                        "_print("))

    def visit(node):
        if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.Expr) and (
                isinstance(node.value, ast.Constant) or boring(node)):
            return
        if isinstance(node, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)):
            add(node, "pass")
        if isinstance(node, ast.Assign) and not isinstance(node.targets[0], ast.Name):
            add(node, "pass")
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            middle = (at(node.left)[1], at(node.comparators[0])[0])
            between = raw[middle[0]:middle[1]].decode()
            if "(" not in between and ")" not in between:
                found.append((*middle, f" {COMPARE[type(node.ops[0])]} ", node.lineno))
        if isinstance(node, ast.BinOp) and type(node.op) in ARITHMETIC:
            middle = (at(node.left)[1], at(node.right)[0])
            between = raw[middle[0]:middle[1]].decode()
            if "(" not in between and ")" not in between:
                found.append((*middle, f" {ARITHMETIC[type(node.op)]} ", node.lineno))
        if isinstance(node, ast.BoolOp):
            other = " or " if isinstance(node.op, ast.And) else " and "
            add(node, "(" + other.join(f"({source(v)})" for v in node.values) + ")")
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.Invert)):
            add(node, f"({source(node.operand)})")
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(node, ast.While):
                add(node.test, "True")
            add(node.test, "False")
        if isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)):
            if isinstance(node.value, bool):
                add(node, str(not node.value))
            elif isinstance(node.value, int):
                add(node, str(node.value + 1))
                if node.value == 1:
                    add(node, "0")
            elif isinstance(node.value, float):
                add(node, repr(node.value * 1.2 + 0.01))
        if isinstance(node, ast.Attribute) and node.attr in NAMES:
            end = at(node)[1]
            found.append((end - len(node.attr), end, NAMES[node.attr], node.lineno))
        if isinstance(node, ast.Name) and node.id in ("sorted", "reversed", "set", "max",
                                                      "min", "all", "any", "abs"):
            add(node, {"max": "min", "min": "max", "all": "any", "any": "all",
                       "abs": "float"}.get(node.id, "list"))
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute) and node.func.attr in (
                    "copy", "deepcopy", "ravel", "flatten", "reset_index", "strip",
                    "lower", "dropna", "convex_hull", "tolist", "round"):
                inner = (source(node.args[0]) if node.args
                         else source(node.func.value))
                add(node, inner)
            for k in node.keywords:
                if k.arg and len(node.keywords) + len(node.args) > 1:
                    begin, end = at(k)
                    while end < len(raw) and raw[end:end + 1] in b" ,\n":
                        end += 1
                        if raw[end - 1:end] == b",":
                            break
                    if raw[end - 1:end] == b",":
                        found.append((begin, end, "", k.lineno))
            for first, second in zip(node.args, node.args[1:]):
                if isinstance(first, (ast.Name, ast.Attribute)) and isinstance(
                        second, (ast.Name, ast.Attribute)):
                    found.append((at(first)[0], at(second)[1],
                                  f"{source(second)}, {source(first)}", node.lineno))
        if isinstance(node, ast.Slice):
            for bound in (node.lower, node.upper):
                if bound is not None and not isinstance(bound, ast.Constant):
                    add(bound, f"{source(bound)} + 1")
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Name):
            add(node.slice, f"{node.slice.id} - 1")
        for name, value in ast.iter_fields(node):
            if name in ("annotation", "returns", "decorator_list", "msg"):
                continue
            for child in value if isinstance(value, list) else [value]:
                if isinstance(child, ast.AST):
                    visit(child)

    visit(tree)
    seen, out = set(), []
    for begin, end, new, line in found:
        changed = (raw[:begin] + new.encode() + raw[end:]).decode()
        if changed in seen or changed == text:
            continue
        seen.add(changed)
        try:
            ast.parse(changed)
        except SyntaxError:
            continue
        out.append((line, raw[begin:end].decode(), new, changed))
    return out


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("file")
    parser.add_argument("--share", default="1/1")
    parser.add_argument("--jobs", type=int, default=4)
    parser.add_argument("--list", action="store_true")
    parser.add_argument("--lines", default="")
    options = parser.parse_args()
    name = "instancespace/" + options.file
    text = (REPO / name).read_text()
    take, of = map(int, options.share.split("/"))
    changes = [c for c in places(text)
               if int(hashlib.sha1(f"{c[:3]}".encode()).hexdigest(), 16) % of == take - 1]
    if options.lines:
        low, high = map(int, options.lines.split("-"))
        changes = [c for c in changes if low <= c[0] <= high]
    print(f"{len(changes)} changes of {name}", flush=True)
    if options.list:
        for line, old, new, _ in changes:
            print(f"  {line}: {old!r} -> {new!r}")
        return
    copies = Queue()
    for k in range(options.jobs):
        top = Path(f"/tmp/mut/{os.getpid()}-{k}")
        shutil.rmtree(top, ignore_errors=True)
        shutil.copytree(REPO, top / "repo", symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "matlab*", "tests"))
        shutil.copytree(TOP, top / "verif",
                        ignore=shutil.ignore_patterns(".git", "seeded"))
        copies.put(top)

    def judge(change):
        line, old, new, changed = change
        top = copies.get()
        try:
            (top / "repo" / name).write_text(changed)
            for check in CHECKS[options.file].split():
                env = {**os.environ, "VERIF_REPO": str(top / "repo"), "VERIF_SEED": "1",
                       "VERIF_WORKERS": "2"}
                env.pop("VERIF_CHILD", None)
                try:
                    done = subprocess.run(
                        [sys.executable, "-B", "check.py", check], cwd=top / "verif",
                        env=env, capture_output=True, text=True, timeout=400,
                        check=False)
                except subprocess.TimeoutExpired:
                    return f"t {line}: {old!r} -> {new!r} ({check} ran out of time)"
                if done.returncode == 1 and "VIOLATION" in done.stdout:
                    return f". {line} {check}"
                if done.returncode:
                    return (f"? {line}: {old!r} -> {new!r} {check} "
                            f"{done.returncode} {done.stderr[-150:]!r}")
            return f"SURVIVED {line}: {old!r} -> {new!r}"
        finally:
            (top / "repo" / name).write_text(text)
            copies.put(top)

    with ThreadPoolExecutor(options.jobs) as pool:
        for said in pool.map(judge, changes):
            print(said, flush=True)
    for k in range(options.jobs):
        shutil.rmtree(f"/tmp/mut/{os.getpid()}-{k}", ignore_errors=True)


if __name__ == "__main__":
    main()
