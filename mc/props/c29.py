"""C29: zip archives contain exactly what was saved."""

import zipfile
from itertools import product

from mc.props import modellib as lib

LEVEL = "model_checking"
RULE = (
    "every sequence of saves, changes and archives of a directory that ends with an "
    "archive, and every tree of files in it; non-trivial: the archive has files"
)
BOUNDS = {
    "quick": "all sequences of up to 4 of 8 operations ending with one of 2 archives; "
    "all 1024 subsets of 10 files, in nested directories and of the same name too",
    "thorough": "all sequences of up to 5 operations",
}
OPERATIONS = ["csv", "web", "mat", "graphs", "change", "remove", "zip a.zip",
              "zip b.zip"]
FILES = {
    "coordinates.csv": b"Row,z_1,z_2\n" * 400,
    "empty.txt": b"",
    ".hidden": b"hidden",
    "nested/inner.csv": bytes(range(256)) * 9,
    "nested/a.zip": b"an archive of the same name",
    "one/two/three/four/five.csv": b"Row\n",
    "nested/deep/er.png": b"\x89PNG\r\n\x1a\n" + b"\0" * 70000,
    "a.zip.txt": b"not an archive",
    "other/inner.csv": b"another file of the same name",
    ".gitignore": b"*",
}


def cases(tier):
    for length in range(6 if tier == "thorough" else 5):
        for history in product(OPERATIONS, repeat=max(0, length - 1)):
            for last in OPERATIONS[-2:] if length else []:
                if sum(o == "graphs" for o in history) < 2 or tier == "thorough":
                    yield {"history": (*history, last)}
    for code in range(2 ** len(FILES)):
        for existing in (False, True):
            yield {"files": [n for i, n in enumerate(FILES) if code >> i & 1],
                   "existing": existing}


def snapshot(where):
    return {str(p.relative_to(where)): p.read_bytes()
            for p in sorted(where.rglob("*")) if p.is_file()}


def run(case, rec):
    model = lib.model([[1.0], [2.0]], [[3.0], [1.0]])
    before = lib.state(model)
    with lib.scratch() as top, lib.no_drawing():
        where = top / "results"
        where.mkdir()
        if "files" in case:
            for name in case["files"]:
                (where / name).parent.mkdir(parents=True, exist_ok=True)
                (where / name).write_bytes(FILES[name])
            if case["existing"]:
                (where / "a.zip").write_bytes(b"an older archive" * 99)
            archive(model, where, "a.zip", rec, str(case), text=case["existing"])
            if len(case["files"]) % 3 == 0 and (where / "nested").is_dir():
                # An archive in a nested directory, or with a whole path.
                archive(model, where, "nested/b.zip", rec, str(case), text=True)
                archive(model, where, str(where / "c.zip"), rec, str(case), text=False)
            rec.state(case, bool(case["files"]))
        else:
            for step, operation in enumerate(case["history"]):
                if operation.startswith("zip"):
                    archive(model, where, operation.split()[1], rec,
                            str(case["history"][: step + 1]), text=step % 2)
                    continue
                rec.step()
                if operation == "change":
                    for path in sorted(where.glob("*.csv"))[::2]:
                        path.write_text(path.read_text() + f"step {step}\n")
                elif operation == "remove":
                    for path in sorted(where.iterdir())[1::3]:
                        path.unlink()
                else:
                    name = {"csv": "save_to_csv", "web": "save_for_web",
                            "mat": "save_to_mat", "graphs": "save_graphs"}[operation]
                    getattr(model, name)(where)
            rec.state(case["history"], len(case["history"]) > 1)
        rec.trace()
        rec.check(lib.state(model) == before, "the model was changed")
        rec.check([p.name for p in top.iterdir()] == ["results"],
                  "something was written elsewhere")


def archive(model, where, name, rec, what, text):
    before = snapshot(where)
    rec.step()
    model.save_zip(name, str(where) if text else where)
    name = str((where / name).relative_to(where))
    after = snapshot(where)
    content = after.pop(name, None)
    rec.check(content is not None, lambda: f"{what}: there is no archive")
    before.pop(name, None)
    rec.check(after == before, lambda: f"{what}: archiving changed the files: "
              f"{sorted(after)}, not {sorted(before)}")
    want = {k: v for k, v in before.items() if k != ".gitignore"}
    with zipfile.ZipFile(where / name) as file:
        entries = [i for i in file.infolist() if not i.is_dir()]
        names = [i.filename for i in entries]
        rec.check(len(set(names)) == len(names), lambda: f"{what}: entries {names}")
        rec.check(file.testzip() is None, "broken archive")
        got = {i.filename: file.read(i) for i in entries}
    # Files of nested directories may keep their directories or not.
    nested = {"output/" + k: v for k, v in want.items()}
    plain = {"output/" + k.split("/")[-1]: v for k, v in want.items()}
    rec.check(got in (nested, plain),
              lambda: f"{what}: the archive has {sorted(got)}, not {sorted(nested)}, or "
              f"other contents of "
              f"{[k for k in got if got[k] not in (nested.get(k), plain.get(k))]}")
    rec.count("archives")
    if len(want) > 3:
        rec.sample({"operations": what, "entries": sorted(got)})
