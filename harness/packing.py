"""Runs the hook for PyInstaller on packages with .cgx files (spec/Pack.tla).

PyInstaller itself is not available: there are stand-ins for the two things that the hook
uses. All files are in a scratch folder that is removed afterwards.
"""

import importlib.util
import json
import os
import pathlib
import random
import shutil
import sys
import tempfile
import traceback
import types

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import collagraph.__pyinstaller as pyinstaller  # noqa: E402

PLACES = {
    "top": "{0}",
    "function": "def f():\n    {0}",
    "method": "class Other:\n    def f(self):\n        {0}",
    "class": "class Other:\n    {0}",
    "if": "if True:\n    {0}",
    "else": "if True:\n    pass\nelse:\n    {0}",
    "try": "try:\n    {0}\nexcept ImportError:\n    pass",
    "except": "try:\n    pass\nexcept ImportError:\n    {0}",
    "with": "with open('x'):\n    {0}",
    "for": "for x in []:\n    {0}",
    "nested": "class Other:\n    def f(self):\n        if True:\n            def g():\n                {0}",
}
TEMPLATE = "<template>\n  <item />\n</template>\n"


class World:
    """The folder with packages, and what PyInstaller knows about them"""

    def __init__(self, folder):
        self.folder = folder
        self.imports, self.datas = set(), []
        self.users = []
        self.analysis = types.SimpleNamespace(graph=self)

    # graph
    def get_code_using(self, name):
        assert name == "collagraph"
        return {
            name: compile("", str(path), "exec") for name, path in self.users
        }

    # API of hooks
    def add_imports(self, *names):
        self.imports.update(names)

    def add_datas(self, datas):
        self.datas.extend(datas)

    # PyInstaller.utils.hooks
    def collect_data_files(self, package, include_py_files=False, subdir=None,
                           excludes=None, includes=None):  # fmt: skip
        folder = self.folder.joinpath(*package.split("."))
        if not folder.is_dir():
            folder = folder.parent
        files = set()
        for pattern in includes or ["**/*"]:
            files.update(p for p in folder.glob(pattern) if p.suffix != ".py")
        return [(str(p), str(p.parent.relative_to(self.folder))) for p in sorted(files)]


def place(item, world, rng):
    config = item["config"]
    root = world.folder
    (root / "app" / "part").mkdir(parents=True)
    (root / "app" / "__init__.py").write_text("")
    (root / "app" / "part" / "__init__.py").write_text("")
    (root / "app" / "notes.txt").write_text("import nothing")
    for user in config["users"]:
        path = root.joinpath(*user["name"].split("."))
        path = path / "__init__.py" if user["init"] else path.with_suffix(".py")
        path.write_text("import collagraph\n")
        world.users.append((user["name"], path))
    paths = []
    for n, (file, line) in enumerate(zip(config["files"], item["lines"])):
        folder = root.joinpath(*file["folder"])
        folder.mkdir(parents=True, exist_ok=True)
        code = ["import collagraph", "# \u2603", PLACES[file["place"]].format(line),
                "class Shown(collagraph.Component):\n    pass"]  # fmt: skip
        if rng.random() < 0.3:
            code[2:] = code[:1:-1]
        script = "<script>\n" + "\n\n".join(code) + "\n</script>\n"
        text = TEMPLATE + script if rng.random() < 0.5 else script + TEMPLATE
        path = folder / f"file{n}.cgx"
        path.write_text(text, encoding="utf-8")
        paths.append(str(path))
    return paths


def run(item, folder, rng):
    row = {"config": item["config"], "imports": [], "datas": [], "exc": ""}
    error = ""
    world = World(folder)
    # A top-level module has everything below the folder
    paths = place(item, world, rng)
    hooks = types.ModuleType("PyInstaller.utils.hooks")
    hooks.collect_data_files = world.collect_data_files
    hooks.is_package = lambda name: world.folder.joinpath(*name.split(".")).is_dir()
    for name in ("PyInstaller", "PyInstaller.utils"):
        sys.modules[name] = types.ModuleType(name)
    sys.modules["PyInstaller.utils.hooks"] = hooks
    try:
        (where,) = pyinstaller.get_hook_dirs()
        path = pathlib.Path(where) / "hook-collagraph.py"
        spec = importlib.util.spec_from_file_location("hook_collagraph", path)
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        module.hook(world)
        row["imports"] = sorted(world.imports)
        found = {source for source, _ in world.datas}
        row["datas"] = [paths.index(f) + 1 if f in paths else 0 for f in sorted(found)]
        for source, target in world.datas:
            if not (folder / target / pathlib.Path(source).name).exists():
                row["datas"].append(0)
    except Exception as e:
        row["exc"] = type(e).__name__
        error = traceback.format_exc()
    return row, error


def main(jobs, out, mark):
    with open(jobs) as fh:
        jobs = json.load(fh)
    folder = pathlib.Path(tempfile.mkdtemp(prefix="pack-")).resolve()
    try:
        with open(out, "w") as fh:
            for number, job in enumerate(jobs):
                with open(mark, "w") as m:
                    m.write(str(job["id"]))
                trace = {"id": job["id"], "segs": [], "error": ""}
                rng = random.Random(str(job["id"]))
                for n, item in enumerate(job["items"]):
                    work = folder / f"{number}-{n}"
                    work.mkdir()
                    row, error = run(item, work, rng)
                    trace["segs"].append(row)
                    trace["error"] = trace["error"] or error
                    shutil.rmtree(work)
                fh.write(json.dumps(trace) + "\n")
                fh.flush()
    finally:
        shutil.rmtree(folder, ignore_errors=True)


if __name__ == "__main__":
    main(*sys.argv[1:])
