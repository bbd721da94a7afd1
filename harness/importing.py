"""Writes files with components and imports them (spec/Import.tla).

All files are in a scratch folder that is removed afterwards.
"""

import importlib
import json
import os
import pathlib
import random
import shutil
import sys
import tempfile
import traceback
import types
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

import collagraph as cg  # noqa: E402
import collagraph.cgx  # noqa: E402
from collagraph.cgx import cgx  # noqa: E402
from collagraph.renderers import DictRenderer  # noqa: E402


def show(cls):
    """The values of attribute a that a component shows"""
    gui = cg.Collagraph(DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
    container = {"type": "root"}
    gui.render(cg.create_element(cls), container)
    return [c.get("attrs", {}).get("a") for c in container.get("children", ())]


def line_of(error, name):
    """The line in the file that an error points at"""
    if isinstance(error, SyntaxError):
        return error.lineno or 0, error.filename == name
    frames = [f for f in traceback.extract_tb(error.__traceback__) if f.filename == name]
    return (frames[-1].lineno, True) if frames else (0, False)


UNICODE = "\u2603 \u00e9"


# ---------------------------------------------------------------- contents
def content(item, number, folder):
    config, route = item["config"], item["route"]
    text = "\n".join(item["lines"]).replace("UNI", UNICODE) + "\n"
    row = {"config": config, "route": route, "exc": [], "line": 0, "file": True,
           "last": "", "names": [], "renders": [], "errors": [], "shown": [],
           "left": [], "other": ""}  # fmt: skip
    module_name = f"vp_content_{number}"
    path = folder / f"{module_name}.cgx"
    name = str(path)
    full = None
    try:
        if route == "string":
            name = "<template>"
            cls, space = cgx.load_from_string(text)
        elif route == "string-path":
            cls, space = cgx.load_from_string(text, name)
        else:
            path.write_text(text, encoding="utf-8")
            if route == "load":
                cls, space = cgx.load(path)
            else:
                if route == "import":
                    full = module_name
                    module = importlib.import_module(full)
                elif route == "package":
                    full = f"vp_pack.{module_name}"
                    module = importlib.import_module(full)
                else:
                    full = f"vp_pack.{module_name}"
                    module = getattr(
                        __import__("vp_pack", fromlist=[module_name]), module_name
                    )
                if module is not sys.modules.get(full):
                    row["file"] = False
                space, cls = vars(module), None
                if module.__file__ != name or module.__name__ != full:
                    row["file"] = False
    except Exception as e:
        row["exc"] = [type(e).__name__]
        row["line"], _ = line_of(e, name)
        if full and (full in sys.modules or hasattr(sys.modules.get("vp_pack"), module_name)):
            row["left"] = [full]
        return row
    finally:
        if full:
            sys.modules.pop(full, None)
        if path.exists():
            path.unlink()
    if isinstance(space.get("other"), str):
        row["other"] = space["other"].replace(UNICODE, "UNI")
    row["names"] = sorted(n for n in space if not n.startswith("_"))
    classes = {n: c for n, c in space.items()
               if isinstance(c, type) and (n[0] == "C" and n[1:].isdigit() or n == "Hidden")}  # fmt: skip
    row["renders"] = sorted(n for n, c in classes.items() if "render" in vars(c))
    if cls is None:
        cls = space.get((row["renders"] or ["?"])[-1])
    row["last"] = getattr(cls, "__name__", "?")
    for n, c in classes.items():
        if not hasattr(c, "where"):
            continue
        instance = c({}) if issubclass(c, cg.Component) else c()
        try:
            # (Not the one that is inherited)
            vars(c)["where"](instance)
        except LookupError as e:
            line, same = line_of(e, name)
            row["errors"].append([n, line])
            row["file"] = row["file"] and (same or route == "string")
    if "later" in space:
        try:
            space["later"]()
        except LookupError as e:
            row["errors"].append(["later", line_of(e, name)[0]])
    row["shown"] = show(cls)
    return row


# ------------------------------------------------------------------ layouts
def find(layout, number, folder, where):
    name = f"vp_find_{number}"
    base = folder / f"folders-{number}"
    rng = random.Random(number)
    labels = rng.sample("abcXYZ12", len(layout))
    dirs = [base / label for label in labels]
    for i, (path, kinds) in enumerate(zip(dirs, layout), 1):
        path.mkdir(parents=True)
        if "py" in kinds:
            (path / f"{name}.py").write_text(f"found = [{i}, 'py']\n")
        if "cgx" in kinds:
            (path / f"{name}.cgx").write_text(
                "<template><item/></template>\n<script>\nimport collagraph as cg\n"
                f"found = [{i}, 'cgx']\n\nclass Found(cg.Component):\n    pass\n</script>\n"
            )
    # Places where nothing can be found
    (base / "file.zip").write_text("")
    path = [str(base / "none"), str(dirs[0]), str(base / "file.zip")]
    path += [str(d) for d in dirs[1:]]
    before = sys.path[:], os.getcwd()
    full = name
    try:
        if rng.random() < 0.3:
            # The folder that is worked in
            here = rng.choice(dirs)
            path[path.index(str(here))] = ""
            os.chdir(here)
        if where == "package":
            package = types.ModuleType(f"{name}_pack")
            package.__path__ = path
            sys.modules[package.__name__] = package
            full = f"{name}_pack.{name}"
        else:
            sys.path[:0] = path
        importlib.invalidate_caches()
        try:
            found = importlib.import_module(full).found
        except ModuleNotFoundError:
            found = [0, "none"]
    finally:
        sys.path[:] = before[0]
        os.chdir(before[1])
        for m in (full, f"{name}_pack"):
            sys.modules.pop(m, None)
        shutil.rmtree(base)
    return {"layout": layout, "found": found}


# ---------------------------------------------------------------- histories
VERSION = """
<template>
  <item :a="version" />
</template>

<script>
import collagraph as cg
from vp_values import {version} as version


class {cls}(cg.Component):
    pass
</script>
"""
CLASSES = {"v1": "One", "v2": "Two"}
GOOD = {v: VERSION.format(version=v, cls=c) for v, c in CLASSES.items()}
BAD = [
    GOOD["v1"].replace("cg\n", "cg = =\n", 1),
    GOOD["v2"].replace('"version"', '"version +"'),
    GOOD["v1"].replace("  <item", "  <item /> <item"),
    GOOD["v2"].replace('  <item :a="version" />', ""),
    GOOD["v1"].replace("<template>", "").replace("</template>", ""),
    "",
]


def version_of(cls):
    shown = show(cls)
    version = shown[0] if len(shown) == 1 else "mixed"
    return version if CLASSES.get(version) == cls.__name__ else "mixed"


def history(ops, folder, rng):
    paths = {"a": folder / "vp_a.cgx", "b": folder / "vp_pack" / "vp_b.cgx"}
    names = {"a": "vp_a", "b": "vp_pack.vp_b"}
    modules = {}
    rows = []
    try:
        for op, f, x in ops:
            path, name = paths[f], names[f]
            outcome = ""
            try:
                if op == "write":
                    path.write_text(rng.choice(BAD) if x == "bad" else GOOD[x])
                elif op == "delete":
                    path.unlink()
                elif op == "forget":
                    del sys.modules[name]
                    modules.pop(f)
                elif op == "import":
                    known = f in modules
                    module = importlib.import_module(name)
                    if known and module is not modules[f]:
                        outcome = "another-module"
                    modules[f] = module
                    outcome = outcome or current(module)
                elif op == "reload":
                    if importlib.reload(modules[f]) is not modules[f]:
                        outcome = "another-module"
                    outcome = outcome or current(modules[f])
                elif op == "load":
                    outcome = version_of(cgx.load(path)[0])
                elif op == "string":
                    outcome = version_of(cgx.load_from_string(path.read_text())[0])
            except Exception:
                outcome = "error"
            rows.append(
                {
                    "op": [op, f, x],
                    "outcome": outcome,
                    "mods": {
                        g: current(sys.modules[names[g]]) if names[g] in sys.modules else "none"
                        for g in names
                    },
                }
            )
    finally:
        for f in names:
            sys.modules.pop(names[f], None)
            if paths[f].exists():
                paths[f].unlink()
    return rows


def current(module):
    """What a module contains"""
    version = getattr(module, "version", "empty")
    cls = getattr(module, CLASSES.get(version, ""), None)
    return version_of(cls) if cls else "mixed"


def run(job, folder):
    trace = {"id": job["id"], "kind": job["kind"], "segs": [], "error": ""}
    try:
        if job["kind"] == "content":
            for n, item in enumerate(job["items"]):
                trace["segs"].append(content(
                    item, f"{job['id']}_{n}".replace("-", "_"),
                    folder / "vp_pack" if item["route"] in ("package", "from") else folder,
                ))  # fmt: skip
        elif job["kind"] == "find":
            for n, layout in enumerate(job["items"]):
                for where in ("top", "package"):
                    number = f"{job['id']}_{n}_{where}".replace("-", "_")
                    trace["segs"].append(find(layout, number, folder, where))
        else:
            trace["segs"] = history(job["walk"], folder, random.Random(str(job["id"])))
    except Exception:
        trace["error"] = traceback.format_exc()
        trace["kind"] = "history"
        trace["segs"] = [{"op": ["load", "a", ""], "outcome": "exception", "mods": {"a": "?", "b": "?"}}]
    return trace


def main(jobs, out, mark):
    with open(jobs) as fh:
        jobs = json.load(fh)
    folder = pathlib.Path(tempfile.mkdtemp(prefix="import-")).resolve()
    try:
        (folder / "vp_pack").mkdir()
        (folder / "vp_pack" / "__init__.py").write_text("")
        sys.path.insert(0, str(folder))
        values = types.ModuleType("vp_values")
        values.v1, values.v2 = "v1", "v2"
        sys.modules["vp_values"] = values
        warnings.simplefilter("ignore")
        with open(out, "w") as fh:
            for job in jobs:
                with open(mark, "w") as m:
                    m.write(str(job["id"]))
                fh.write(json.dumps(run(job, folder)) + "\n")
                fh.flush()
    finally:
        shutil.rmtree(folder, ignore_errors=True)


if __name__ == "__main__":
    main(*sys.argv[1:])
