"""Runs the command line program (spec/Tool.tla).

Every run has a process of its own, which is a fork of this one; all files are in a scratch
folder that is removed afterwards.
"""

import contextlib
import io
import json
import os
import pathlib
import runpy
import shutil
import signal
import sys
import tempfile
import traceback
import types
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

import collagraph as cg  # noqa: E402
import pygfx  # noqa: E402
from observ import reactive  # noqa: E402
from PySide6 import QtCore, QtWidgets  # noqa: E402

SCRIPT = """
<script>
import collagraph as cg
import vp_sink


class Shown(cg.Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.state["n"] = 0

    def shown(self):
        return vp_sink.describe(self)

    def mounted(self):
        vp_sink.mounted(self)
</script>
"""
ROOTS = {
    "dict": '<item :text="self.shown()" />',
    "pyside": '<label :text="self.shown()" />',
    "pygfx": '<group :name="self.shown()" />',
}
SPECIAL = {"UNI": "\u2603 \U0001f600", "E-ACUTE": "\u00e9"}


def to_real(text):
    for name, real in SPECIAL.items():
        text = text.replace(name, real)
    return text


def to_model(text):
    for name, real in SPECIAL.items():
        text = text.replace(real, name)
    return text


def describe(value):
    if hasattr(value, "items"):
        return "{" + ",".join(f"{k}:{describe(value[k])}" for k in sorted(value)) + "}"
    if hasattr(value, "append"):
        return "[" + ",".join(describe(x) for x in value) + "]"
    return f"{value}"


class Sink:
    """What the component and the stand-ins of libraries report to"""

    def __init__(self, kind, ops, rows):
        self.kind, self.rows = kind, rows
        self.ops = list(ops)
        self.component = self.props = None
        self.requests = []  # to draw
        self.drawn = []  # texts that were drawn
        self.scene = None

    def describe(self, component):
        parts = [f"{k}={describe(component.props[k])} " for k in sorted(component.props)]
        return "".join(parts) + f"n={component.state['n']}"

    # ------------------------------------------------ the program
    def mounted(self, component):
        self.component = component
        self.find_props()
        if self.kind == "pyside":
            self.wait = lambda f: QtCore.QTimer.singleShot(10, lambda: self.hops(12, f))
            self.soon = lambda f: QtCore.QTimer.singleShot(0, f)
            self.wait(self.first)
        elif self.kind == "pygfx":
            import asyncio

            loop = asyncio.get_event_loop_policy().get_event_loop()
            self.wait = lambda f: loop.call_later(0.01, self.hops, 12, f)
            self.soon = loop.call_soon
            self.stop = loop.stop
            self.wait(self.first)

    def hops(self, n, f):
        """Other things that are scheduled take place before f"""
        self.soon(f if n == 0 else lambda: self.hops(n - 1, f))

    def find_props(self):
        """The props, which someone who uses a debugger has too"""
        frame = sys._getframe()
        while frame:
            if frame.f_code.co_filename.endswith("__main__.py"):
                for name, value in frame.f_locals.items():
                    if type(value) is PROPS:
                        self.props = value
                    elif name == "props" and type(value) is dict and self.props is None:
                        self.props = value
            frame = frame.f_back

    def first(self):
        self.rows[0]["outcome"] = "shown"
        self.observe(self.rows[0])
        self.next()

    def next(self):
        if not self.ops or self.props is None:
            return self.end()
        op = self.ops.pop(0)
        row = {"op": op, "shown": "", "drawn": False}
        self.requests.clear()
        self.act(*op)

        def then():
            self.observe(row)
            self.rows.append(row)
            self.next()

        self.wait(then)

    def act(self, op, key, value):
        if op == "set":
            self.props[key] = value
        elif op == "put":
            self.props[key] = {"b": [value[4:-2]]}
        elif op == "deep":
            self.props[key]["b"][0] = value
        elif op == "delete":
            del self.props[key]
        elif op == "count":
            self.component.state["n"] = 1 - self.component.state["n"]
        elif op == "both":
            self.component.state["n"] = 1 - self.component.state["n"]
            self.props["b"] = "y"

    def end(self):
        if self.kind == "pyside":
            QtWidgets.QApplication.instance().quit()
        elif self.kind == "pygfx":
            self.stop()

    def observe(self, row):
        row["kind"], row["shown"], row["drawn"] = getattr(self, "see_" + self.kind)()
        row["shown"] = to_model(row["shown"])

    # ------------------------------------------------ dict
    def breakpoint(self, *args, **kwargs):
        """Instead of the debugger"""
        if self.kind != "dict":
            self.rows[0]["outcome"] = "breakpoint"
            return
        if self.component is None:
            return
        self.find_props()
        self.wait = lambda f: self.later.append(f)
        self.later = [self.first]
        while self.later:
            self.later.pop(0)()

    def see_dict(self):
        frame = sys._getframe()
        while frame:
            if frame.f_code.co_filename.endswith("__main__.py"):
                for value in frame.f_locals.values():
                    if type(value) is dict and "root" in value:
                        children = value.get("children", [])
                        if len(children) == 1:
                            return "dict", children[0].get("attrs", {}).get("text", "?"), True
                        return "dict", f"{len(children)} elements", True
            frame = frame.f_back
        return "none", "", False

    # ------------------------------------------------ pyside
    def see_pyside(self):
        widgets = QtWidgets.QApplication.topLevelWidgets()
        labels = [w for w in widgets if isinstance(w, QtWidgets.QLabel)]
        shown = [w for w in labels if w.isVisible()]
        text = shown[0].text() if len(shown) == 1 else f"{len(shown)} elements"
        return "pyside", text, bool(shown)

    # ------------------------------------------------ pygfx
    def see_pygfx(self):
        asked, self.scene = list(self.requests), None
        self.requests.clear()
        for draw in asked:
            draw()
        element = self.component.element
        text = element.name if isinstance(element, pygfx.Group) else "?"
        drawn = self.scene is not None and element in self.scene.children
        return "pygfx", text, drawn


def stand_ins(sink):
    """Instead of a window with a graphics card"""

    class Canvas:
        def __init__(self, *args, **kwargs):
            pass

        def request_draw(self, function=None):
            if function:
                self.function = function
            sink.requests.append(self.function)

        def get_logical_size(self):
            return 600, 400

        get_physical_size = get_logical_size

        def get_pixel_ratio(self):
            return 1

        def add_event_handler(self, *args):
            pass

    def run():
        import asyncio

        asyncio.get_event_loop_policy().get_event_loop().run_forever()

    auto = types.ModuleType("wgpu.gui.auto")
    auto.WgpuCanvas, auto.run = Canvas, run
    auto.call_later = lambda *args: None
    sys.modules["wgpu.gui.auto"] = auto
    import wgpu.gui

    wgpu.gui.auto = auto

    class Renderer(pygfx.Renderer):
        def __init__(self, target, *args, **kwargs):
            self.target = target

        def render(self, scene, camera, *args, **kwargs):
            assert isinstance(camera, pygfx.Camera)
            if camera.world.position[2] > 0:
                sink.scene = scene

        logical_size = rect = None

        def add_event_handler(self, *args):
            pass

        def remove_event_handler(self, *args):
            pass

        def request_draw(self, *args):
            self.target.request_draw(*args)

    pygfx.renderers.WgpuRenderer = pygfx.WgpuRenderer = Renderer


PROPS = type(reactive({}))


def arguments(config, text, folder):
    kind = config["renderer"] or "pyside"
    good = f"<template>\n  {ROOTS.get(kind, ROOTS['pyside'])}\n</template>\n" + SCRIPT
    file = config["file"]
    name = {"suffix": "shown.txt", "upper": "shown.CGX", "missing": "other.cgx",
            "folder": "folder.cgx", "spaced": "a folder/my own.cgx"}.get(file, "shown.cgx")  # fmt: skip
    (folder / "a folder").mkdir()
    (folder / "folder.cgx").mkdir()
    if file not in ("missing", "folder"):
        content = {"broken": good.replace("def shown", "def = shown"), "empty": ""}
        (folder / name).write_text(content.get(file, good))
    options = []
    equals = config["form"] == "equals"

    def option(key, value):
        options.extend([f"{key}={value}"] if equals else [key, value])

    if config["renderer"]:
        option("--renderer", config["renderer"])
    if config["state"] == "no-value":
        options.append("--state")
    elif config["state"] != "none":
        text = to_real(text)
        if config["way"] == "file":
            (folder / "state.json").write_text(text, encoding="utf-8")
            text = "state.json"
        option("--state", text)
    files = {"none": [], "two": [name, name]}.get(file, [name])
    return options + files if config["form"] == "before" else files + options


def program(item, rows, folder):
    """In a process of its own"""
    config = item["config"]
    sink = Sink(config["renderer"] or "pyside", item["ops"], rows)
    module = types.ModuleType("vp_sink")
    module.describe, module.mounted = sink.describe, sink.mounted
    sys.modules["vp_sink"] = module
    sys.breakpointhook = sink.breakpoint
    if config["renderer"] == "pygfx":
        stand_ins(sink)
    os.chdir(folder)
    sys.argv = ["collagraph", *arguments(config, item["text"], folder)]
    warnings.simplefilter("ignore")
    try:
        runpy.run_module("collagraph", run_name="__main__")
    except SystemExit as e:
        if rows[0]["outcome"] == "none":
            rows[0]["outcome"] = "usage" if e.code == 2 else f"exit {e.code}"
    except BaseException:
        if sink.component is not None:
            rows[0]["outcome"] = "shown, then error"
        elif rows[0]["outcome"] == "none":
            rows[0]["outcome"] = "error"
        rows[0]["error"] = traceback.format_exc()
    if rows[0]["outcome"] != "shown" and sink.component is not None:
        rows[0]["shown"] = "something"


def fork(item, number, folder):
    place = folder / f"run-{number}"
    place.mkdir()
    result = place / "result"
    child = os.fork()
    if child == 0:
        rows = [{"config": item["config"], "outcome": "none", "shown": "", "kind": "none",
                 "drawn": False}]  # fmt: skip
        try:
            signal.alarm(30)
            with contextlib.redirect_stderr(io.StringIO()):
                with contextlib.redirect_stdout(io.StringIO()):
                    work = place / "work"
                    work.mkdir()
                    program(item, rows, work)
        except BaseException:
            rows[0]["outcome"] = "harness"
            rows[0]["error"] = traceback.format_exc()
        result.write_text(json.dumps(rows))
        os._exit(0)
    status = os.waitpid(child, 0)[1]
    if result.exists():
        rows = json.loads(result.read_text())
    else:
        rows = [{"config": item["config"], "outcome": f"died {status}", "shown": "",
                 "kind": "none", "drawn": False}]  # fmt: skip
    shutil.rmtree(place)
    return rows


def main(jobs, out, mark):
    with open(jobs) as fh:
        jobs = json.load(fh)
    folder = pathlib.Path(tempfile.mkdtemp(prefix="tool-")).resolve()
    try:
        with open(out, "w") as fh:
            for number, job in enumerate(jobs):
                with open(mark, "w") as m:
                    m.write(str(job["id"]))
                rows = fork(job, number, folder)
                error = rows[0].pop("error", "")
                if error:
                    error += f"\n{rows[0]['config']}"
                fh.write(json.dumps({"id": job["id"], "segs": rows, "error": error}) + "\n")
                fh.flush()
    finally:
        shutil.rmtree(folder, ignore_errors=True)


if __name__ == "__main__":
    main(*sys.argv[1:])
