"""Driver for the models of calls (spec/Calls.tla): performs the operations of walks
through the transitions with a real renderer, and records what it shows."""

import functools
import json
import os
import random
import signal
import sys
import traceback

import rt

sys.modules["cgrt"] = rt

from worlds import ALL, SPECIAL, TABLES  # noqa: E402

VALUES = ("one", "two", "three", "")


class Obj:
    def __init__(self, call):
        self.call = call

    def __call__(self, *args):
        self.call()

    def method(self, *args):
        self.call()


def handler(kind, call):
    if kind == "lambda":
        return lambda *args: call()
    if kind == "method":
        return Obj(call).method
    if kind == "object":
        return Obj(call)
    if kind == "partial":
        return functools.partial(lambda x, *args: call(), 1)

    def function(*args):
        call()

    return function


KINDS = ("lambda", "method", "object", "partial", "function")


class Player:
    def __init__(self, job):
        self.job = job
        self.rng = random.Random(job["id"])
        self.world = ALL.get(job["world"])
        self.ctx = rt.CTX = rt.Ctx(job)
        self.renderer = rt.backend(job["world"])
        self.container = self.renderer.make_container()
        self.ctx.new_element(self.container)
        self.ctx.elements_container = self.container
        self.els = {}
        self.types = {}
        self.parent = {}
        self.fired = []
        self.values = {}
        self.handlers = {}
        self.live = {}
        for number in (1, 2):
            self.handlers[number] = handler(
                self.rng.choice(KINDS), functools.partial(self.called, number)
            )
        # Some drop the elements that are removed, others have the toolkit catch up
        self.offset = self.rng.randrange(len(VALUES))
        self.drop = job["variant"] % 2 == 0
        rt.EXTRA = [TABLES[job["world"]][1]] if job["kind"] == "table" else []
        self.catch_up = job["variant"] % 3 == 0

    def called(self, number):
        self.fired.append(number)

    def schema(self, type):
        if self.world is None:
            return [["a"], ["b"], ["class"]]
        schema = self.world["schema"]
        return schema.get(type, []) + schema.get("*", [])

    def value(self, name, number=None):
        name, *options = name
        options = options or VALUES
        if number is None:
            return rt.dec(self.rng.choice(options))
        if options is VALUES:
            number += self.offset
        return rt.dec(options[(number - 1) % len(options)])

    # ---- elements
    def create(self, e, type, skip=(), given=()):
        r = self.renderer
        if type == "TEXT_ELEMENT":
            el = r.create_text_element()
        else:
            el = r.create_element(type)
        self.els[e], self.types[e] = el, type
        if type == "TEXT_ELEMENT":
            r.set_element_text(el, f"text {self.rng.randrange(3)}")
            return el
        names = [n for n, *_ in given]
        for name, value in given:
            r.set_attribute(el, name, rt.dec(value))
        for name in self.schema(type):
            plain = name[0].rstrip("!")
            if plain in skip or plain in names or not name[0].endswith("!"):
                continue
            r.set_attribute(el, plain, self.value(name))
        return el

    def insert(self, e, parent, anchor):
        self.parent[e] = parent
        self.renderer.insert(
            self.els[e],
            self.els.get(parent, self.container),
            anchor=self.els[anchor] if anchor else None,
        )

    def remove(self, e):
        parent = self.parent[e]
        self.renderer.remove(self.els[e], self.els.get(parent, self.container))

    def forget(self, e):
        for other in [x for x, p in self.parent.items() if p == e]:
            self.forget(other)
        if self.drop:
            self.ctx.elements.pop(id(self.els[e]), None)
        for memory in (self.els, self.types, self.parent, self.live):
            memory.pop(e, None)

    # ---- trees
    def do_tree(self, op):
        job = self.job
        if op[0] == "new":
            _, e, cls, parent, anchor = op
            self.create(
                e,
                self.rng.choice(job["types"][cls]),
                given=(self.world or {}).get("given", {}).get(cls, ()),
            )
            self.insert(e, parent, anchor)
        elif op[0] == "del":
            self.remove(op[1])
            self.forget(op[1])
        elif op[0] == "move":
            self.remove(op[1])
            self.insert(op[1], self.parent[op[1]], op[2])

    # ---- cells
    def cell(self, c, before, after):
        r, cell = self.renderer, self.job["cells"][c - 1]
        el = self.els[cell["el"]]
        if cell["kind"] == "event":
            # 3: both handlers
            for number in (1, 2):
                if before & number and not after & number:
                    r.remove_event_listener(el, cell["name"][0], self.handlers[number])
            for number in (2, 1) if self.offset % 2 else (1, 2):
                if after & number and not before & number:
                    r.add_event_listener(el, cell["name"][0], self.handlers[number])
        elif cell["kind"] == "text":
            r.set_element_text(el, VALUES[after])
        else:
            name = cell["name"][0].rstrip("!")
            if after:
                r.set_attribute(el, name, self.value(cell["name"], after))
            else:
                r.remove_attribute(el, name, self.value(cell["name"], before))
        self.values[c] = after

    def do_cells(self, op):
        cells = self.job["cells"]
        if op[0] == "make":
            _, e, values = op
            mine = [c for c in (1, 2) if cells[c - 1]["el"] == e]
            skip = [cells[c - 1]["name"][0].rstrip("!") for c in mine
                    if cells[c - 1]["kind"] == "attr"]  # fmt: skip
            self.create(e, cells[mine[0] - 1]["type"], skip)
            for c in mine:
                self.values[c] = 0
                if values[c - 1]:
                    self.cell(c, 0, values[c - 1])
        elif op[0] == "in":
            self.insert(op[1], 0, op[2])
        elif op[0] == "del":
            self.remove(op[1])
            self.forget(op[1])
            for c in (1, 2):
                if cells[c - 1]["el"] == op[1]:
                    self.values[c] = 0
        elif op[0] == "move":
            self.remove(op[1])
            self.insert(op[1], 0, 0)
        elif op[0] == "set":
            self.cell(op[1], self.values[op[1]], op[2])

    # ---- tables
    def do_table(self, op):
        type, attr, places, _ = TABLES[self.job["world"]]
        _, want, order, moved = op
        for e in sorted(self.els):
            if not want[e - 1]:
                self.remove(e)
                self.forget(e)
                self.values.pop(e)
        for e in order:
            place = want[e - 1]
            if e not in self.els:
                self.create(e, type, skip=[attr])
                self.renderer.set_attribute(self.els[e], attr, rt.dec(places[place - 1]))
                self.insert(e, 0, 0)
            else:
                if e in moved:
                    self.remove(e)
                    self.insert(e, 0, 0)
                if place != self.values[e]:
                    self.renderer.set_attribute(
                        self.els[e], attr, rt.dec(places[place - 1])
                    )
            self.values[e] = place

    # ---- what is shown
    def probe(self):
        result = []
        for cell in self.job.get("cells", ()):
            e = cell["el"]
            if cell["kind"] != "event" or e not in self.parent:
                continue
            self.fired = []
            self.renderer.fire(self.els[e], cell["name"][0], ())
            numbers = [self.ctx.hid(self.handlers[n]) for n in self.fired]
            result.append([self.ctx.eid(self.els[e]), cell["name"][0], numbers])
        return result

    snapshot = rt.Runner.snapshot

    def run(self):
        job = self.job
        trace = {
            "id": job["id"],
            "dflt": self.renderer.defaults(),
            "loose": self.renderer.loose(),
            "by": "",
            "ranks": [],
            "segs": [],
            "error": "",
        }
        if job["kind"] == "table" and TABLES[job["world"]][3]:
            _, trace["by"], places, _ = TABLES[job["world"]]
            trace["ranks"] = [[p, i] for i, p in enumerate(places)]
        do = getattr(self, "do_" + job["kind"])
        for op in job["walk"]:
            self.ctx.log = []
            row = {"calls": self.ctx.log, "exc": [], "snap": [], "fired": []}
            trace["segs"].append(row)
            try:
                signal.setitimer(signal.ITIMER_PROF, 10)
                do(op)
                if self.catch_up:
                    self.renderer.catch_up()
                row["snap"] = self.snapshot()
                row["fired"] = self.probe()
            except (Exception, rt.Timeout) as e:
                row["exc"] = [type(e).__name__]
                trace["error"] = f"{op}\n" + traceback.format_exc()
                break
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        # Leave nothing behind for the next one
        self.ctx.log = []
        for e in sorted(self.parent):
            if self.parent[e] == 0 and job["world"] in SPECIAL:
                try:
                    self.remove(e)
                except Exception:
                    pass
        return trace


def main(jobs, out, mark):
    signal.signal(signal.SIGPROF, rt.on_alarm)
    with open(jobs) as fh:
        jobs = json.load(fh)
    with open(out, "w") as fh:
        for job in jobs:
            with open(mark, "w") as m:
                m.write(str(job["id"]))
            fh.write(json.dumps(Player(job).run()) + "\n")
            fh.flush()
    with open(mark, "w") as m:
        m.write("done")
    os._exit(0)


if __name__ == "__main__":
    main(*sys.argv[1:])
