"""Scenarios (see rt.py) that take series of lists of children (spec/Recon.tla)."""

import random

CONTEXTS = ("el", "virtual", "slot", "inner", "nested", "keyed", "function")


def el(type, children=(), key=(), attrs=(), events=()):
    return {"k": "el", "t": type, "key": list(key), "a": list(attrs), "b": [],
            "ev": list(events), "c": list(children)}  # fmt: skip


def vt(children, key=()):
    return {"k": "vt", "t": "template", "key": list(key), "c": list(children)}


def co(name, key=(), attrs=(), slots=(), events=()):
    return {"k": "co", "t": name, "key": list(key), "a": list(attrs), "b": [],
            "ev": list(events), "s": list(slots)}  # fmt: skip


def sl(name, fallback=()):
    return {"k": "sl", "n": name, "w": "F", "a": [], "c": list(fallback)}


def text(value):
    return {"k": "tx", "e": ["c", value]}


def definition(name, template, fn="F", state=(), props=(), slots=()):
    return {"n": name, "fn": fn, "props": list(props), "slots": list(slots),
            "slot_props": {}, "st": [list(s) for s in state], "self": [], "prov": [],
            "hw": [], "tm": template}  # fmt: skip


STATE = [["s1", "a"]]
SHOWN = [["u", ["v", "x"]], ["w", ["v", "s1"]]]
DEFS = [
    definition("Co", el("p", attrs=SHOWN), state=STATE, props=["x"]),
    definition("Fn", el("ul", attrs=SHOWN[:1]), fn="T", props=["x"]),
    definition("Two", vt([el("p", attrs=SHOWN), el("ul")]), state=STATE, props=["x"]),
    definition("None", vt([]), state=STATE, props=["x"]),
    definition("Hoc", co("Co", attrs=[["x", ["v", "x"]]]), state=STATE, props=["x"]),
    definition("Slot", el("div", [el("p"), sl("default"), el("ul")]), slots=["default"]),
    definition("Inner", vt([el("p"), sl("default"), el("ul")]), slots=["default"]),
    definition("Func", el("div", [sl("default", [el("p")]), el("p")]), fn="T",
               slots=["default"]),
]  # fmt: skip
COMPONENTS = {"co": "Co", "fn": "Fn", "two": "Two", "none": "None", "hoc": "Hoc"}


class Builder:
    def __init__(self, rng):
        self.rng = rng
        self.fresh = 0

    def x(self):
        return ["c", self.rng.choice("abc")]

    def item(self, item):
        key, kind = item
        key = ["c", "k" + key] if key else []
        rng = self.rng
        if kind in ("p", "ul"):
            events = []
            if rng.random() < 0.3:
                self.fresh += 1
                events = [["click", rng.choice(["clo", "def", "par", "meth"]),
                           ["c", f"h{self.fresh}"]]]  # fmt: skip
            attrs = [["u", self.x()]] if rng.random() < 0.6 else []
            children = [text(rng.choice("ab"))] if rng.random() < 0.2 else []
            return el(kind, children, key, attrs, events)
        if kind == "tx":
            return text(rng.choice("ab"))
        if kind == "vt":
            return vt([el("p", attrs=[["u", self.x()]]), el("ul")], key)
        if kind == "v0":
            return vt([], key)
        return co(COMPONENTS[kind], key, [["x", self.x()]])

    def root(self, context, items):
        items = [self.item(i) for i in items]
        if context == "el":
            return el("div", items)
        if context == "virtual":
            return el("div", [el("p"), vt(items), el("ul")])
        if context == "slot":
            return co("Slot", slots=[["default", items]])
        if context == "inner":
            return el("div", [co("Inner", slots=[["default", items]]), el("p")])
        if context == "nested":
            return el("div", [vt([vt(items), vt([])]), text("end")])
        if context == "keyed":
            key = self.rng.choice("yz")
            return el("div", [el("ul", items, ["c", "box" + key]), el("p")])
        return co("Func", slots=[["default", items]])

    def scenario(self, ident, walk, loop="sync", backend="mem"):
        rng = self.rng
        context = rng.choice(CONTEXTS)
        steps = []
        for items in walk:
            # Callbacks separate the passes of a segment
            callback = "cb" if loop == "async" else rng.choice(["cb", "none"])
            steps.append(["render", self.root(context, items), callback])
            if loop == "async":
                if rng.random() < 0.3:
                    # Something else is rendered before this is complete
                    steps.append(["tick", rng.randint(0, 6), 20_000_000])
                    continue
                steps.append(["idle", rng.choice([20_000_000, 8_000_000, 0])])
            if rng.random() < 0.15:
                steps.append(["iset", ["", rng.randint(0, 9)], "s1", rng.choice("abc")])
                if loop == "async":
                    steps.append(["idle", 8_000_000])
        if loop == "async":
            steps.append(["idle", 0])
        return {
            "id": ident,
            "mode": "h",
            "loop": loop,
            "backend": backend,
            "world": "",
            "snap": backend != "mem",
            "style": rng.randint(0, 1000),
            "plain": any(s[0] == "render" and s[1]["k"] == "el" for s in steps),
            "defs": DEFS,
            "glob": [],
            "rootst": [],
            "steps": steps,
            "family": "recon",
        }


def builder(seed):
    return Builder(random.Random(seed))


# ----------------------------------------------------- schedules (spec/Sched.tla)
def loop_over(name, values, child):
    return {"k": "fo", "v": name, "i": [], "e": ["v", values], "c": [child]}


def choice(*branches, otherwise=()):
    return {"k": "if", "br": [list(b) for b in branches], "el": list(otherwise)}


def is_(name, value):
    return ["=", ["v", name], ["c", value]]


X = [["x", ["v", "x"]]]
PASS_ON = [["x", ["v", "x"]], ["items", ["v", "items"]]]
ROWS = loop_over("it1", "items", co("Co", ["v", "it1"], [["x", ["v", "it1"]]]))
TREES = [
    # A list of components
    el("div", [ROWS, {"k": "tx", "e": ["v", "x"]}], attrs=SHOWN),
    # What is shown depends on the state and the props
    el("div", [
        choice([is_("x", "a"), co("Two", attrs=X)], [is_("s1", "b"), el("p", attrs=SHOWN)]),
        choice([is_("s1", "a"), co("Hoc", attrs=X)], otherwise=[co("Co", attrs=X)]),
        loop_over("it1", "items", el("ul", key=["v", "it1"], attrs=SHOWN)),
    ]),
    # Content of slots
    co("Slot", slots=[["default", [ROWS, el("p", attrs=SHOWN),
                                   choice([is_("x", "b"), co("Co", attrs=X)])]]]),
    # Nothing but other components
    vt([co("Hoc", attrs=X), choice([is_("s1", "b"), co("Two", attrs=X)]), ROWS]),
    # Handlers with values of the state
    el("div", [el("p", events=[["click", "clo", ["+", ["v", "x"], ["v", "s1"]]]]),
               loop_over("it1", "items", el("p", key=["v", "it1"], events=[
                   ["click", "def", ["+", ["v", "it1"], ["v", "s1"]]]]))]),
]  # fmt: skip
HOOKS = [
    [],
    [["M", "own", "s1", "*", "b"]],
    [["U", "own", "s1", "a", "c"]],
    [["M", "root", "x", "c", "a"]],
]


class Schedules(Builder):
    def scenario(self, ident, histories):
        rng = self.rng
        mine = definition("Main", rng.choice(TREES), state=STATE, props=["x", "items"])
        mine["hw"] = rng.choice(HOOKS)
        defs = [mine, *({**d} for d in DEFS)]
        # Another component with the same name for the root takes its place
        defs.append(definition("Other", rng.choice(TREES), state=STATE, props=["x", "items"]))
        if rng.random() < 0.4:
            defs[1]["hw"] = rng.choice(HOOKS)
        steps = []
        for history in histories:
            steps += [s for what in history for s in self.steps(what)]
            steps.append(["idle", 0])
        merged = []
        for step in steps:
            if step[0] == "tick" and merged and merged[-1][0] == "tick":
                merged[-1] = ["tick", merged[-1][1] + 1, step[2]]
            else:
                merged.append(step)
        return {
            "id": ident, "mode": "h", "loop": "async", "backend": "mem", "world": "",
            "snap": False, "style": rng.randint(0, 1000), "plain": False, "defs": defs,
            "glob": [["x", "gx"], ["items", ["g1"]]],
            "rootst": [["x", "a"], ["items", ["i1", "i2"]], ["zz", "a"]],
            "steps": merged, "family": "sched",
        }  # fmt: skip

    def steps(self, what):
        rng = self.rng
        self.fresh += 1
        if what == "t":
            # 20 ms: one unit of work for every slice
            return [["tick", 1, 20_000_000]]
        if what == "s":
            return [["iset", ["", rng.randint(0, 9)], "s1", rng.choice("abc")]]
        if what == "p":
            return [["set", "x", rng.choice("abc")]]
        if what == "n":
            return [["quiet", ["set", "zz", f"v{self.fresh}"]]]
        if what == "l":
            new = f"n{self.fresh}"
            op = rng.choice([["append", new], ["insert", "@0", new], ["pop", "@0"],
                             ["reverse"], ["assign", ["i1", new]], ["clear"],
                             ["assign", ["i2", "i3", "i1"]]])  # fmt: skip
            return [["mut", "items", op]]
        name = "Other" if rng.random() < 0.1 else "Main"
        return [["render", {**co(name), "b": [0, ["R"]]}, "cb"]]
