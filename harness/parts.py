"""Scenarios (see rt.py) for the worlds of spec/Parts.tla."""

import copy
import itertools

import walks

GROUP = 5
GLOB = [["x", "gx"], ["y", "gy"], ["items", ["g1"]]]
START = [["cfg", "c0"], ["x", "a"], ["y", "a"], ["items", ["i1", "i2"]], ["zz", "a"]]


def chain(nodes):
    """Shows one of the nodes, depending on cfg."""
    branches = [[["=", ["v", "cfg"], ["c", f"c{i}"]], node] for i, node in enumerate(nodes)]
    return {"k": "if", "br": branches, "el": []}


def el(type, *children):
    return {"k": "el", "t": type, "key": [], "a": [], "b": [], "ev": [], "c": list(children)}


def definition(name, template):
    return {"n": name, "fn": "F", "props": [], "slots": [], "st": [["s1", "a"]], "self": [],
            "prov": [], "dprov": [], "hw": [], "tm": template}  # fmt: skip


class Builder:
    def __init__(self, rng, loop="sync", writes=4):
        self.rng = rng
        self.loop = loop
        self.writes = writes

    def main(self, children):
        """Where the configurations are shown."""
        rng = self.rng
        vt = {"k": "vt", "t": "template", "key": [], "c": [*children]}
        slot = {"k": "sl", "n": "default", "w": "F", "a": [], "c": []}
        wrap = {"k": "co", "t": "Wrap", "key": [], "a": [], "b": [], "ev": [],
                "s": [["default", [*children], "F"]]}  # fmt: skip
        main = rng.choice([
            el("div", *children),
            el("div", el("p"), *children, el("ul")),
            el("div", vt, el("p")),
            wrap,
            el("div", wrap),
        ])  # fmt: skip
        return [definition("Main", main), definition("Wrap", el("div", slot, el("p")))]

    def defs(self, world, mode, children):
        result = self.main(copy.deepcopy(children)) + copy.deepcopy(world["defs"])
        for d in result:
            d["mode"] = mode
            if mode == "mix":
                d["mode"] = "h" if d["fn"] == "T" else self.rng.choice(["h", "cgx"])
                if d["mode"] == "h":
                    self.raw(d["tm"])
        return result

    def raw(self, node):
        """The content of slots might be a list of nodes in handwritten components."""
        if isinstance(node, dict):
            if node.get("k") == "co":
                for slot in node["s"]:
                    slot[2] = self.rng.choice("TF")
            node = list(node.values())
        if isinstance(node, list):
            for child in node:
                self.raw(child)

    def pairs(self, world):
        """Groups of configurations, and all pairs of those."""
        nodes = list(range(len(world["nodes"])))
        self.rng.shuffle(nodes)
        groups = [nodes[i : i + GROUP] for i in range(0, len(nodes), GROUP)]
        some = list(itertools.combinations_with_replacement(range(len(groups)), 2))
        self.rng.shuffle(some)
        for a, b in some:
            a, b = groups[a], groups[b]
            if a is b:
                yield a, list(itertools.permutations(range(len(a)), 2))
            else:
                n, m = len(a), len(a) + len(b)
                ab = list(itertools.product(range(n), range(n, m)))
                yield a + b, ab + [(y, x) for x, y in ab]

    def change(self):
        rng = self.rng
        return rng.choice([
            ["set", "x", rng.choice("abc")],
            ["set", "y", rng.choice("ab")],
            ["set", "items", rng.sample(["i1", "i2", "i3"], rng.randint(0, 3))],
            ["iset", ["", rng.randint(0, 9)], "s1", rng.choice("ab")],
        ])  # fmt: skip

    def steps(self, world, walk):
        rng = self.rng
        for number in walk:
            yield [["set", "cfg", f"c{number}"]]
            if world["writes"]:
                for write in rng.sample(world["writes"], self.writes):
                    yield [write]
            elif rng.random() < 0.2:
                yield [self.change()]

    def states(self, world):
        """All values, of which the order is random."""
        values = list(world["writes"])
        self.rng.shuffle(values)
        for value in values:
            steps = list(value)
            self.rng.shuffle(steps)
            yield from ([s] for s in steps)

    def scenarios(self, world, mode):
        """Endless, or until all is done: scenarios and how many changes they have."""
        if world["together"]:
            nodes = list(world["nodes"])
            self.rng.shuffle(nodes)
            for i in range(0, len(nodes), 4):
                children = []
                for node in nodes[i : i + 4]:
                    # Two conditionals would be one conditional
                    children += [node, el("ul")]
                series = list(self.states(world))
                yield self.scenario(world, mode, children, series), len(series)
            return
        for some, edges in self.pairs(world):
            if not edges:
                continue
            children = [chain([world["nodes"][i] for i in some])]
            self.rng.shuffle(edges)
            for walk in walks.walks(edges, 60, jump=True):
                series = list(self.steps(world, walk))
                yield self.scenario(world, mode, children, series), len(series)

    def scenario(self, world, mode, children, series):
        rng = self.rng
        root = {"k": "co", "t": "Main", "key": [], "a": [], "b": [0, ["R"]], "ev": [], "s": []}
        steps = [["render", root, "cb"]]
        if self.loop == "async":
            steps.append(["idle", 0])
        for some in series:
            steps += some
            if self.loop == "async":
                if rng.random() < 0.3:
                    steps.append(["tick", rng.randint(0, 4), 20_000_000])
                    if rng.random() < 0.6:
                        continue
                steps.append(["idle", rng.choice([20_000_000, 8_000_000, 0])])
        if self.loop == "async":
            steps.append(["idle", 0])
        return {
            "mode": mode, "loop": self.loop, "backend": "mem", "world": "", "snap": False,
            "style": rng.randint(0, 1000), "plain": False,
            "defs": self.defs(world, mode, children), "glob": GLOB, "rootst": START,
            "steps": steps, "family": world["name"],
        }  # fmt: skip
