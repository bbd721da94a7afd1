"""Random programs and histories for the harness (see rt.py, spec/Tmpl.tla)."""

import random

SCALARS = {"x": ("a", "b", "c"), "y": ("a", "b"), "z": ("p", "q", "r", "")}
# Values of attributes that might be mistaken for no value at all
TYPED = [["@1", "@0", "", "1", "@[]", "@{}", "@2.5"], ["@true", "@false", "", "@[1]"]]
KINDS = ["clo", "def", "par", "pkw", "const", "nest", "self", "meth", "same", "pos"]


class Profile(dict):
    """Options of the generator, with defaults."""

    DEFAULTS = dict(
        mode="h",
        loop="sync",
        backend="mem",
        comps=3,  # number of class components
        fns=1,  # number of function components
        depth=3,
        width=3,
        size=160,  # limit for the estimated number of nodes
        steps=8,
        keyed=0.6,  # probability that nodes in loops have a key
        attrs=0.7,
        bind=0.0,
        events=0.3,
        kinds=KINDS,
        bound=0.15,
        dyn=0.0,
        text=0.3,
        slots=0.5,
        slot_props=0.0,
        state=0.7,
        hooks=0.0,
        inject=0.0,
        emit=0.0,
        dispatch=0.0,
        rerender=0.0,
        hookrender=0.0,
        quiet=0.0,
        multi=0.0,
        propwrite=0.0,
        root=("co", "co", "co", "fn", "el"),
        virtual=0.25,
        hoc=0.15,
        elements=("div", "p", "ul"),
        leaves=(),  # types of elements without children
        world="",  # a world for one of the user interface toolkits
        schema=None,  # attributes: type -> [[name, value, ...], ...]
        event_names=("click", "tap"),
        snap=False,
        same=0.3,  # conditionals with the same component in both branches
        shuffle=0.0,  # templates with literal keyed siblings
        weak=0.0,
        names=0.0,  # names that are defined at several places
        typed=0.15,  # attributes that are not strings
        instates=True,
        mutations=True,
        rows=True,
    )

    def __getattr__(self, name):
        return self[name]


def profile(**options):
    unknown = set(options) - set(Profile.DEFAULTS)
    assert not unknown, unknown
    if options.get("world"):
        from worlds import WORLDS

        options = {**WORLDS[options["world"]], **options}
    return Profile({**Profile.DEFAULTS, **options})


class Gen:
    def __init__(self, rng, p):
        self.rng = rng
        self.p = p
        self.fresh = 0
        self.labels = 0
        self.mode = p.mode
        # The keys of the rows: strings, numbers, or both
        self.keys = self.choice(["klmn", "klmn", ["@0", "@1", "@2", "@3"], ["@0", "0", "@1", "1"]])

        # Names of attributes that might be mistaken for something else
        odd = ["onion", "on", "once", "on-x", "name", "children", "props", "self",
               "state", "class", "for", "parent", "content", "type", "text"]
        self.attr_names = ["u", "v", "w"]
        if self.chance(0.4):
            self.attr_names = ["u", "v", self.choice(odd)]

    def chance(self, value):
        return self.rng.random() < value

    def choice(self, items):
        return self.rng.choice(items)

    # ---- values
    def scalar(self, name):
        return self.choice(SCALARS.get(name, "abc"))

    def key(self, pool):
        return self.keys["klmn".index(pool)]

    def items(self):
        pool = ["i1", "i2", "i3", "i4", "i5"]
        return self.rng.sample(pool, self.rng.randint(0, 5))

    def row(self, key):
        return {"id": key, "v": self.choice("abc")}

    def rows(self):
        keys = self.rng.sample("klmn", self.rng.randint(0, 4))
        return [self.row(self.key(k)) for k in keys]

    # ---- expressions: a scope has names of scalars, lists and rows
    def expr(self, scope):
        options = []
        if scope["s"]:
            options += [["v", self.choice(scope["s"])]] * 4
        if scope["r"]:
            options += [["f", ["v", self.choice(scope["r"])], "v"]] * 3
        if scope["class"] and self.chance(self.p.inject):
            key = self.choice(["theme", "mode"])
            options += [["j", key, "none"]] * 3
        options.append(["c", self.choice(["k1", "k2"])])
        e = self.choice(options)
        if self.chance(0.15):
            e = ["+", e, ["c", self.choice(["-", "."])]]
        return e

    def cond(self, scope):
        names = [n for n in scope["s"]]
        if not names:
            return ["=", ["c", "a"], ["c", self.choice("ab")]]
        name = self.choice(names)
        if name in SCALARS:
            self.flags.append(name)
        e = ["=", ["v", name], ["c", self.scalar(name)]]
        return ["!", e] if self.chance(0.3) else e

    def attrs(self, scope, type=None):
        result = []
        if self.p.schema is not None:
            schema = self.p.schema.get(type, []) + self.p.schema.get("*", [])
            for name, *values in schema:
                must = name.endswith("!")
                if must or self.chance(self.p.attrs * 0.5):
                    result.append([name.rstrip("!"), self.value_of(scope, values)])
            return result
        for name in self.attr_names:
            if self.chance(self.p.attrs * 0.5):
                if self.chance(self.p.typed):
                    value = self.value_of(scope, self.choice(TYPED))
                else:
                    value = self.expr(scope)
                result.append([name, value])
        return result

    def value_of(self, scope, values):
        """An expression for one of the values. Without any: a string."""
        if not values:
            return self.expr(scope)
        if not scope["s"] or self.chance(0.3):
            return ["c", self.choice(values)]
        pairs = [[c, self.choice(values)] for c in "abc" if self.chance(0.7)]
        return ["m", ["v", self.choice(scope["s"])], pairs, self.choice(values)]

    def bind(self, scope, attrs):
        if scope["r"] and self.chance(self.p.bind) and self.p.schema is None:
            return [
                self.rng.randint(0, len(attrs)),
                ["v", self.choice(scope["r"])],
            ]
        return []

    def events(self, scope, names=None, type=None):
        result = []
        if names is None:
            names = self.p.event_names
            if isinstance(names, dict):
                names = names.get(type, names.get("*", ()))
        for name in names:
            if not self.chance(self.p.events):
                continue
            self.labels += 1
            if scope["class"] and self.chance(self.p.bound):
                result.append([name, "bound", ["c", "meth"]])
                continue
            kind = "dyn" if self.chance(self.p.dyn) else self.choice(self.p.kinds)
            label = ["c", f"h{self.labels}"]
            if self.chance(0.6):
                label = ["+", label, self.expr(scope)]
            result.append([name, kind, label])
        return result

    # ---- nodes
    def el(self, scope, depth, key=(), type=None):
        if type is None:
            type = self.choice([*self.p.elements, *self.p.leaves])
        if type in self.p.leaves:
            depth = 0
        attrs = self.attrs(scope, type)
        return {
            "k": "el",
            "t": type,
            "key": list(key),
            "a": attrs,
            "b": self.bind(scope, attrs),
            "ev": self.events(scope, type=type),
            "c": self.nodes(scope, depth - 1) if depth > 0 else [],
        }

    def vt(self, scope, depth, key=()):
        return {
            "k": "vt",
            "t": "template",
            "key": list(key),
            "c": self.nodes(scope, depth - 1) if depth > 0 else [],
        }

    def co(self, scope, depth, key=(), name=None):
        if name is None:
            usable = [d for d in self.defs if d["n"] not in scope["not"]]
            if not usable:
                return self.el(scope, depth, key)
            name = self.choice(usable)["n"]
        defn = next(d for d in self.defs if d["n"] == name)
        attrs = []
        for prop in defn["props"]:
            if prop in SCALARS:
                if self.chance(0.8):
                    attrs.append([prop, self.expr(scope)])
            elif prop == "items" and scope["l"] and self.chance(0.8):
                attrs.append([prop, ["v", self.choice(scope["l"])]])
            elif prop == "rows" and scope["rl"] and self.chance(0.8):
                attrs.append([prop, ["v", self.choice(scope["rl"])]])
            elif prop == "row" and scope["r"]:
                attrs.append([prop, ["v", self.choice(scope["r"])]])
            elif prop == "row":
                attrs.append([prop, ["c", {"id": "c", "v": "c"}]])
        slots = []
        if depth > 0:
            for slot in defn["slots"]:
                if self.chance(0.7):
                    names = defn["slot_props"].get(slot, [])
                    inner = dict(scope, s=scope["s"] + names)
                    body = self.nodes(inner, depth - 1, some=True)
                    raw = self.p.mode == "mix" and self.mode == "h" and self.chance(0.7)
                    if raw and self.chance(0.4):
                        # Sometimes there is no content, instead of no slot
                        make = self.choice([self.loop, self.conditional])
                        body = [] if self.chance(0.2) else [make(inner, depth)]
                    slots.append([slot, body, "T" if raw else "F"])
        return {
            "k": "co",
            "t": name,
            "key": list(key),
            "a": attrs,
            "b": [],
            "ev": self.events(scope, names=("done", "change")),
            "s": slots,
        }

    def sl(self, scope, depth):
        name = self.choice(scope["slots"])
        attrs = [[n, self.expr(scope)] for n in scope["slot_props"].get(name, [])]
        return {
            "k": "sl",
            "n": name,
            "w": "F",
            "a": attrs,
            "c": self.nodes(scope, depth - 1) if depth > 0 else [],
        }

    def single(self, scope, depth, key=(), directive=False):
        """A node that can have directives."""
        options = ["el"] * 4
        if depth > 0 and self.chance(self.p.virtual):
            options += ["vt"] * 3
        if [d for d in self.defs if d["n"] not in scope["not"]]:
            options += ["co"] * 3
        if scope["slots"] and not key and self.chance(self.p.slots):
            options += ["sl"] * 3
        kind = self.choice(options)
        if kind == "sl":
            node = self.sl(scope, depth)
            # The compiler for cgx files wraps slots that have a directive
            node["w"] = "T" if directive and self.mode == "cgx" else "F"
            return node
        return getattr(self, kind)(scope, depth, key)

    def loop(self, scope, depth):
        lists = [(n, "l") for n in scope["l"]] + [(n, "rl") for n in scope["rl"]]
        if not lists:
            return self.single(scope, depth)
        name, kind = self.choice(lists)
        self.fresh += 1
        var = f"it{self.fresh}"
        if kind == "l":
            inner = dict(scope, s=scope["s"] + [var])
            key = ["v", var]
        else:
            inner = dict(scope, r=scope["r"] + [var])
            key = ["f", ["v", var], "id"]
        idx = []
        if self.p.mode == "h" and self.chance(0.2):
            idx = [f"ix{self.fresh}"]
            inner = dict(inner, s=inner["s"] + idx)
        body = self.single(
            inner, depth - 1, key if self.chance(self.p.keyed) else (), directive=True
        )
        return {"k": "fo", "v": var, "i": idx, "e": ["v", name], "c": [body]}

    def branch(self, scope, depth):
        key = ()
        if self.chance(0.1):
            key = ["c", self.choice(["k1", "k2"])]
        return self.single(scope, depth - 1, key, directive=True)

    def conditional(self, scope, depth):
        usable = [d["n"] for d in self.defs if d["n"] not in scope["not"]]
        if self.chance(self.p.same * 0.5):
            # The same element with something else passed to it
            one = self.el(scope, depth - 1)
            two = self.el(scope, depth - 1, (), one["t"])
            return {"k": "if", "br": [[self.cond(scope), one]], "el": [two]}
        if usable and self.chance(self.p.same):
            # The same component with something else passed to it
            name = self.choice(usable)
            one, two = self.co(scope, depth, (), name), self.co(scope, depth, (), name)
            if self.chance(0.4):
                self.choice([one, two])["s"] = []
            if self.chance(0.2):
                self.choice([one, two])["ev"] = []
            return {"k": "if", "br": [[self.cond(scope), one]], "el": [two]}
        branches = [
            [self.cond(scope), self.branch(scope, depth)]
            for _ in range(self.choice([1, 1, 1, 2, 3]))
        ]
        otherwise = [self.branch(scope, depth)] if self.chance(0.4) else []
        return {"k": "if", "br": branches, "el": otherwise}

    def tx(self, scope):
        if self.p.schema is None and self.chance(self.p.typed):
            value = self.value_of(scope, ["@0", "@false", "@null", "", "@2.5", "@[]"])
            e = ["s", value]
            return {"k": "tx", "e": ["+", ["c", "t"], e] if self.chance(0.3) else e}
        return {"k": "tx", "e": self.expr(scope)}

    def nodes(self, scope, depth, some=False):
        result = []
        count = self.rng.randint(1 if some else 0, self.p.width)
        keys = ["s1", "s2", "s3", "s4", "s5"]
        for _ in range(count):
            roll = self.rng.random()
            if roll < self.p.text * 0.6 and self.p.text:
                if not (result and result[-1]["k"] == "tx"):
                    result.append(self.tx(scope))
            elif roll < 0.45 and depth > 0:
                result.append(self.loop(scope, depth))
            elif roll < 0.65 and depth > 0:
                result.append(self.conditional(scope, depth))
            else:
                key = ()
                if self.chance(0.15):
                    key = ["c", keys.pop()]
                result.append(self.single(scope, depth, key))
        return result

    # ---- components
    def component(self, name, idx):
        props = [n for n in SCALARS if self.chance(0.6)]
        props += [n for n in ("items",) if self.chance(0.5)]
        props += [n for n in ("rows", "row") if self.p.rows and self.chance(0.3)]
        slots = []
        if self.chance(self.p.slots):
            slots = self.rng.sample(["default", "head", "foot"], self.rng.randint(1, 2))
        slot_props = {}
        if self.chance(self.p.slot_props):
            slot_props = {s: [f"sp{idx}"] for s in slots}
        state = []
        if self.chance(self.p.state):
            state.append(["s1", self.choice("abc")])
            if self.chance(0.4):
                state.append(["mine", self.items()])
            if self.chance(0.3):
                state.append(["s2", self.choice("ab")])
            if self.chance(0.3):
                state.append(["zz", "a"])
        selfv = []
        if self.chance(self.p.names):
            names = ["x", "y", "s1", "n1", "n2"]
            for n in self.rng.sample(names, self.rng.randint(1, 3)):
                selfv.append([n, f"self-{n}"])
            for n in self.rng.sample(["x", "n1", "n2"], self.rng.randint(0, 2)):
                if not any(k == n for k, _ in state):
                    state.append([n, self.choice("abc")])
            for n in ("n1", "n2"):
                if self.chance(0.4):
                    props.append(n)
        prov = []
        if self.chance(self.p.inject):
            prov.append(["theme", self.choice([f"t{idx}", "", "@null"])])
            if self.chance(0.5):
                prov.append(["mode", f"m{idx}"])
            if self.chance(0.2):
                # Provided again: the last one counts
                prov.append(["theme", f"again{idx}"])
        dprov = []
        if self.chance(self.p.inject * 0.4):
            names = [n for n in props if n in SCALARS] + [k for k, _ in state if k == "s1"]
            if names:
                dprov.append([self.choice(["theme", "mode"]), ["v", self.choice(names)]])
        return {
            "n": name,
            "fn": "F",
            "props": props,
            "slots": slots,
            "slot_props": slot_props,
            "st": state,
            "self": selfv,
            "prov": prov,
            "dprov": dprov,
            "hw": [],
        }

    def scope_of(self, defn):
        always = ["items", "rows", "row"]
        names = [n for n in defn["props"] if n not in always]
        states = [k for k, _ in defn["st"] if k not in ("mine", "zz")]
        selfs = [k for k, _ in defn["self"]]
        lists = [n for n in defn["props"] if n == "items"]
        lists += [k for k, _ in defn["st"] if k == "mine"]
        globs = [k for k, v in self.glob if isinstance(v, str)]
        return {
            "s": sorted({*names, *states, *selfs, *globs}),
            "l": lists,
            "rl": [n for n in defn["props"] if n == "rows"],
            "r": [n for n in defn["props"] if n == "row"],
            "slots": defn["slots"],
            "slot_props": defn["slot_props"],
            "class": defn["fn"] == "F",
            "not": [],
        }

    def program(self):
        p = self.p
        self.glob = []
        self.flags = []
        # Names that are not passed are found in the module
        for name in SCALARS:
            self.glob.append([name, f"glob-{name}"])
        row = {"id": "g", "v": "g"}
        self.glob += [["items", ["g1"]], ["rows", [row]], ["row", row]]
        if p.names:
            self.glob += [["n1", "glob-n1"], ["n2", "glob-n2"], ["s1", "glob-s1"]]
        names = [f"C{i}" for i in range(p.comps)]
        fns = [f"F{i}" for i in range(p.fns)]
        self.defs = []
        # Components only use components that come later, so start with the last one
        order = names + fns
        tail = order[1:]
        self.rng.shuffle(tail)
        order = order[:1] + tail
        for idx in range(len(order) - 1, -1, -1):
            name = order[idx]
            self.mode = p.mode
            if p.mode == "mix":
                compiled = self.chance(0.4 if idx == 0 else 0.6)
                self.mode = "cgx" if compiled and name in names else "h"
            defn = self.component(name, idx)
            defn["mode"] = self.mode
            if name in fns:
                for k in ("st", "self", "prov", "dprov"):
                    defn[k] = []
                defn["fn"] = "T"
                defn["slots"] = defn["slots"] if p.mode == "h" else []
            scope = self.scope_of(defn)
            if name in fns:
                # Function components only know about their props
                scope["s"] = [n for n in scope["s"] if n in defn["props"]]
                scope["s"] = []
            if idx == 0:
                pass
            depth = p.depth if idx == 0 else max(1, p.depth - 1)
            usable = [d for d in self.defs if d["fn"] == "F"]
            if name in names and usable and self.chance(p.hoc):
                tm = self.co(scope, depth, name=self.choice(usable)["n"])
            elif self.chance(p.virtual * 0.6) and p.mode == "h":
                tm = self.vt(scope, depth)
                tm["c"].insert(
                    self.rng.randint(0, len(tm["c"])), self.el(scope, depth - 1)
                )
            else:
                tm = self.el(scope, depth, (), self.choice(p.elements or p.leaves))
            if tm["k"] in ("el", "vt") and tm["t"] not in p.leaves:
                for name in scope["slots"]:
                    # Most slots are rendered somewhere
                    if f"'n': '{name}'" not in repr(tm) and self.chance(0.8):
                        node = self.sl(dict(scope, slots=[name]), 1)
                        tm["c"].insert(self.rng.randint(0, len(tm["c"])), node)
            defn["tm"] = tm
            self.defs.insert(0, defn)
        if p.hooks:
            for defn in self.defs:
                if defn["fn"] == "T":
                    continue
                if self.chance(p.hooks):
                    self.hook_writes(defn)
                if self.chance(p.hookrender):
                    self.hook_render(defn)

    def size(self, node, slots):
        """Estimate of the number of nodes that are described by a template node."""
        kind = node["k"]
        if kind == "tx":
            return 1
        if kind in ("el", "vt"):
            return 1 + sum(self.size(c, slots) for c in node["c"])
        if kind == "sl":
            if node["n"] in slots:
                return 1 + slots[node["n"]]
            return 1 + sum(self.size(c, slots) for c in node["c"])
        if kind == "if":
            branches = [b for _, b in node["br"]] + node["el"]
            return max(self.size(b, slots) for b in branches)
        if kind == "fo":
            return 4 * self.size(node["c"][0], slots)
        defn = next(d for d in self.defs if d["n"] == node["t"])
        filled = {
            name: sum(self.size(c, slots) for c in body) for name, body, _ in node["s"]
        }
        return 1 + self.size(defn["tm"], filled)

    def callback(self, kinds=("cb", "cb", "none", "x")):
        """The callback of render might write to the state of the root."""
        kind = self.choice(kinds)
        name = self.choice("xyz") if self.chance(self.p.hooks) else ""
        if kind == "x":
            return f"cb={name}={self.scalar(name)}" if name else "cb"
        return kind

    def hook_render(self, defn):
        node = self.root_node(again=True, kinds=("co", "fn"))
        callback = self.callback()
        defn["hw"].append([self.choice("MMU"), "render", callback, "*", node])

    def hook_writes(self, defn):
        when = self.choice("MMU")
        if any(k == "s1" for k, _ in defn["st"]) and self.chance(0.6):
            new = self.choice("abc")
            old = "*" if when == "M" else self.choice([c for c in "abc" if c != new])
            defn["hw"].append([when, "own", "s1", old, new])
        else:
            name = self.choice(["x", "y"])
            new = self.scalar(name)
            old = self.choice([c for c in SCALARS[name] if c != new])
            defn["hw"].append([when, "root", name, old, new])
        if when == "B":
            defn["hw"].pop()

    # ---- histories
    def root_node(self, again=False, kinds=None):
        kind = self.choice(kinds or self.p.root)
        if kind == "el":
            comps = [d for d in self.defs if d["fn"] == "F"]
            inner = {
                "s": [], "l": [], "rl": [], "r": [], "slots": [], "slot_props": {},
                "class": False, "not": [],
            }  # fmt: skip
            child = self.co(inner, 1, name=self.choice(comps)["n"])
            for attr in child["a"]:
                attr[1] = self.constant(attr[0])
            child["s"] = []
            return {
                "k": "el", "t": "main", "key": [], "a": [],
                "b": [] if again else [0, ["R"]], "ev": [],
                "c": [child] + [{"k": "tx", "e": ["c", "text"]}] * (self.p.text > 0),
            }  # fmt: skip
        names = [d["n"] for d in self.defs if d["fn"] == ("F" if kind == "co" else "T")]
        name = names[0] if names and self.chance(0.8) else None
        name = name or (names or [self.defs[0]["n"]])[-1]
        return {
            "k": "co", "t": name, "key": [], "a": [], "b": [0, ["R"]], "ev": [], "s": [],
        }  # fmt: skip

    def constant(self, name):
        if name == "items":
            return ["c", self.items()]
        if name == "rows":
            return ["c", self.rows()]
        if name == "row":
            return ["c", self.row("c")]
        return ["c", self.scalar(name)]

    def list_op(self, rows=False):
        self.fresh += 1
        if rows:
            new = self.row(f"r{self.fresh}")
            return self.choice(
                [
                    ["append", new],
                    ["insert", f"@{self.rng.randint(0, 4)}", new],
                    ["pop", f"@{self.rng.randint(0, 4)}"],
                    ["reverse"],
                    ["field", f"@{self.rng.randint(0, 4)}", "v", self.choice("abc")],
                    ["field", f"@{self.rng.randint(0, 4)}", "v", self.choice("abc")],
                    ["item", f"@{self.rng.randint(0, 4)}", new],
                    ["clear"],
                ]
            )
        new = f"n{self.fresh}"
        return self.choice(
            [
                ["append", new],
                ["insert", f"@{self.rng.randint(0, 4)}", new],
                ["pop", f"@{self.rng.randint(0, 4)}"],
                ["reverse"],
                ["assign", self.items()],
                ["item", f"@{self.rng.randint(0, 4)}", new],
                ["clear"],
            ]
        )

    def write(self):
        kinds = ["set"] * 4
        if self.p.mutations:
            kinds += ["mut"] * 3
        if self.p.instates:
            kinds += ["iset"] * 3 + ["imut"]
        kind = self.choice(kinds)
        if kind == "set":
            name = self.choice(["x", "y", "z", "items", "items", "rows", "flag", "flag"])
            if name == "flag":
                name = self.choice(self.flags or ["x"])
            return ["set", name, self.constant(name)[1]]
        if kind == "mut":
            rows = self.chance(0.4)
            return ["mut", "rows" if rows else "items", self.list_op(rows)]
        if kind == "iset":
            names = ["s1", "s1", "s2"]
            if self.p.names:
                names += ["x", "n1", "n2"]
            return ["iset", ["", self.rng.randint(0, 9)], self.choice(names),
                    self.choice("abc")]  # fmt: skip
        return ["imut", ["", self.rng.randint(0, 9)], "mine", self.list_op()]

    def step(self):
        p = self.p
        roll = self.rng.random()
        for option in ("emit", "dispatch", "rerender", "quiet", "propwrite"):
            if roll < p[option]:
                break
            roll -= p[option]
        else:
            return self.write()
        nested = [self.write() for _ in range(self.choice([0, 1, 1, 2]))]
        if self.chance(p.hookrender * 0.5):
            node = self.root_node(again=True, kinds=("co", "fn"))
            nested.append(["render", node, self.callback()])
        args = [f"a{self.rng.randint(1, 9)}" for _ in range(self.choice([0, 1]))]
        if option == "emit" and self.chance(0.4):
            args.append(f"extra=b{self.rng.randint(1, 9)}")
        if option == "emit":
            pick = ["", self.rng.randint(0, 9)]
            return ["emit", pick, self.choice(["done", "change"]), args, nested]
        if option == "dispatch":
            return ["dispatch", self.rng.randint(0, 30), args, nested]
        if option == "rerender":
            return ["render", self.root_node(again=True), self.callback()]
        if option == "quiet":
            return self.choice(
                [
                    ["quiet", ["iset", ["", self.rng.randint(0, 9)], "zz",
                               self.choice("abc")]],
                    ["quiet", ["set", "zz", self.choice("abc")]],
                ]
            )  # fmt: skip
        return ["propwrite", ["", self.rng.randint(0, 9)],
                self.choice(["x", "y", "items"])]  # fmt: skip

    def scenario(self, ident):
        p = self.p
        for _ in range(20):
            self.program()
            if self.size(self.defs[0]["tm"], {}) <= p.size:
                break
        else:
            self.p = p = Profile({**p, "depth": 2, "width": 2, "hoc": 0.0})
            self.program()
        root = self.root_node()
        store = [[n, self.scalar(n)] for n in SCALARS]
        store += [["items", self.items()], ["rows", self.rows()]]
        store += [["row", self.row("root")], ["zz", "a"]]
        if root["k"] == "co" and self.chance(0.08):
            store = []
        if root["k"] == "el" and root["b"]:
            # Attributes are strings
            store = [[k, v] for k, v in store if isinstance(v, str)]
        steps = [["render", root, self.callback(("cb", "cb", "x"))]]
        if p.loop == "async":
            steps.append(["idle", self.slice_step()])
        for _ in range(p.steps):
            step = self.step()
            if root["k"] == "el" and not self.fits_el_root(step):
                continue
            steps.append(step)
            if p.loop == "async":
                if step[0] not in ("quiet", "dispatch", "emit") and self.chance(p.multi):
                    continue
                if self.chance(p.weak):
                    steps.append(["tick", self.rng.randint(1, 6), self.slice_step()])
                    continue
                steps.append(["idle", self.slice_step()])
        if p.loop == "async":
            steps.append(["idle", self.slice_step()])
        return {
            "id": ident,
            "mode": p.mode,
            "loop": p.loop,
            "backend": p.backend,
            "world": p.world,
            "snap": p.snap,
            "odd": self.chance(0.3),
            "homonyms": self.chance(0.3),
            "style": self.rng.randint(0, 1000),
            "plain": any(s[0] == "render" and s[1]["k"] == "el" for s in steps),
            "defs": self.defs,
            "glob": self.glob,
            "rootst": store,
            "steps": steps,
        }

    def fits_el_root(self, step):
        text = repr(step)
        return "'items'" not in text and "'rows'" not in text and step[0] != "render"

    def slice_step(self):
        # 20 ms: one unit of work for every slice; 0: everything in one slice
        return self.choice([20_000_000, 20_000_000, 8_000_000, 5_000_000, 2_000_000, 0])


def scenarios(seed, count, **options):
    result = []
    for n in range(count):
        rng = random.Random(f"{seed}-{sorted(options.items())!r}-{n}")
        opts = {k: (rng.choice(v) if isinstance(v, Choice) else v)
                for k, v in options.items()}  # fmt: skip
        result.append(Gen(rng, profile(**opts)).scenario(n))
    return result


class Choice(tuple):
    """One of the items is chosen for every scenario."""
