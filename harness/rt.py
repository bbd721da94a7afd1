"""Runtime of the harness: runs scenarios against the real code and records
everything that can be observed of it, as histories for spec/Trace.tla.

Only public interfaces of collagraph are used: `Collagraph.render`,
`create_element`, `Component`, `Renderer` subclasses and `cgx.load_from_string`.
"""

import asyncio
import copy
from functools import partial
import json
import os
import resource
import signal
import sys
import time
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.modules["cgrt"] = sys.modules[__name__]

# ---------------------------------------------------------------- fake clock


class Clock:
    now = 1_000_000_000
    step = 0
    active = False


def faked(real, scale):
    def clock():
        # Only collagraph is deceived, so not the toolkits and the event loop
        caller = sys._getframe(1).f_globals.get("__name__", "")
        if not Clock.active or not caller.startswith("collagraph"):
            return real()
        Clock.now += Clock.step
        return Clock.now * scale if scale != 1 else Clock.now

    return clock


time.perf_counter_ns = faked(time.perf_counter_ns, 1)
time.perf_counter = faked(time.perf_counter, 1e-9)
time.monotonic_ns = faked(time.monotonic_ns, 1)
time.monotonic = faked(time.monotonic, 1e-9)


# A stand-in for the `js` module of pyodide, before collagraph is imported
class JsNode:
    """The part of the DOM API that is used by the DomRenderer."""

    def __init__(self, type, text=None):
        self.nodeName = type
        self.nodeValue = text
        self.parentNode = None
        self.childNodes = []
        self.attributes = {}
        self.listeners = []

    def detach(self):
        if self.parentNode is not None:
            self.parentNode.childNodes = [
                c for c in self.parentNode.childNodes if c is not self
            ]
            self.parentNode = None

    def insertBefore(self, el, anchor):
        if anchor is not None and anchor.parentNode is not self:
            raise ValueError("NotFoundError: anchor is not a child of this node")
        if el is anchor:
            return el
        el.detach()
        idx = len(self.childNodes)
        if anchor is not None:
            idx = [c is anchor for c in self.childNodes].index(True)
        self.childNodes.insert(idx, el)
        el.parentNode = self
        return el

    def appendChild(self, el):
        return self.insertBefore(el, None)

    def removeChild(self, el):
        if el.parentNode is not self:
            raise ValueError("NotFoundError: not a child of this node")
        el.detach()
        return el

    @property
    def textContent(self):
        return self.nodeValue

    @textContent.setter
    def textContent(self, value):
        self.nodeValue = str(value)

    def setAttribute(self, name, value):
        self.attributes[name] = value

    def removeAttribute(self, name):
        self.attributes.pop(name, None)

    def addEventListener(self, type, listener):
        if (type, listener) not in self.listeners:
            self.listeners.append((type, listener))

    def removeEventListener(self, type, listener):
        if (type, listener) in self.listeners:
            self.listeners.remove((type, listener))


def install_js():
    if "js" in sys.modules:
        return
    js = types.ModuleType("js")
    document = types.SimpleNamespace(
        createElement=lambda type: JsNode(type),
        createTextNode=lambda text: JsNode("TEXT_ELEMENT", text),
    )
    js.window = types.SimpleNamespace(document=document)
    sys.modules["js"] = js


install_js()
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")

import collagraph as cg  # noqa: E402
from collagraph import Collagraph, Component, EventLoopType, h  # noqa: E402
from collagraph.renderers import Renderer  # noqa: E402
from observ import reactive, to_raw  # noqa: E402

CTX = None


# ------------------------------------------------------------------ encoding
def enc(value):
    """Values in props and state: strings, lists and records stay as they are."""
    if isinstance(value, str):
        return value
    if isinstance(value, (list, tuple)):
        return [enc(v) for v in value]
    if isinstance(value, dict):
        return {k: enc(v) for k, v in value.items()}
    return enc_attr(value)


def enc_attr(value):
    """Attributes of elements are always encoded as strings."""
    if isinstance(value, str):
        return value
    value = enc_tuple(to_raw(value))
    try:
        return "@" + json.dumps(value, sort_keys=True, default=enc_enum)
    except (TypeError, ValueError):
        return f"@<{type(value).__name__}>"


def enc_tuple(value):
    """Some attributes of the user interface toolkits must be tuples."""
    if isinstance(value, tuple):
        return {"$t": [enc_tuple(v) for v in value]}
    if isinstance(value, list):
        return [enc_tuple(v) for v in value]
    if isinstance(value, dict):
        return {k: enc_tuple(v) for k, v in value.items()}
    return value


def enc_enum(value):
    import backends

    return backends.encode(value)


def dec_object(obj):
    if "$qt" in obj:
        import backends

        return backends.decode(obj["$qt"])
    if "$t" in obj:
        return tuple(obj["$t"])
    return {int(k) if k.isdigit() else k: v for k, v in obj.items()}


def dec(value):
    if isinstance(value, str):
        if value.startswith("@"):
            return json.loads(value[1:], object_hook=dec_object)
        return value
    if isinstance(value, list):
        return [dec(v) for v in value]
    if isinstance(value, dict):
        return {k: dec(v) for k, v in value.items()}
    return value


def pairs(mapping):
    return [[k, enc(v)] for k, v in mapping.items()]


# ------------------------------------------------------------------- context
class Ctx:
    """Everything that is recorded for one scenario."""

    def __init__(self, scenario):
        self.scenario = scenario
        self.log = []
        self.elements = {}  # id(el) -> (number, el)
        self.next_el = 1
        self.uid = 0
        self.instances = {}
        self.live = []
        self.handlers = {}
        self.probing = None
        self.in_handler = None
        self.in_hook = 0
        self.in_callback = False
        self.objects = {}
        self.errors = []
        self.hook_budget = 6

    def new_element(self, el):
        number = self.next_el
        self.next_el += 1
        self.elements[id(el)] = (number, el)
        return number

    def eid(self, el):
        if el is None:
            return 0
        if id(el) not in self.elements:
            return 999999
        return self.elements[id(el)][0]

    def new_uid(self, instance):
        self.uid += 1
        self.instances[self.uid] = instance
        return self.uid

    def hid(self, handler):
        """Number of a handler object. Bound methods are compared by value."""
        for number, other in self.handlers.items():
            if other is handler or (
                isinstance(handler, types.MethodType) and other == handler
            ):
                return number
        number = len(self.handlers) + 1
        self.handlers[number] = handler
        return number

    def fire(self, label, args=(), uid=0, kwargs=None):
        if self.probing is not None:
            self.probing.append([label, uid])
            return
        given = [str(a) for a in args]
        given += [f"{k}={v}" for k, v in (kwargs or {}).items()]
        self.log.append(["F", label, uid, ",".join(given)])
        if self.in_handler:
            writes, self.in_handler = self.in_handler, None
            for write in writes:
                self.perform(write)

    def hook(self, kind, instance):
        anc = []
        parent = instance.parent
        while parent is not None:
            anc.append(parent.uid)
            parent = parent.parent
        self.log.append(
            [kind, instance.uid, instance.DEF["n"], self.eid(instance.element), anc,
             self.hook_props(kind, instance), self.hook_emits(instance)]
        )
        if kind == "M":
            self.live.append(instance.uid)
        elif kind == "B" and instance.uid in self.live:
            self.live.remove(instance.uid)
        self.in_hook += 1
        try:
            for when, target, key, old, new in instance.DEF.get("hw", ()):
                if when != kind:
                    continue
                if target == "render":
                    self.hook_budget -= 2
                    if self.hook_budget >= 0:
                        self.runner.render(new, key, hook=1)
                    continue
                uid = instance.uid if target == "own" else 0
                if uid and self.scenario.get("family") == "sched":
                    # When did the instance get the state, in one of the passes
                    # of the segment?
                    if uid not in self.pickable():
                        continue
                store = instance.state if target == "own" else self.root
                if key not in store or old not in ("*", store[key]) or store[key] == new:
                    continue
                self.hook_budget -= 1
                if self.hook_budget < 0:
                    continue
                self.write(uid, key, new)
        finally:
            self.in_hook -= 1

    def hook_props(self, kind, instance):
        """The props that are seen in a hook. Lists might be changed by now."""
        props = to_raw(instance.props).items()
        return [
            [k, enc(v)]
            for k, v in props
            if not callable(v) and (kind != "B" or isinstance(v, str))
        ]

    def hook_emits(self, instance):
        """Which handlers are called for events in a hook?"""
        result = []
        for event in ("done", "change"):
            before, self.probing = self.probing, []
            try:
                instance.emit(spelling(event))
            finally:
                if self.probing:
                    result.append([event, self.probing])
                self.probing = before
        return result

    # ---- writes
    def store(self, uid):
        return self.instances[uid].state if uid else self.root

    def log_write(self, uid, key, value):
        how = 2 if self.in_callback else 1 if self.in_hook else 0
        self.in_callback = False
        self.log.append(["W", uid, key, enc(value), how])

    def write(self, uid, key, value):
        value = dec(value)
        if not isinstance(value, str) and to_raw(self.store(uid).get(key)) == value:
            # The observ package does not notify of equal objects that are replaced
            return
        self.log_write(uid, key, value)
        self.store(uid)[key] = copy.deepcopy(value)

    def mutate(self, uid, key, op):
        """Change a list in place: op is [name, args...]."""
        store = self.store(uid)
        if key not in store:
            return
        future = copy.deepcopy(to_raw(store[key]))
        if not apply_list_op(future, op):
            return
        self.log_write(uid, key, future)
        apply_list_op(store[key], op)

    def perform(self, write):
        kind = write[0]
        if kind == "set":
            self.write(0, write[1], write[2])
        elif kind == "mut":
            self.mutate(0, write[1], write[2])
        elif kind == "iset":
            uid = self.pick(write[1])
            if uid and write[2] in self.instances[uid].state:
                self.write(uid, write[2], write[3])
        elif kind == "imut":
            uid = self.pick(write[1])
            if uid and write[2] in self.instances[uid].state:
                self.mutate(uid, write[2], write[3])
        elif kind == "render":
            self.runner.render(write[1], write[2])

    def pick(self, pick):
        name, nth = pick
        candidates = [
            uid
            for uid in self.pickable()
            if not name or self.instances[uid].DEF["n"] == name
        ]
        return candidates[nth % len(candidates)] if candidates else 0

    def pickable(self):
        return [uid for uid in self.live if self.restrict is None or uid in self.restrict]

    restrict = None


def apply_list_op(items, op):
    name, *args = op
    size = len(items)
    args = dec(args)
    if name == "append":
        items.append(copy.deepcopy(args[0]))
    elif name == "insert":
        items.insert(args[0] % (size + 1), copy.deepcopy(args[1]))
    elif size == 0:
        return False
    elif name == "pop":
        items.pop(args[0] % size)
    elif name == "reverse":
        items.reverse()
    elif name == "swap":
        i, j = args[0] % size, args[1] % size
        items[i], items[j] = copy.deepcopy(items[j]), copy.deepcopy(items[i])
        raise AssertionError("swap is not atomic")
    elif name == "rotate":
        items[:] = [copy.deepcopy(to_raw(i)) for i in (items[-1:] + items[:-1])]
    elif name == "assign":
        items[:] = copy.deepcopy(args[0])
    elif name == "item":
        items[args[0] % size] = copy.deepcopy(args[1])
    elif name == "field":
        items[args[0] % size][args[1]] = args[2]
    elif name == "clear":
        items.clear()
    return True


# ------------------------------------------------------------------ handlers
class HandlerObject:
    def __init__(self, label):
        self.label = label

    def __call__(self, *args, **kw):
        CTX.fire(self.label, args, 0, kw)

    def run(self, *args, **kw):
        CTX.fire(self.label, args, 0, kw)


def fire_label(label, *args, **kw):
    CTX.fire(label, args, 0, kw)


def fire_kw(*args, label=None, **kw):
    CTX.fire(label, args, 0, kw)


def split_args(args):
    """Arguments of the form k=v are keyword arguments."""
    return (
        [a for a in args if "=" not in a],
        dict(a.split("=") for a in args if "=" in a),
    )


def make_handler(kind, label):
    if kind == "clo":
        return lambda *a, **k: CTX.fire(label, a, 0, k)
    if kind == "def":
        return lambda *a, _l=label, **k: CTX.fire(_l, a, 0, k)
    if kind == "pos":
        return lambda a="", _l=label, **k: CTX.fire(
            _l, (a,) if a != "" else (), 0, k
        )
    if kind == "par":
        return partial(fire_label, label)
    if kind == "pkw":
        return partial(fire_kw, label=label)
    if kind == "const":
        return eval(f"lambda *a, **k: CTX.fire({label!r}, a, 0, k)", globals())
    if kind == "nest":
        inner = lambda: label  # noqa: E731
        return lambda *a, **k: CTX.fire(inner(), a, 0, k)
    if kind == "self":

        def handler(*a, **k):
            assert handler is not None
            CTX.fire(label, a, 0, k)

        return handler
    if kind == "meth":
        # Bound method of an object that is not a component
        return CTX.objects.setdefault(label, HandlerObject(label)).run
    if kind == "same":
        # The very same function for the same label
        return CTX.objects.setdefault(("same", label), partial(fire_label, label))
    if kind == "obj":
        return HandlerObject(label)
    raise ValueError(kind)


# ---------------------------------------------------------------- components
class Base(Component):
    DEF = None

    def __init__(self, props=None, parent=None):
        super().__init__(props, parent)
        self.uid = CTX.new_uid(self)
        for key, value in self.DEF["st"]:
            self.state[key] = copy.deepcopy(dec(value))
        for key, value in self.DEF["prov"]:
            self.provide(key, dec(value))

    def provide_again(self):
        for key, e in self.DEF.get("dprov", ()):
            self.provide(key, ev(e, Env(CTX, inst=self)))

    def injected(self, key, default):
        """None is shown as text."""
        value = self.inject(key, default)
        return "@null" if value is None else value

    @property
    def chain(self):
        """The uids of the instance and its ancestors."""
        result = [self.uid]
        parent = self.parent
        while parent is not None:
            result.append(parent.uid)
            parent = parent.parent
        return tuple(result)

    def mounted(self):
        CTX.hook("M", self)

    def updated(self):
        CTX.hook("U", self)

    def before_unmount(self):
        CTX.hook("B", self)

    def render(self):
        CTX.log.append(["R", self.uid])
        self.provide_again()
        nodes = build(self.DEF["tm"], Env(CTX, inst=self))
        return nodes[0]

    # Helpers that are used in the templates of cgx files
    def meth(self, *args, **kw):
        CTX.fire("meth", args, self.uid, kw)

    def mkh(self, kind, label):
        return make_handler(kind, label)

    def fire_now(self, label, args, kwargs):
        CTX.fire(label, args, 0, kwargs)


class Env:
    """Environment for hand written components."""

    def __init__(self, ctx, inst=None, props=None, slots=None, sc=None):
        self.ctx = ctx
        self.inst = inst
        self.own_props = props
        self.slots = slots
        self.sc = sc or {}

    def extend(self, names):
        return Env(self.ctx, self.inst, self.own_props, self.slots, {**self.sc, **names})

    @property
    def props(self):
        return self.inst.props if self.inst is not None else self.own_props

    def look(self, name):
        if name in self.sc:
            return self.sc[name]
        if name in self.props:
            return self.props[name]
        if self.inst is not None:
            if name in self.inst.state:
                return self.inst.state[name]
            for key, value in self.inst.DEF["self"]:
                if key == name:
                    return dec(value)
        return self.ctx.globals.get(name, "@unknown")

    def slot(self, name, props=None):
        if self.inst is not None:
            return self.inst.render_slot(name, props)
        return cg.render_slot(name, props, self.slots or {})


def ev(e, env):
    op = e[0]
    if op == "c":
        return copy.deepcopy(dec(e[1]))
    if op == "v":
        return env.look(e[1])
    if op == "+":
        return ev(e[1], env) + ev(e[2], env)
    if op == "=":
        return "T" if ev(e[1], env) == ev(e[2], env) else "F"
    if op == "!":
        return "F" if ev(e[1], env) == "T" else "T"
    if op == "f":
        return ev(e[1], env)[e[2]]
    if op == "j":
        return env.inst.injected(e[1], dec(e[2]))
    if op == "R":
        return env.props
    if op == "m":
        return {k: dec(v) for k, v in e[2]}.get(ev(e[1], env), dec(e[3]))
    if op == "s":
        return str(ev(e[1], env))
    if op == "h":
        return "F" if env.slot(e[1]) == () else "T"
    raise ValueError(e)


def handler_for(kind, e, env):
    if kind == "bound":
        return env.inst.meth
    if kind == "dyn":
        return lambda *a, **k: CTX.fire(ev(e, env), a, 0, k)
    return make_handler(kind, ev(e, env))


def props_of(t, env, own=False):
    props = {}
    if t["key"]:
        props["key"] = ev(t["key"], env)
    cut = t["b"][0] if t["b"] else len(t["a"])
    for name, e in t["a"][:cut]:
        props[name] = ev(e, env)
    if t["b"]:
        bound = ev(t["b"][1], env)
        if not (props or t["a"] or t["ev"] or (own and env.inst is not None)):
            # The binding itself is passed on
            return bound
        props.update(bound)
    for name, e in t["a"][cut:]:
        props[name] = ev(e, env)
    for name, kind, e in t["ev"]:
        spelled = name if in_cgx() else spelling(name)
        props[f"on_{spelled}"] = handler_for(kind, e, env)
    if own and env.inst is not None:
        props["own"] = env.inst.chain
    return props


def build_all(ts, env):
    return [node for t in ts for node in build(t, env)]


def in_cgx():
    return CTX.scenario["mode"] in ("cgx", "mix")


def is_compiled(defn):
    return defn.get("mode", CTX.scenario["mode"]) == "cgx"


def alternative(number):
    """Whether to write the same thing in another way in this scenario."""
    return CTX.scenario.get("style", 0) % number == 1


def spelling(event):
    """Names of events of components have upper case letters in some scenarios."""
    if event in ("done", "change") and alternative(4):
        return event[:2] + event[2:].capitalize()
    return event


def build(t, env):
    kind = t["k"]
    if kind == "el":
        return [h(t["t"], props_of(t, env, own=True), *build_all(t["c"], env))]
    if kind == "tx":
        # Text in a string is turned into an element when it is a child
        value = ev(t["e"], env)
        if alternative(2) and isinstance(value, str):
            return [value]
        return [cg.create_element("TEXT_ELEMENT", {"content": value})]
    if kind == "vt":
        props = {"key": ev(t["key"], env)} if t["key"] else {}
        if not props and alternative(3):
            props = None
        return [h(t["t"], props, *build_all(t["c"], env))]
    if kind == "co":
        def slot(body, raw="F"):
            def content(props):
                nodes = build_all(body, env.extend(props) if props else env)
                if raw == "T":
                    nodes = [cg.create_element("TEXT_ELEMENT", {"content": n})
                             if isinstance(n, str) else n for n in nodes]  # fmt: skip
                    return nodes[0] if len(nodes) == 1 else nodes
                # In templates, the content of a slot is a template element
                return h("template", {}, *nodes) if in_cgx() else nodes

            return content

        slots = {name: slot(*body) for name, *body in t["s"]}
        args = [slots] if slots else []
        if list(slots) == ["default"] and alternative(3):
            # A function is the content of the default slot
            args = [slots["default"]]
        return [h(CTX.types[t["t"]], props_of(t, env), *args)]
    if kind == "sl":
        if t["w"] == "T":
            return [h("slot", {}, *build({**t, "w": "F"}, env))]
        result = env.slot(t["n"], {n: ev(e, env) for n, e in t["a"]})
        if result == ():
            return [h("slot", {}, *build_all(t["c"], env))]
        return list(result) if in_cgx() else [h("template", {}, *result)]
    if kind == "if":
        for cond, node in t["br"]:
            if ev(cond, env) == "T":
                return build(node, env)
        return build(t["el"][0], env) if t["el"] else []
    if kind == "fo":
        nodes = []
        for idx, item in enumerate(ev(t["e"], env)):
            names = {t["v"]: item}
            if t["i"]:
                names[t["i"][0]] = str(idx)
            nodes.extend(build(t["c"][0], env.extend(names)))
        return nodes
    raise ValueError(kind)


def function_component(defn):
    def render(props, slots=None):
        CTX.log.append(["R", 0])
        return build(defn["tm"], Env(CTX, props=props, slots=slots))[0]

    render.__name__ = defn["n"]
    return render


# -------------------------------------------------------------- cgx printing
def px(e):
    """Expression as python source, without double quotes."""
    op = e[0]
    if op == "c":
        value = repr(dec(e[1]))
        assert '"' not in value, value
        return value
    if op == "v":
        return e[1]
    if op == "+":
        return f"({px(e[1])} + {px(e[2])})"
    if op == "=":
        return f"({px(e[1])} == {px(e[2])})"
    if op == "!":
        return f"(not {px(e[1])})"
    if op == "f":
        return f"{px(e[1])}['{e[2]}']"
    if op == "j":
        return f"injected('{e[1]}', {dec(e[2])!r})"
    if op == "R":
        return "props"
    if op == "m":
        pairs = {k: dec(v) for k, v in e[2]}
        return f"{pairs!r}.get({px(e[1])}, {dec(e[3])!r})"
    if op == "s":
        return f"str({px(e[1])})"
    raise ValueError(e)


class Printer:
    """Prints templates as cgx source. `style` selects between the notations."""

    def __init__(self, style):
        self.style = style
        self.count = 0

    def alt(self, *options):
        self.count += 1
        return options[(self.style + self.count * 7) % len(options)]

    def attrs(self, t, own):
        result = []

        def attr(name, e):
            if e[0] == "c" and isinstance(e[1], str) and not e[1].startswith("@"):
                options = [f'{name}="{e[1]}"', f':{name}="{px(e)}"']
                result.append(self.alt(*options))
            elif e[0] == "c" and e[1] == "@true":
                result.append(self.alt(name, f':{name}="True"'))
            else:
                result.append(self.alt(f':{name}="{px(e)}"', f'v-bind:{name}="{px(e)}"'))

        if t["key"]:
            attr("key", t["key"])
        cut = t["b"][0] if t["b"] else len(t["a"])
        for name, e in t["a"][:cut]:
            attr(name, e)
        if t["b"]:
            result.append(f'v-bind="{px(t["b"][1])}"')
        for name, e in t["a"][cut:]:
            attr(name, e)
        for name, kind, e in t["ev"]:
            prefix = self.alt("@", "v-on:")
            if kind == "bound":
                value = "meth"
            elif kind == "dyn":
                value = f"lambda *a, **k: fire_now({px(e)}, a, k)"
            else:
                value = f"mkh('{kind}', {px(e)})"
            result.append(f'{prefix}{spelling(name)}="{value}"')
        if own:
            result.append(':own="chain"')
        return "".join(f" {a}" for a in result)

    def children(self, ts):
        return "".join(self.node(t) for t in ts)

    def node(self, t, directive=""):
        kind = t["k"]
        if kind == "tx":
            e = t["e"]
            assert not directive
            return e[1] if e[0] == "c" else self.text(e)
        if kind == "el":
            return self.tag(
                t["t"], directive + self.attrs(t, own=True), self.children(t["c"])
            )
        if kind == "vt":
            key = {"key": t["key"], "a": [], "b": [], "ev": []}
            return self.tag(
                t["t"], directive + self.attrs(key, own=False), self.children(t["c"])
            )
        if kind == "co":
            inner = ""
            for name, body, *_ in t["s"]:
                if name == "default" and self.alt(True, False):
                    inner += self.children(body)
                else:
                    slot = self.alt(f"#{name}", f"v-slot:{name}")
                    if name == "default":
                        slot = self.alt("v-slot", "#default", "v-slot:default")
                    inner += f"<template {slot}>{self.children(body)}</template>"
            return self.tag(t["t"], directive + self.attrs(t, own=False), inner)
        if kind == "sl":
            name = "" if t["n"] == "default" else f' name="{t["n"]}"'
            return self.tag("slot", directive + name, self.children(t["c"]))
        if kind == "if":
            result = ""
            for idx, (cond, node) in enumerate(t["br"]):
                word = "v-else-if" if idx else "v-if"
                result += self.node(node, f' {word}="{px(cond)}"')
            if t["el"]:
                result += self.node(t["el"][0], " v-else")
            return result
        if kind == "fo":
            assert not directive
            if t["i"]:
                loop = self.alt(
                    f"{t['i'][0]}, {t['v']} in enumerate({px(t['e'])})",
                    f"({t['i'][0]}, {t['v']}) in enumerate({px(t['e'])})",
                )
                raise AssertionError("index is a number in cgx")
            loop = f"{t['v']} in {px(t['e'])}"
            return self.node(t["c"][0], f' v-for="{loop}"')
        raise ValueError(kind)

    def text(self, e):
        if e[0] == "s":
            return self.text_part(e)
        if e[0] == "+" and self.alt(True, False):
            return self.text_part(e[1]) + self.text_part(e[2])
        return "{{ " + px(e) + " }}"

    def text_part(self, e):
        if e[0] == "c" and isinstance(e[1], str) and e[1].strip() == e[1] != "":
            return e[1]
        if e[0] == "s":
            return "{{ " + px(e[1]) + " }}"
        return "{{ " + px(e) + " }}"

    def tag(self, name, attrs, inner):
        if not inner and self.alt(True, False):
            return f"<{name}{attrs} />"
        return f"<{name}{attrs}>{inner}</{name}>"


def cgx_source(defn, style=0):
    body = Printer(style).node(defn["tm"])
    return (
        f"<template>\n{body}\n</template>\n\n"
        f"<script>\nfrom cgrt import Base\n\n\nclass {defn['n']}(Base):\n    pass\n</script>\n"
    )


def logged_render(compiled):
    def render(self):
        CTX.log.append(["R", self.uid])
        self.provide_again()
        return compiled(self)

    return render


DEFINITION = ("n", "fn", "tm", "st", "self", "prov")


def make_odd(cls):
    """Instances that are falsy."""
    cls.__len__ = lambda self: 0


def make_types(ctx, scenario):
    ctx.types = {}
    namespaces = []
    for idx, defn in enumerate(scenario["defs"]):
        if defn["fn"] == "T":
            ctx.types[defn["n"]] = function_component(defn)
        elif is_compiled(defn):
            source = cgx_source(defn, scenario.get("style", 0) + idx)
            cls, namespace = cg.cgx.cgx.load_from_string(source)
            namespaces.append(namespace)
            cls.render = logged_render(cls.render)
            cls.DEF = defn
            for key, value in defn["self"]:
                setattr(cls, key, dec(value))
            ctx.types[defn["n"]] = cls
        else:
            attrs = {key: dec(value) for key, value in defn["self"]}
            ctx.types[defn["n"]] = type(defn["n"], (Base,), {"DEF": defn, **attrs})
    if scenario.get("odd"):
        for name, cls in ctx.types.items():
            if isinstance(cls, type):
                make_odd(cls)
    if scenario.get("homonyms"):
        # Different components with the same name
        for cls in ctx.types.values():
            cls.__name__ = cls.__qualname__ = "Comp"
    ctx.globals = {key: dec(value) for key, value in scenario["glob"]}
    for namespace in namespaces:
        namespace.update(ctx.types)
        namespace.update(ctx.globals)


# ----------------------------------------------------------------- renderers
# Attributes that are shown in addition
EXTRA = []


class Inspect:
    """What the harness needs to know of a renderer, next to its regular methods."""

    def defaults(self):
        return []

    def loose(self):
        return []

    def catch_up(self):
        """Has the toolkit process its own events."""


class Mem(Inspect, Renderer):
    """Keeps elements in memory."""

    class El:
        def __init__(self, type):
            self.type = type
            self.parent = None
            self.children = []
            self.attrs = {}
            self.listeners = []
            self.text = ""

    class OddEl(El):
        """Falsy, and equal to all other elements."""

        def __bool__(self):
            return False

        def __eq__(self, other):
            return isinstance(other, Mem.El)

        __hash__ = object.__hash__

    def new(self, type):
        return (Mem.OddEl if CTX.scenario.get("odd") else Mem.El)(type)

    def make_container(self):
        return self.new("#container")

    def create_element(self, type):
        return self.new(type)

    def create_text_element(self):
        return self.new("TEXT_ELEMENT")

    def insert(self, el, parent, anchor=None):
        idx = len(parent.children)
        if anchor is not None:
            matches = [i for i, c in enumerate(parent.children) if c is anchor]
            idx = matches[0] if matches else idx
        parent.children.insert(idx, el)
        el.parent = parent

    def remove(self, el, parent):
        for idx, child in enumerate(parent.children):
            if child is el:
                del parent.children[idx]
                el.parent = None
                return

    def set_element_text(self, el, value):
        el.text = value

    def set_attribute(self, el, attr, value):
        el.attrs[attr] = value

    def remove_attribute(self, el, attr, value):
        el.attrs.pop(attr, None)

    def add_event_listener(self, el, event_type, value):
        el.listeners.append((event_type, value))

    def remove_event_listener(self, el, event_type, value):
        for idx, (event, handler) in enumerate(el.listeners):
            if event == event_type and handler == value:
                del el.listeners[idx]
                return

    # ---- inspection
    def children_of(self, el):
        return list(el.children)

    def type_of(self, el):
        return el.type

    def text_of(self, el):
        return el.text

    def attrs_of(self, el):
        return dict(el.attrs)

    def events_of(self, el):
        return list(dict.fromkeys(event for event, _ in el.listeners))

    def fire(self, el, event, args):
        for name, handler in list(el.listeners):
            if name == event:
                handler(*args)


class Dict(Inspect, cg.DictRenderer):
    def make_container(self):
        return {"type": "#container"}

    def children_of(self, el):
        return list(el.get("children", []))

    def type_of(self, el):
        return el["type"]

    def text_of(self, el):
        return el.get("text", "")

    def attrs_of(self, el):
        return dict(el.get("attrs", {}))

    def events_of(self, el):
        return [e for e, handlers in el.get("handlers", {}).items() if handlers]

    def fire(self, el, event, args):
        for handler in list(el.get("handlers", {}).get(event, ())):
            handler(*args)


def dom_renderer():
    from collagraph.renderers.dom_renderer import DomRenderer

    class Dom(Inspect, DomRenderer):
        def make_container(self):
            return JsNode("#container")

        def children_of(self, el):
            return list(el.childNodes)

        def type_of(self, el):
            return el.nodeName

        def text_of(self, el):
            return el.nodeValue or ""

        def attrs_of(self, el):
            return dict(el.attributes)

        def events_of(self, el):
            return list(dict.fromkeys(event for event, _ in el.listeners))

        def fire(self, el, event, args):
            for name, handler in list(el.listeners):
                if name == event:
                    handler(*args)

    return Dom


def logged(base):
    """Renderer class that records all calls before executing them."""

    class Logged(base):
        def create_element(self, type):
            el = super().create_element(type)
            CTX.log.append(["ce", CTX.new_element(el), type])
            return el

        def create_text_element(self):
            el = super().create_text_element()
            CTX.log.append(["ct", CTX.new_element(el)])
            return el

        def insert(self, el, parent, anchor=None):
            CTX.log.append(["in", CTX.eid(el), CTX.eid(parent), CTX.eid(anchor)])
            super().insert(el, parent, anchor=anchor)

        def remove(self, el, parent):
            CTX.log.append(["rm", CTX.eid(el), CTX.eid(parent)])
            super().remove(el, parent)

        def set_element_text(self, el, value):
            CTX.log.append(["st", CTX.eid(el), str(value)])
            super().set_element_text(el, value)

        def set_attribute(self, el, attr, value):
            if attr == "own":
                CTX.log.append(["ow", CTX.eid(el), list(value)])
                return
            CTX.log.append(["sa", CTX.eid(el), attr, enc_attr(value)])
            super().set_attribute(el, attr, value)

        def remove_attribute(self, el, attr, value):
            CTX.log.append(["ra", CTX.eid(el), attr])
            super().remove_attribute(el, attr, value)

        def add_event_listener(self, el, event_type, value):
            CTX.log.append(["al", CTX.eid(el), event_type, CTX.hid(value)])
            super().add_event_listener(el, event_type, value)

        def remove_event_listener(self, el, event_type, value):
            CTX.log.append(["rl", CTX.eid(el), event_type, CTX.hid(value)])
            super().remove_event_listener(el, event_type, value)

    return Logged


def backend(name):
    if name == "mem":
        return logged(Mem)()
    if name == "dict":
        return logged(Dict)()
    if name == "dom":
        return logged(dom_renderer())()
    import backends

    return backends.get(name, logged)


# ---------------------------------------------------------------- event loop
class Loop(asyncio.SelectorEventLoop):
    """Event loop that knows whether there is anything left to do."""

    pending = 0

    def counted(self, callback):
        self.pending += 1

        def call(*args):
            self.pending -= 1
            callback(*args)

        return call

    def call_soon(self, callback, *args, **kwargs):
        if getattr(callback, "__self__", None) is self:
            return super().call_soon(callback, *args, **kwargs)
        return super().call_soon(self.counted(callback), *args, **kwargs)

    def tick(self):
        """Run everything that is scheduled at this moment."""
        super().call_soon(self.stop)
        self.run_forever()


LOOP = None


def the_loop():
    global LOOP
    asyncio.set_event_loop_policy(None)
    if LOOP is not None:
        LOOP.close()
    LOOP = Loop()
    asyncio.set_event_loop(LOOP)
    LOOP.set_exception_handler(loop_error)
    return LOOP


def loop_error(loop, context):
    CTX.errors.append(context.get("exception") or RuntimeError(context["message"]))


# --------------------------------------------------------------- run scenario
class Timeout(BaseException):
    pass


def on_alarm(*args):
    raise Timeout()


class Runner:
    def __init__(self, scenario):
        global CTX
        CTX = self.ctx = Ctx(scenario)
        CTX.runner = self
        self.scenario = scenario
        self.segments = []
        self.is_async = scenario["loop"] == "async"
        self.exc = []

    def run(self):
        s, ctx = self.scenario, self.ctx
        self.renderer = backend(s.get("world") or s["backend"])
        self.container = self.renderer.make_container()
        # Processor time, such that a busy machine makes no difference
        signal.signal(signal.SIGPROF, on_alarm)
        signal.setitimer(signal.ITIMER_PROF, 10)
        try:
            self.loop = the_loop() if self.is_async else None
            Clock.active = self.is_async
            Clock.step = 0
            make_types(ctx, s)
            ctx.root = reactive({k: dec(v) for k, v in s["rootst"]})
            ctx.new_element(self.container)
            self.gui = Collagraph(
                self.renderer,
                event_loop_type=EventLoopType.DEFAULT
                if self.is_async
                else EventLoopType.SYNC,
            )
            for k, v in s["rootst"]:
                ctx.log.append(["W", 0, k, v, 0])
            for idx, step in enumerate(s["steps"]):
                self.step(step)
                if self.exc:
                    break
        except Timeout:
            self.fail("timeout")
        except Exception as e:
            self.fail(type(e).__name__, e)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            Clock.active = False
        return {
            "id": s["id"],
            "defs": [
                {
                    "dprov": [],
                    **{k: d[k] for k in d if k in ("dprov", *DEFINITION)},
                }
                for d in s["defs"]
            ],
            "glob": s["glob"],
            "dflt": self.renderer.defaults(),
            "loose": self.renderer.loose(),
            "segs": self.segments,
        }

    def fail(self, name, error=None):
        signal.setitimer(signal.ITIMER_PROF, 0)
        import traceback

        self.exc.append(name)
        self.error = "".join(traceback.format_exception(error)) if error else name
        self.flush(["none"], [], quiescent=False)

    error = ""

    # ---- steps
    def step(self, step):
        ctx, kind = self.ctx, step[0]
        act, rd = ["none"], []
        busy = bool(ctx.log)
        try:
            if kind == "render":
                rd = [step[1]]
                self.render(step[1], step[2] if len(step) > 2 else "cb")
            elif kind in {"set", "mut", "iset", "imut"}:
                ctx.perform(step)
            elif kind == "quiet":
                ctx.perform(step[1])
            elif kind == "dispatch":
                targets = self.targets()
                if targets:
                    el, event = targets[step[1] % len(targets)]
                    act = ["dispatch", ctx.eid(el), event, ",".join(step[2])]
                    ctx.in_handler = step[3]
                    self.renderer.fire(el, event, step[2])
            elif kind == "emit":
                uid = ctx.pick(step[1])
                if uid:
                    act = ["emit", uid, step[2], ",".join(step[3])]
                    ctx.in_handler = step[4]
                    args, kwargs = split_args(step[3])
                    ctx.instances[uid].emit(spelling(step[2]), *args, **kwargs)
            elif kind == "propwrite":
                uid = ctx.pick(step[1])
                props = ctx.instances[uid].props if uid else {}
                if step[2] in props:
                    try:
                        props[step[2]] = "overwritten"
                    except Exception:
                        pass
                    else:
                        self.exc.append("props-not-readonly")
            elif kind == "tick":
                Clock.step = step[2]
                for _ in range(step[1]):
                    self.tick()
                return
            elif kind == "idle":
                Clock.step = step[1] if len(step) > 1 else 0
                for _ in range(3000):
                    if not self.loop.pending:
                        break
                    self.tick()
                else:
                    self.exc.append("never-idle")
        except Timeout:
            raise
        except Exception as e:
            import traceback

            self.exc.append(type(e).__name__)
            self.error = traceback.format_exc()
        ctx.in_handler = None
        if self.is_async and kind != "idle":
            ctx.restrict = ctx.restrict if ctx.restrict is not None else list(ctx.live)
            # Handlers are called at once
            if act != ["none"]:
                if busy:
                    # Handlers of which state were called?
                    act = ["many"]
                self.held_act = act if self.held_act == ["none"] else ["many"]
            if self.exc:
                self.flush(["none"], [], False)
            return
        if self.is_async:
            act, self.held_act = self.held_act, ["none"]
            ctx.restrict = None
        self.flush(act, rd, quiescent=True)

    def render(self, node, callback, hook=0):
        self.has_callback = callback != "none"
        self.renders += 1
        self.ctx.log.append(["D", node, hook])
        options = {}
        if self.has_callback:
            writes = callback.split("=")[1:]
            options["callback"] = partial(self.callback, self.renders, writes)
        description = build(node, Env(self.ctx, props=self.ctx.root))[0]
        self.gui.render(description, self.container, **options)

    held_act = ["none"]
    has_callback = False

    def tick(self):
        self.loop.tick()
        self.ctx.log.append(["S"])
        if self.ctx.errors:
            error = self.ctx.errors.pop(0)
            self.ctx.errors.clear()
            raise error

    renders = 0

    def callback(self, number, writes):
        """Called by collagraph. The number is that of the call of render."""
        self.ctx.log.append(["C", int(number == self.renders)])
        if writes and self.ctx.root.get(writes[0], writes[1]) != writes[1]:
            self.ctx.in_callback = True
            self.ctx.write(0, *writes)

    # ---- observation
    def walk(self, el):
        for child in self.renderer.children_of(el):
            yield child
            yield from self.walk(child)

    def targets(self):
        return [
            (el, event)
            for el in self.walk(self.container)
            for event in self.renderer.events_of(el)
        ]

    def probe(self):
        result = []
        for el, event in self.targets():
            self.ctx.probing = labels = []
            try:
                self.renderer.fire(el, event, ())
            except Exception as e:
                labels.append([f"exception {type(e).__name__}", 0])
            self.ctx.probing = None
            if labels:
                result.append([self.ctx.eid(el), event, labels])
        return result

    def inspect(self):
        result = []
        for uid in self.ctx.live:
            instance = self.ctx.instances[uid]
            parent = instance.parent
            props = {
                k: v for k, v in to_raw(instance.props).items() if not callable(v)
            }
            result.append(
                [
                    uid,
                    self.ctx.eid(instance.element),
                    parent.uid if parent is not None else 0,
                    pairs(props),
                    pairs(to_raw(instance.state)),
                ]
            )
        return result

    def snapshot(self):
        """The DOM according to the renderer: id, type, text, attributes, children."""
        r, eid, result = self.renderer, self.ctx.eid, []

        def visit(el, type):
            children = r.children_of(el)
            attrs = []
            if el is not self.container:
                attrs = [[k, enc_attr(v)] for k, v in r.attrs_of(el).items()]
            result.append(
                [eid(el), type, r.text_of(el), attrs, [eid(c) for c in children]]
            )
            if len(result) > 2000:
                raise RuntimeError("the snapshot has no end")
            for child in children:
                visit(child, r.type_of(child))

        visit(self.container, "#container")
        return result

    # ---- segments
    def flush(self, act, rd, quiescent):
        log, self.ctx.log = self.ctx.log, []
        segments = [self.segment(act)]
        weak = self.is_async and is_mixed(log)
        pending = []
        pending_hook = pending_callback = False
        pending_rd = []
        for entry in log:
            current = segments[-1]
            if entry[0] == "W":
                pending.append(entry[1:4])
                pending_hook = pending_hook or entry[4] == 1
                pending_callback = entry[4] > 1
                if weak or not current["log"]:
                    current["w"].extend(pending)
                    pending = []
                    pending_hook = False
                continue
            if entry[0] == "D" and entry[2] and not weak:
                # Called by a hook: rendering starts after the other hooks
                pending_rd = [entry[1]]
                continue
            if entry[0] == "D":
                if weak or all(e[0] == "F" for e in current["log"]):
                    current["rd"] = [entry[1]]
                    current["w"].extend(pending)
                    pending = []
                else:
                    segments.append(self.segment(["none"], w=pending, rd=[entry[1]]))
                    pending = []
                continue
            if pending_rd and entry[0] not in {"M", "U", "S"}:
                segments.append(self.segment(["none"], w=pending, rd=pending_rd))
                pending, pending_rd = [], []
                pending_hook = False
            if pending and pending_callback:
                if entry[0] not in {"S", "C"}:
                    segments.append(self.segment(["none"], w=pending))
                    pending, pending_callback, pending_hook = [], False, False
            elif pending and (entry[0] == "R" or not pending_hook) and entry[0] != "S":
                segments.append(self.segment(["none"], w=pending))
                pending = []
                pending_hook = False
            segments[-1]["log"].append(entry)
        if pending or pending_rd:
            segments.append(self.segment(["none"], w=pending, rd=pending_rd))
        last = segments[-1]
        last["exc"] = list(self.exc)
        for segment in segments:
            segment["weak"] = weak
        if quiescent and not self.exc:
            last["q"] = True
            last["probe"] = self.probe()
            last["inst"] = self.inspect()
            last["root"] = pairs(to_raw(self.ctx.root))
            if self.scenario.get("snap"):
                last["sn"] = True
                last["snap"] = self.snapshot()
        self.segments.extend(segments)

    def segment(self, act, w=(), rd=()):
        return {
            "act": act,
            "w": list(w),
            "rd": list(rd),
            "log": [],
            "weak": False,
            "q": False,
            "cb": self.has_callback,
            "plain": self.scenario.get("plain", False),
            "exc": [],
            "probe": [],
            "inst": [],
            "root": [],
            "sn": False,
            "snap": [],
        }


def is_mixed(log):
    """Is there any change while a new tree is (or might be) being built?"""
    scheduled = building = False
    for entry in log:
        if entry[0] in {"R", "ce", "ct"}:
            building = True
        elif entry[0] == "S":
            building = building or scheduled
        elif (entry[0] == "D" and not entry[2]) or (entry[0] == "W" and not entry[4]):
            if building:
                return True
            scheduled = True
    return False


def main():
    jobs, out, marker = sys.argv[1:4]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    with open(jobs) as fh:
        scenarios = json.load(fh)
    with open(out, "w") as fh:
        for scenario in scenarios:
            with open(marker, "w") as mh:
                mh.write(str(scenario["id"]))
            runner = Runner(scenario)
            trace = runner.run()
            trace["error"] = runner.error
            fh.write(json.dumps(trace) + "\n")
            if "timeout" in runner.exc or "never-idle" in runner.exc:
                break
    with open(marker, "w") as mh:
        mh.write("done")
        mh.flush()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
