"""Renders a button with one handler after another, and fires its event each time.

Usage: equiv.py JOBS OUT MARK (see campaign.py). A job has a series of handlers, as
described in spec/Equiv.tla.
"""

import dataclasses
import functools
import json
import os
import signal
import sys
import traceback

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

import collagraph as cg  # noqa: E402
from collagraph import Collagraph, DictRenderer, EventLoopType, h
from observ import reactive

LOG = []
TYPES = {int: "i", bool: "b", float: "f", str: "s", bytes: "y", type(None): "n",
         complex: "c", type(...): "e"}  # fmt: skip


def label(value):
    text = value if isinstance(value, str) else repr(value)
    if isinstance(value, bytes):
        text = value.decode()
    return f"{TYPES[type(value)]}:{text}"


def source(value):
    kind, text = value.split(":", 1)
    return repr(text) if kind == "s" else f"b{text!r}" if kind == "y" else text


def rec(value):
    LOG.append(label(value))


def rec1(values):
    (value,) = values
    rec(value)


def rec11(values):
    rec1(values[0])


def rec_kw(*, x):
    rec(x)


def rec2(x, y):
    rec(x)
    rec(y)


def rec_all(values):
    for value in values:
        rec(value)


def rec_a():
    rec("a")


def rec_b():
    rec("b")


class Api:
    one, true, two = 1, True, 2

    def a(self):
        rec("a")

    def b(self):
        rec("b")

    @staticmethod
    def static_a():
        rec("a")

    @staticmethod
    def static_b():
        rec("b")


API = Api()
ATTRS = {"i:1": "one", "b:True": "true", "i:2": "two"}


class Holder:
    def __init__(self, value):
        self.value = value

    def method(self):
        rec(self.value)


class EqualHolder(Holder):
    def __eq__(self, other):
        return isinstance(other, EqualHolder)

    def __hash__(self):
        return 1


class Callable(Holder):
    def __call__(self):
        rec(self.value)


class EqualCallable(Callable):
    """Equal when the values are equal, in terms of == (so 1 is equal to True)."""

    def __eq__(self, other):
        return isinstance(other, EqualCallable) and label(self.value) == label(other.value)

    def __hash__(self):
        return 1


CODE = {
    "lambda": "lambda: rec({v})",
    "inner": "lambda: (lambda: rec({v}))()",
    "tuple": "lambda: rec1(({v},))",
    "nested-tuple": "lambda: rec11((({v},),))",
    "set": "lambda: [rec(x) for x in {{{v}}}]",
    "kwarg": "lambda: rec_kw(x={v})",
    "branch": "lambda: rec({v}) if API else rec('never')",
    "slice": "lambda: rec1(({v},)[0:1])",
    "global": "lambda: rec_{n}()",
    "attribute": "lambda: API.{n}()",
    "method": "API.{n}",
    "static": "Api.static_{n}",
    "two-consts": "lambda: rec2({v}, {w})",
    "two-names": "lambda: rec2(API.{a}, API.{b})",
}


def make_default(v):
    return lambda x=v: rec(x)


def make_kwdefault(v):
    return lambda *, x=v: rec(x)


def make_closure(v):
    return lambda: rec(v)


def make_closure2(v):
    return lambda: (lambda: rec(v))()


def make_cell_late(v):
    def handler():
        rec(late)

    late = v
    return handler


def make_closure_list(v):
    values = [v]
    return lambda: rec_all(values)


def make_closure_tuple(v):
    values = (v,)
    return lambda: rec_all(values)


def make_closure_dict(v):
    values = {"x": v}
    return lambda: rec_all(values.values())


def make_default_tuple(v):
    return lambda x=(v,): rec_all(x)


def make_generator(v):
    return lambda: [rec(x) for x in (v for _ in range(1))]


def make_self(v):
    def handler(n=1):
        return handler(0) if n else rec(v)

    return handler


def make_mutual(v):
    def ping(n=3):
        return pong(n - 1)

    def pong(n):
        return ping(n - 1) if n > 0 else rec(v)

    return ping


def make_class_method(v):
    class K:
        value = v

        @classmethod
        def method(cls):
            rec(cls.value)

    return K.method


def make_object(v):
    holder = Holder(v)
    return lambda: rec(holder.value)


MODULE = compile("handler = lambda: rec(VALUE)", "<module>", "exec")


# What is changed after rendering: functions
LATE = []


def make_late_list(v):
    values = ["i:0"]
    LATE.append(lambda: values.__setitem__(0, v))
    return lambda: rec_all(values)


def make_late_dict(v):
    values = {"x": 0}
    LATE.append(lambda: values.update(x=v))
    return lambda x=values: rec_all(x.values())


@dataclasses.dataclass
class Record:
    value: object


def make_late_record(v):
    record = Record(0)
    LATE.append(lambda: setattr(record, "value", v))
    return functools.partial(lambda r: rec(r.value), record)


def make_late_bound(v):
    values = set()
    LATE.append(lambda: values.add(v))

    class Values(tuple):
        """Compares equal to others that are still equal."""

        def method(self):
            rec_all(self[0])

    return Values([values]).method


def make_module(v):
    names = {"VALUE": v, "rec": rec}
    exec(MODULE, names)
    return names["handler"]


DATA = {
    "default": make_default,
    "kwdefault": make_kwdefault,
    "closure": make_closure,
    "closure2": make_closure2,
    "cell-late": make_cell_late,
    "partial": lambda v: functools.partial(rec, v),
    "partial-kw": lambda v: functools.partial(rec_kw, x=v),
    "partial2": lambda v: functools.partial(lambda a, x: rec(x), None, v),
    "closure-list": make_closure_list,
    "closure-tuple": make_closure_tuple,
    "closure-dict": make_closure_dict,
    "default-tuple": make_default_tuple,
    "generator": make_generator,
    "self": make_self,
    "mutual": make_mutual,
    "bound": lambda v: Holder(v).method,
    "bound-equal": lambda v: EqualHolder(v).method,
    "callable": Callable,
    "callable-equal": EqualCallable,
    "class-method": make_class_method,
    "builtin": lambda v: functools.partial(rec, v).__call__,
    "object": make_object,
    "module": make_module,
    "late-list": make_late_list,
    "late-dict": make_late_dict,
    "late-record": make_late_record,
    "late-bound": make_late_bound,
}


def make_two_defaults(v, w):
    return lambda x=v, y=w: rec2(x, y)


def make_two_kwdefaults(v, w):
    return lambda *, x=v, y=w: rec2(x, y)


def make_two_closures(v, w):
    return lambda: rec2(v, w)


def make_two(v, w):
    def outer():
        x = v

        def inner():
            rec2(x, w)

        return inner

    return outer()


PAIRS = {
    "two": make_two,
    "two-defaults": make_two_defaults,
    "two-kwdefaults": make_two_kwdefaults,
    "two-closures": make_two_closures,
    "two-partial": lambda v, w: functools.partial(rec2, v, y=w),
}


SIGS = {
    "pos": "x='d'",
    "posonly": "x='d', /",
    "kwonly": "*, x='d'",
    "varargs": "*x",
    "varkw": "**x",
    "required": "x",
    "required_posonly": "x, /",
    "required_kwonly": "*, x",
}


def rec_sig(x):
    x = [*x.values()] if isinstance(x, dict) else x
    rec(x if isinstance(x, str) else x[0] if x else "d")


def fire(handler, f):
    if handler[0] not in ("sig", "sig-closure"):
        return f()
    for args, kwargs in ((), {}), (("p",), {}), ((), {"x": "p"}):
        try:
            f(*args, **kwargs)
        except TypeError:
            LOG.append("!TypeError")


def wrap_call(f):
    return lambda: f()


def wrap_default(f):
    return lambda g=f: g()


def wrap_kwdefault(f):
    return lambda *, g=f: g()


def call(f):
    f()


def wrap_tuple(f):
    fs = (f,)
    return lambda: fs[0]()


def wrap_wraps(f):
    @functools.wraps(f)
    def wrapper(*args):
        return f(*args)

    return wrapper


def wrap_nested(f):
    return lambda: (lambda: f())()


WRAPS = {
    "call": wrap_call,
    "call-default": wrap_default,
    "call-kwdefault": wrap_kwdefault,
    "partial-of": lambda f: functools.partial(f),
    "partial-arg": lambda f: functools.partial(call, f),
    "call-tuple": wrap_tuple,
    "wrapped": wrap_wraps,
    "call-nested": wrap_nested,
}


def build(handler):
    kind, *values = handler
    if kind in WRAPS:
        return WRAPS[kind](build(values[0]))
    if kind == "operator":
        sign = {"s:a": "-", "s:b": "+"}[values[0]]
        return eval(f"lambda x=3, y=2: rec({{1: 'a', 5: 'b'}}[x {sign} y])")
    if kind == "sig":
        return eval(f"lambda {SIGS[values[0]]}: rec_sig(x)")
    if kind == "sig-closure":
        return eval(f"(lambda f: lambda: (lambda {SIGS[values[0]]}: f(x)))(rec_sig)()")
    if kind == "def":
        names = {}
        exec(f"def handler():\n    return rec({source(values[0])})", globals(), names)
        return names["handler"]
    if kind in CODE:
        v, w = [source(x) for x in (values * 2)[:2]]
        a, b = [ATTRS.get(x) for x in (values * 2)[:2]]
        code = CODE[kind].format(v=v, w=w, a=a, b=b, n=values[0].split(":")[1])
        return eval(code, globals())
    values = [eval(source(v)) for v in values]
    return PAIRS[kind](*values) if kind in PAIRS else DATA[kind](*values)


class Recorder(DictRenderer):
    calls = 0

    def add_event_listener(self, el, event_type, value):
        self.calls += 1
        super().add_event_listener(el, event_type, value)

    def remove_event_listener(self, el, event_type, value):
        self.calls += 1
        super().remove_event_listener(el, event_type, value)


class Timeout(BaseException):
    pass


def on_alarm(*args):
    raise Timeout


def run(job):
    handlers = job["walk"]
    state = reactive({"index": 0})

    def button(props):
        return h("button", {"on_click": build(handlers[props["index"]])})

    class Button(cg.Component):
        def render(self):
            return button(self.props)

    renderer = Recorder()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    container = {"type": "root"}
    rows, error = [], ""
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, 20)
    try:
        for index, handler in enumerate(handlers):
            row = {"h": handler, "fired": [], "side": [], "exc": [], "calls": 0}
            rows.append(row)
            LOG.clear()
            LATE.clear()
            renderer.calls = 0
            try:
                if index:
                    state["index"] = index
                else:
                    type = Button if job.get("variant") else button
                    gui.render(h(type, state), container)
                row["calls"] = renderer.calls
                row["side"] = LOG[:]
                LOG.clear()
                if LATE:
                    LATE[-1]()
                for f in [*container["children"][0]["handlers"]["click"]]:
                    fire(handler, f)
                row["fired"] = LOG[:]
            except Timeout:
                row["exc"] = ["Timeout"]
                break
            except Exception as e:
                row["exc"] = [type_name(e)]
                error = traceback.format_exc()
                break
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return {"id": job["id"], "segs": rows, "error": error}


def type_name(e):
    return e.__class__.__name__


def main(jobs, out, mark):
    with open(jobs) as fh:
        jobs = json.load(fh)
    with open(out, "w") as fh:
        for job in jobs:
            with open(mark, "w") as m:
                m.write(str(job["id"]))
            fh.write(json.dumps(run(job)) + "\n")
            fh.flush()
    open(mark, "w").write("done")


if __name__ == "__main__":
    main(*sys.argv[1:])
