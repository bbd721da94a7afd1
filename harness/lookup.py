"""Replays histories of places where names are defined (spec/Lookup.tla)."""

import builtins
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback
import types
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

# {N}: the name as it is read in an expression, {B}: the name itself
VALUES = "['prop', 'state', 'self', 'global', 'import', 'builtin', 'local']"
CHAIN = "".join(
    f'<item v-{"else-" if i else ""}if="val({{N}}) == \'{v}\'" a="{v}"/>'
    for i, v in enumerate(eval(VALUES))
)


def item(expression):
    return f'<item :a="{expression}"/>'


def loop(target, iterable="['local']", inner='<item {FOR} :a="{B}"/>'):
    return inner.replace("{FOR}", f'v-for="{target} in {iterable}"')


POSITIONS = {
    "attr": item("{N}"),
    "v-bind-attr": '<item v-bind:a="{N}"/>',
    "v-bind": "<item v-bind=\"{{'a': {N}}}\"/>",
    "v-bind-middle": "<item b=\"1\" v-bind=\"{{'a': {N}}}\" :c=\"tick\"/>",
    "v-bind-merge": "<item v-bind=\"{{'b': 1}} | {{'a': {N}}}\"/>",
    "text": "<item>{{{{ {N} }}}}</item>",
    "text-middle": "<item>{{{{ val({N})[:2] }}}}{{{{val({N})[2:]}}}}</item>",
    "if": CHAIN,
    "elif": '<item v-if="not tick"/>' + CHAIN.replace("v-if", "v-else-if"),
    "if-nested": f'<group v-if="tick">{CHAIN}</group>',
    "else-after": "<item v-if=\"val({N}) == 'none'\"/><item v-else :a=\"{N}\"/>",
    "for-iter": '<item v-for="q in [{N}]" :a="q"/>',
    "for-iter2": '<item v-for="q in [1] for r in [{N}]" :a="r"/>',
    "for-iter-nested": '<group v-for="q in [1]"><item v-for="r in [{N}]" :a="r"/></group>',
    "for-cond": f'<item v-for="q in {VALUES} if q == val({{N}})" :a="q"/>',
    "for-attr": '<item v-for="q in [1]" :a="{N}"/>',
    "for-nested": '<group v-for="q in [1]"><item v-for="r in [1]" :a="{N}"/></group>',
    "for-if-child": '<group v-for="q in [1]"><item v-if="q" :a="{N}"/></group>',
    "for-sibling": '<group v-for="{B} in [\'local\']"/><item :a="{N}"/>',
    "for-same": '<item v-for="{B} in [{N}]" :a="{B}"/>',
    "for-same-nested": '<item v-for="{B} in [q for q in [{N}]]" :a="{B}"/>',
    "for-text": '<item v-for="q in [1]">{{{{ {N} }}}}</item>',
    "for-method": '<item v-for="q in make([{N}])()" :a="q"/>',
    "on-lambda": '<item @click="lambda: rec({N})"/>',
    "on-args": '<item @click="lambda *args: rec({N})"/>',
    "on-call": '<item @click="make(rec, {N})"/>',
    "on-default": '<item @click="lambda q={N}: rec(q)"/>',
    "on-v": '<item v-on:click="lambda: rec({N})"/>',
    "comp-attr": '<Child :a="{N}"/>',
    "comp-if": '<Child v-if="val({N})" :a="{N}"/>',
    "comp-vbind": "<Child v-bind=\"{{'a': {N}}}\"/>",
    "comp-on": '<Child @click="lambda: rec({N})"/>',
    "slot-default": '<Slotted><item :a="{N}"/></Slotted>',
    "slot-named": '<Slotted><template #foo><item :a="{N}"/></template></Slotted>',
    "slot-v": '<Slotted><template v-slot:foo><item :a="{N}"/></template></Slotted>',
    "slot-text": "<Slotted><item>{{{{ {N} }}}}</item></Slotted>",
    "slot-on": '<Slotted><item @click="lambda: rec({N})"/></Slotted>',
    "slot-if": f"<Slotted>{CHAIN}</Slotted>",
    "slot-for-iter": '<Slotted><item v-for="q in [{N}]" :a="q"/></Slotted>',
    "slot-nested": '<Slotted><Slotted><item :a="{N}"/></Slotted></Slotted>',
    "slot-comp": '<Slotted><Child :a="{N}"/></Slotted>',
    "slot-fallback": '<slot name="bar"><item :a="{N}"/></slot>',
    "template-if": '<template v-if="tick"><item :a="{N}"/></template>',
    "template-for": '<template v-for="q in [1]"><item :a="{N}"/></template>',
    "template-plain": '<template><item :a="{N}"/></template>',
    "root": None,
    "call": item("str({N})"),
    "method": item("({N}.__class__, {N})[1]"),
    "index": item("[{N}][0]"),
    "slice": item("(1, {N}, 2)[1:2][0]"),
    "key": item("list({{{N}: 1}})[0]"),
    "value": item("{{1: {N}}}[1]"),
    "ifexp": item("{N} if tick else 'no'"),
    "ifexp-test": item("'no' if val({N}) == 'none' else {N}"),
    "bool": item("'' or {N}"),
    "fstring": item("f'{{val({N})}}'"),
    "fstring-spec": item("f'{{val({N}):{{ten}}}}'.strip()"),
    "star": item("[*[{N}]][0]"),
    "double-star": item("{{**{{1: {N}}}}}[1]"),
    "keyword": item("dict({B}={N})['{B}']"),
    "compare": item("{N} if 'a' < val({N}) < 'z' else 'no'"),
    "binop": item("val({N})[:1] + val({N})[1:]"),
    "tuple": item("(tick, {N})[-1]"),
    "nested-call": item("make(make(str, {N}))()()"),
    "lambda-body": item("(lambda: {N})()"),
    "lambda-default": item("(lambda q={N}: q)()"),
    "lambda-default-same": item("(lambda {B}={N}: {B})()"),
    "lambda-kwdefault": item("(lambda *, q={N}: q)()"),
    "lambda-inner": item("(lambda q: (lambda: {N})())(1)"),
    "lambda-after": item("[(lambda {B}: {B})('local'), {N}][1]"),
    "lambda-compr": item("(lambda: [{N} for q in [1]][0])()"),
    "compr-first": item("[q for q in [{N}]][0]"),
    "compr-same": item("[{B} for {B} in [{N}]][0]"),
    "compr-cond": item(f"[q for q in {VALUES} if q == val({{N}})][0]"),
    "compr-body": item("[{N} for q in [1]][0]"),
    "compr-after": item("[[{B} for {B} in ['local']], {N}][1]"),
    "compr-second": item("[r for q in [1] for r in [{N}]][0]"),
    "set-first": item("list({{q for q in [{N}]}})[0]"),
    "dict-first": item("list({{q: 1 for q in [{N}]}})[0]"),
    "gen-first": item("list(q for q in [{N}])[0]"),
    "gen-same": item("next({B} for {B} in [{N}])"),
    "compr-nested-first": item("[q for q in [r for r in [{N}]]][0]"),
    "compr-lambda": item("[(lambda: {N})() for q in [1]][0]"),
    "multiline": "<item>{{{{\n  val(\n    {N}\n  )\n}}}}</item>",
    # ---- names of the template
    "for-local": loop("{B}"),
    "for-tuple": loop("(q, {B})", "[(1, 'local')]"),
    "for-tuple-nested": loop("q, (r, {B})", "[(1, (2, 'local'))]"),
    "for-star": loop("q, *{B}", "[(1, 'local')]", '<item {FOR} :a="{B}[0]"/>'),
    "for-enumerate": loop("q, {B}", "enumerate(['local'])"),
    "for-list": loop("[q, {B}]", "[(1, 'local')]"),
    "for-two": '<item v-for="q in [1] for {B} in [\'local\']" :a="{B}"/>',
    "for-first-of-two": '<item v-for="{B} in [\'local\'] for q in [{B}]" :a="q"/>',
    "for-local-cond": (
        "<item v-for=\"{B} in ['other', 'local'] if {B} == 'local'\" :a=\"{B}\"/>"
    ),
    "for-local-text": loop("{B}", inner="<item {FOR}>{{{{ {B} }}}}</item>"),
    "for-local-if": loop(
        "{B}",
        inner="<group {FOR}><item v-if=\"{B} == 'local'\" a=\"local\"/>"
        '<item v-else a="no"/></group>',
    ),
    "for-local-elif": loop(
        "{B}",
        inner="<group {FOR}><item v-if=\"{B} == 'x'\" a=\"no\"/>"
        "<item v-else-if=\"{B} == 'local'\" :a=\"{B}\"/></group>",
    ),
    "for-local-on": loop("{B}", inner='<item {FOR} @click="lambda: rec({B})"/>'),
    "for-local-comp": loop("{B}", inner='<Child {FOR} :a="{B}"/>'),
    "for-local-slot": loop(
        "{B}", inner='<group {FOR}><Slotted><item :a="{B}"/></Slotted></group>'
    ),
    "for-local-child": loop("{B}", inner='<group {FOR}><item :a="{B}"/></group>'),
    "for-local-deep": loop(
        "{B}",
        inner='<group {FOR}><group><group v-for="q in [1]"><item :a="{B}"/></group>'
        "</group></group>",
    ),
    "for-local-compr": loop("{B}", inner='<item {FOR} :a="[{B} for q in [1]][0]"/>'),
    "for-local-lambda": loop("{B}", inner='<item {FOR} :a="(lambda: {B})()"/>'),
    "for-local-inner-iter": loop(
        "{B}", inner='<group {FOR}><item v-for="q in [{B}]" :a="q"/></group>'
    ),
    "for-local-template": loop(
        "{B}", inner='<template {FOR}><item :a="{B}"/></template>'
    ),
    "for-local-v-bind": loop("{B}", inner="<item {FOR} v-bind=\"{{'a': {B}}}\"/>"),
    "for-shadow": (
        "<group v-for=\"{B} in ['outside']\">"
        "<item v-for=\"{B} in ['local']\" :a=\"{B}\"/></group>"
    ),
    "slot-for": "<Slotted><item v-for=\"{B} in ['local']\" :a=\"{B}\"/></Slotted>",
    "slot-inside-for": (
        '<Slotted v-for="{B} in [\'local\']"><item :a="{B}"/></Slotted>'
    ),
    "lambda-arg": item("(lambda {B}: {B})('local')"),
    "lambda-posonly": item("(lambda {B}, /: {B})('local')"),
    "lambda-kwonly": item("(lambda *, {B}='local': {B})()"),
    "lambda-vararg": item("(lambda *{B}: {B}[0])('local')"),
    "lambda-kwarg": item("(lambda **{B}: {B}['k'])(k='local')"),
    "lambda-nested": item("(lambda {B}: (lambda q: {B})(1))('local')"),
    "lambda-shadow": item("(lambda {B}: (lambda {B}: {B})('local'))('no')"),
    "compr-local": item("[{B} for {B} in ['local']][0]"),
    "compr-two": item("[{B} for q in [1] for {B} in ['local']][0]"),
    "compr-tuple": item("[{B} for q, (r, {B}) in [(1, (2, 'local'))]][0]"),
    "compr-star": item("[{B}[0] for q, *{B} in [(1, 'local')]][0]"),
    "compr-in-cond": item("['local' for {B} in [1] if {B} == 1][0]"),
    "set-local": item("list({{{B} for {B} in ['local']}})[0]"),
    "dict-local": item("list({{{B}: 1 for {B} in ['local']}})[0]"),
    "dict-local-value": item("{{1: {B} for {B} in ['local']}}[1]"),
    "gen-local": item("next({B} for {B} in ['local'])"),
    "compr-nested": item("[[{B} for q in [1]][0] for {B} in ['local']][0]"),
    "compr-in-lambda": item("(lambda {B}: [{B} for q in [1]][0])('local')"),
    "on-lambda-arg": '<item @click="lambda {B}=\'local\': rec({B})"/>',
    "on-compr": '<item @click="lambda: [rec({B}) for {B} in [\'local\']]"/>',
    # ---- several values
    "for-leak": '<item v-for="{B} in [\'local\']" :a="{B}"/><item :a="{N}"/>',
    "for-leak-before": '<item :a="{N}"/><item v-for="{B} in [\'local\']" :a="{B}"/>',
    "for-leak-if": '<item v-for="{B} in [\'local\']" :a="{B}"/>' + CHAIN,
    "for-leak-for": (
        '<item v-for="{B} in [\'local\']" :a="{B}"/><item v-for="q in [{N}]" :a="q"/>'
    ),
    "for-leak-slot": (
        '<item v-for="{B} in [\'local\']" :a="{B}"/>'
        '<Slotted><item :a="{N}"/></Slotted>'
    ),
    "for-leak-nested": (
        '<group v-for="q in [1]"><item v-for="{B} in [\'local\']" :a="{B}"/>'
        '<item :a="{N}"/></group><item :a="{N}"/>'
    ),
    "lambda-leak": item("(lambda {B}: {B})('local')") + item("{N}"),
    "compr-leak": item("[{B} for {B} in ['local']][0]") + item("{N}"),
    "many": '<item :a="{N}"/><group><item :a="{N}"/></group><item>{{{{ {N} }}}}</item>',
    "attribute": item("ns.{B}"),
    "attribute-of-call": item("make(ns)().{B}"),
    "plain-string": item("'{B}'.replace('{B}', 'string')"),
    "keyword-name": item("dict({B}='keyword')['{B}']"),
    "attr-name": "<item v-bind=\"{{'{B}': 'string'}}\"/><item :a=\"{N}\"/>",
    "on-two": '<item @click="lambda: rec({N})"/><item @click="lambda: rec({N})"/>',
}

SCRIPT = """
<script>
{imports}
from vp_support import cg, h

class Child(cg.Component):
    def init(self):
        self.state[{name!r}] = "child"

    def render(self):
        return h("item", dict(self.props.items()))

class Slotted(cg.Component):
    def init(self):
        self.state[{name!r}] = "child"
        self.{name} = "child"

    def render(self):
        return h("group", {{}}, h("group", {{}}, *self.render_slot("default")),
                 *self.render_slot("foo"))

class Main(cg.Component):
    def use(self):
        {local}

{late}
</script>
"""

IMPORTS = {
    "from-import": "from vp_places import {n}",
    "import-as": "import vp_places as {n}",
    "import-package": "import {n}.sub",
    "from-import-as": "from vp_places import zork_i as {n}",
    "from-import-many": "from vp_places import zork_i, zork_i as {n}, zork_j",
    "import-many": "import vp_support, vp_places as {n}, sys",
    "from-package": "from vp_package import sub as {n}",
    "import-sub-as": "import vp_package.sub as {n}",
    "import-try": "try:\n    from vp_missing import {n}\n"
    "except ImportError:\n    from vp_places import zork_i as {n}",
    "import-if": "if 1:\n    import vp_places as {n}\nelse:\n    import sys as {n}",
    "import-with": "import contextlib\nwith contextlib.suppress(ImportError):\n"
    "    from vp_places import {n}",
    "import-late": "",
    "import-twice": "from vp_places import {n}, {n} as zork_k",
    "original": "from vp_places import {n} as zork_k",
    "original-module": "import {n} as zork_k",
    "original-sub": "import vp_package.{n}",
    "import-in-class": "class Other:\n    import vp_places as {n}",
}

ORDINARY = (
    "plain", "original", "original-module", "original-sub", "import-in-class",
    "import-in-method",
)

PLAIN_NAMES = ["zork", "name", "x", "child", "_", "match", "y", "i0", "_name", "tag"]


def show(value):
    if isinstance(value, types.ModuleType):
        return "import"
    if isinstance(value, str) and value.startswith("<module"):
        return "import"
    return value if isinstance(value, str) else repr(value)


class Timeout(BaseException):
    pass


def on_alarm(*args):
    raise Timeout


def prepare():
    """Modules to import from"""
    import collagraph as cg

    support = types.ModuleType("vp_support")
    support.cg, support.h = cg, cg.create_element
    sys.modules["vp_support"] = support
    places = types.ModuleType("vp_places")
    for n in [*PLAIN_NAMES, "zork_i", "zork_j"]:
        setattr(places, n, "import")
    sys.modules["vp_places"] = places
    package = types.ModuleType("vp_package")
    package.__path__ = []
    package.sub = types.ModuleType("vp_package.sub")
    sys.modules["vp_package"] = package
    sys.modules["vp_package.sub"] = package.sub
    for n in PLAIN_NAMES:
        sys.modules[n] = sys.modules[f"vp_package.{n}"] = places
    builtins.zork_b = "builtin"


def run(job):
    from collagraph import Collagraph, EventLoopType
    from collagraph import create_element as h
    from collagraph.cgx.cgx import load_from_string
    from collagraph.renderers import DictRenderer

    kind, pos = job["kind"], job["pos"]
    if kind == "builtin":
        name = "zork_b"
    elif kind == "import-package":
        name = "vp_package"
    else:
        name = PLAIN_NAMES[job["variant"] % len(PLAIN_NAMES)]
    read = {
        "self-name": f"self.{name}",
        "state-name": f"state['{name}']",
        "props-name": f"props['{name}']",
    }.get(kind, name)
    if pos == "root":
        body = f'<group :tick="tick" :a="{read}"/>'
    else:
        body = POSITIONS[pos].format(N=read, B=name)
        body = f'<group :tick="tick">{body}</group>'
    script = SCRIPT.format(
        imports=IMPORTS.get(kind, "").format(n=name),
        local=f"import os as {name}" if kind == "import-in-method" else "pass",
        late=f"from vp_places import {name}" if kind == "import-late" else "",
        name=name,
    )
    template = f"<template>{body}</template>"
    source = template + script if job["variant"] % 3 else script + template
    log = []
    trace = {"id": job["id"], "kind": kind, "pos": pos, "segs": [], "error": ""}
    instance = []
    renderer = DictRenderer()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    container = {"type": "root"}

    def values(el, found):
        if el.get("type") == "TEXT_ELEMENT":
            found.append(show(el["text"].strip()))
        if "a" in el.get("attrs", {}):
            found.append(show(el["attrs"]["a"]))
        for handler in el.get("handlers", {}).get("click", ()):
            log.clear()
            handler()
            found.extend(show(v) for v in log)
        if name in el.get("attrs", {}) and pos == "attr-name":
            found.append(el["attrs"][name])
        for c in el.get("children", ()):
            values(c, found)
        return found

    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, 30)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                cls, space = load_from_string(source)
                space.update(
                    rec=lambda v: log.append(v),
                    val=show,
                    make=lambda f, *a: lambda: f(*a) if a else f,
                    ns=types.SimpleNamespace(**{name: "attribute"}),
                    ten=10,
                )
            except Exception as e:
                trace["segs"].append(
                    {"places": [], "shown": [], "exc": [type(e).__name__ + "-in-load"]}
                )
                trace["error"] = traceback.format_exc() + "\n" + source
                if kind in ORDINARY:
                    trace["segs"][0]["places"] = ["prop"]
                return trace
            init = cls.__init__

            def created(self, *args, **kwargs):
                init(self, *args, **kwargs)
                instance.append(self)
                apply(self, job["walk"][0], job["walk"][0])

            cls.__init__ = created

            def apply(inst, before, places):
                where = cls if job["variant"] % 2 else inst
                if "state" in places:
                    inst.state[name] = "state"
                elif name in inst.state:
                    del inst.state[name]
                if "self" in places:
                    setattr(where, name, "self")
                elif name in vars(where):
                    delattr(where, name)
                if "global" in places:
                    space[name] = "global"
                elif "global" in before:
                    space.pop(name, None)

            before = []
            for tick, places in enumerate(job["walk"]):
                row = {"places": places, "shown": [], "exc": []}
                trace["segs"].append(row)
                props = {name: "prop"} if "prop" in places else {}
                try:
                    if instance:
                        apply(instance[-1], before, places)
                    gui.render(h(cls, {**props, "tick": tick + 1}), container)
                    row["shown"] = values(container["children"][0], [])
                except Timeout:
                    raise
                except Exception as e:
                    row["exc"] = [type(e).__name__]
                    trace["error"] = traceback.format_exc() + "\n" + source
                    break
                before = places
    except Timeout:
        trace["segs"][-1]["exc"] = ["Timeout"]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return trace


def main(jobs, out, mark):
    with open(jobs) as fh:
        jobs = json.load(fh)
    work = tempfile.mkdtemp(prefix="lookup-")
    try:
        prepare()
        with open(out, "w") as fh:
            for job in jobs:
                with open(mark, "w") as m:
                    m.write(str(job["id"]))
                fh.write(json.dumps(run(job)) + "\n")
                fh.flush()
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main(*sys.argv[1:])
