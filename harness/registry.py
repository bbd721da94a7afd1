"""Which checks decide which properties."""

import models
from gen import Choice
from worlds import ALL, WORLDS

C = Choice

# Families of random scenarios: options for harness/gen.py
FAMILIES = {
    "plain": {},
    "deep": dict(depth=4, width=4, keyed=0.5),
    "wide": dict(depth=3, width=5, keyed=0.9, comps=2, slots=0.3),
    "unkeyed": dict(depth=3, width=4, keyed=0.1),
    "rerender": dict(rerender=0.25, hoc=0.3),
    "hooks": dict(hooks=0.6),
    "hookrender": dict(hooks=0.3, hookrender=0.4, events=0.5, dispatch=0.2, emit=0.1),
    "asynchookrender": dict(
        loop="async", hooks=0.3, hookrender=0.4, events=0.4, dispatch=0.2, rerender=0.1,
    ),
    "nested": dict(hoc=0.6, virtual=0.5, comps=4, depth=3),
    "events": dict(events=0.7, dispatch=0.25, emit=0.1),
    "dyn": dict(dyn=0.4, events=0.6, rerender=0.1, dispatch=0.1),
    "emit": dict(emit=0.4, events=0.7, hoc=0.3),
    "inject": dict(inject=0.8, slots=0.7, virtual=0.4, hoc=0.3, comps=4),
    "quiet": dict(quiet=0.35, dispatch=0.1, events=0.2),
    "props": dict(propwrite=0.2, rerender=0.15, bind=0.2, hooks=0.2),
    "slots": dict(slots=0.95, slot_props=0.5, comps=4, hoc=0.2),
    "deepslots": dict(slots=0.9, slot_props=0.6, depth=4),
    "names": dict(names=0.7, bind=0.3),
    "async": dict(loop="async", multi=0.2),
    "asynchooks": dict(loop="async", hooks=0.6, multi=0.4),
    "weak": dict(
        loop="async", weak=0.7, state=0, instates=False, steps=14, rerender=0.15,
        emit=0.1, dispatch=0.1, events=0.4,
    ),
    "weakhooks": dict(
        loop="async", weak=0.6, state=0, instates=False, steps=12, hooks=0.5,
    ),
    "cgx": dict(mode="cgx", names=0.2, bind=0.3, events=0.4),
    "cgxdeep": dict(
        mode="cgx", dispatch=0.2, events=0.5, dyn=0.3, depth=4, slots=0.8, inject=0.4,
        hoc=0.4, virtual=0.4,
    ),
    "cgxnames": dict(mode="cgx", names=0.9, bind=0.2, events=0.4, dyn=0.3),
    "cgxslots": dict(mode="cgx", slots=0.9, comps=4),
    "mix": dict(mode="mix", names=0.3, slots=0.8, events=0.4, hoc=0.3, comps=4),
    "mixslots": dict(mode="mix", slots=0.95, comps=4, inject=0.3),
    "cgxasync": dict(
        mode="cgx", loop="async", hooks=0.4, weak=0.5, state=0, instates=False,
    ),
    "dict": dict(backend="dict", snap=True, names=0.3, events=0.4),
    "dictkeyed": dict(backend="dict", snap=True, keyed=0.8, width=5, hoc=0.3),
    "dom": dict(backend="dom", snap=True, names=0.3, events=0.4, dyn=0.2),
    "domkeyed": dict(backend="dom", snap=True, keyed=0.8, width=5, hoc=0.3),
    "domasync": dict(backend="dom", snap=True, loop="async", weak=0.3, text=0.5),
    **{name: dict(world=name) for name in WORLDS},
    "sceneasync": dict(world="scene", loop="async", dyn=0.3),
    "boxasync": dict(world="box", loop="async", dyn=0.3),
    "boxdyn": dict(world="box", dyn=0.5, events=0.7, rerender=0.1),
    "menudyn": dict(world="menu", dyn=0.4, events=0.7),
    "scenedyn": dict(world="scene", dyn=0.5, events=0.7, rerender=0.1),
    "C23": dict(
        clauses=["exc.", "tool."],
        steps=[models.tool],
        technique="TLA+ model of the command line program: arguments and what is shown; TLC generates all of them and judges what the real program does",
    ),
    "C24": dict(
        clauses=["exc.", "pack."],
        steps=[models.packing],
        technique="TLA+ model of packages with files and their imports; TLC generates all of them and judges what the real hook collects",
    ),
}  # fmt: skip

SHOWN = ["exc.", "struct.", "snap.", "attr.", "event.", "proto."]

TREE = ["exc.", "struct."]

BOTH = ("h", "cgx", "mix")
CGX = ("cgx", "mix")

CHECKS = {
    "C01": dict(
        clauses=TREE,
        families=["plain", "deep", "wide", "unkeyed", "rerender", "nested", "slots", "hookrender"],
        steps=["families", models.recons(("sync", "mem", 1.0)),
               models.parts(("roots", BOTH, "sync", 2000), ("slots", BOTH, "sync", 2000))],
    ),
    "C02": dict(
        clauses=TREE + ["id.", "calls.needless-create", "state."],
        families=["plain", "wide", "unkeyed", "rerender", "nested", "deep"],
        steps=["families", models.recons(("sync", "mem", 1.0)),
               models.parts(("roots", BOTH, "sync", 2000), ("props-keyed", BOTH, "sync", 500))],
    ),
    "C03": dict(
        clauses=TREE + ["attr."],
        families=["plain", "rerender", "names", "unkeyed", "inject", "cgx"],
        steps=["families", models.recons(("sync", "mem", 0.4)),
               models.parts(("props", BOTH, "sync", 2000), ("templ", BOTH, "sync", 2000))],
    ),
    "C04": dict(
        clauses=TREE + ["event."],
        families=["events", "dyn", "emit", "rerender"],
        steps=["families", models.recons(("sync", "mem", 0.4)),
               models.parts(("props", BOTH, "sync", 4000))],
    ),
    "C05": dict(
        clauses=TREE + ["proto.", "calls.", "attr.set-unchanged", "event.churn"],
        families=["plain", "deep", "wide", "unkeyed", "nested", "events"],
        steps=["families", models.recons(("sync", "mem", 1.0)),
               models.parts(("roots", BOTH, "sync", 2000), ("reads", BOTH, "sync", 2000))],
    ),
    "C06": dict(
        clauses=TREE + ["hook."],
        families=["plain", "hooks", "nested", "rerender", "slots", "asynchooks", "hookrender"],
        steps=["families", models.schedules, models.recons(("sync", "mem", 0.6)),
               models.parts(("roots", BOTH, "sync", 2000))],
    ),
    "C07": dict(
        clauses=TREE + ["slice.", "proto.", "attr.", "id.", "event.", "hook.", "parent."],
        families=["async", "weak", "weakhooks", "cgxasync", "asynchooks"],
        steps=["families", models.schedules, models.recons(("async", "mem", 0.6))],
    ),
    "C08": dict(
        clauses=TREE + ["attr.", "event.stale", "event.missing", "props."],
        families=["hooks", "asynchooks", "weak", "weakhooks", "events", "asynchookrender"],
        steps=["families", models.schedules, models.recons(("async", "mem", 0.4))],
    ),
    "C09": dict(
        clauses=["exc.", "pass.", "calls.without-change", "hook.updated-twice",
                 "hook.updated-needless", "hook.mounted-twice"],
        families=["quiet", "hooks", "async", "slots", "cgx"],
        steps=["families", models.parts(("reads", BOTH, "sync", 6000), ("reads", BOTH, "async", 3000))],
    ),
    "C10": dict(
        clauses=["exc.", "callback."],
        families=["rerender", "async", "weak", "hooks", "hookrender", "asynchookrender"],
        steps=["families", models.schedules, models.recons(("async", "mem", 0.4))],
    ),
    "C11": dict(
        clauses=TREE + ["props.", "state.", "attr."],
        families=["props", "emit", "rerender", "async"],
        steps=["families", models.parts(("props", BOTH, "sync", 7000), ("props", BOTH, "async", 2000))],
    ),
    "C12": dict(
        clauses=TREE + ["parent.", "attr.", "id.instance-mixed"],
        families=["inject", "nested", "slots", "cgxdeep", "mixslots"],
        steps=["families", models.parts(("chain", BOTH, "sync", 5000))],
    ),
    "C13": dict(
        clauses=["exc.", "emit."],
        families=["emit", "events", "cgxdeep"],
        steps=["families", models.parts(("props", BOTH, "sync", 7000), ("props", BOTH, "async", 2000))],
    ),
    "C14": dict(
        clauses=TREE + ["attr.", "event.", "id.", "parent."],
        families=["slots", "deepslots", "cgxslots", "mixslots", "inject"],
        steps=["families", models.parts(("slots", BOTH, "sync", 10000), ("slots", BOTH, "async", 2000)),
               models.recons(("sync", "mem", 0.3))],
    ),
    "C15": dict(
        clauses=["exc.", "element.", "hook.mounted-before-insert",
                 "hook.unmount-after-remove"],
        families=["nested", "plain", "hooks", "rerender"],
        steps=["families", models.recons(("sync", "mem", 0.5)),
               models.parts(("roots", BOTH, "sync", 5000), ("roots", BOTH, "async", 2000))],
    ),
    "C16": dict(
        clauses=TREE + ["attr.", "event.missing", "event.stale", "event.called-twice",
                        "event.wrong", "event.not-called", "event.extra-call",
                        "emit.", "parent.", "props."],
        families=["cgx", "cgxdeep", "cgxslots", "cgxasync", "mix"],
        steps=["families", models.parts(("templ", CGX, "sync", 8000), ("slots", CGX, "sync", 4000))],
    ),
    "C17": dict(
        clauses=TREE + ["attr.", "event.missing", "event.stale", "props.", "name."],
        families=["cgxnames", "cgxslots", "cgxdeep", "mix"],
        steps=["families", models.lookup],
    ),
    "C18": dict(
        clauses=["exc.", "same.wrong", "same.side"],
        steps=[models.equiv],
        technique="TLA+ model of handlers and their effects; TLC generates all pairs and judges what the real code does with them",
    ),
    "C19": dict(
        clauses=SHOWN,
        families=["dict", "dictkeyed", "dom", "domkeyed", "domasync"],
        steps=["families", models.recons(("sync", "dict", 0.3), ("sync", "dom", 0.3)), models.calls(["dict", "dom"])],
    ),
    "C20": dict(
        clauses=SHOWN,
        families=[n for n in WORLDS if n != "scene"] + ["boxasync", "boxdyn", "menudyn"],
        count=2700,
        steps=[models.calls([w for w in ALL if w != "scene"]), "families"],
    ),
    "C21": dict(
        clauses=SHOWN,
        families=["scene", "sceneasync", "scenedyn"],
        steps=["families", models.calls(["scene"])],
    ),
    "C22": dict(
        clauses=["exc.", "import."],
        steps=[models.importing],
        technique="TLA+ model of files, folders and module histories; TLC generates all of them and judges what the real code does with them",
    ),
    "C23": dict(
        clauses=["exc.", "tool."],
        steps=[models.tool],
        technique="TLA+ model of the command line program: arguments and what is shown; TLC generates all of them and judges what the real program does",
    ),
    "C24": dict(
        clauses=["exc.", "pack."],
        steps=[models.packing],
        technique="TLA+ model of packages with files and their imports; TLC generates all of them and judges what the real hook collects",
    ),
}  # fmt: skip
