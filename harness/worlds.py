"""What the elements of the user interface toolkits look like: options for gen.py.

Every world has elements (which can contain all the elements of the world), leaves
(which can't contain anything), the attributes of the types (with their values in
encoded form, or any string when there are no values; a name with an exclamation mark
is always given) and the events of the types.
"""

BOOLS = ("@true", "@false")
NONE = dict(text=0.0, dispatch=0.0, events=0.3, attrs=0.8, snap=True, same=0.4)
ROOT = ("co", "co", "fn")

WIDGETS = {
    "button": [["text"], ["checkable", *BOOLS], ["enabled", *BOOLS]],
    "label": [["text"], ["word_wrap", *BOOLS], ["indent", "@1", "@2", "@7"],
              ["open_external_links", *BOOLS]],
    "line_edit": [["text"], ["read_only", *BOOLS], ["placeholder-text"],
                  ["clear-button-enabled", *BOOLS]],
    "check-box": [["text"], ["checked", *BOOLS], ["tristate", *BOOLS]],
    "spin_box": [["value", "@1", "@5", "@9"], ["prefix"], ["single_step", "@1", "@3"]],
    "combobox": [["items!", '@["one"]', '@["one", "two"]', '@["three", "two"]', "@[]"],
                 ["editable", *BOOLS]],
    "*": [["object_name"], ["tool_tip"], ["minimum_width", "@10", "@20"], ["foo"],
          ["maximum_size", '@{"$t": [100, 200]}', '@{"$t": [300, 150]}']],
}  # fmt: skip
CLICKS = {
    "button": ["clicked", "leave"],
    "check-box": ["toggled", "leave"],
    "*": ["leave", "tool_tip_change", "non-client-area-mouse-move"],
}


def extended(*more, base=WIDGETS):
    return {**base, "*": [*base["*"], *more]}


WORLDS = {
    "box": dict(
        NONE,
        elements=("widget", "QGroupBox"),
        leaves=("button", "label", "line_edit", "check-box", "spin_box", "combobox"),
        schema={**WIDGETS, "QGroupBox": [["title"], ["flat", *BOOLS]]},
        event_names=CLICKS,
    ),
    "boxes": dict(
        NONE,
        elements=("widget",),
        leaves=("label",),
        schema={
            "widget": [["layout!"] + [
                '@{"contents_margins": {"$t": [1, 2, 3, %d]}, "direction": "%s", '
                '"spacing": %d, "type": "box"}' % options
                for options in (
                    (4, "LeftToRight", 2), (5, "TopToBottom", 3), (5, "BottomToTop", 2)
                )
            ]],
            "label": [["text"]],
        },
        event_names={"*": []},
    ),
    "form": dict(
        NONE,
        elements=("widget",),
        leaves=("label", "button", "line_edit"),
        schema={
            **extended(["form_label!"]),
            "widget": [["layout!", '@{"type": "form"}']],
        },
        event_names=CLICKS,
    ),
    "grid": dict(
        NONE,
        elements=("widget",),
        leaves=("label", "button"),
        schema={
            **extended(["grid_index!"] + [f"@[{i}, {j}]" for i in "012" for j in "01"]),
            "widget": [["layout!"] + [
                '@{"column_stretch": [{"$t": [0, %d]}, {"$t": [1, %d]}], "type": "grid"}'
                % options
                for options in ((0, 1), (2, 1), (1, 3))
            ]],
        },
        event_names=CLICKS,
    ),
    "stacked": dict(
        NONE,
        elements=("widget",),
        leaves=("label", "button"),
        schema={**WIDGETS, "widget": [["layout!", '@{"type": "stacked"}']]},
        event_names=CLICKS,
    ),
    "tabs": dict(
        NONE,
        elements=("QTabWidget",),
        leaves=("label", "button"),
        schema=extended(["tab_label!"]),
        event_names=CLICKS,
    ),
    "splitter": dict(
        NONE,
        elements=("QSplitter",),
        leaves=("label", "button"),
        schema={**WIDGETS, "QSplitter": [["handle_width", "@2", "@4"]]},
        event_names=CLICKS,
    ),
    "menu": dict(
        NONE,
        elements=("menu",),
        leaves=("action",),
        schema={
            "menu": [["title"], ["object_name"]],
            "action": [["text"], ["checkable", *BOOLS], ["enabled", *BOOLS], ["foo"],
                       ["object_name"]],
        },
        event_names={"action": ["triggered", "hovered"], "menu": ["about_to_show"]},
    ),
    "menubar": dict(
        NONE,
        elements=("menu",),
        leaves=(),
        schema={"menu": [["title"], ["object_name"]]},
        event_names={"menu": ["about_to_show"]},
    ),
    "toolbar": dict(
        NONE,
        elements=(),
        leaves=("action", "button", "label"),
        schema={
            "action": [["text"], ["checkable", *BOOLS], ["foo"]],
            "button": WIDGETS["button"],
            "label": WIDGETS["label"],
        },
        event_names={"action": ["triggered"], "button": ["clicked"], "label": ["leave"]},
    ),
    "tree": dict(
        NONE,
        elements=("tree_widget_item",),
        leaves=(),
        schema={
            "tree_widget_item": [
                ["content!", '@{"0": "a"}', '@{"0": "b"}', '@{"0": "c"}'],
                ["expanded!", *BOOLS],
                ["selected!", *BOOLS],
            ]
        },
        event_names={"*": []},
    ),
    "items": dict(
        NONE,
        elements=("standarditem",),
        leaves=(),
        schema={
            "standarditem": [["text!"], ["editable!", *BOOLS], ["checkable!", *BOOLS]]
        },
        event_names={"*": []},
    ),
    "window": dict(
        NONE,
        elements=(),
        leaves=("dock", "toolbar"),
        schema={
            "dock": [["area!", '@{"$qt": "LeftDockWidgetArea"}'], ["window_title"]],
            "toolbar": [["window_title"], ["movable", *BOOLS], ["object_name"]],
        },
        event_names={"*": ["leave"]},
    ),
    "statusbar": dict(
        NONE,
        elements=(),
        leaves=("label", "button"),
        schema=WIDGETS,
        event_names=CLICKS,
    ),
    "scene": dict(
        NONE,
        elements=("Group", "scene", "Mesh", "Points", "AmbientLight", "PointLight"),
        leaves=("Line",),
        schema={
            # With other values to begin with
            "AmbientLight": [["intensity", "@3.0", "@2.0"], ["color", "#ff0000", "#0000ff"]],
            "PointLight": [["intensity", "@1.5", "@2.0"], ["color", "#ff0000", "#0000ff"],
                           ["cast_shadow", *BOOLS]],
            "Mesh": [["cast_shadow", *BOOLS]],
            "*": [["visible", *BOOLS], ["render_order", "@1.0", "@2.0"], ["foo"],
                  ["local.position", "@[1.0, 2.0, 3.0]", "@[0.0, 5.0, 0.0]"],
                  ["local.scale", "@[2.0, 2.0, 2.0]"]],
        },
        event_names={"*": ["click", "pointer_down"]},
    ),
}  # fmt: skip

for world in WORLDS.values():
    world.setdefault("root", ROOT)

# Worlds with other rules for what can be inside what: only for the models of calls.
# For every class of elements: its types, and the attributes that are always given.
LABELS = ("label", "button", "line_edit", "check-box")
BOX = {"widget": [[
    "layout!", '@{"contents_margins": {"$t": [1, 2, 3, 4]}, "direction": "TopToBottom", '
    '"spacing": 2, "type": "box"}'
]]}
SPECIAL = {
    "scroll": dict(
        classes={"s": ["widget"], "w": LABELS},
        kids={"root": {"s": "widget", "w": "widget"}, "s": {"s": "", "w": ""}},
        single=True,
        schema={**WIDGETS, **BOX},
    ),
    "dock": dict(
        classes={"t": LABELS, "w": ["label", "widget"]},
        given={"t": [["title", "@true"]]},
        kids={"root": {"t": "title", "w": "content"}},
        single=True,
        loose=["#container"],
        schema={"*": [["title", "@true"], ["object_name"]]},
    ),
    "main": dict(
        classes={"c": ["widget", "label"], "m": ["menubar"], "s": ["statusbar"],
                 "t": ["toolbar"], "d": ["dock"], "q": ["QDialog"]},
        kids={"root": {"c": "central", "m": "menubar", "s": "statusbar", "t": "",
                       "d": "", "q": ""}},
        loose=["#container"],
        schema={
            "dock": [["area!", *['@{"$qt": "%sDockWidgetArea"}' % a
                                 for a in ("Left", "Right", "Bottom")]]],
            "toolbar": [["area!", *['@{"$qt": "%sToolBarArea"}' % a
                                    for a in ("Left", "Top", "Bottom")]]],
            "*": [["object_name"]],
        },
    ),
    **{
        name: dict(
            classes={"m": ["itemmodel"], "s": ["itemselectionmodel"], "i": ["standarditem"]},
            kids={"root": {"m": "model", "s": "selection"}, "m": {"i": ""}, "i": {"i": ""}},
            need={"s": "m"},
            loose=["#container"],
            schema={"standarditem": [["text!"]], "*": [["foo"]]},
        )
        for name in ("QListView", "QTableView", "treeview")
    },
    "buttons": dict(
        classes={"b": ["button", "QToolButton"]},
        kids={"root": {"b": ""}},
        loose=["#container"],
        schema={"*": [["role!", "AcceptRole", "RejectRole", "ActionRole", "HelpRole"],
                      ["text"]]},
    ),
    "permanent": dict(
        classes={"b": [x for x in LABELS if x != "line_edit"]},
        kids={"root": {"b": ""}},
        loose=["#container"],
        schema=extended(["permanent!", "@true", "@false"]),
    ),
    "app": dict(
        classes={"w": ["window", "widget", "QDialog"]},
        kids={"root": {"w": ""}},
        loose=["#container"],
        schema={"*": [["window_title"], ["object_name"]]},
    ),
}  # fmt: skip

# Attributes with the place of an element: type, attribute, places, and other attributes
TABLES = {
    "tabs": ("label", "tab_index", ["@0", "@1", "@2", "@5"], True),
    "form": ("label", "form_index", ["@0", "@1", "@2", "@5"], True),
    "grid": ("label", "grid_index", ["@[0, 0]", "@[0, 1]", "@[1, 0]", "@[2, 1]"], False),
    "cells": ("standarditem", "model_index",
              ["@[0, 0]", "@[0, 1]", "@[1, 0]", "@[2, 1]"], False),
    "subcells": ("standarditem", "model_index",
                 ["@[0, 0]", "@[0, 1]", "@[1, 0]", "@[2, 1]"], False),
}  # fmt: skip
for name in ("cells", "subcells"):
    SPECIAL[name] = dict(classes={"i": ["standarditem"]}, kids={"root": {"i": ""}},
                         loose=["#container"], only_table=True,
                         schema={"standarditem": [["text!"], ["model_index!"]]})  # fmt: skip

ALL = {**WORLDS, **SPECIAL}

for world in SPECIAL.values():
    world.setdefault("loose", [])
    world.setdefault("need", {})
    world.setdefault("given", {})
    world["elements"] = [t for ts in world["classes"].values() for t in ts]
    world["leaves"] = []
    world["event_names"] = CLICKS
