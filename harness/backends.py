"""The renderers for user interface toolkits, with what is needed to inspect them."""

import functools
import json

import cgrt as rt

from worlds import ALL as WORLDS
from worlds import SPECIAL


def get(world, logged):
    if world == "scene":
        return logged(gfx_renderer())()
    return logged(qt_renderer(world))(autoshow=world == "app")


def types(world):
    return list(dict.fromkeys([*WORLDS[world]["elements"], *WORLDS[world]["leaves"]]))


def names(world, type):
    schema = WORLDS[world]["schema"]
    mine = [n[0].rstrip("!") for n in schema.get(type, []) + schema.get("*", [])]
    return ["key", *mine, *(e for e in rt.EXTRA if e not in mine)]


def custom(value):
    return isinstance(value, Missing)


class Missing:
    pass


MISSING = Missing()


# ------------------------------------------------------------------- pygfx
@functools.lru_cache(None)
def gfx_renderer():
    import pygfx as gfx
    from collagraph.renderers import PygfxRenderer

    class Gfx(rt.Inspect, PygfxRenderer):
        world = "scene"

        def make_container(self):
            return gfx.Scene()

        def children_of(self, el):
            return list(el.children)

        def type_of(self, el):
            name = type(el).__name__
            return {"Scene": "scene"}.get(name, name)

        def text_of(self, el):
            return ""

        def attrs_of(self, el):
            result = {}
            for name in names("scene", self.type_of(el)):
                value = el
                for part in name.split("."):
                    value = getattr(value, part, MISSING)
                if value is MISSING:
                    continue
                if hasattr(value, "tolist"):
                    value = value.tolist()
                if isinstance(value, gfx.Color):
                    value = value.hex
                result[name] = value
            return result

        def defaults(self):
            result = []
            for type in types("scene"):
                el = PygfxRenderer.create_element(self, type)
                attrs = [[k, rt.enc_attr(v)] for k, v in self.attrs_of(el).items()]
                result.append([type, attrs])
            return result

        def events_of(self, el):
            return [e for e in ("click", "pointer_down") if el._event_handlers.get(e)]

        def fire(self, el, event, args):
            el.handle_event(gfx.Event(type=event))

    return Gfx


# ------------------------------------------------------------------ PySide
@functools.lru_cache(None)
def qt_renderer(world_name):
    from PySide6 import QtCore, QtGui, QtWidgets
    from collagraph.renderers import PySideRenderer

    app = QtCore.QCoreApplication.instance() or QtWidgets.QApplication([])

    def position(el):
        layout = el.parentWidget().layout()
        return list(layout.getItemPosition(layout.indexOf(el))[:2])

    def form_label(el):
        layout = el.parentWidget().layout()
        row, _ = layout.getWidgetPosition(el)
        # Unlike labelForField, this leaves no wrapper behind when Qt deletes the label
        label = layout.itemAt(row, QtWidgets.QFormLayout.ItemRole.LabelRole)
        return label.widget().text() if label else ""

    def tab_widget(el):
        parent = el.parent() and el.parent().parent()
        return parent if isinstance(parent, QtWidgets.QTabWidget) else None

    def layout_of(el):
        layout = el.layout()
        for name, type in (
            ("form", QtWidgets.QFormLayout),
            ("grid", QtWidgets.QGridLayout),
            ("stacked", QtWidgets.QStackedLayout),
        ):
            if isinstance(layout, type):
                if name == "grid":
                    stretch = [(i, layout.columnStretch(i)) for i in range(2)]
                    return {"type": name, "column_stretch": stretch}
                return {"type": name}
        m = layout.contentsMargins()
        return {"type": "box", "direction": layout.direction().name,
                "spacing": layout.spacing(),
                "contents_margins": (m.left(), m.top(), m.right(), m.bottom())}  # fmt: skip

    def button_box(el):
        while not isinstance(el, QtWidgets.QDialogButtonBox):
            el = el.parentWidget()
        return el

    def is_permanent(el):
        """Permanent widgets are at the right of the other ones."""
        bar = el.parentWidget()
        bar.window().show()
        app.processEvents()
        return el.x() > bar.width() / 2

    readers = {
        "text": lambda el: el.text(),
        "items": lambda el: [el.itemText(i) for i in range(el.count())],
        "foo": lambda el: getattr(el, "foo", MISSING),
        "key": lambda el: getattr(el, "key", MISSING),
        "layout": layout_of,
        "form_label": form_label,
        "grid_index": position,
        "tab_label": lambda el: tab_widget(el).tabText(tab_widget(el).indexOf(el)),
        "content": lambda el: {"0": el.text(0)},
        "expanded": lambda el: el.isExpanded(),
        "selected": lambda el: el.isSelected(),
        "editable": lambda el: el.isEditable()
        if isinstance(el, QtGui.QStandardItem)
        else el.property("editable"),
        "area": lambda el: el.parentWidget().dockWidgetArea(el)
        if isinstance(el, QtWidgets.QDockWidget)
        else el.parentWidget().toolBarArea(el),
        "title": lambda el: getattr(el, "title", MISSING),
        "role": lambda el: button_box(el).buttonRole(el).name,
        "permanent": is_permanent,
        "tab_index": lambda el: getattr(el, "tab_index", MISSING),
        "form_index": lambda el: getattr(el, "form_index", MISSING),
        "maximum_size": lambda el: (el.maximumWidth(), el.maximumHeight()),
        "model_index": lambda el: [el.row(), el.column()],
    }

    def read(el, name):
        if name in readers and (name != "title" or world_name == "dock"):
            return readers[name](el)
        if isinstance(el, QtGui.QStandardItem):
            return getattr(el, "is" + name.capitalize())()
        parts = name.replace("-", "_").split("_")
        return el.property(parts[0] + "".join(p.capitalize() for p in parts[1:]))

    signals = {"clicked", "toggled", "triggered", "hovered", "aboutToShow"}

    class Qt(rt.Inspect, PySideRenderer):
        world = world_name

        def register_asyncio(self):
            """The event loop of the driver is used."""

        def make_container(self):
            w = QtWidgets
            make = self.create_object
            if world_name == "app":
                return app
            if world_name == "subcells":
                self.model = make("itemmodel")
                el = make("standarditem")
                PySideRenderer.insert(self, el, self.model)
                return el
            if world_name == "buttons":
                return make("dialogbuttonbox")
            if world_name in ("scroll", "dock", "main", "cells") or world_name in SPECIAL:
                names = {"scroll": "scrollarea", "main": "window", "cells": "itemmodel",
                         "permanent": "statusbar"}
                el = make(names.get(world_name, world_name))
                if world_name == "permanent":
                    self.window = make("window")
                    PySideRenderer.insert(self, el, self.window)
                    self.window.resize(2000, 200)
                return el
            if world_name in ("box", "boxes", "form", "grid", "stacked"):
                el = make("widget")
                type = "box" if world_name == "boxes" else world_name
                PySideRenderer.set_attribute(self, el, "layout", {"type": type})
                self.keep = el
            elif world_name in ("tabs", "splitter", "menu", "tree", "items"):
                el = make(
                    {
                        "tabs": "QTabWidget",
                        "splitter": "QSplitter",
                        "menu": "menu",
                        "tree": "tree_widget",
                        "items": "itemmodel",
                    }[world_name]
                )
                if world_name == "tree":
                    el.setSelectionMode(w.QAbstractItemView.SelectionMode.MultiSelection)
            else:
                self.window = make("window")
                if world_name == "window":
                    return self.window
                el = make({"menubar": "menubar", "toolbar": "toolbar",
                           "statusbar": "statusbar"}[world_name])  # fmt: skip
                PySideRenderer.insert(self, el, self.window)
            return el

        def catch_up(self):
            app.processEvents()
            app.sendPostedEvents(None, QtCore.QEvent.Type.DeferredDelete.value)

        def loose(self):
            loose = {
                "grid": ["widget", "#container"],
                "window": ["#container"],
                "statusbar": ["#container"],
            }
            if world_name in SPECIAL:
                return SPECIAL[world_name]["loose"]
            return loose.get(world_name, [])

        def children_of(self, el):
            w = QtWidgets
            if world_name == "app":
                ours = [c for c in app.topLevelWidgets() if id(c) in rt.CTX.elements]
                return [c for c in ours if c.isVisible()] if el is app else []
            if isinstance(el, w.QScrollArea):
                return [c for c in [el.widget()] if c]
            if isinstance(el, w.QDockWidget):
                return [c for c in [el.titleBarWidget(), el.widget()] if c]
            if isinstance(el, (w.QListView, w.QTableView, w.QTreeView)) and not isinstance(
                el, w.QTreeWidget
            ):
                parts = [el.model(), el.selectionModel()]
                return [c for c in parts if c and id(c) in rt.CTX.elements]
            if isinstance(el, w.QDialogButtonBox):
                return list(el.buttons())
            if world_name in ("cells", "subcells"):
                if el is not rt.CTX.elements_container:
                    return []
                get = el.item if world_name == "cells" else el.child
                cells = [get(i, j) for i in range(el.rowCount())
                         for j in range(el.columnCount())]  # fmt: skip
                return [c for c in cells if c]
            if world_name == "main":
                return self.children_of_window(el)
            if isinstance(el, (w.QTabWidget, w.QSplitter)):
                return [el.widget(i) for i in range(el.count())]
            if isinstance(el, (w.QMenu, w.QMenuBar)):
                return [a.menu() or a for a in el.actions()]
            if isinstance(el, w.QToolBar):
                return [el.widgetForAction(a) if isinstance(a, w.QWidgetAction) else a
                        for a in el.actions()]  # fmt: skip
            if isinstance(el, w.QTreeWidget):
                return [el.topLevelItem(i) for i in range(el.topLevelItemCount())]
            if isinstance(el, w.QTreeWidgetItem):
                return [el.child(i) for i in range(el.childCount())]
            if isinstance(el, QtGui.QStandardItemModel):
                return [el.item(i) for i in range(el.rowCount())]
            if isinstance(el, QtGui.QStandardItem):
                return [el.child(i) for i in range(el.rowCount())]
            if isinstance(el, (w.QStatusBar, w.QMainWindow)):
                return [c for c in el.children() if id(c) in rt.CTX.elements]
            if type(el).__mro__[1] not in (w.QWidget, w.QGroupBox):
                return []
            layout = el.layout()
            if layout is None:
                return []
            if isinstance(layout, w.QFormLayout):
                items = [layout.itemAt(i, w.QFormLayout.ItemRole.FieldRole)
                         for i in range(layout.rowCount())]  # fmt: skip
                return [i.widget() for i in items if i]
            # Wrappers of the items of layouts would be left behind when Qt deletes them
            inside = [c for c in el.children() if isinstance(c, w.QWidget)]
            inside = [c for c in inside if layout.indexOf(c) >= 0]
            return sorted(inside, key=layout.indexOf)

        def children_of_window(self, el):
            w = QtWidgets
            if not isinstance(el, w.QMainWindow):
                return []
            result = []
            for child in el.children():
                if id(child) not in rt.CTX.elements:
                    continue
                if isinstance(child, w.QDialog):
                    shown = not child.isHidden()
                elif isinstance(child, w.QDockWidget):
                    shown = el.dockWidgetArea(child).name != "NoDockWidgetArea"
                elif isinstance(child, w.QToolBar):
                    shown = el.toolBarArea(child).name != "NoToolBarArea"
                elif isinstance(child, w.QMenuBar):
                    shown = el.menuWidget() is child
                elif isinstance(child, w.QStatusBar):
                    shown = el.statusBar() is child
                else:
                    shown = el.centralWidget() is child
                if shown:
                    result.append(child)
            return result

        def type_of(self, el):
            return type(el).__name__

        def text_of(self, el):
            return ""

        def attrs_of(self, el, skip=()):
            result = {}
            if world_name in SHOWN and isinstance(el, QtWidgets.QWidget):
                result["#shown"] = not el.isHidden()
            for name in names(world_name, self.type_of(el)):
                if name not in skip:
                    value = read(el, name)
                    if value is not MISSING:
                        result[name] = value
            return result

        def defaults(self):
            result = []
            for type in types(world_name):
                el = PySideRenderer.create_object(type)
                schema = WORLDS[world_name]["schema"]
                must = [n[0].rstrip("!") for n in schema.get(type, []) + schema.get("*", [])
                        if n[0].endswith("!")]  # fmt: skip
                attrs = self.attrs_of(el, must)
                if "#shown" in attrs:
                    attrs["#shown"] = True
                result.append([type, [[k, rt.enc_attr(v)] for k, v in attrs.items()]])
            return result

        def events_of(self, el):
            events = WORLDS[world_name]["event_names"]
            return events.get(self.type_of(el), events.get("*", []))

        def fire(self, el, event, args):
            parts = event.replace("-", "_").split("_")
            name = parts[0] + "".join(p.capitalize() for p in parts[1:])
            if name in signals:
                signal = getattr(el, name)
                if name in ("toggled",):
                    signal.emit(True)
                else:
                    signal.emit()
                return
            type = getattr(QtCore.QEvent.Type, name[0].upper() + name[1:])
            app.sendEvent(el, QtCore.QEvent(type))

    return Qt


# Where elements can be seen as soon as they are inserted
SHOWN = ("box", "boxes", "form", "grid", "splitter", "statusbar", "window", "scroll", "dock",
         "main", "buttons", "permanent")  # fmt: skip


def encode(value):
    """Values of enumerations."""
    if hasattr(value, "name"):
        return {"$qt": value.name}
    raise TypeError(value)


def decode(value):
    from PySide6 import QtCore

    kind = "ToolBarArea" if value.endswith("ToolBarArea") else "DockWidgetArea"
    return getattr(getattr(QtCore.Qt, kind), value)
