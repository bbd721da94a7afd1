From 177a69482c3bcd99c1beed9755187b9bb309dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:40 +0000
Subject: [PATCH 01/63] fix: DictRenderer finds children by identity and
 tolerates removing an attribute from an element without attributes

Siblings often compare equal as dicts, so removing (or inserting before) an
element by equality could act on another element than the one given.
---
 collagraph/renderers/dict_renderer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 2856270..acb3012 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -21,12 +21,12 @@ class DictRenderer(Renderer):
 
     def insert(self, el, parent, anchor=None):
         children = parent.setdefault("children", [])
-        anchor_idx = children.index(anchor) if anchor else len(children)
+        anchor_idx = len(children) if anchor is None else index_of(children, anchor)
         children.insert(anchor_idx, el)
 
     def remove(self, el, parent):
         children = parent["children"]
-        children.remove(el)
+        del children[index_of(children, el)]
 
     def set_element_text(self, el: dict, value: str):
         el["text"] = value
@@ -36,7 +36,7 @@ class DictRenderer(Renderer):
         attributes[attr] = value
 
     def remove_attribute(self, obj, attr: str, value):
-        attributes = obj["attrs"]
+        attributes = obj.get("attrs", {})
         if attr in attributes:
             del attributes[attr]
 
@@ -48,3 +48,12 @@ class DictRenderer(Renderer):
         event_listeners = el.get("handlers", None)
         if event_listeners:
             event_listeners[event_type].remove(value)
+
+
+def index_of(children, el):
+    """Returns the index of `el` itself in `children`. Siblings can be equal
+    to each other, so the items have to be compared by identity."""
+    for idx, child in enumerate(children):
+        if child is el:
+            return idx
+    raise ValueError(f"{el} is not in list")
-- 
2.43.0


From 9be54e7b9177b369b4578e57be49f91c263baf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 02/63] fix: functions bound to other objects or with other
 argument defaults or constant types are not equivalent

An event handler that was deemed equivalent to the installed one is not
replaced, so the element kept calling the handler of an earlier render.
---
 collagraph/compare.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 5e9133d..0cdd053 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -18,7 +18,15 @@ def equivalent_functions(a: Callable, b: Callable):
 
         return a == b
 
-    return equivalent_code(a.__code__, b.__code__) and equivalent_closure_values(a, b)
+    # Methods are only equivalent when they are bound to the same object
+    if getattr(a, "__self__", None) is not getattr(b, "__self__", None):
+        return False
+
+    return (
+        equivalent_code(a.__code__, b.__code__)
+        and equivalent_defaults(a, b)
+        and equivalent_closure_values(a, b)
+    )
 
 
 def equivalent_code(a, b):
@@ -57,10 +65,29 @@ def equivalent_code(a, b):
                 return False
         elif attr_a != attr_b:
             return False
+        elif attr == "co_consts" and [*map(type, attr_a)] != [*map(type, attr_b)]:
+            # Constants of different types can compare equal (`1` and `True`)
+            return False
 
     return True
 
 
+def equivalent_defaults(a, b):
+    """Compare the default values of the arguments of the given functions."""
+    defaults_a = dict(enumerate(a.__defaults__ or ()), **(a.__kwdefaults__ or {}))
+    defaults_b = dict(enumerate(b.__defaults__ or ()), **(b.__kwdefaults__ or {}))
+    return defaults_a.keys() == defaults_b.keys() and all(
+        equivalent_values(val, defaults_b[key]) for key, val in defaults_a.items()
+    )
+
+
+def equivalent_values(a, b):
+    if callable(a) and callable(b):
+        return equivalent_functions(a, b)
+    # Values of different types can compare equal (`1` and `True`)
+    return type(a) is type(b) and a == b
+
+
 def equivalent_closure_values(a, b):
     """Compare the cell contents of the __closure__ attribute for the given
     functions. This method assumes that the code for a and be is already
@@ -74,11 +101,7 @@ def equivalent_closure_values(a, b):
             return False
 
         for a, b in zip(values_a, values_b):
-            if callable(a) and callable(b):
-                if not equivalent_functions(a, b):
-                    return False
-            else:
-                if a != b:
-                    return False
+            if not equivalent_values(a, b):
+                return False
 
     return True
-- 
2.43.0


From dad86b712dd9480968382a3b1b91e8caec765335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:29 +0000
Subject: [PATCH 03/63] fix: comparing event handlers that refer to themselves
 does not recurse endlessly

---
 collagraph/compare.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 0cdd053..d9c1ed6 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -2,18 +2,25 @@ from functools import partial
 from typing import Callable
 
 
-def equivalent_functions(a: Callable, b: Callable):
+def equivalent_functions(a: Callable, b: Callable, pending=frozenset()):
     """Returns whether function a is equivalent to function b.
 
     ``functools.partial`` functions are also supported (but only when both
     argument a and b are partial).
+
+    The pairs of functions that are already being compared are passed on in
+    `pending`, because functions can refer to themselves in their closure.
     """
+    if a is b or (id(a), id(b)) in pending:
+        return True
+    pending = pending | {(id(a), id(b))}
+
     if not hasattr(a, "__code__") or not hasattr(b, "__code__"):
         if isinstance(a, partial) and isinstance(b, partial):
             return (
                 a.args == b.args
                 and a.keywords == b.keywords
-                and equivalent_functions(a.func, b.func)
+                and equivalent_functions(a.func, b.func, pending)
             )
 
         return a == b
@@ -24,8 +31,8 @@ def equivalent_functions(a: Callable, b: Callable):
 
     return (
         equivalent_code(a.__code__, b.__code__)
-        and equivalent_defaults(a, b)
-        and equivalent_closure_values(a, b)
+        and equivalent_defaults(a, b, pending)
+        and equivalent_closure_values(a, b, pending)
     )
 
 
@@ -72,23 +79,24 @@ def equivalent_code(a, b):
     return True
 
 
-def equivalent_defaults(a, b):
+def equivalent_defaults(a, b, pending):
     """Compare the default values of the arguments of the given functions."""
     defaults_a = dict(enumerate(a.__defaults__ or ()), **(a.__kwdefaults__ or {}))
     defaults_b = dict(enumerate(b.__defaults__ or ()), **(b.__kwdefaults__ or {}))
     return defaults_a.keys() == defaults_b.keys() and all(
-        equivalent_values(val, defaults_b[key]) for key, val in defaults_a.items()
+        equivalent_values(val, defaults_b[key], pending)
+        for key, val in defaults_a.items()
     )
 
 
-def equivalent_values(a, b):
+def equivalent_values(a, b, pending):
     if callable(a) and callable(b):
-        return equivalent_functions(a, b)
+        return equivalent_functions(a, b, pending)
     # Values of different types can compare equal (`1` and `True`)
     return type(a) is type(b) and a == b
 
 
-def equivalent_closure_values(a, b):
+def equivalent_closure_values(a, b, pending):
     """Compare the cell contents of the __closure__ attribute for the given
     functions. This method assumes that the code for a and be is already
     equivalent."""
@@ -101,7 +109,7 @@ def equivalent_closure_values(a, b):
             return False
 
         for a, b in zip(values_a, values_b):
-            if not equivalent_values(a, b):
+            if not equivalent_values(a, b, pending):
                 return False
 
     return True
-- 
2.43.0


From dd72aa1c5f9c2a60b8a2f4fc096e7e0c1297221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 04/63] fix: remember the event handler that is actually
 installed when an equivalent one is passed

---
 collagraph/collagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 84008d7..b46f850 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -549,6 +549,9 @@ class Collagraph:
                     val, next_props, key
                 ):
                     equivalent_event_handlers.add(key)
+                    # The current handler stays in place, so that
+                    # is the one to remove later on
+                    next_props[key] = val
                     continue
 
                 event_type = key_to_event(key)
-- 
2.43.0


From eea7442e8c647ec71cf2c7e17c4d64fb2b8fa5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 05/63] fix: removing a node without DOM element removes all
 the elements below it, if any

---
 collagraph/collagraph.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index b46f850..6d963da 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -458,8 +458,8 @@ class Collagraph:
     def commit_deletion(self, fiber: Fiber, dom_parent: Any):
         """
         Remove an item from the dom. If the given fiber does not reference
-        a dom element, then it will try its child (recursively) until it finds
-        a fiber with a dom element that can be removed.
+        a dom element, then it will try all of its children (recursively) in
+        order to remove every dom element that belongs to the fiber.
         Clears the child and dom attributes of the fiber.
         """
         if fiber.component:
@@ -483,7 +483,12 @@ class Collagraph:
             self.renderer.remove(fiber.dom, dom_parent)
             fiber.dom = None
         else:
-            self.commit_deletion(fiber.child, dom_parent)
+            child = fiber.child
+            while child:
+                # The sibling gets cleared when committing the deletion
+                sibling = child.sibling
+                self.commit_deletion(child, dom_parent)
+                child = sibling
 
         fiber.child = None
         fiber.sibling = None
-- 
2.43.0


From 5e9ccc94c4a17c8861f847f7cd7ddf3e2b3b5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 06/63] fix: put elements at the position at which they are
 described

Elements without key, elements of which the type changes and elements that are
rendered by components, templates and slots ended up behind their siblings, or
stayed where they were, because anchors were only looked up by key among the
elements that were direct children. Determine which fibers move from the positions of
all the fibers that are kept, and look up the anchor when placing an element:
the next element in the new tree that is already in place.
---
 collagraph/collagraph.py | 97 +++++++++++++++++++++++++++-------------
 collagraph/types.py      |  3 +-
 2 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 6d963da..d582705 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -1,7 +1,7 @@
 from itertools import zip_longest
 import logging
 from operator import xor
-from queue import SimpleQueue
+from queue import LifoQueue, SimpleQueue
 import time
 from typing import Any, Callable, Dict, Iterable, List, Optional
 
@@ -107,7 +107,7 @@ class Collagraph:
         self._render_callback: Callable = None
         self._request = None
         self._qt_timer = None
-        self._work = SimpleQueue()
+        self._work = LifoQueue()
         self._dirty = False
 
     def render(self, element: VNode, container, callback=None):
@@ -318,22 +318,20 @@ class Collagraph:
 
         ordered_old_fibers, removals = compare(elements, old_fibers, match=matcher)
 
-        operations = {}
-        if len(elements) > 1:
-            new_keys = [el.key for el in elements if el and el.key]
-            old_keys = [fib.key for fib in old_fibers if fib and fib.key]
-
-            ops = create_ops(old_keys, new_keys)
-
-            for op in ops:
-                if op["op"] is not OpType.DEL:
-                    if "anchor" in op:
-
-                        def match(el, key):
-                            return el.key == key
-
-                        anchor = first(old_fibers, match, op["anchor"])
-                        operations[op["value"]] = anchor.dom
+        # Figure out which of the fibers that are kept have to be moved. The fibers
+        # are identified by their position, because they don't need to have a key.
+        positions = {id(fiber): idx for idx, fiber in enumerate(old_fibers)}
+        kept = [
+            positions[id(fiber)]
+            for element, fiber in zip(elements, ordered_old_fibers)
+            if element and fiber and element.type == fiber.type
+        ]
+        in_order = sorted(kept)
+        moves = (
+            {op["value"] for op in create_ops(in_order, kept)}
+            if kept != in_order
+            else set()
+        )
 
         # In here, all the 'new' elements are compared to the old/current fiber/state
         prev_sibling = None
@@ -356,8 +354,7 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.UPDATE
                 new_fiber.watcher = None
-                new_fiber.move = new_fiber.key in operations
-                new_fiber.anchor = operations.get(new_fiber.key)
+                new_fiber.move = positions[id(old_fiber)] in moves
             if element and not same_type:
                 # Configure a fiber for creating a new DOM element
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
@@ -373,8 +370,7 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.PLACEMENT
                 new_fiber.watcher = None
-                new_fiber.move = False
-                new_fiber.anchor = operations.get(new_fiber.key)
+                new_fiber.move = True
                 # NOTE: If there is an old_fiber, then it will be
                 # marked for deletion in the next if statement
             if old_fiber and not same_type:
@@ -400,7 +396,7 @@ class Collagraph:
         that have been marked for deletion have been removed.
         """
         for deletion in self._deletions:
-            self._work.put(deletion)
+            self.commit_work(deletion)
         self._deletions = []
         self._work.put(self._wip_root.child)
 
@@ -509,16 +505,23 @@ class Collagraph:
                 )
                 fiber.mounted = True
             if fiber.dom is not None:
-                self.renderer.insert(fiber.dom, dom_parent, anchor=fiber.anchor)
+                self.renderer.insert(fiber.dom, dom_parent, anchor=find_anchor(fiber))
+            fiber.move = False
         elif fiber.effect_tag == EffectTag.UPDATE:
-            if fiber.dom is not None:
-                if fiber.move:
+            if fiber.move:
+                if fiber.dom is not None:
                     self.renderer.remove(fiber.dom, dom_parent)
                     self.renderer.insert(
-                        fiber.dom,
-                        dom_parent,
-                        anchor=fiber.anchor,
+                        fiber.dom, dom_parent, anchor=find_anchor(fiber)
                     )
+                else:
+                    # There is no DOM element for this fiber,
+                    # so all the elements below it have to be moved
+                    child = fiber.child
+                    while child:
+                        child.move = True
+                        child = child.sibling
+                fiber.move = False
             self.update_dom_or_component(
                 fiber,
                 fiber.dom,
@@ -528,8 +531,9 @@ class Collagraph:
         elif fiber.effect_tag == EffectTag.DELETION:
             self.commit_deletion(fiber, dom_parent)
 
-        self._work.put(fiber.child)
+        # Last in, first out: the children are processed before the siblings
         self._work.put(fiber.sibling)
+        self._work.put(fiber.child)
 
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
@@ -622,6 +626,39 @@ class Collagraph:
                     parent = parent.parent
 
 
+def first_dom(fiber: Fiber):
+    """Returns the first DOM element of the given fiber (or the fibers below it)
+    that is already at the right place in the DOM."""
+    if fiber.move:
+        return None
+    if fiber.dom is not None:
+        return fiber.dom
+    child = fiber.child
+    while child:
+        if (dom := first_dom(child)) is not None:
+            return dom
+        child = child.sibling
+    return None
+
+
+def find_anchor(fiber: Fiber):
+    """Returns the DOM element in front of which the DOM element of the given fiber
+    should be inserted, or None if it should be inserted as the last element."""
+    # The elements below a new element are inserted one after the other
+    if fiber.parent.dom is not None and fiber.parent.effect_tag == EffectTag.PLACEMENT:
+        return None
+    while fiber:
+        sibling = fiber.sibling
+        while sibling:
+            if (dom := first_dom(sibling)) is not None:
+                return dom
+            sibling = sibling.sibling
+        fiber = fiber.parent
+        # Stop at the element in which will be inserted
+        if fiber and fiber.dom is not None:
+            return None
+
+
 def is_event(key):
     return key.startswith("on_")
 
diff --git a/collagraph/types.py b/collagraph/types.py
index 3a325e4..3e4e244 100644
--- a/collagraph/types.py
+++ b/collagraph/types.py
@@ -42,8 +42,7 @@ class Fiber:
     dom: Any = None
     effect_tag: EffectTag = None
     key: str = None
-    anchor: Any = None  # Dom element
-    move: bool = False
+    move: bool = False  # Whether the DOM element still has to be put at its place
     parent: "Fiber" = None
     props: Dict = None
     sibling: "Fiber" = None
-- 
2.43.0


From 4e1afacc5ae805f7e9f054fd066f2a4cdd330b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 07/63] fix: forget the earlier tree of a root fiber that is
 reused

After rendering another element with the same instance, a state change tried to
commit the tree of the element that was rendered before.
---
 collagraph/collagraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index d582705..ce891f8 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -290,6 +290,8 @@ class Collagraph:
         self._wip_root.props = self._current_root.props
         self._wip_root.children = self._current_root.children
         self._wip_root.alternate = self._current_root
+        # Might be a reused fiber, so clear any reference to an earlier tree
+        self._wip_root.child = None
         self._next_unit_of_work = self._wip_root
         self._deletions = []
         self.request_idle_work()
-- 
2.43.0


From 29c8fdd0e7ca5446d64bb4b4f17828a880d593b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 08/63] fix: don't lose state changes that happen while a new
 tree is being built

Changes that arrive between two slices of work, of state that was already used
in the unfinished tree, were forgotten at the moment of committing the tree.
Also take the snapshot of the props at the same moment as they are used.
---
 collagraph/collagraph.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index ce891f8..fc6b0e3 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -109,6 +109,8 @@ class Collagraph:
         self._qt_timer = None
         self._work = LifoQueue()
         self._dirty = False
+        # The fiber that is being rendered
+        self._rendering: Fiber = None
 
     def render(self, element: VNode, container, callback=None):
         self._wip_root = Fiber(
@@ -119,6 +121,7 @@ class Collagraph:
         )
 
         self._deletions = []
+        self._dirty = False
         self._next_unit_of_work = self._wip_root
         self._render_callback = callback
 
@@ -173,9 +176,8 @@ class Collagraph:
             # All the preparations to build the new WIP root have been performed,
             # so it's time to walk through the new WIP root fiber tree and update
             # the actual DOM
-            self._dirty = False
             self.commit_root()
-            # A state change happened during updating of the DOM
+            # A state change happened since the start of building the new tree
             if self._dirty:
                 self.prepare_next_iteration_of_work()
 
@@ -186,6 +188,9 @@ class Collagraph:
                 self._render_callback()
 
     def perform_unit_of_work(self, fiber: Fiber) -> Optional[Fiber]:
+        self._rendering = fiber
+        # The props might have changed since the parent was rendered
+        fiber.props_snapshot = to_raw(fiber.props)
         is_function_or_class_component = callable(fiber.type)
         if is_function_or_class_component:
             is_class_component = isinstance(fiber.type, type)
@@ -195,6 +200,7 @@ class Collagraph:
                 self.update_function_component(fiber)
         else:
             self.update_host_component(fiber)
+        self._rendering = None
 
         # Return next unit of work
         if child := fiber.child:
@@ -294,9 +300,14 @@ class Collagraph:
         self._wip_root.child = None
         self._next_unit_of_work = self._wip_root
         self._deletions = []
+        self._dirty = False
         self.request_idle_work()
 
     def state_updated(self, fiber: Fiber):
+        # Don't act upon changes that a fiber makes itself while it is rendered
+        if fiber is self._rendering:
+            return
+
         self._dirty = True
 
         if not self._wip_root:
@@ -346,7 +357,6 @@ class Collagraph:
                 new_fiber = old_fiber.alternate or Fiber()
                 new_fiber.type = element.type
                 new_fiber.props = element.props
-                new_fiber.props_snapshot = to_raw(element.props)
                 new_fiber.children = element.children
                 new_fiber.key = element.key
                 new_fiber.dom = old_fiber.dom
@@ -362,7 +372,6 @@ class Collagraph:
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
                 new_fiber.type = element.type
                 new_fiber.props = element.props
-                new_fiber.props_snapshot = to_raw(element.props)
                 new_fiber.children = element.children
                 new_fiber.key = element.key
                 new_fiber.dom = None
-- 
2.43.0


From ca07ec6acba48e2768457dc13aba0a824febac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:12 +0000
Subject: [PATCH 09/63] fix: keep components when an unfinished tree is
 abandoned by another call to render

---
 collagraph/collagraph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index fc6b0e3..d264e62 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -213,7 +213,7 @@ class Collagraph:
             next_fiber = next_fiber.parent
 
     def update_class_component(self, fiber: Fiber):
-        component = fiber.component or fiber.alternate and fiber.alternate.component
+        component = fiber.alternate and fiber.alternate.component
         if not component:
             parent_component = None
             parent_fiber = fiber.parent
@@ -231,7 +231,6 @@ class Collagraph:
         component._slots = fiber.children if isinstance(fiber.children, dict) else {}
 
         if fiber.alternate:
-            fiber.alternate.component = None
             fiber.watcher = fiber.alternate.watcher
             fiber.alternate.watcher = None
 
@@ -365,6 +364,10 @@ class Collagraph:
                 new_fiber.child = None
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.UPDATE
+                new_fiber.component = None
+                new_fiber.mounted = False
+                new_fiber.updated = False
+                new_fiber.unmounted = False
                 new_fiber.watcher = None
                 new_fiber.move = positions[id(old_fiber)] in moves
             if element and not same_type:
@@ -380,6 +383,10 @@ class Collagraph:
                 new_fiber.child = None
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.PLACEMENT
+                new_fiber.component = None
+                new_fiber.mounted = False
+                new_fiber.updated = False
+                new_fiber.unmounted = False
                 new_fiber.watcher = None
                 new_fiber.move = True
                 # NOTE: If there is an old_fiber, then it will be
-- 
2.43.0


From bdb3733eb2aec5677d7ce8950b8468383b5904d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 10/63] fix: components use the latest props of their parent,
 without writing to the props that were passed first

Updates of props were written as copies to the dict with which the component was
created. Such a dict can be part of the state of the user, which then was
overwritten, and components did not see later changes of the values.
---
 collagraph/collagraph.py | 52 ++++++++++++++++++++++++----------------
 collagraph/component.py  | 13 ++++++++++
 2 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index d264e62..8302bb2 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -214,6 +214,11 @@ class Collagraph:
 
     def update_class_component(self, fiber: Fiber):
         component = fiber.alternate and fiber.alternate.component
+
+        # Stop watching the previous render, before changing the props
+        if fiber.alternate:
+            fiber.alternate.watcher = None
+
         if not component:
             parent_component = None
             parent_fiber = fiber.parent
@@ -224,24 +229,23 @@ class Collagraph:
                 parent_fiber = parent_fiber.parent
 
             component = fiber.type(props=fiber.props, parent=parent_component)
+        else:
+            component._replace_props(
+                fiber.props,
+                changed=is_changed(
+                    fiber.alternate.props_snapshot, fiber.props_snapshot
+                ),
+            )
 
         # Attach the component instance to the fiber
         fiber.component = component
 
         component._slots = fiber.children if isinstance(fiber.children, dict) else {}
 
-        if fiber.alternate:
-            fiber.watcher = fiber.alternate.watcher
-            fiber.alternate.watcher = None
-
-        if fiber.watcher:
-            # Re-evaluate the watcher to get the new value
-            fiber.watcher.evaluate()
-        else:
-            fiber.watcher = watch(
-                component.render,
-                lambda: self.state_updated(fiber),
-            )
+        fiber.watcher = watch(
+            component.render,
+            lambda: self.state_updated(fiber),
+        )
 
         self.reconcile_children(fiber, [fiber.watcher.value])
 
@@ -519,7 +523,7 @@ class Collagraph:
         if fiber.effect_tag == EffectTag.PLACEMENT:
             if fiber.component:
                 self.update_dom_or_component(
-                    fiber, None, prev_props={}, next_props=fiber.props
+                    fiber, None, prev_props={}, next_props=fiber.props_snapshot
                 )
                 fiber.mounted = True
             if fiber.dom is not None:
@@ -601,17 +605,9 @@ class Collagraph:
                     attrs_to_update[key] = val
 
         if fiber.component:
-            # Get a writable reference to the read-only props of the component
-            props = reactive(fiber.component.props)
-
             for event_type, val in events_to_remove.items():
                 fiber.component.remove_event_handler(event_type, val)
 
-            for key in attrs_to_remove:
-                del props[key]
-
-            props.update(attrs_to_update)
-
             for event_type, val in events_to_add.items():
                 fiber.component.add_event_handler(event_type, val)
 
@@ -691,6 +687,20 @@ def is_new(val, other, key):
     return xor(old_value is None, val is None) or old_value != val
 
 
+def is_changed(prev_props, next_props):
+    """Returns whether there is any difference between the given props. New
+    functions are not considered to be a change when they are equivalent."""
+    if prev_props.keys() != next_props.keys():
+        return True
+    for key, val in next_props.items():
+        if callable(val) and callable(prev_props[key]):
+            if not equivalent_functions(prev_props[key], val):
+                return True
+        elif is_new(val, prev_props, key):
+            return True
+    return False
+
+
 def is_equivalent_event_handler(val, other, key):
     alt = other.get(key)
     return equivalent_functions(val, alt)
diff --git a/collagraph/component.py b/collagraph/component.py
index b0f14fd..be6f43f 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -14,6 +14,8 @@ class Component:
 
     def __init__(self, props=None, parent=None):
         self._props = readonly({} if props is None else props)
+        # Makes it possible to notify about props being replaced
+        self._props_version = reactive({"version": 0})
         self._state = reactive({})
         self._element = None
         self._slots = {}
@@ -25,6 +27,7 @@ class Component:
     @property
     def props(self):
         """The incoming props of this component."""
+        self._props_version["version"]
         return self._props
 
     @props.setter
@@ -32,6 +35,16 @@ class Component:
         """Prevent overwriting the props attribute."""
         raise RuntimeError("Not allowed to override props attribute")
 
+    def _replace_props(self, props, changed):
+        """Replace the props with the ones from the latest render of the parent.
+        Everything that uses the props is notified when there is any change."""
+        props = readonly(props)
+        if props is self._props:
+            return
+        self._props = props
+        if changed:
+            self._props_version["version"] += 1
+
     @property
     def state(self):
         """The local state of this component."""
-- 
2.43.0


From 212688710a0941f5b886606090826118aea255b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 11/63] fix: the element of a component is its root DOM
 element, also below other components and after it is replaced

---
 collagraph/collagraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 8302bb2..37e9eb4 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -452,9 +452,11 @@ class Collagraph:
                 component_hooks.put((fiber.child, True))
                 continue
 
+            if fiber.component:
+                fiber.component._element = first_dom(fiber)
+
             if fiber.mounted:
                 if fiber.component:
-                    fiber.component._element = fiber.child.dom
                     fiber.component.mounted()
                 fiber.mounted = False
                 fiber.updated = False
-- 
2.43.0


From 758fed3f780ec7a28d0b5dd22bbcca9427d782d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 12/63] fix: call updated for changes of text and for elements
 that are added, moved or removed

---
 collagraph/collagraph.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 37e9eb4..22cbbe4 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -399,6 +399,7 @@ class Collagraph:
                 # Mark the old fiber for deletion so that DOM element will be removed
                 old_fiber.effect_tag = EffectTag.DELETION
                 self._deletions.append(old_fiber)
+                mark_updated(wip_fiber)
 
             # And we add it to the fiber tree setting it either as a child or as a
             # sibling, depending on whether it’s the first child or not.
@@ -531,8 +532,10 @@ class Collagraph:
             if fiber.dom is not None:
                 self.renderer.insert(fiber.dom, dom_parent, anchor=find_anchor(fiber))
             fiber.move = False
+            mark_updated(fiber.parent)
         elif fiber.effect_tag == EffectTag.UPDATE:
             if fiber.move:
+                mark_updated(fiber.parent)
                 if fiber.dom is not None:
                     self.renderer.remove(fiber.dom, dom_parent)
                     self.renderer.insert(
@@ -568,6 +571,7 @@ class Collagraph:
         if fiber.type == "TEXT_ELEMENT":
             if (new_content := next_props["content"]) != prev_props.get("content"):
                 self.renderer.set_element_text(dom, new_content)
+                mark_updated(fiber.parent)
                 return
 
         events_to_remove = {}
@@ -629,17 +633,18 @@ class Collagraph:
             for event_type, val in events_to_add.items():
                 self.renderer.add_event_listener(dom, event_type, val)
 
-            # Climb up the tree to find first component to mark as updated
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
-                parent = fiber.parent
-                component = None
-                while parent:
-                    component = parent.component
-                    if component:
-                        # Mark the fiber as updated
-                        parent.updated = True
-                        break
-                    parent = parent.parent
+                mark_updated(fiber.parent)
+
+
+def mark_updated(fiber: Fiber):
+    """Climb up the tree to find the first component to mark as updated"""
+    while fiber:
+        if fiber.component:
+            # Mark the fiber as updated
+            fiber.updated = True
+            break
+        fiber = fiber.parent
 
 
 def first_dom(fiber: Fiber):
-- 
2.43.0


From 2d0bb5e393a9a620eaa484c9db4ca11af73e81a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:45 +0000
Subject: [PATCH 13/63] fix: keep conditional elements in front of the text and
 loops that follow them in a template

---
 collagraph/cgx/cgx.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 451305a..0a21bb2 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -345,6 +345,8 @@ def convert_node_to_args(node, *, names=None):
 
     slots = {}
     control_flow = []
+    # Position of the control flow among the children
+    control_flow_idx = 0
     for child in node.children:
         if isinstance(child, Comment):
             # Ignore comments
@@ -385,8 +387,12 @@ def convert_node_to_args(node, *, names=None):
         # Handle control flow directives
         if directive := child.control_flow():
             if directive == "v-if" and control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args.insert(
+                    control_flow_idx, create_control_flow_ast(control_flow, names=names)
+                )
                 control_flow = []
+            if not control_flow:
+                control_flow_idx = len(children_args)
             control_flow.append((directive, child))
 
         # Gather all the non-template children within a component tag and
@@ -412,7 +418,9 @@ def convert_node_to_args(node, *, names=None):
 
         if not directive:
             if control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args.insert(
+                    control_flow_idx, create_control_flow_ast(control_flow, names=names)
+                )
                 control_flow = []
             if child.tag == "slot":
                 children_args.append(call_render_slot(child, names=names))
@@ -420,7 +428,9 @@ def convert_node_to_args(node, *, names=None):
                 children_args.append(call_create_element(child, names=names))
 
     if control_flow:
-        children_args.append(create_control_flow_ast(control_flow, names=names))
+        children_args.insert(
+            control_flow_idx, create_control_flow_ast(control_flow, names=names)
+        )
         control_flow = []
 
     # Create a starred list comprehension that when called, will generate
-- 
2.43.0


From 6efa45d4f8a06960684542c4bd708a6e01ef58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 14/63] fix: text and loops within a component tag are part of
 its default slot

---
 collagraph/cgx/cgx.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 0a21bb2..86bfdca 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -344,6 +344,21 @@ def convert_node_to_args(node, *, names=None):
     children_args = []
 
     slots = {}
+    # Gather all the non-template children within a component tag and
+    # treat them as the content for the default slot
+    if node.tag[0].isupper() or "." in node.tag:
+        default_slot_content = [
+            child
+            for child in node.children
+            if isinstance(child, TextElement)
+            or (isinstance(child, Element) and child.tag != "template")
+        ]
+
+        if default_slot_content:
+            virtual_template_node = Element("template")
+            virtual_template_node.children = default_slot_content
+            slots["default"] = virtual_template_node
+
     control_flow = []
     # Position of the control flow among the children
     control_flow_idx = 0
@@ -395,20 +410,6 @@ def convert_node_to_args(node, *, names=None):
                 control_flow_idx = len(children_args)
             control_flow.append((directive, child))
 
-        # Gather all the non-template children within a component tag and
-        # treat them as the content for the default slot
-        if node.tag[0].isupper() or "." in node.tag:
-            default_slot_content = [
-                child
-                for child in node.children
-                if isinstance(child, Element) and child.tag != "template"
-            ]
-
-            if default_slot_content:
-                virtual_template_node = Element("template")
-                virtual_template_node.children = default_slot_content
-                slots["default"] = virtual_template_node
-
         for attr in child.attrs.keys():
             if attr.startswith(("v-slot", "#")):
                 slot_name = attr.split(":")[-1].split("#")[-1]
-- 
2.43.0


From f7cf43621c3219d4628a21d5c31df322ac9e0836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 15/63] fix: slots and event handlers within a loop in a
 template use the values of their own iteration

---
 collagraph/cgx/cgx.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 86bfdca..43a3edc 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -393,7 +393,23 @@ def convert_node_to_args(node, *, names=None):
             local_names = names.union(name_collector.names)
             RewriteName(skip=local_names).visit(for_tree)
 
-            for_tree.elt = call_create_element(child, names=local_names)
+            # Give every iteration its own scope, such that functions (slots, event
+            # handlers) use the values of the iteration in which they are created
+            scope = sorted(name_collector.names)
+            for_tree.elt = ast.Call(
+                func=ast.Lambda(
+                    args=ast.arguments(
+                        posonlyargs=[],
+                        args=[ast.arg(arg=name) for name in scope],
+                        kwonlyargs=[],
+                        kw_defaults=[],
+                        defaults=[],
+                    ),
+                    body=call_create_element(child, names=local_names),
+                ),
+                args=[ast.Name(id=name, ctx=ast.Load()) for name in scope],
+                keywords=[],
+            )
 
             result = ast.Starred(value=for_tree, ctx=ast.Load())
             children_args.append(result)
-- 
2.43.0


From cfe2ef60c99858a24335d46996c5be4f6e12ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 16/63] fix: slots with directives or at the root of a template
 render the content they are given

---
 collagraph/cgx/cgx.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 43a3edc..06eb4b5 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -215,7 +215,7 @@ def create_ast_render_function(node, names):
         ),
         body=[
             *extra_statements,
-            ast.Return(value=call_create_element(node, names=names)),
+            ast.Return(value=call_create_node(node, names=names)),
         ],
         decorator_list=[],
     )
@@ -236,6 +236,24 @@ def call_create_element(node, *, names):
     )
 
 
+def call_create_node(node, *, names):
+    """
+    Returns an expression that evaluates to a single node. The content of a slot can
+    consist of multiple nodes, so these are wrapped in one (virtual) slot element.
+    """
+    if node.tag != "slot":
+        return call_create_element(node, names=names)
+    return ast.Call(
+        func=ast.Name(id="_create_element", ctx=ast.Load()),
+        args=[
+            ast.Constant(value="slot"),
+            ast.Dict(keys=[], values=[]),
+            call_render_slot(node, names=names),
+        ],
+        keywords=[],
+    )
+
+
 def call_render_slot(node, *, names=None):
     slot_name = node.attrs.get("name", "default")
 
@@ -405,7 +423,7 @@ def convert_node_to_args(node, *, names=None):
                         kw_defaults=[],
                         defaults=[],
                     ),
-                    body=call_create_element(child, names=local_names),
+                    body=call_create_node(child, names=local_names),
                 ),
                 args=[ast.Name(id=name, ctx=ast.Load()) for name in scope],
                 keywords=[],
@@ -642,7 +660,7 @@ def create_control_flow_ast(control_flow, *, names):
     test = ast.parse(if_node.attrs[if_directive], mode="eval")
     root_statement = ast.IfExp(
         test=rewrite_name.visit(test).body,
-        body=call_create_element(if_node, names=names),
+        body=call_create_node(if_node, names=names),
         orelse=ast.Constant(value=None),
     )
     current_statement = root_statement
@@ -651,14 +669,14 @@ def create_control_flow_ast(control_flow, *, names):
         test = ast.parse(node.attrs[directive], mode="eval")
         if_else_tree = ast.IfExp(
             test=rewrite_name.visit(test).body,
-            body=call_create_element(node, names=names),
+            body=call_create_node(node, names=names),
             orelse=ast.Constant(value=None),
         )
         current_statement.orelse = if_else_tree
         current_statement = if_else_tree
 
     if else_node:
-        current_statement.orelse = call_create_element(else_node, names=names)
+        current_statement.orelse = call_create_node(else_node, names=names)
 
     return root_statement
 
-- 
2.43.0


From 161f349b565f1598ac8d02acb3fa29de186ff64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 17/63] fix: expressions in templates can define local names
 with lambdas and comprehensions

---
 collagraph/cgx/cgx.py | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 06eb4b5..be3431e 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -409,7 +409,7 @@ def convert_node_to_args(node, *, names=None):
                     name_collector.generic_visit(generator.target)
 
             local_names = names.union(name_collector.names)
-            RewriteName(skip=local_names).visit(for_tree)
+            RewriteName(skip=names).visit(for_tree)
 
             # Give every iteration its own scope, such that functions (slots, event
             # handlers) use the values of the iteration in which they are created
@@ -718,6 +718,47 @@ class RewriteName(ast.NodeTransformer):
     def __init__(self, skip):
         self.skip = skip
 
+    def visit_Lambda(self, node):
+        # The default values are evaluated outside of the lambda
+        args = node.args
+        args.defaults = [self.visit(default) for default in args.defaults]
+        args.kw_defaults = [
+            default and self.visit(default) for default in args.kw_defaults
+        ]
+        names = {
+            arg.arg
+            for arg in [
+                *args.posonlyargs,
+                *args.args,
+                *args.kwonlyargs,
+                args.vararg,
+                args.kwarg,
+            ]
+            if arg
+        }
+        node.body = RewriteName(self.skip | names).visit(node.body)
+        return node
+
+    def visit_comprehension_expression(self, node):
+        # The first iterable is evaluated outside of the comprehension
+        first, *_ = node.generators
+        iterable = self.visit(first.iter)
+        first.iter = ast.Constant(value=None)
+        names = {
+            name.id
+            for generator in node.generators
+            for name in ast.walk(generator.target)
+            if isinstance(name, ast.Name) and isinstance(name.ctx, ast.Store)
+        }
+        RewriteName(self.skip | names).generic_visit(node)
+        first.iter = iterable
+        return node
+
+    visit_ListComp = visit_comprehension_expression
+    visit_SetComp = visit_comprehension_expression
+    visit_DictComp = visit_comprehension_expression
+    visit_GeneratorExp = visit_comprehension_expression
+
     def visit_Name(self, node):
         # Don't try and replace any item from the __builtins__
         if node.id in __builtins__:
-- 
2.43.0


From fa399aefb065e61ac6579a84ec1cb3330098f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 18/63] fix: look up the names in a template for every instance
 and for every render

---
 collagraph/component.py | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/collagraph/component.py b/collagraph/component.py
index be6f43f..5d7e00c 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -10,8 +10,6 @@ from collagraph import render_slot
 class Component:
     """Abstract base class for components"""
 
-    __lookup_cache__ = defaultdict(dict)
-
     def __init__(self, props=None, parent=None):
         self._props = readonly({} if props is None else props)
         # Makes it possible to notify about props being replaced
@@ -20,7 +18,6 @@ class Component:
         self._element = None
         self._slots = {}
         self._event_handlers = defaultdict(set)
-        self._lookup_cache = Component.__lookup_cache__[type(self)]
         self._parent = ref(parent) if parent else None
         self._provided = {}
 
@@ -151,30 +148,13 @@ class Component:
         This provides some syntactic sugar so that users can leave out `self`,
         `self.state` and `self.props`.
         """
-        cache = self._lookup_cache
-        if method := cache.get(name):
-            return method(self, name, context)
-
-        def props_lookup(self, name, context):
+        # The place where a name is found can differ per instance and over time
+        if name in self.props:
             return self.props[name]
-
-        def state_lookup(self, name, context):
+        if name in self.state:
             return self.state[name]
-
-        def self_lookup(self, name, context):
+        if hasattr(self, name):
             return getattr(self, name)
-
-        def global_lookup(self, name, context):
+        if name in context:
             return context[name]
-
-        if name in self.props:
-            cache[name] = props_lookup
-        elif name in self.state:
-            cache[name] = state_lookup
-        elif hasattr(self, name):
-            cache[name] = self_lookup
-        elif name in context:
-            cache[name] = global_lookup
-        else:
-            raise NameError(f"name '{name}' is not defined")
-        return self._lookup(name, context)
+        raise NameError(f"name '{name}' is not defined")
-- 
2.43.0


From af9ec5aa51f4b4fe94dc8248197410d4abe1a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 19/63] fix: removing an attribute of a pygfx object that has
 no default removes it, also when it was set more than once

---
 collagraph/renderers/pygfx_renderer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pygfx_renderer.py b/collagraph/renderers/pygfx_renderer.py
index ddcce23..ec2f44b 100644
--- a/collagraph/renderers/pygfx_renderer.py
+++ b/collagraph/renderers/pygfx_renderer.py
@@ -4,6 +4,8 @@ from . import Renderer
 
 ELEMENT_TYPE_CACHE = {}
 DEFAULT_ATTR_CACHE = {}
+# Marks attributes that don't exist by default
+NO_DEFAULT = object()
 
 
 class PygfxRenderer(Renderer):
@@ -57,6 +59,8 @@ class PygfxRenderer(Renderer):
                     DEFAULT_ATTR_CACHE[key] = default_value.copy()
                 else:
                     DEFAULT_ATTR_CACHE[key] = default_value
+            else:
+                DEFAULT_ATTR_CACHE[key] = NO_DEFAULT
 
         setattr(obj, attr, value)
 
@@ -69,7 +73,7 @@ class PygfxRenderer(Renderer):
         for attribute in attrs:
             obj = getattr(obj, attribute)
 
-        if key in DEFAULT_ATTR_CACHE:
+        if DEFAULT_ATTR_CACHE.get(key, NO_DEFAULT) is not NO_DEFAULT:
             default_value = DEFAULT_ATTR_CACHE[key]
             if hasattr(default_value, "copy"):
                 val = default_value.copy()
-- 
2.43.0


From 1a0a6ff161af135b9f0fcda6d5d4605d1e881c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 20/63] fix: insert in front of menus and toolbar widgets and
 tabs, and keep the items of menus that are moved

Menus and the widgets of a toolbar are represented by actions, which have to be used
to insert something in front of them. The action for a widget in a toolbar stayed
behind when the widget was removed. And clearing a menu when it is removed made it
lose all of its items when it was inserted again.
---
 collagraph/renderers/pyside/objects/menu.py    |  5 ++++-
 collagraph/renderers/pyside/objects/menubar.py |  3 +--
 collagraph/renderers/pyside/objects/tab.py     |  3 +++
 collagraph/renderers/pyside/objects/toolbar.py | 14 ++++++++++++++
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 9c2b199..666ad43 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -6,6 +6,10 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QMenu)
 def insert(self, el, anchor=None):
+    # Anything is inserted in front of an action
+    if isinstance(anchor, QMenu):
+        anchor = anchor.menuAction()
+
     if isinstance(el, QMenu):
         if anchor is not None:
             action = self.insertMenu(anchor, el)
@@ -26,7 +30,6 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QMenu):
-        el.clear()
         menu_action = el.menuAction()
         self.removeAction(menu_action)
         menu_action.setParent(None)
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index 15b073e..d42aab4 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -6,7 +6,7 @@ from ... import PySideRenderer
 @PySideRenderer.register_insert(QMenuBar)
 def insert(self, el: QMenu, anchor: QMenu = None):
     if anchor is not None:
-        action = self.insertMenu(anchor, el)
+        action = self.insertMenu(anchor.menuAction(), el)
     else:
         action = self.addMenu(el)
     # Use the window property of the menubar to set
@@ -21,7 +21,6 @@ def insert(self, el: QMenu, anchor: QMenu = None):
 
 @PySideRenderer.register_remove(QMenuBar)
 def remove(self, el: QMenu):
-    el.clear()
     menu_action = el.menuAction()
     self.removeAction(menu_action)
     menu_action.setParent(None)
diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 54d50ab..ccd0386 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -8,6 +8,9 @@ def insert(self, el: QWidget, anchor: QWidget = None):
     index = getattr(el, "tab_index", -1)
     label = getattr(el, "tab_label", "")
 
+    if index < 0 and anchor is not None:
+        index = self.indexOf(anchor)
+
     if index >= 0:
         self.insertTab(index, el, label)
     else:
diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index 4636e3b..5407e4b 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -6,6 +6,10 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QToolBar)
 def insert(self, el, anchor=None):
+    # Anything is inserted in front of an action
+    if isinstance(anchor, QWidget):
+        anchor = action_for_widget(self, anchor)
+
     if isinstance(el, QWidget):
         if anchor is not None:
             action = self.insertWidget(anchor, el)
@@ -26,4 +30,14 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QWidget):
+        action = action_for_widget(self, el)
         el.setParent(None)
+        if action is not None:
+            self.removeAction(action)
+
+
+def action_for_widget(toolbar, widget):
+    """Returns the action that was created for the given widget"""
+    for action in toolbar.actions():
+        if toolbar.widgetForAction(action) is widget:
+            return action
-- 
2.43.0


From 712eab9930ff07cb070470409848f93ac14739ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 21/63] fix: removing an event listener disconnects bound
 methods and wrapped handlers as well

---
 collagraph/renderers/pyside_renderer.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 36a0250..57de5ce 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -389,8 +389,9 @@ class PySideRenderer(Renderer):
         signal = getattr(el, signal_name, None)
         if signal and hasattr(signal, "connect"):
             # Add a slots attribute to hold all the generated slots, keyed on event_type
+            # and the value that the slot was created with
             if not hasattr(el, "slots"):
-                el.slots = defaultdict(set)
+                el.slots = defaultdict(dict)
 
             # Create a slot with the given value
             # Note that the slot apparently does not need arguments to specify the type
@@ -407,7 +408,7 @@ class PySideRenderer(Renderer):
                 # TODO: with some inspection we might be able to figure out the
                 # signature of the 'value' function and adjust the lambda accordingly
                 slot = QtCore.Slot()(lambda *args: value(*args))
-            el.slots[event_type].add(slot)
+            el.slots[event_type][value] = slot
 
             signal.connect(slot)
         else:
@@ -428,12 +429,8 @@ class PySideRenderer(Renderer):
             el._event_filter.remove_event_handler(event_name, value)
             return
 
-        for slot in el.slots[event_type]:
-            # Slot can be compared to its value
-            if slot == value:
-                signal.disconnect(slot)
-                el.slots[event_type].remove(slot)
-                break
+        slot = el.slots[event_type].pop(value)
+        signal.disconnect(slot)
 
 
 def not_implemented(self, *args, **kwargs):
-- 
2.43.0


From 30023a95ef15efdf08032b747d6a207c30ea7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 22/63] fix: show changes of the label of a page of a tab
 widget

---
 collagraph/renderers/pyside/objects/tab.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index ccd0386..b324527 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -17,6 +17,15 @@ def insert(self, el: QWidget, anchor: QWidget = None):
         self.addTab(el, label)
 
 
+@PySideRenderer.register_custom_attribute("tab_label")
+def set_tab_label(self, attr, value):
+    setattr(self, attr, value)
+    # The pages of a tab widget are placed in an internal stacked widget
+    tab_widget = self.parent() and self.parent().parent()
+    if isinstance(tab_widget, QTabWidget) and (index := tab_widget.indexOf(self)) >= 0:
+        tab_widget.setTabText(index, value)
+
+
 @PySideRenderer.register_remove(QTabWidget)
 def remove(self, el: QWidget):
     index = self.indexOf(el)
-- 
2.43.0


From 927946c5372ab737993c002cf530031435c0d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 23/63] fix: keep the order of the rows of a form layout and
 update their labels and positions in place

---
 .../renderers/pyside/objects/layouts.py       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 30e79db..59fae31 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -42,6 +42,9 @@ def box_layout_insert(self, el, anchor=None):
 def form_insert(self, el, anchor=None):
     if hasattr(el, "form_index"):
         self.insertRow(el.form_index, el.form_label, el)
+    elif anchor is not None and self.indexOf(anchor) >= 0:
+        row, _ = self.getWidgetPosition(anchor)
+        self.insertRow(row, el.form_label, el)
     else:
         self.addRow(el.form_label, el)
 
@@ -59,8 +62,13 @@ def remove_layout(self, el):
 
 @PySideRenderer.register_remove(QFormLayout)
 def remove_form(self, el):
-    # Layout also deletes 'el' so no need to unset parent
-    self.removeRow(el)
+    # Take the row instead of removing it, because that would also delete
+    # 'el', which can be inserted again
+    row = self.takeRow(el)
+    if row.labelItem and (label := row.labelItem.widget()):
+        label.deleteLater()
+        label.setParent(None)
+    el.setParent(None)
 
 
 @PySideRenderer.register_set_attr(QLayout)
@@ -110,7 +118,10 @@ def set_form_index(self, attr, value):
     setattr(self, attr, value)
     if parent := self.parent():
         layout = parent.layout()
-        if hasattr(self, "form_label") and hasattr(self, "form_index"):
-            layout.insertRow(self.form_index, self.form_label, self)
-        elif hasattr(self, "form_label"):
-            layout.addRow(self.form_label, self)
+        if isinstance(layout, QFormLayout) and layout.indexOf(self) >= 0:
+            if attr == "form_label":
+                layout.labelForField(self).setText(value)
+                return
+            # Take the row out of the layout to insert it at the new index
+            remove_form(layout, self)
+            form_insert(layout, self)
-- 
2.43.0


From 27a0a23b1925af5b53751672cb5323d8d1a57c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 24/63] fix: one change leads to one update, also when removed
 or already updated components depend on it

---
 collagraph/collagraph.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 22cbbe4..6eff180 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -109,6 +109,8 @@ class Collagraph:
         self._qt_timer = None
         self._work = LifoQueue()
         self._dirty = False
+        # Identifies the iteration of work in which a fiber is rendered
+        self._iteration = object()
         # The fiber that is being rendered
         self._rendering: Fiber = None
 
@@ -122,6 +124,7 @@ class Collagraph:
 
         self._deletions = []
         self._dirty = False
+        self._iteration = object()
         self._next_unit_of_work = self._wip_root
         self._render_callback = callback
 
@@ -242,10 +245,7 @@ class Collagraph:
 
         component._slots = fiber.children if isinstance(fiber.children, dict) else {}
 
-        fiber.watcher = watch(
-            component.render,
-            lambda: self.state_updated(fiber),
-        )
+        self.watch_fiber(fiber, component.render)
 
         self.reconcile_children(fiber, [fiber.watcher.value])
 
@@ -258,10 +258,7 @@ class Collagraph:
                 return [fiber.type(fiber.props, fiber.children)]
             return [fiber.type(fiber.props)]
 
-        fiber.watcher = watch(
-            render,
-            lambda: self.state_updated(fiber),
-        )
+        self.watch_fiber(fiber, render)
 
         self.reconcile_children(fiber, fiber.watcher.value)
 
@@ -273,10 +270,7 @@ class Collagraph:
         if fiber.alternate:
             fiber.alternate.watcher = None
 
-        fiber.watcher = watch(
-            lambda: fiber.props.keys(),
-            lambda: self.state_updated(fiber),
-        )
+        self.watch_fiber(fiber, lambda: fiber.props.keys())
 
         # Create new fibers
         self.reconcile_children(fiber, fiber.children)
@@ -304,13 +298,24 @@ class Collagraph:
         self._next_unit_of_work = self._wip_root
         self._deletions = []
         self._dirty = False
+        self._iteration = object()
         self.request_idle_work()
 
-    def state_updated(self, fiber: Fiber):
-        # Don't act upon changes that a fiber makes itself while it is rendered
-        if fiber is self._rendering:
-            return
+    def watch_fiber(self, fiber: Fiber, fn: Callable):
+        iteration = self._iteration
+
+        def state_updated():
+            # Don't act upon changes that a fiber makes itself while it is rendered
+            if fiber is self._rendering:
+                return
+            # The fiber is removed, rendered again or still to be rendered
+            if iteration is not self._iteration:
+                return
+            self.state_updated()
+
+        fiber.watcher = watch(fn, state_updated)
 
+    def state_updated(self):
         self._dirty = True
 
         if not self._wip_root:
-- 
2.43.0


From 342c192d6fa1b58d467bfecc0a79bbaf36f2d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 25/63] fix: templates without a slot name within a component
 tag are part of its default slot

---
 collagraph/cgx/cgx.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index be3431e..036ca50 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -362,14 +362,20 @@ def convert_node_to_args(node, *, names=None):
     children_args = []
 
     slots = {}
-    # Gather all the non-template children within a component tag and
-    # treat them as the content for the default slot
+    # Gather all the children within a component tag, except for the templates
+    # that name a slot, and treat them as the content for the default slot
     if node.tag[0].isupper() or "." in node.tag:
         default_slot_content = [
             child
             for child in node.children
             if isinstance(child, TextElement)
-            or (isinstance(child, Element) and child.tag != "template")
+            or (
+                isinstance(child, Element)
+                and not (
+                    child.tag == "template"
+                    and any(attr.startswith(("v-slot", "#")) for attr in child.attrs)
+                )
+            )
         ]
 
         if default_slot_content:
-- 
2.43.0


From 6aa515c403704f1859c139010160b780f97a800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 26/63] fix: compare handlers by the types of arguments and the
 module, and cope with values that can't be compared

---
 collagraph/compare.py | 48 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index d9c1ed6..4877b94 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -17,18 +17,22 @@ def equivalent_functions(a: Callable, b: Callable, pending=frozenset()):
 
     if not hasattr(a, "__code__") or not hasattr(b, "__code__"):
         if isinstance(a, partial) and isinstance(b, partial):
-            return (
-                a.args == b.args
-                and a.keywords == b.keywords
-                and equivalent_functions(a.func, b.func, pending)
-            )
+            args_a = dict(enumerate(a.args), **a.keywords)
+            args_b = dict(enumerate(b.args), **b.keywords)
+            return equivalent_mappings(
+                args_a, args_b, pending
+            ) and equivalent_functions(a.func, b.func, pending)
 
-        return a == b
+        return equal(a, b)
 
     # Methods are only equivalent when they are bound to the same object
     if getattr(a, "__self__", None) is not getattr(b, "__self__", None):
         return False
 
+    # The same code can be executed for several modules
+    if getattr(a, "__globals__", None) is not getattr(b, "__globals__", None):
+        return False
+
     return (
         equivalent_code(a.__code__, b.__code__)
         and equivalent_defaults(a, b, pending)
@@ -83,9 +87,12 @@ def equivalent_defaults(a, b, pending):
     """Compare the default values of the arguments of the given functions."""
     defaults_a = dict(enumerate(a.__defaults__ or ()), **(a.__kwdefaults__ or {}))
     defaults_b = dict(enumerate(b.__defaults__ or ()), **(b.__kwdefaults__ or {}))
-    return defaults_a.keys() == defaults_b.keys() and all(
-        equivalent_values(val, defaults_b[key], pending)
-        for key, val in defaults_a.items()
+    return equivalent_mappings(defaults_a, defaults_b, pending)
+
+
+def equivalent_mappings(a, b, pending):
+    return a.keys() == b.keys() and all(
+        equivalent_values(val, b[key], pending) for key, val in a.items()
     )
 
 
@@ -93,7 +100,24 @@ def equivalent_values(a, b, pending):
     if callable(a) and callable(b):
         return equivalent_functions(a, b, pending)
     # Values of different types can compare equal (`1` and `True`)
-    return type(a) is type(b) and a == b
+    return type(a) is type(b) and equal(a, b)
+
+
+def equal(a, b):
+    """Returns whether the values are equal. Values that can't be compared (arrays
+    for instance) are only equal to themselves."""
+    try:
+        return a is b or bool(a == b)
+    except Exception:
+        return False
+
+
+def cell_value(cell):
+    """Returns the content of the cell, or the type of the cell when it's empty."""
+    try:
+        return cell.cell_contents
+    except ValueError:
+        return type(cell)
 
 
 def equivalent_closure_values(a, b, pending):
@@ -103,8 +127,8 @@ def equivalent_closure_values(a, b, pending):
     if (closure_a := getattr(a, "__closure__", None)) and (
         closure_b := getattr(b, "__closure__", None)
     ):
-        values_a = [cell.cell_contents for cell in closure_a]
-        values_b = [cell.cell_contents for cell in closure_b]
+        values_a = [cell_value(cell) for cell in closure_a]
+        values_b = [cell_value(cell) for cell in closure_b]
         if len(values_a) != len(values_b):
             return False
 
-- 
2.43.0


From ac813a3163ea553a6c4875228941df1450352eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 27/63] fix: attributes with values that can't be compared,
 such as arrays, can be rendered again

---
 collagraph/collagraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 6eff180..beb00a3 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -8,7 +8,7 @@ from typing import Any, Callable, Dict, Iterable, List, Optional
 from observ import reactive, scheduler, to_raw
 from observ.watcher import Watcher
 
-from .compare import equivalent_functions
+from .compare import equal, equivalent_functions
 from .renderers import Renderer
 from .types import (
     EffectTag,
@@ -696,7 +696,7 @@ def key_to_event(key):
 
 def is_new(val, other, key):
     old_value = other.get(key)
-    return xor(old_value is None, val is None) or old_value != val
+    return xor(old_value is None, val is None) or not equal(old_value, val)
 
 
 def is_changed(prev_props, next_props):
-- 
2.43.0


From b347f51aa756b2912960f34b678120524b659907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 28/63] fix: names in event handlers that are also the name of
 an argument of a lambda are looked up

---
 collagraph/cgx/cgx.py | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 036ca50..5b3e93e 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -345,13 +345,9 @@ def convert_node_to_args(node, *, names=None):
             key = f"on_{key}"
             props_keys.append(ast.Constant(value=key))
 
-            tree = ast.parse(val, mode="eval")
-            # v-on directives allow for lambdas which define arguments
-            # which need to be skipped by the RewriteName visitor
-            lambda_names = LambdaNamesCollector()
-            lambda_names.visit(tree)
-            RewriteName(skip=names | lambda_names.names).visit(tree)
-            props_values.append(tree.body)
+            props_values.append(
+                RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
+            )
             continue
 
         if key.startswith((DIRECTIVE_FOR)):
@@ -702,21 +698,6 @@ class NameCollector(ast.NodeVisitor):
         self.names.add(node.id)
 
 
-class LambdaNamesCollector(ast.NodeVisitor):
-    def __init__(self):
-        self.names = set()
-
-    def visit_Lambda(self, node):
-        # For some reason the body of a lambda is not visited
-        # so we need to do it manually.
-        visitor = LambdaNamesCollector()
-        visitor.visit(node.body)
-        self.names.update(visitor.names)
-
-        for arg in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
-            self.names.add(arg.arg)
-
-
 class RewriteName(ast.NodeTransformer):
     """AST node transformer that will try to replace static Name nodes with
     a call to `_lookup` with the name of the node."""
-- 
2.43.0


From 053f9b1d1d35767e44b8f5ffcccc2cc58b94bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 29/63] fix: expressions in text can contain < and line breaks

---
 collagraph/cgx/cgx.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 5b3e93e..d9213e3 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -24,7 +24,7 @@ DIRECTIVE_ON = f"{DIRECTIVE_PREFIX}on"
 AST_GEN_VARIABLE_PREFIX = "_ast_"
 
 COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
-MOUSTACHES = re.compile(r"\{\{.*?\}\}")
+MOUSTACHES = re.compile(r"\{\{.*?\}\}", re.DOTALL)
 
 
 def load(path):
@@ -864,11 +864,13 @@ class CGXParser(HTMLParser):
         node.end = self.getpos()
 
     def handle_data(self, data):
-        if data.strip():
+        children = self.stack[-1].children
+        if children and isinstance(children[-1], TextElement):
+            # Text that contains a `<` arrives in parts
+            children[-1].content += data
+        elif data.strip():
             # Add item as child to the last on the stack
-            self.stack[-1].children.append(
-                TextElement(content=data, location=self.getpos())
-            )
+            children.append(TextElement(content=data, location=self.getpos()))
 
     def handle_comment(self, comment):
         if comment.strip():
-- 
2.43.0


From 39085b5a295801dc08d17f7590ab4f00487adddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 30/63] fix: submenus can be moved and inserted again, without
 deleting their action

---
 collagraph/renderers/pyside/objects/menu.py    | 4 +++-
 collagraph/renderers/pyside/objects/menubar.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 666ad43..17d8eaf 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -32,4 +32,6 @@ def remove(self, el):
     elif isinstance(el, QMenu):
         menu_action = el.menuAction()
         self.removeAction(menu_action)
-        menu_action.setParent(None)
+        # The action belongs to its menu. Without any parent it would be deleted,
+        # while the menu can be inserted again
+        menu_action.setParent(el)
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index d42aab4..497e1b3 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -23,4 +23,6 @@ def insert(self, el: QMenu, anchor: QMenu = None):
 def remove(self, el: QMenu):
     menu_action = el.menuAction()
     self.removeAction(menu_action)
-    menu_action.setParent(None)
+    # The action belongs to its menu. Without any parent it would be deleted,
+    # while the menu can be inserted again
+    menu_action.setParent(el)
-- 
2.43.0


From 0a6246078759bbe226da9f280c78d574d18a2c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:36 +0000
Subject: [PATCH 31/63] fix: items of a tree widget follow their expanded and
 selected attributes, also at the top level and when moved

---
 .../pyside/objects/treewidgetitem.py          | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index 85993a8..e65ba0c 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -19,13 +19,21 @@ def insert(self, el: QTreeWidgetItem, anchor=None):
 
     # After mounting, process some attributes that can only
     # be adjusted when the item is mounted in the tree structure
-    if hasattr(el, "_expanded"):
-        el.setExpanded(el._expanded)
-        delattr(el, "_expanded")
+    if el.treeWidget():
+        restore_state(el)
 
-    if hasattr(el, "_selected"):
-        el.setSelected(el._selected)
-        delattr(el, "_selected")
+
+def restore_state(item):
+    """Sets the state of the item and the items below it, which gets lost when
+    items are not part of a tree widget."""
+    if hasattr(item, "_expanded"):
+        item.setExpanded(item._expanded)
+
+    if hasattr(item, "_selected"):
+        item.setSelected(item._selected)
+
+    for idx in range(item.childCount()):
+        restore_state(item.child(idx))
 
 
 @PySideRenderer.register_remove(QTreeWidgetItem)
@@ -40,15 +48,13 @@ def set_attribute(self, attr, value):
             self.setText(col, data)
         return
     elif attr == "expanded":
-        if not self.parent():
-            self._expanded = value
-        else:
+        self._expanded = value
+        if self.treeWidget():
             self.setExpanded(value)
         return
     elif attr == "selected":
-        if not self.parent():
-            self._selected = value
-        else:
+        self._selected = value
+        if self.treeWidget():
             self.setSelected(value)
         return
 
-- 
2.43.0


From 898f6229005e84b5d33f00272c88fce081c13e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 32/63] fix: items of a combobox are replaced instead of
 appended

---
 collagraph/renderers/pyside/objects/combobox.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/combobox.py b/collagraph/renderers/pyside/objects/combobox.py
index 1f95076..d5d303a 100644
--- a/collagraph/renderers/pyside/objects/combobox.py
+++ b/collagraph/renderers/pyside/objects/combobox.py
@@ -7,6 +7,11 @@ from ... import PySideRenderer
 @PySideRenderer.register_set_attr(QtWidgets.QComboBox)
 def set_attribute(self, attr, value):
     if attr == "items":
+        # Replace the items that were set before, but keep the current one
+        current = self.currentText()
+        self.clear()
         self.addItems(value)
+        if (index := self.findText(current)) >= 0:
+            self.setCurrentIndex(index)
     else:
         widget.set_attribute(self, attr, value)
-- 
2.43.0


From e7e0cf795842068f3c91a7766bd2768cf5263f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 33/63] fix: standard buttons of a button box are replaced
 instead of appended

---
 collagraph/renderers/pyside/objects/dialogbuttonbox.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 3d191e4..d59022d 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -21,6 +21,11 @@ def insert(self, el, anchor=None):
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
+        # Replace the standard buttons that were set before
+        for button in self.buttons():
+            if self.standardButton(button) != QDialogButtonBox.NoButton:
+                self.removeButton(button)
+                button.deleteLater()
         for flag in value:
             flag = (
                 flag
-- 
2.43.0


From bc5dde771a7b5678c37e5aebd71181f5302de510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 34/63] fix: the type progressbar can be created

---
 collagraph/renderers/pyside_renderer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 57de5ce..cbf1e65 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -26,6 +26,7 @@ TYPE_MAPPING = {
     "dialogbuttonbox": QtWidgets.QDialogButtonBox,
     "groupbox": QtWidgets.QGroupBox,
     "progessbar": QtWidgets.QProgressBar,
+    "progressbar": QtWidgets.QProgressBar,
     "scrollarea": QtWidgets.QScrollArea,
     "slider": QtWidgets.QSlider,
     "spinbox": QtWidgets.QSpinBox,
-- 
2.43.0


From 2ba6bd323e8fd88931fc2512327d3fbb75d8d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 35/63] fix: handlers with mutable values, or with different
 types of values within tuples, are not equivalent

---
 collagraph/compare.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 4877b94..670511d 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -74,11 +74,11 @@ def equivalent_code(a, b):
             # be different but should be similar at least in length
             if len(attr_a) != len(attr_b):
                 return False
+        elif attr == "co_consts":
+            if not equivalent_values(attr_a, attr_b):
+                return False
         elif attr_a != attr_b:
             return False
-        elif attr == "co_consts" and [*map(type, attr_a)] != [*map(type, attr_b)]:
-            # Constants of different types can compare equal (`1` and `True`)
-            return False
 
     return True
 
@@ -96,11 +96,25 @@ def equivalent_mappings(a, b, pending):
     )
 
 
-def equivalent_values(a, b, pending):
+def equivalent_values(a, b, pending=frozenset()):
+    if a is b:
+        return True
     if callable(a) and callable(b):
         return equivalent_functions(a, b, pending)
-    # Values of different types can compare equal (`1` and `True`)
-    return type(a) is type(b) and equal(a, b)
+    # Values of different types can compare equal (`1` and `True`), just like
+    # positive and negative zero
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, tuple):
+        return len(a) == len(b) and all(
+            equivalent_values(x, y, pending) for x, y in zip(a, b)
+        )
+    if isinstance(a, frozenset):
+        return {(type(x), repr(x)) for x in a} == {(type(x), repr(x)) for x in b}
+    if isinstance(a, (float, complex)):
+        return repr(a) == repr(b)
+    # Values without a hash can be changed, so these are only equivalent to themselves
+    return type(a).__hash__ is not None and equal(a, b)
 
 
 def equal(a, b):
-- 
2.43.0


From 735ca020a4b362553431f12e7ea0ab5f3c060d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 36/63] fix: widgets that are moved within a toolbar stay
 visible and enabled

---
 collagraph/renderers/pyside/objects/toolbar.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index 5407e4b..3999b66 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -1,3 +1,4 @@
+from PySide6.QtCore import Qt
 from PySide6.QtGui import QAction
 from PySide6.QtWidgets import QToolBar, QWidget
 
@@ -33,7 +34,13 @@ def remove(self, el):
         action = action_for_widget(self, el)
         el.setParent(None)
         if action is not None:
+            visible = action.isVisible()
             self.removeAction(action)
+            if visible:
+                # The layout of the toolbar explicitly hides the widgets that
+                # are removed, in which case the widget would end up hidden (and
+                # disabled) when it is inserted again
+                el.setAttribute(Qt.WA_WState_ExplicitShowHide, False)
 
 
 def action_for_widget(toolbar, widget):
-- 
2.43.0


From e3222f751af07ed26914e237022eb1fe45dd92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 37/63] fix: imported name 'name' can be used in templates

---
 collagraph/cgx/cgx.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index d9213e3..fa404da 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -173,31 +173,33 @@ def create_ast_render_function(node, names):
     ]
     if CGX_RUNTIME_WARNINGS:
         names_str = ", ".join([f"'{name}'" for name in names])
+        # The names that are used here should not hide any of the imported names
+        prefix = AST_GEN_VARIABLE_PREFIX
         code = textwrap.dedent(
             f"""
-            from warnings import warn as _warn
+            from warnings import warn as {prefix}warn
 
-            for name in {{{names_str}}}:
-                if name in self.state:
-                    _warn(
-                        f"Found imported name '{{name}}' "
+            for {prefix}name in {{{names_str}}}:
+                if {prefix}name in self.state:
+                    {prefix}warn(
+                        f"Found imported name '{{{prefix}name}}' "
                         f"as key in self.state: {{self}}.\\n"
                         "If the value from self.state is intended, please resolve by "
-                        f"replacing '{{name}}' with 'state['{{name}}']'"
+                        f"replacing '{{{prefix}name}}' with 'state['{{{prefix}name}}']'"
                     )
-                if name in self.props:
-                    _warn(
-                        f"Found imported name '{{name}}' "
+                if {prefix}name in self.props:
+                    {prefix}warn(
+                        f"Found imported name '{{{prefix}name}}' "
                         f"as key in self.props: {{self}}.\\n"
                         "If the value from self.props is intended, please resolve by "
-                        f"replacing '{{name}}' with 'props['{{name}}']'"
+                        f"replacing '{{{prefix}name}}' with 'props['{{{prefix}name}}']'"
                     )
-                if hasattr(self, name):
-                    _warn(
-                        f"Found imported name '{{name}}' "
+                if hasattr(self, {prefix}name):
+                    {prefix}warn(
+                        f"Found imported name '{{{prefix}name}}' "
                         f"as attribute on self: {{self}}.\\n"
                         "If the attribute from self is intended, please resolve by "
-                        f"replacing '{{name}}' with 'self.{{name}}'"
+                        f"replacing '{{{prefix}name}}' with 'self.{{{prefix}name}}'"
                     )
             """
         )
-- 
2.43.0


From d8ea533ccbf3d4c8700531e46b7e538dbd0e2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 38/63] fix: names of templates that are imported within
 functions or as packages are looked up correctly

---
 collagraph/cgx/cgx.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index fa404da..57a6121 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -785,7 +785,15 @@ class ImportsCollector(ast.NodeVisitor):
 
     def visit_Import(self, node):
         for alias in node.names:
-            self.names.add(alias.asname or alias.name)
+            # Without alias, only the first part of the dotted name is bound
+            self.names.add(alias.asname or alias.name.partition(".")[0])
+
+    def visit_scope(self, node):
+        """Imports within functions and classes don't define global names"""
+
+    visit_FunctionDef = visit_scope
+    visit_AsyncFunctionDef = visit_scope
+    visit_ClassDef = visit_scope
 
 
 class TextElement:
-- 
2.43.0


From 612a5817c5c40f3205e1f606e28bc1f39824fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 39/63] fix: expressions in templates can refer to the
 component as self

---
 collagraph/cgx/cgx.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 57a6121..8fafbdc 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -753,6 +753,10 @@ class RewriteName(ast.NodeTransformer):
         if node.id in __builtins__:
             return node
 
+        # The component itself is available within the render function
+        if node.id == "self":
+            return node
+
         # Don't replace any name that should be explicitely skipped
         if node.id in self.skip:
             return node
-- 
2.43.0


From be5d5e1c5c0f20655b62c98a828c878419317d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 40/63] fix: line numbers of code in .cgx files match the lines
 of the file

---
 collagraph/cgx/cgx.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 8fafbdc..f807f20 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -151,13 +151,14 @@ def get_script_ast(parser, path):
     script_node = parser.root.child_with_tag("script")
     assert isinstance(script_node.children[0], TextElement)
     script = script_node.children[0].content
-    line, _ = script_node.location
+    line, _ = script_node.children[0].location
+
+    # Make sure that the lineno's (also the ones of syntax errors) match up with
+    # the lines in the CGX file
+    script = "\n" * (line - 1) + script
 
     # Create an AST from the script
-    script_tree = ast.parse(script, filename=str(path), mode="exec")
-    # Make sure that the lineno's match up with the lines in the CGX file
-    ast.increment_lineno(script_tree, n=line)
-    return script_tree
+    return ast.parse(script, filename=str(path), mode="exec")
 
 
 def create_ast_render_function(node, names):
-- 
2.43.0


From aa034fc8193bbcf4447fa1ece8eacdf0c6877fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 41/63] fix: .cgx modules can use relative imports and the
 names of their module

---
 collagraph/cgx/cgx.py      | 10 ++++++----
 collagraph/cgx/importer.py | 10 +++-------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index f807f20..ce426c8 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -27,7 +27,7 @@ COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
 MOUSTACHES = re.compile(r"\{\{.*?\}\}", re.DOTALL)
 
 
-def load(path):
+def load(path, namespace=None):
     """
     Loads and returns a component from a CGX file.
 
@@ -55,12 +55,14 @@ def load(path):
     """
     template = path.read_text()
 
-    return load_from_string(template, path)
+    return load_from_string(template, path, namespace=namespace)
 
 
-def load_from_string(template, path=None):
+def load_from_string(template, path=None, namespace=None):
     """
     Load template from a string
+
+    The code is executed in the given namespace, or else in a new one.
     """
     if path is None:
         path = "<template>"
@@ -72,7 +74,7 @@ def load_from_string(template, path=None):
     code = compile(tree, filename=str(path), mode="exec")
     # Execute the code as module and pass a dictionary that will capture
     # the global and local scope of the module
-    module_namespace = {}
+    module_namespace = {} if namespace is None else namespace
     exec(code, module_namespace)
 
     # Check that the class definition is an actual subclass of Component
diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index a6e55ef..feeae47 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -34,13 +34,9 @@ class CgxImporter:
 
     def exec_module(self, module):
         """Executing the module means reading the cgx file"""
-        component, context = cgx.load(self.cgx_path)
-        # Add the default module keys to the context such that
-        # __file__, __name__ and such are available to the loaded module
-        context.update(module.__dict__)
-
-        module.__dict__.update(context)
-        module.__dict__[component.__name__] = component
+        # The code runs in the namespace of the module such that __file__, __name__
+        # and such are available to the loaded module
+        cgx.load(self.cgx_path, namespace=module.__dict__)
 
 
 # Add the Cgx importer at the end of the list of finders
-- 
2.43.0


From d7a2d3e07855dc1d22fed0edd17e76df19d61cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 42/63] fix: toolbars with an area can be added to a window

The arguments of QMainWindow.addToolBar were swapped, so that setting the
area of a toolbar raised a TypeError.
---
 collagraph/renderers/pyside/objects/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index c7890ec..851a902 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -15,7 +15,7 @@ def insert(self, el, anchor=None):
         el.setParent(self)
     elif isinstance(el, QToolBar):
         if area := getattr(el, "area", None):
-            self.addToolBar(el, area)
+            self.addToolBar(area, el)
         else:
             self.addToolBar(el)
         el.setParent(self)
-- 
2.43.0


From 7e217d230ca996df817071f499ee3e58b71aaa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 43/63] fix: take the widget out of a scroll area when it is
 removed

QScrollArea.setWidget(None) does nothing: the removed widget was deleted by
Qt when another widget was set.
---
 collagraph/renderers/pyside/objects/scrollarea.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/scrollarea.py b/collagraph/renderers/pyside/objects/scrollarea.py
index c4fcec8..eb8dbde 100644
--- a/collagraph/renderers/pyside/objects/scrollarea.py
+++ b/collagraph/renderers/pyside/objects/scrollarea.py
@@ -11,5 +11,8 @@ def insert(self, el: QWidget, anchor=None):
 
 @PySideRenderer.register_remove(QScrollArea)
 def remove(self, el: QWidget):
-    self.setWidget(None)
+    # Setting the widget to None has no effect, and 'el' would be deleted as
+    # soon as another widget is set
+    if self.widget() is el:
+        self.takeWidget()
     el.setParent(None)
-- 
2.43.0


From 2aaa132cef077b279c7c9d59485d6be02b00ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 44/63] fix: remove buttons from their dialog button box

Removed buttons were taken out of the layout of the box, but they were still
one of its buttons.
---
 collagraph/renderers/pyside/objects/dialogbuttonbox.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index d59022d..e898210 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -18,6 +18,12 @@ def insert(self, el, anchor=None):
     raise NotImplementedError
 
 
+@PySideRenderer.register_remove(QDialogButtonBox)
+def remove(self, el):
+    self.removeButton(el)
+    el.setParent(None)
+
+
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
-- 
2.43.0


From b1e71fe043ea62cc0115258aabf56b7b28d70906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 45/63] fix: selection models of views can be removed, and
 survive a new item model

Removing a selection model crashed the process, and a selection model was no
longer used by the view when its item model got replaced.
---
 collagraph/renderers/pyside/objects/listview.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/listview.py b/collagraph/renderers/pyside/objects/listview.py
index 868e593..c8826d3 100644
--- a/collagraph/renderers/pyside/objects/listview.py
+++ b/collagraph/renderers/pyside/objects/listview.py
@@ -11,10 +11,15 @@ from ... import PySideRenderer
 def insert(self, el: Union[QStandardItemModel, QItemSelectionModel], anchor=None):
     if isinstance(el, QStandardItemModel):
         self.setModel(el)
+        # Views get a new selection model for every item model
+        if selection_model := getattr(self, "_selection_model", None):
+            selection_model.setModel(el)
+            self.setSelectionModel(selection_model)
     elif isinstance(el, QItemSelectionModel):
         if model := self.model():
             el.setModel(model)
             self.setSelectionModel(el)
+            self._selection_model = el
         else:
             raise RuntimeError(
                 "Can't set a selection model because no item model was set (yet). "
@@ -30,7 +35,10 @@ def remove(self, el: Union[QStandardItemModel, QItemSelectionModel]):
     if isinstance(el, QStandardItemModel):
         self.setModel(None)
     elif isinstance(el, QItemSelectionModel):
-        self.setSelectionModel(None)
+        # Views can't be without a selection model as long as they have a model
+        self._selection_model = None
+        if model := self.model():
+            self.setSelectionModel(QItemSelectionModel(model, self))
     else:
         raise NotImplementedError(type(el).__name__)
 
-- 
2.43.0


From 9e0179f7d2b35269a18cba0cd36b878d9d642bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 46/63] fix: changes of the role of a button in a dialog button
 box are shown

---
 .../pyside/objects/dialogbuttonbox.py         | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index e898210..aad6ed4 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -1,4 +1,4 @@
-from PySide6.QtWidgets import QDialogButtonBox
+from PySide6.QtWidgets import QAbstractButton, QDialogButtonBox
 
 from .widget import set_attribute as widget_set_attribute
 from ... import PySideRenderer
@@ -7,17 +7,27 @@ from ... import PySideRenderer
 @PySideRenderer.register_insert(QDialogButtonBox)
 def insert(self, el, anchor=None):
     if hasattr(el, "role"):
-        # Allow the role to be either an actual ButtonRole or a string
-        role = (
-            el.role
-            if isinstance(el.role, QDialogButtonBox.ButtonRole)
-            else getattr(QDialogButtonBox, el.role)
-        )
-        self.addButton(el, role)
+        self.addButton(el, button_role(el.role))
         return
     raise NotImplementedError
 
 
+def button_role(role):
+    # Allow the role to be either an actual ButtonRole or a string
+    if isinstance(role, QDialogButtonBox.ButtonRole):
+        return role
+    return getattr(QDialogButtonBox, role)
+
+
+@PySideRenderer.register_custom_attribute("role")
+def set_role(self, attr, value):
+    self.set_attribute(attr, value)
+    if isinstance(self, QAbstractButton):
+        box = self.parent()
+        if isinstance(box, QDialogButtonBox) and self in box.buttons():
+            box.addButton(self, button_role(value))
+
+
 @PySideRenderer.register_remove(QDialogButtonBox)
 def remove(self, el):
     self.removeButton(el)
-- 
2.43.0


From 4c98a11d9de9666e5f0a2c05df1c2f9b18f53a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 47/63] fix: changes of the area of a dock widget or toolbar
 are shown

---
 collagraph/renderers/pyside/objects/window.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index 851a902..6b911ab 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -30,3 +30,14 @@ def insert(self, el, anchor=None):
         # central widget of the QMainWindow
         self.setCentralWidget(el)
         el.setParent(self)
+
+
+@PySideRenderer.register_custom_attribute("area")
+def set_area(self, attr, value):
+    self.set_attribute(attr, value)
+    window = self.parent()
+    if isinstance(window, QMainWindow):
+        if isinstance(self, QDockWidget):
+            window.addDockWidget(value, self)
+        elif isinstance(self, QToolBar):
+            window.addToolBar(value, self)
-- 
2.43.0


From b172fcaebf6492ddb669462174e6ac601bca8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 48/63] fix: pages of a tab widget are ordered by their index,
 also when it changes

Changes of tab_index were not shown, and pages ended up in another order when
a page was inserted while there was a gap in the indices before it.
---
 collagraph/renderers/pyside/__init__.py    |  8 ++++++++
 collagraph/renderers/pyside/objects/tab.py | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/collagraph/renderers/pyside/__init__.py b/collagraph/renderers/pyside/__init__.py
index 7dbb80b..9eeb3e7 100644
--- a/collagraph/renderers/pyside/__init__.py
+++ b/collagraph/renderers/pyside/__init__.py
@@ -28,3 +28,11 @@ def call_method(method, args):
         method(*args)
     else:
         method(args)
+
+
+def ordered_index(index, others):
+    """Position for an element with the given index in between other elements,
+    for which the indices are given (-1 for elements without index)."""
+    if -1 in others:
+        return index
+    return next((i for i, other in enumerate(others) if other > index), len(others))
diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index b324527..b8caaf2 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -1,5 +1,6 @@
 from PySide6.QtWidgets import QTabWidget, QWidget
 
+from .. import ordered_index
 from ... import PySideRenderer
 
 
@@ -8,7 +9,9 @@ def insert(self, el: QWidget, anchor: QWidget = None):
     index = getattr(el, "tab_index", -1)
     label = getattr(el, "tab_label", "")
 
-    if index < 0 and anchor is not None:
+    if index >= 0:
+        index = ordered_index(index, tab_indices(self))
+    elif anchor is not None:
         index = self.indexOf(anchor)
 
     if index >= 0:
@@ -17,13 +20,22 @@ def insert(self, el: QWidget, anchor: QWidget = None):
         self.addTab(el, label)
 
 
-@PySideRenderer.register_custom_attribute("tab_label")
-def set_tab_label(self, attr, value):
+def tab_indices(tab_widget, skip=None):
+    pages = (tab_widget.widget(i) for i in range(tab_widget.count()))
+    return [getattr(page, "tab_index", -1) for page in pages if page is not skip]
+
+
+@PySideRenderer.register_custom_attribute("tab_label", "tab_index")
+def set_tab_attribute(self, attr, value):
     setattr(self, attr, value)
     # The pages of a tab widget are placed in an internal stacked widget
     tab_widget = self.parent() and self.parent().parent()
     if isinstance(tab_widget, QTabWidget) and (index := tab_widget.indexOf(self)) >= 0:
-        tab_widget.setTabText(index, value)
+        if attr == "tab_label":
+            tab_widget.setTabText(index, value)
+        elif value >= 0:
+            new_index = ordered_index(value, tab_indices(tab_widget, skip=self))
+            tab_widget.tabBar().moveTab(index, new_index)
 
 
 @PySideRenderer.register_remove(QTabWidget)
-- 
2.43.0


From 7d26874fe796883703210bb0556d667ab5b950e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 49/63] fix: rows of a form layout are ordered by their index

Rows ended up in another order when a row was inserted while there was a gap
in the indices before it.
---
 collagraph/renderers/pyside/objects/layouts.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 59fae31..a5b09d2 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -7,7 +7,7 @@ from PySide6.QtWidgets import (
     QWidget,
 )
 
-from .. import attr_name_to_method_name, call_method
+from .. import attr_name_to_method_name, call_method, ordered_index
 from ...pyside_renderer import LAYOUT_MAPPING, PySideRenderer
 
 DIRECTIONS = {
@@ -41,7 +41,8 @@ def box_layout_insert(self, el, anchor=None):
 @PySideRenderer.register_insert(QFormLayout)
 def form_insert(self, el, anchor=None):
     if hasattr(el, "form_index"):
-        self.insertRow(el.form_index, el.form_label, el)
+        index = ordered_index(el.form_index, form_indices(self))
+        self.insertRow(index, el.form_label, el)
     elif anchor is not None and self.indexOf(anchor) >= 0:
         row, _ = self.getWidgetPosition(anchor)
         self.insertRow(row, el.form_label, el)
@@ -49,6 +50,14 @@ def form_insert(self, el, anchor=None):
         self.addRow(el.form_label, el)
 
 
+def form_indices(layout):
+    fields = (
+        layout.itemAt(row, QFormLayout.ItemRole.FieldRole)
+        for row in range(layout.rowCount())
+    )
+    return [getattr(field and field.widget(), "form_index", -1) for field in fields]
+
+
 @PySideRenderer.register_insert(QGridLayout)
 def grid_insert(self, el, anchor=None):
     self.addWidget(el, *el.grid_index)
-- 
2.43.0


From 2d887437267cbda725be528889255fd57419651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 50/63] fix: items with a model_index keep their place when
 others are removed or moved

Removing an item also took away the other items of its row (and of the next
row, for the second item), and items that were inserted or moved to a cell
which is still occupied deleted the item in that cell, even if that item was
about to get another index.
---
 .../renderers/pyside/objects/itemmodel.py     |  8 +-
 .../renderers/pyside/objects/standarditem.py  | 83 ++++++++++++++-----
 2 files changed, 67 insertions(+), 24 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/itemmodel.py b/collagraph/renderers/pyside/objects/itemmodel.py
index 2200657..437674c 100644
--- a/collagraph/renderers/pyside/objects/itemmodel.py
+++ b/collagraph/renderers/pyside/objects/itemmodel.py
@@ -1,5 +1,6 @@
 from PySide6.QtGui import QStandardItemModel
 
+from .standarditem import clear_cell, set_cell
 from ... import PySideRenderer
 
 
@@ -7,8 +8,7 @@ from ... import PySideRenderer
 def insert(self, el, anchor=None):
     if isinstance(self, QStandardItemModel):
         if hasattr(el, "model_index"):
-            row, column = getattr(el, "model_index")
-            self.setItem(row, column, el)
+            set_cell(self, el, *el.model_index)
             return
 
         if anchor is not None:
@@ -22,5 +22,9 @@ def insert(self, el, anchor=None):
 
 @PySideRenderer.register_remove(QStandardItemModel)
 def remove(self, el):
+    if hasattr(el, "model_index"):
+        clear_cell(self, el)
+        return
+
     index = self.indexFromItem(el)
     self.takeRow(index.row())
diff --git a/collagraph/renderers/pyside/objects/standarditem.py b/collagraph/renderers/pyside/objects/standarditem.py
index 2565a1f..9c2d10c 100644
--- a/collagraph/renderers/pyside/objects/standarditem.py
+++ b/collagraph/renderers/pyside/objects/standarditem.py
@@ -1,4 +1,4 @@
-from PySide6.QtGui import QStandardItem
+from PySide6.QtGui import QStandardItem, QStandardItemModel
 
 from .qobject import set_attribute as qobject_set_attribute
 from ... import PySideRenderer
@@ -7,8 +7,7 @@ from ... import PySideRenderer
 @PySideRenderer.register_insert(QStandardItem)
 def insert(self, el, anchor=None):
     if hasattr(el, "model_index"):
-        row, column = getattr(el, "model_index")
-        self.setChild(row, column, el)
+        set_cell(self, el, *el.model_index)
         return
 
     if anchor is not None:
@@ -27,13 +26,7 @@ def insert(self, el, anchor=None):
 @PySideRenderer.register_remove(QStandardItem)
 def remove(self, el):
     if hasattr(el, "model_index"):
-        # Only support removal of rows for now
-        row, column = getattr(el, "model_index")
-        if model := el.model():
-            index = model.indexFromItem(el)
-            row = index.row()
-
-        self.takeRow(row)
+        clear_cell(self, el)
         return
 
     self.takeRow(el.row())
@@ -42,17 +35,63 @@ def remove(self, el):
 @PySideRenderer.register_set_attr(QStandardItem)
 def set_attribute(self, attr, value):
     if attr == "model_index":
-        if model := self.model():
-            index = model.indexFromItem(self)
-            row, column = value
-            if index.row() != row or index.column() != column:
-                if parent := self.parent():
-                    # `it` is `self`
-                    it = parent.takeChild(index.row(), index.column())
-                    parent.setChild(row, column, self)
-                else:
-                    # `it` is `self`
-                    it = model.takeItem(index.row(), index.column())
-                    model.setItem(row, column, it)
+        displaced_from = getattr(self, "_displaced_from", None)
+        if parent := displaced_from or self.parent() or self.model():
+            if displaced_from or (self.row(), self.column()) != tuple(value):
+                clear_cell(parent, self)
+                set_cell(parent, self, *value)
 
     qobject_set_attribute(self, attr, value)
+
+
+def set_cell(parent, el, row, column):
+    """Put the item in a cell of the parent: a model or another item."""
+    is_model = isinstance(parent, QStandardItemModel)
+    other = parent.item(row, column) if is_model else parent.child(row, column)
+    if other is not None and other is not el:
+        # The other item would be deleted, while it might be about to get
+        # another index
+        take_cell(parent, row, column)
+        other._displaced_from = parent
+        parent._displaced = [*getattr(parent, "_displaced", ()), other]
+
+    if is_model:
+        parent.setItem(row, column, el)
+    else:
+        parent.setChild(row, column, el)
+
+
+def take_cell(parent, row, column):
+    if isinstance(parent, QStandardItemModel):
+        parent.takeItem(row, column)
+    else:
+        parent.takeChild(row, column)
+
+
+def clear_cell(parent, el):
+    """Take the item out of its cell. The other items stay where they are,
+    because those have an index of their own."""
+    if getattr(el, "_displaced_from", None):
+        forget_displaced(parent, el)
+        return
+
+    cell = (el.row(), el.column())
+    take_cell(parent, *cell)
+    for item in getattr(parent, "_displaced", ()):
+        if tuple(getattr(item, "model_index", ())) == cell:
+            forget_displaced(parent, item)
+            set_cell(parent, item, *cell)
+            return
+
+    # Rows without items at the end are not needed anymore
+    is_model = isinstance(parent, QStandardItemModel)
+    get_cell = parent.item if is_model else parent.child
+    while (row := parent.rowCount() - 1) >= 0 and not any(
+        get_cell(row, column) for column in range(parent.columnCount())
+    ):
+        parent.removeRow(row)
+
+
+def forget_displaced(parent, el):
+    el._displaced_from = None
+    parent._displaced = [item for item in parent._displaced if item is not el]
-- 
2.43.0


From 4e28c51901556e3e375eeb827faf81a3621b798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 51/63] fix: widgets that are moved within a status bar stay
 visible

Also show changes of whether the widget is permanent.
---
 collagraph/renderers/pyside/objects/statusbar.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/statusbar.py b/collagraph/renderers/pyside/objects/statusbar.py
index c63718d..b0fde55 100644
--- a/collagraph/renderers/pyside/objects/statusbar.py
+++ b/collagraph/renderers/pyside/objects/statusbar.py
@@ -1,3 +1,4 @@
+from PySide6.QtCore import Qt
 from PySide6.QtWidgets import QStatusBar
 
 from . import widget
@@ -24,8 +25,22 @@ def insert(self, el, anchor=None):
 
 @PySideRenderer.register_remove(QStatusBar)
 def remove(self, el):
+    hidden = el.isHidden()
     self.removeWidget(el)
     el.setParent(None)
+    if not hidden:
+        # The status bar explicitly hides the widgets that are removed, in which
+        # case the widget would end up hidden when it is inserted again
+        el.setAttribute(Qt.WA_WState_ExplicitShowHide, False)
+
+
+@PySideRenderer.register_custom_attribute("permanent")
+def set_permanent(self, attr, value):
+    self.set_attribute(attr, value)
+    statusbar = self.parent()
+    if isinstance(statusbar, QStatusBar):
+        remove(statusbar, self)
+        insert(statusbar, self)
 
 
 @PySideRenderer.register_set_attr(QStatusBar)
-- 
2.43.0


From 0bc9e106a5584bcb333fb80bb4d9d26e4ae318d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 52/63] fix: dialogs that are moved are not deleted

---
 collagraph/renderers/pyside_renderer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index cbf1e65..25b30b9 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -330,9 +330,10 @@ class PySideRenderer(Renderer):
         if isinstance(el, QtWidgets.QDialog):
             # Hide the dialog to make sure it's not visible anymore
             el.hide()
-            # Then mark the element for deletion, so that it won't trigger
+            # Then take the element from its parent, without triggering
             # any of 'finished', 'done', 'rejected', 'accepted' signals.
-            el.deleteLater()
+            # It is not deleted, because it can be inserted again.
+            el.setParent(None, el.windowFlags())
             return
 
         parent.remove(el)
-- 
2.43.0


From 3fa965ae57b594d0bee76f56990977eebe9f0af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 53/63] fix: items that are inserted before another item within
 an item are deleted once

---
 collagraph/renderers/pyside/objects/standarditem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/standarditem.py b/collagraph/renderers/pyside/objects/standarditem.py
index 9c2d10c..67fd350 100644
--- a/collagraph/renderers/pyside/objects/standarditem.py
+++ b/collagraph/renderers/pyside/objects/standarditem.py
@@ -18,7 +18,9 @@ def insert(self, el, anchor=None):
                 break
         if index is None:
             return
-        self.insertRow(index, el)
+        # Unlike insertRow(index, el), this also passes on the ownership of 'el'
+        self.insertRows(index, 1)
+        self.setChild(index, el)
     else:
         self.appendRow(el)
 
@@ -29,7 +31,10 @@ def remove(self, el):
         clear_cell(self, el)
         return
 
-    self.takeRow(el.row())
+    # Unlike takeRow, takeChild gives back the ownership of 'el'
+    row = el.row()
+    self.takeChild(row)
+    self.takeRow(row)
 
 
 @PySideRenderer.register_set_attr(QStandardItem)
-- 
2.43.0


From 97f851da78a082252ca05080ec299810b69587e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 54/63] fix: labels of form rows can change from and to nothing

---
 collagraph/renderers/pyside/objects/layouts.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index a5b09d2..910d919 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -50,6 +50,19 @@ def form_insert(self, el, anchor=None):
         self.addRow(el.form_label, el)
 
 
+def set_row_label(layout, el, text):
+    # Unlike labelForField, itemAt doesn't tie the lifetime of the label (of
+    # which Qt is the owner) to the layout
+    row, _ = layout.getWidgetPosition(el)
+    label = layout.itemAt(row, QFormLayout.ItemRole.LabelRole)
+    if label and text:
+        label.widget().setText(text)
+    else:
+        # Rows only have a label when there is a text for it
+        remove_form(layout, el)
+        layout.insertRow(row, text, el)
+
+
 def form_indices(layout):
     fields = (
         layout.itemAt(row, QFormLayout.ItemRole.FieldRole)
@@ -129,7 +142,7 @@ def set_form_index(self, attr, value):
         layout = parent.layout()
         if isinstance(layout, QFormLayout) and layout.indexOf(self) >= 0:
             if attr == "form_label":
-                layout.labelForField(self).setText(value)
+                set_row_label(layout, self, value)
                 return
             # Take the row out of the layout to insert it at the new index
             remove_form(layout, self)
-- 
2.43.0


From 73a80a21e2f5abb6ab5ecf72aaa26a02865667f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 55/63] fix: elements and components can be falsy

---
 collagraph/collagraph.py | 26 +++++++++++++-------------
 collagraph/component.py  |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index beb00a3..aa69492 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -222,11 +222,11 @@ class Collagraph:
         if fiber.alternate:
             fiber.alternate.watcher = None
 
-        if not component:
+        if component is None:
             parent_component = None
             parent_fiber = fiber.parent
             while parent_fiber is not None:
-                if parent_fiber.component:
+                if parent_fiber.component is not None:
                     parent_component = parent_fiber.component
                     break
                 parent_fiber = parent_fiber.parent
@@ -264,7 +264,7 @@ class Collagraph:
 
     def update_host_component(self, fiber: Fiber):
         # Add dom node, but not for template/slot tags (which are virtual tags)
-        if not fiber.dom and fiber.type not in VIRTUAL_NODE_TYPES:
+        if fiber.dom is None and fiber.type not in VIRTUAL_NODE_TYPES:
             fiber.dom = self.create_dom(fiber)
 
         if fiber.alternate:
@@ -458,16 +458,16 @@ class Collagraph:
                 component_hooks.put((fiber.child, True))
                 continue
 
-            if fiber.component:
+            if fiber.component is not None:
                 fiber.component._element = first_dom(fiber)
 
             if fiber.mounted:
-                if fiber.component:
+                if fiber.component is not None:
                     fiber.component.mounted()
                 fiber.mounted = False
                 fiber.updated = False
             elif fiber.updated:
-                if fiber.component:
+                if fiber.component is not None:
                     fiber.component.updated()
                 fiber.updated = False
 
@@ -488,7 +488,7 @@ class Collagraph:
         order to remove every dom element that belongs to the fiber.
         Clears the child and dom attributes of the fiber.
         """
-        if fiber.component:
+        if fiber.component is not None:
             if not fiber.unmounted:
                 fiber.component.before_unmount()
                 fiber.unmounted = True
@@ -496,7 +496,7 @@ class Collagraph:
         def traverse_before_unmount(fiber):
             if fiber is None:
                 return
-            if fiber.component:
+            if fiber.component is not None:
                 if not fiber.unmounted:
                     fiber.component.before_unmount()
                     fiber.unmounted = True
@@ -529,7 +529,7 @@ class Collagraph:
         dom_parent = dom_parent_fiber.dom
 
         if fiber.effect_tag == EffectTag.PLACEMENT:
-            if fiber.component:
+            if fiber.component is not None:
                 self.update_dom_or_component(
                     fiber, None, prev_props={}, next_props=fiber.props_snapshot
                 )
@@ -570,7 +570,7 @@ class Collagraph:
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
-        if not dom and not fiber.component:
+        if dom is None and fiber.component is None:
             return
 
         if fiber.type == "TEXT_ELEMENT":
@@ -615,7 +615,7 @@ class Collagraph:
                 if is_new(val, prev_props, key):
                     attrs_to_update[key] = val
 
-        if fiber.component:
+        if fiber.component is not None:
             for event_type, val in events_to_remove.items():
                 fiber.component.remove_event_handler(event_type, val)
 
@@ -625,7 +625,7 @@ class Collagraph:
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
                 # Mark the fiber as updated
                 fiber.updated = True
-        elif dom:
+        elif dom is not None:
             for event_type, val in events_to_remove.items():
                 self.renderer.remove_event_listener(dom, event_type, val)
 
@@ -645,7 +645,7 @@ class Collagraph:
 def mark_updated(fiber: Fiber):
     """Climb up the tree to find the first component to mark as updated"""
     while fiber:
-        if fiber.component:
+        if fiber.component is not None:
             # Mark the fiber as updated
             fiber.updated = True
             break
diff --git a/collagraph/component.py b/collagraph/component.py
index 5d7e00c..756842e 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -18,7 +18,7 @@ class Component:
         self._element = None
         self._slots = {}
         self._event_handlers = defaultdict(set)
-        self._parent = ref(parent) if parent else None
+        self._parent = ref(parent) if parent is not None else None
         self._provided = {}
 
     @property
-- 
2.43.0


From 51efacc47d36e0641319c8ac2e282a29990a0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 56/63] fix: props that are empty at first can get values later
 on

---
 collagraph/collagraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index aa69492..db7d9a0 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -61,7 +61,9 @@ def create_element(type, props=None, *children) -> VNode:
         # If children is 1 callable item, then it becomes the default slot
         elif callable(children[0]):
             children = {"default": children[0]}
-    return VNode(type, reactive(props or {}), children or tuple(), key)
+    return VNode(
+        type, reactive({} if props is None else props), children or tuple(), key
+    )
 
 
 def create_text_element(text):
-- 
2.43.0


From f912b3affaac020e47a65d3bb61ffb2b19ff6ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 57/63] fix: render components that are falsy

---
 collagraph/collagraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index db7d9a0..393d309 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -247,7 +247,8 @@ class Collagraph:
 
         component._slots = fiber.children if isinstance(fiber.children, dict) else {}
 
-        self.watch_fiber(fiber, component.render)
+        # Watchers only call methods of objects that are not falsy
+        self.watch_fiber(fiber, lambda: component.render())
 
         self.reconcile_children(fiber, [fiber.watcher.value])
 
-- 
2.43.0


From 15cfec504e0c6417f548cd371d3cd9fb8085e879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 58/63] fix: render that is called by a component hook

---
 collagraph/collagraph.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 393d309..338b89f 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -115,8 +115,16 @@ class Collagraph:
         self._iteration = object()
         # The fiber that is being rendered
         self._rendering: Fiber = None
+        # Whether the DOM is being updated, and what to render after that
+        self._committing = False
+        self._requested = None
 
     def render(self, element: VNode, container, callback=None):
+        if self._committing:
+            # Called by one of the component hooks
+            self._requested = (element, container, callback)
+            return
+
         self._wip_root = Fiber(
             dom=container,
             props={},
@@ -181,7 +189,15 @@ class Collagraph:
             # All the preparations to build the new WIP root have been performed,
             # so it's time to walk through the new WIP root fiber tree and update
             # the actual DOM
-            self.commit_root()
+            self._committing = True
+            try:
+                self.commit_root()
+            finally:
+                self._committing = False
+            if self._requested:
+                requested, self._requested = self._requested, None
+                self.render(*requested)
+                return
             # A state change happened since the start of building the new tree
             if self._dirty:
                 self.prepare_next_iteration_of_work()
-- 
2.43.0


From 414957d7af245233327f785d48dde292188226cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 59/63] fix: command line program with the pygfx renderer

The camera and controls were used in ways that no supported version of pygfx has
---
 collagraph/__main__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 8e8280d..20dcad9 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -37,15 +37,14 @@ def init_collagraph(renderer_type: str, component_path: Path, state: dict = None
         wgpu_renderer = gfx.renderers.WgpuRenderer(canvas)
 
         camera = gfx.PerspectiveCamera(70, 16 / 9)
-        camera.position.z = 15
+        camera.local.z = 15
 
-        controls = gfx.OrbitController(camera.position.clone())
-        controls.add_default_event_handlers(wgpu_renderer, camera)
+        controls = gfx.OrbitController(camera)
+        controls.register_events(wgpu_renderer)
 
         container = gfx.Scene()
 
         def animate():
-            controls.update_camera(camera)
             wgpu_renderer.render(container, camera)
 
         gui = cg.Collagraph(renderer=cg.PygfxRenderer())
-- 
2.43.0


From 75b7bedb525aa5e0f3cc6b6d86e93978867b2387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 60/63] fix: long JSON as the state for the command line
 program

It can't be the name of a file, which led to an OSError
---
 collagraph/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 20dcad9..fca1a21 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -87,7 +87,12 @@ def existing_component_file(value):
 
 def json_contents(value):
     path = Path(value)
-    if path.is_file():
+    try:
+        is_file = path.is_file()
+    except OSError:
+        # Long strings can't be the name of a file
+        is_file = False
+    if is_file:
         with path.open(mode="r", encoding="utf-8") as fh:
             try:
                 return json.load(fh)
-- 
2.43.0


From 36e5c41b5928d586fac6aad8f4eb772d6882e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 61/63] fix: hook for PyInstaller with relative imports in .cgx
 files

---
 collagraph/__pyinstaller/hook-collagraph.py | 35 +++++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/collagraph/__pyinstaller/hook-collagraph.py b/collagraph/__pyinstaller/hook-collagraph.py
index ce32924..40fb881 100644
--- a/collagraph/__pyinstaller/hook-collagraph.py
+++ b/collagraph/__pyinstaller/hook-collagraph.py
@@ -1,4 +1,5 @@
 import ast
+from importlib.util import resolve_name
 from pathlib import Path
 
 from PyInstaller.utils.hooks import collect_data_files
@@ -13,14 +14,25 @@ def hook(hook_api):
     datas = []
     for package, code in collagraph_uses.items():
         filename = Path(code.co_filename)
-        hidden_imports |= collect_hidden_imports(filename.parent)
+        hidden_imports |= collect_hidden_imports(
+            filename.parent, folder_package(package, filename)
+        )
         datas += collect_data_files(package, includes=["**/*.cgx"])
 
     hook_api.add_imports(*hidden_imports)
     hook_api.add_datas(datas)
 
 
-def collect_hidden_imports(folder):
+def folder_package(name, filename):
+    """Parts of the name of the package of the folder that contains the file."""
+    parts = name.split(".")
+    if not all(part.isidentifier() for part in parts):
+        # A script, which is not part of any package
+        return []
+    return parts if filename.stem == "__init__" else parts[:-1]
+
+
+def collect_hidden_imports(folder, package=()):
     folder = Path(folder)
 
     hidden_imports = set()
@@ -35,7 +47,8 @@ def collect_hidden_imports(folder):
 
         # Find a list of imported names (or aliases, if any)
         # Those names don't have to be wrapped by `_lookup`
-        imported_names = ImportsCollector()
+        parts = [*package, *path.relative_to(folder).parent.parts]
+        imported_names = ImportsCollector(".".join(parts))
         imported_names.visit(script_tree)
 
         hidden_imports |= imported_names.names
@@ -44,13 +57,23 @@ def collect_hidden_imports(folder):
 
 
 class ImportsCollector(ast.NodeVisitor):
-    def __init__(self):
+    def __init__(self, package=""):
         self.names = set()
+        self.package = package
 
     def visit_ImportFrom(self, node):
+        module = node.module
+        if node.level:
+            # The name of the module is relative to the package of the file
+            relative_name = "." * node.level + (module or "")
+            try:
+                module = resolve_name(relative_name, self.package)
+            except ImportError:
+                # Outside of any package: can't be imported at all
+                return
         for alias in node.names:
-            self.names.add(".".join([node.module, alias.name]))
-        self.names.add(node.module)
+            self.names.add(".".join([module, alias.name]))
+        self.names.add(module)
 
     def visit_Import(self, node):
         for alias in node.names:
-- 
2.43.0


From 4a521eae3a894c946fac91fd1fe30249e99a5a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 62/63] fix: handlers for events of components with upper case
 letters in their name

Handlers are registered with the lower case name, emit used the name as it is
---
 collagraph/component.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/component.py b/collagraph/component.py
index 756842e..d8e29ce 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -130,16 +130,16 @@ class Component:
     def emit(self, event, *args, **kwargs):
         """Call event handlers for the given event. Any args and kwargs will be passed
         on to the registered handlers."""
-        for handler in self._event_handlers[event].copy():
+        for handler in self._event_handlers[event.lower()].copy():
             handler(*args, **kwargs)
 
     def add_event_handler(self, event, handler):
         """Adds an event handler for the given event."""
-        self._event_handlers[event].add(handler)
+        self._event_handlers[event.lower()].add(handler)
 
     def remove_event_handler(self, event, handler):
         """Removes an event handler for the given event."""
-        self._event_handlers[event].remove(handler)
+        self._event_handlers[event.lower()].remove(handler)
 
     def _lookup(self, name, context):
         """
-- 
2.43.0


From 7459e8e27c3be6a6f70713fcdcfbaed6f291034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:05 +0000
Subject: [PATCH 63/63] fix: .cgx files are read as UTF-8, whatever the locale
 is

---
 collagraph/__pyinstaller/hook-collagraph.py | 2 +-
 collagraph/cgx/cgx.py                       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/__pyinstaller/hook-collagraph.py b/collagraph/__pyinstaller/hook-collagraph.py
index 40fb881..5b04b05 100644
--- a/collagraph/__pyinstaller/hook-collagraph.py
+++ b/collagraph/__pyinstaller/hook-collagraph.py
@@ -37,7 +37,7 @@ def collect_hidden_imports(folder, package=()):
 
     hidden_imports = set()
     for path in folder.glob("**/*.cgx"):
-        template = path.read_text()
+        template = path.read_text(encoding="utf-8")
         # Parse the file component into a tree of Node instances
         parser = CGXParser()
         parser.feed(template)
diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index ce426c8..3481f6d 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -53,7 +53,7 @@ def load(path, namespace=None):
         </script>
 
     """
-    template = path.read_text()
+    template = path.read_text(encoding="utf-8")
 
     return load_from_string(template, path, namespace=namespace)
 
@@ -96,7 +96,7 @@ def construct_ast(path, template=None):
     class definition as `render` function.
     """
     if not template:
-        template = Path(path).read_text()
+        template = Path(path).read_text(encoding="utf-8")
 
     # Parse the file component into a tree of Node instances
     parser = CGXParser()
-- 
2.43.0

