"""Writes properties.jsonl (the single source of the list of properties)."""
import json, os

CG = "collagraph/collagraph.py"
CMP = "collagraph/component.py"
CGX = "collagraph/cgx/cgx.py"
R = "collagraph/renderers/"

def P(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": None,
        },
    }

PROGS = "all component trees (elements, text, virtual elements, class and function components, slots, keyed and unkeyed children) and all histories of state changes"
PROPS = [
P("C01", "The rendered elements are exactly what is described, in that order",
  "Whenever nothing is left to do after a call to render or after any change of state, the elements below the container are exactly those described by the render methods for the current state: same types, same nesting, same order of siblings, same text. This holds for every combination of keyed and unkeyed children, text, conditionals, loops, slots, virtual elements (also when they, or components, have zero or several elements) and for every sequence of insertions, removals, moves and replacements, also when render is called again.",
  ["programs", "histories"], PROGS,
  "Tests compare the result of a few hand written transitions; reconciliation depends on the pair (old tree, new tree) and on what earlier transitions left behind, which is unbounded.",
  [CG], [("reconcile_children / commit_work", CG), ("finding the anchor and parent DOM element", CG)],
  ["renderer calls (create_element, insert, remove, set_element_text)", "children of the container"],
  [("current root fiber", "the committed tree", CG)]),
P("C02", "Elements and component instances keep their identity",
  "A described node that has the same type and the same key (or, without keys, the same position) as a node of the previous tree below the same parent keeps its element, or its component instance with its state; every other described node gets a new element or a new instance. State never moves to another instance, instances and elements that have been removed never come back, and no instance is shared between two nodes.",
  ["programs", "histories"], PROGS,
  "Tests only check identity for a few reorderings; that keys win over positions and that state follows the key has to hold for every permutation, duplicate removal and replacement.",
  [CG], [("matching of keyed and unkeyed children", CG), ("reuse of component instances", CG)],
  ["element identity at the renderer", "state and identity of Component instances"],
  [("fiber.key, fiber.alternate", "identity across renders", CG)]),
P("C03", "Attributes are exactly those of the last description",
  "Whenever nothing is left to do, every element has exactly the attributes (names and values) that the current description of that element gives it: changed values are set, attributes that are no longer described are removed, and attributes that do not change are not set again.",
  ["programs", "histories"], PROGS,
  "Whether an attribute is stale depends on all earlier descriptions of that element, including reordering and re-use of the element.",
  [CG], [("update_dom: comparing old and new props", CG)],
  ["set_attribute / remove_attribute calls", "attributes of the elements"]),
P("C04", "Events call exactly the latest handlers",
  "Whenever nothing is left to do, firing an event of an element calls the handler of its current description exactly once, with the arguments of the event, and calls nothing when the current description has no handler for it. In particular a handler never uses values of an earlier description, also when handlers are created again for every render, are bound methods, partials or closures; and handlers are left alone when nothing about the element changed.",
  ["programs", "histories"], PROGS + ", handlers of all kinds (closures, defaults, partials, bound methods, callable objects)",
  "A stale handler only shows when it is called after a specific history of re-renders; tests fire handlers once or twice.",
  [CG, "collagraph/compare.py"], [("update_dom: listeners", CG), ("equivalent_functions", "collagraph/compare.py")],
  ["add_event_listener / remove_event_listener calls", "effects of firing an event"]),
P("C05", "The renderer is used according to its contract, without needless calls",
  "Every sequence of calls that a renderer receives is valid: elements are created before use, inserted into a parent that exists, before an anchor that is at that moment a child of that parent, removed only from the parent that they are in, and a listener or attribute is only removed when it was set. Elements that do not have to change are left alone: a pass creates no element that does not become part of the tree, and does not remove, re-insert or update elements when nothing about them changed.",
  ["programs", "histories"], PROGS,
  "Renderers for Qt, pygfx and the browser raise or misbehave on invalid calls, but tests run against a forgiving renderer and on a few histories.",
  [CG, "collagraph/renderers/__init__.py"], [("commit_work, get_host_sibling", CG)],
  ["the recorded sequence of calls to the renderer"]),
P("C06", "Lifecycle hooks run exactly once, at the right moment, in the right order",
  "mounted is called once for every component instance, after its element is in the tree; before_unmount is called once for every instance that is removed, before its element leaves the tree; updated is called at most once for a pass, for exactly the mounted components whose own part of the tree changed, and not in the pass in which the component is mounted. Hooks of children run before those of their parents, and before_unmount runs before the mounted and updated hooks of the same pass, and all changes of the elements are made before any mounted or updated hook.",
  ["programs", "histories"], PROGS + ", including hooks that change state",
  "Which hooks are due depends on the pair of trees; nested components, components that render components, slots and removal of whole branches multiply the cases.",
  [CG, CMP], [("call of hooks in commit", CG)],
  ["calls of mounted, updated and before_unmount relative to the renderer calls"]),
P("C07", "Time slicing is invisible: a tree is committed at once and completely",
  "With an event loop, a tree is built in slices of which the boundaries depend on the clock, but the elements in the tree only change in one uninterrupted step in which the complete new tree is committed. Whatever the boundaries of the slices and whatever happens in between (changes of state, new calls to render), elements are never partly updated when control returns to the event loop, and the tree that is finally committed is that of the latest state and the latest call to render, without exceptions.",
  ["schedules", "histories"], "all boundaries of slices, all points in between at which state changes or render is called",
  "The default tests run synchronously or finish within one slice; the interleaving of slices and changes is a schedule.",
  [CG], [("work_loop, perform_unit_of_work, commit_root", CG)],
  ["renderer calls relative to the turns of the event loop"],
  [("next unit of work, wip root", "progress of the tree that is being built", CG)]),
P("C08", "No change of state is lost",
  "After any change of state or props that is used by a render, made at any moment (in event handlers, in lifecycle hooks, several at once, between two slices of a pass that is being built, or while a pass is already scheduled), the tree that belongs to the new state is eventually shown, without any further trigger.",
  ["schedules", "histories"], "all moments at which state is changed relative to the building and committing of a tree",
  "Lost updates need a change in a specific window; tests change state when nothing else is going on.",
  [CG], [("watchers of components, request_update / update", CG)],
  ["the tree after the event loop is idle"],
  [("watchers of the render methods", "dependencies of the committed tree", CG)]),
P("C09", "Passes only happen for changes that matter, once for each change",
  "A change of state that no mounted component used in its last render, or that gives a value that is equal to the one that is there, causes no render of any component, no call to the renderer, no hook and no callback. A single change causes at most one pass: no hook or callback more than once and no endless succession of passes.",
  ["programs", "histories"], PROGS + " with relevant and irrelevant changes",
  "Absence of work is hardly ever asserted by tests, and depends on which branches of which render methods were taken last.",
  [CG, CMP], [("dependency tracking with observ watchers", CG)],
  ["renders, renderer calls, hooks and callbacks after a change"]),
P("C10", "The callback of render follows a completed commit",
  "The callback that is passed to render is called after the elements of a tree have been committed and never before or halfway: for the first tree, and again for each later commit that changes elements; when a call to render is superseded before it was committed, only complete commits lead to a call. It is always the callback of the latest call of render.",
  ["schedules", "histories"], "all programs, schedules and repeated calls to render",
  "Tests use the callback as signal for being done, and do not look at its moment for interrupted or repeated passes.",
  [CG], [("render_callback in commit_root", CG)], ["callback relative to renderer calls and hooks"]),
P("C11", "Components see the latest props, and never change data of others",
  "The props of a component always equal the attributes and handlers that its parent currently passes: new values are visible in every render, in hooks and in handlers, and props that are no longer passed are gone. Props can not be written by the component, and neither the dictionaries, lists and state that are passed in by the user nor the props of other nodes are ever modified by rendering.",
  ["programs", "histories"], PROGS,
  "Aliasing between the dictionaries of the user, the parent and the instance only shows after specific sequences of re-renders.",
  [CG, CMP], [("updating of the props of an instance", CG), ("read-only props", CMP)],
  ["Component.props and state after every pass, exceptions on write"]),
P("C12", "Components have the right parent; inject finds the nearest provider",
  "The parent of a component instance is the nearest component instance that contains it in the tree (also through elements, virtual elements, function components and the slots of another component), or nothing at the root, from before its first render until it is unmounted. inject(key) returns the value of the nearest ancestor that provides the key, whatever that value is, and otherwise the default; what a component provides itself or what other branches provide is not found.",
  ["programs", "histories"], PROGS + " with providers at any level",
  "The ancestors depend on where content is rendered (slots, replaced branches, re-used instances); tests have one chain.",
  [CG, CMP], [("passing of parent", CG), ("provide / inject", CMP)],
  ["Component.parent", "values of inject in renders"]),
P("C13", "emit calls the handlers that the parent currently passes",
  "component.emit(event, *args, **kwargs) calls exactly the handler that is currently passed to the component for that event by its parent, once and with those arguments, after any history of re-renders, and does nothing when there is none.",
  ["programs", "histories"], PROGS + " with emits in between",
  "Emitting after re-renders with added, changed and removed handlers is not covered by tests.",
  [CMP, CG], [("Component.emit / handlers from props", CMP)],
  ["handlers that are called by emit"]),
P("C14", "Slots show the content that is passed, in the right scope, or the fallback",
  "A slot shows the content that the user of the component passes for it (default or named), evaluated with the names of the place where that content is written plus the props that the slot passes, in the order and at the position of the slot; when nothing is passed for it, it shows its fallback content. This holds for every update: of the state that is used in the content, of the slot props, of the presence of slots, and with slots nested in or passed on to other components.",
  ["programs", "histories"], PROGS + " with slots",
  "Tests render a few static slots; updates and nested pass-through are combinations.",
  [CG, CMP, CGX, "collagraph/__init__.py"], [("render_slot", CMP), ("slots in cgx", CGX)],
  ["rendered elements and handlers in the content of slots"]),
P("C15", "component.element is the root element of the component",
  "For every mounted component, element is the first DOM element that is currently rendered for it, also when the component renders another component or a virtual element, and after that element is replaced by another one; in mounted, updated and before_unmount it is available and part of the tree.",
  ["programs", "histories"], PROGS,
  "Tests check it for one level and a static tree.",
  [CMP, CG], [("Component.element", CMP)], ["Component.element in hooks and after every pass"]),
P("C16", "A .cgx template renders as its directives say",
  "The component that is compiled from a template describes, for every state, exactly the elements of the template: v-if/v-else-if/v-else show only the first branch that holds, v-for repeats its element for every item with its own names, v-bind and : bind single or all attributes in order (the last one prevails), v-on and @ install handlers, text with {{ }} is interpolated, and slots and templates are filled; in every combination and nesting of those directives and of text, comments and components.",
  ["programs", "inputs", "histories"], "all templates built from the directives, and all states",
  "Tests compile a few dozen fixed templates; directives interact (loops in conditions in slots, mixed siblings).",
  [CGX], [("convert_node_to_args, create_control_flow_ast", CGX)],
  ["elements, attributes, text and handlers that are rendered by compiled components"]),
P("C17", "Names in templates are found in a fixed order of places",
  "A name in an expression of a template refers, in this order, to: a local name of the expression or the enclosing v-for or slot, the props, the state, the attributes and methods of the component, and the globals of the module. Only names of builtins and names that the script imports always refer to those. This is decided for every instance and every render, so it follows props and state that come and go.",
  ["programs", "inputs", "histories"], "all places in templates where expressions occur, and all combinations of places where the name is defined",
  "Tests have each name defined at one place, in one instance.",
  [CGX], [("RewriteName, _lookup", CGX)],
  ["values in rendered attributes, text, conditions, loops and handlers"]),
P("C18", "Handlers are only considered the same when they behave the same",
  "Two handlers that are passed in successive descriptions are only treated as the same when calling either of them has the same effect: they differ when their code, constants, defaults (positional or keyword), bound object, partial arguments, or values of closures, at any depth, differ. Comparing any two callables terminates, has no side effects and raises no exceptions, also for handlers that refer to themselves.",
  ["inputs", "histories"], "all pairs of callables: functions, lambdas, closures (nested, self-referring), bound methods, partials, builtins, callable objects",
  "Tests compare a few pairs of lambdas.",
  ["collagraph/compare.py", CG], [("equivalent_functions / equivalent_closure_values", "collagraph/compare.py")],
  ["effect of firing an event after its handler is replaced", "result of the comparison"]),
P("C19", "DictRenderer and DomRenderer show exactly what they are told",
  "After every sequence of valid calls, the tree of the DictRenderer (dictionaries) and that of the DomRenderer (a browser document) are exactly the tree that results from the calls: children in order (with anchors, identified by identity, also when equal), attributes, text and listeners; removing what is not there leaves the rest intact.",
  ["histories"], "all sequences of renderer calls that can occur",
  "DomRenderer has no tests at all, and the dict renderer only in passing.",
  [R + "dict_renderer.py", R + "dom_renderer.py"], [("insert, remove, set_attribute, remove_attribute, listeners", R)],
  ["the tree of dictionaries", "calls to and state of document nodes"]),
P("C20", "The PySide renderer keeps widgets in step with the description",
  "For every supported kind of widget (widgets in box, grid and form layouts, items, menus, actions, toolbars, tabs, docks, list/tree/table models) and every history, the Qt objects below the container are those that are described, in the described order, with the described values; attributes that are no longer described are back at the value that they had by default; signals call exactly the current handlers; nothing that was removed stays visible.",
  ["histories", "programs"], "all histories of updates of trees of supported widgets",
  "Tests cover one or two transitions for each kind of widget.",
  [R + "pyside_renderer.py", R + "pyside/objects"], [("insert / remove for each kind of parent, set_attribute, listeners", R + "pyside_renderer.py")],
  ["children, layouts, models, properties and signals of the Qt objects"]),
P("C21", "The pygfx renderer keeps the scene in step with the description",
  "After every history, the objects in the scene are exactly those that are described, as children of the described parents and in order; (nested) attributes have the described values, attributes that are no longer described are back at the value that the object had at first (or gone when it had none), and events call exactly the current handlers.",
  ["histories", "programs"], "all histories of updates of scenes",
  "Tests cover a handful of transitions; default values are only restored correctly when remembered once, and per object.",
  [R + "pygfx_renderer.py"], [("insert, remove, set_attribute, remove_attribute, listeners", R + "pygfx_renderer.py")],
  ["children, attributes and event handlers of the pygfx objects"]),
P("C22", "Importing and loading .cgx files gives the component of the file",
  "For every valid .cgx file, importing it as a module or loading it as a string gives exactly the last component class that the script defines, with a render method for the template of that file and all other names of the script; the file and line of the code of the script in tracebacks and syntax errors are those of the file, and files or strings that are not valid are refused with an error without influencing earlier or later imports. A module is found in the first folder of the path that has its file, when there is no module of another kind with that name; importing it again gives the same module, and reloading it gives what the file contains by then.",
  ["inputs", "programs", "histories"], "all single file components, folders and histories of changing files",
  "Tests import a few fixed files.",
  ["collagraph/cgx/importer.py", CGX], [("CGXImporter, load, load_from_string", CGX)],
  ["the imported module and class"]),
P("C23", "The command line program renders the given component with the given state",
  "python -m collagraph renders the component of the given file with the given renderer (PySide by default) and with the given state (an object in JSON, of any length and content, as an argument or as the name of a file) as its props, and keeps showing the latest values when these props or the state of the component change afterwards. Arguments that are not valid (a file that does not exist, that is a folder or that is no .cgx file, a renderer that does not exist, text that is not JSON) are refused with a message about the usage (exit code 2), before anything is rendered; a component that can not be loaded ends the program with its error.",
  ["inputs", "histories"], "all combinations of arguments, and all histories of changes of the props",
  "There are no tests of the program.",
  ["collagraph/__main__.py"], [("run, init_collagraph, json_contents, existing_component_file", "collagraph/__main__.py")],
  ["exit code, what is shown by the renderer"]),
P("C24", "Packaging includes everything that .cgx files import",
  "For every module that uses collagraph, the hook for PyInstaller adds all .cgx files in the folder of that module and below it as data, and as hidden imports all modules that the scripts of these files import: by any form of import statement (with other names, several at once, from packages, all names, relative to the package of the file), at any place in the script. It adds no names of modules that are not imported, and ends without exceptions.",
  ["inputs", "programs"], "all packages with .cgx files and all import statements in them",
  "There are no tests of the hook.",
  ["collagraph/__pyinstaller/hook-collagraph.py"], [("hook, collect_hidden_imports, ImportsCollector", "collagraph/__pyinstaller/hook-collagraph.py")],
  ["hidden imports and data files that the hook adds"]),
]

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps(p) + "\n")
