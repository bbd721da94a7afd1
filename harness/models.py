"""Steps of checks that replay what an exhaustive model generates in the real code."""

import itertools
import json
import os
import random
import tempfile

import campaign
import parts as usages
import recon as scenarios
import tlc
import walks
from worlds import ALL, SPECIAL, TABLES, WORLDS


def generate(module, **env):
    """What a generating module writes to OUT."""
    handle, path = tempfile.mkstemp(suffix=".json", prefix="gen-")
    os.close(handle)
    try:
        out, stats = tlc.run(
            module, workers=1, env={"OUT": path, **{k: str(v) for k, v in env.items()}}
        )
        try:
            with open(path) as fh:
                return json.load(fh), {**stats, "output": out}
        except ValueError:
            raise campaign.MachineryError("TLC: " + out[-2000:]) from None
    finally:
        os.unlink(path)


def graph(stats):
    """The transitions that were printed, with the operations as nodes of their own."""
    edges = set()
    for line in tlc.strings(stats["output"]):
        if line.startswith("EDGE|"):
            edges.add(tuple(line.split("|")[1:]))
    result = []
    for a, op, b in sorted(edges):
        a, op, b = (json.loads(x) for x in (a, op, b))
        result += [(a, {"at": a, "op": op, "to": b}), ({"at": a, "op": op, "to": b}, b)]
    return result


def graphs(profiles):
    """The transitions of the machines of Calls for every profile, by name."""
    handle, path = tempfile.mkstemp(suffix=".json", prefix="profiles-")
    os.close(handle)
    try:
        with open(path, "w") as fh:
            json.dump(list(profiles.values()), fh)
        out, stats = tlc.run("CallGen", workers=1, env={"PROFILES": path}, timeout=800)
    finally:
        os.unlink(path)
    if "No error has been found" not in out:
        raise campaign.MachineryError("TLC: " + out[-2000:])
    edges = [set() for _ in profiles]
    for line in tlc.strings(out):
        if line.startswith("EDGE|"):
            _, number, *parts = line.split("|")
            a, op, b = (json.dumps(json.loads(x), sort_keys=True) for x in parts)
            edges[int(number) - 1].add((a, op, b))
    return dict(zip(profiles, map(sorted, edges))), stats


def op_walks(edges, length, rng):
    """Series of operations that take all transitions, from the initial state."""
    edges = list(edges)
    rng.shuffle(edges)
    nodes = []
    for a, op, b in edges:
        middle = {"at": a, "op": op, "to": b}
        nodes += [(a, middle), (middle, b)]
    start = initial(edges)
    for walk in walks.walks(nodes, length, start=start):
        yield [json.loads(x["op"]) for x in walk if isinstance(x, dict)]


def initial(edges):
    """The state in which there is nothing."""
    sources = {a for a, _, _ in edges}

    def size(state):
        state = json.loads(state)
        if "cls" in state:
            return sum(c != "" for c in state["cls"])
        if "in" in state:
            return sum(x != "no" for x in state["in"])
        return sum(1 for x in state if x)

    return min(sources, key=size)


def take(check, name, jobs, driver, module, **notes):
    for job in jobs:
        job["driver"], job["module"] = driver, module
    result = campaign.run(jobs, driver, module)
    check.take(name, result)
    check.notes[name].update(notes)


def equiv(check):
    edges, stats = generate("EquivGen", LEVEL="thorough")
    rounds = 1 if check.tier == "quick" else 10
    for i in range(rounds):
        random.Random(check.seed * 1000 + i).shuffle(edges)
        series = walks.walks(edges, 400, jump=True)
        jobs = [
            {"id": f"{i}-{n}", "walk": walk, "variant": n % 2}
            for n, walk in enumerate(series)
        ]
        take(check, f"equiv-{i}", jobs, "equiv.py", "EquivTrace", pairs=len(edges))
        if check.violations:
            break


def lookup(check):
    """All configurations of names in templates, and all changes of places."""
    model, stats = generate("LookupGen")
    rounds = 1 if check.tier == "quick" else 10
    for i in range(rounds):
        rng = random.Random(check.seed * 1000 + i)
        jobs = []
        for n, (kind, pos) in enumerate(model["configs"]):
            toggles = model["toggles"][kind]
            start = rng.choice(toggles)[0]
            rng.shuffle(toggles)
            for walk in walks.walks(toggles, 100, start=start):
                jobs.append({"id": f"{i}-{len(jobs)}", "kind": kind, "pos": pos,
                             "walk": walk, "variant": n + check.seed + i})  # fmt: skip
            if kind in model["ordinary"]:
                jobs.append({"id": f"{i}-{len(jobs)}", "kind": kind, "pos": pos,
                             "walk": [[]], "variant": n + check.seed + i})  # fmt: skip
        take(check, f"lookup-{i}", jobs, "lookup.py", "LookupTrace",
             configurations=len(model["configs"]))  # fmt: skip
        if check.violations:
            break


def recon(check, loop="sync", backend="mem", share=1.0):
    """All changes from one list of children to another one."""
    quick = check.tier == "quick"
    lists, stats = generate("ReconGen", LEVEL=check.tier)
    limit = int((PAIRS if quick else 12 * PAIRS) * share)
    rng = random.Random(f"{check.seed}-{check.prop}-{loop}-{backend}")
    make = scenarios.builder(rng.random())
    jobs, total = [], 0
    for name in sorted(lists):
        pairs = list(itertools.product(lists[name], repeat=2))
        rng.shuffle(pairs)
        total += len(pairs)
        for walk in walks.walks(pairs[:limit], 40, jump=True):
            jobs.append(make.scenario(f"{name}-{loop}-{len(jobs)}", walk, loop, backend))
    result = campaign.run(jobs)
    name = f"recon-{loop}-{backend}"
    check.take(name, result)
    check.notes[name].update(pairs=total, taken=sum(len(j["steps"]) for j in jobs))


# How many pairs of lists are taken by quick checks, for each alphabet
PAIRS = 3000


def recons(*options):
    """Step with any number of calls of recon."""

    def step(check):
        for loop, backend, share in options:
            if not check.violations:
                recon(check, loop, backend, share)

    return step


def parts(*options):
    """All ways to use a component after all others: names of worlds, loop, number."""

    def step(check):
        quick = check.tier == "quick"
        worlds, stats = generate("PartsGen")
        for prefix, modes, loop, count in options:
            if check.violations:
                break
            some = [(w, m) for w in worlds if w["name"].startswith(prefix)
                    for m in w["modes"] if m in modes]  # fmt: skip
            limit = (count if quick else 12 * count) // len(some)
            jobs, taken = [], 0
            for world, mode in some:
                rng = random.Random(f"{check.seed}-{check.prop}-{world['name']}-{mode}-{loop}")
                make = usages.Builder(rng, loop, writes=4 if quick else 8)
                here = 0
                for job, number in make.scenarios(world, mode):
                    job["id"] = f"{world['name']}-{mode}-{loop}-{len(jobs)}"
                    jobs.append(job)
                    here += number
                    if here >= limit:
                        break
                taken += here
            result = campaign.run(jobs)
            name = f"parts-{prefix}-{loop}"
            check.take(name, result)
            check.notes[name].update(worlds=len(some), taken=taken,
                                     configurations=sum(len(w["nodes"]) for w, _ in some))  # fmt: skip

    return step


def schedules(check):
    """Changes at every moment in which the event loop has control."""
    quick = check.tier == "quick"
    out, stats = tlc.run("Sched", workers=4, env={"LEVEL": check.tier})
    if "No error has been found" not in out:
        raise campaign.MachineryError("TLC: " + out[-2000:])
    histories = sorted(line for line in tlc.strings(out) if line.startswith("HIST|"))
    histories = [json.loads(line[5:]) for line in histories]
    for i in range(1 if quick else 2):
        rng = random.Random(f"{check.seed}-{check.prop}-{i}")
        make = scenarios.Schedules(rng)
        rng.shuffle(histories)
        jobs = []
        for n in range(0, len(histories), 12):
            jobs.append(make.scenario(f"{i}-{n}", histories[n : n + 12]))
        result = campaign.run(jobs)
        check.take(f"schedules-{i}", result)
        check.notes[f"schedules-{i}"].update(histories=len(histories))
        check.coverage["states"] += stats["distinct"]
        if check.violations:
            break


ROUTES = ("string", "string-path", "load", "import", "package", "from")


def importing(check):
    """All contents of files, all layouts of folders, all histories of two modules."""
    model, stats = generate("ImportGen")
    edges = graph(stats)
    rounds = 1 if check.tier == "quick" else 10
    for i in range(rounds):
        rng = random.Random(check.seed * 1000 + i)
        jobs = []
        items = []
        for n, item in enumerate(model["contents"]):
            some = ROUTES if check.tier != "quick" else (ROUTES[n % 3], ROUTES[3 + n % 3])
            items += [{**item, "route": r} for r in some]
        rng.shuffle(items)
        for n in range(0, len(items), 100):
            jobs.append({"id": f"{i}-c{n}", "kind": "content", "items": items[n : n + 100]})
        for n in range(0, len(model["layouts"]), 8):
            jobs.append({"id": f"{i}-f{n}", "kind": "find",
                         "items": model["layouts"][n : n + 8]})  # fmt: skip
        rng.shuffle(edges)
        for walk in walks.walks(edges, 400, start=START):
            ops = [x["op"] for x in walk if "op" in x]
            jobs.append({"id": f"{i}-h{len(jobs)}", "kind": "history", "walk": ops})
        take(check, f"import-{i}", jobs, "importing.py", "ImportTrace",
             contents=len(items), layouts=2 * len(model["layouts"]),
             transitions_of_histories=len(edges) // 2)  # fmt: skip
        check.coverage["states"] += stats["distinct"]
        if check.violations:
            break


def tool(check):
    """All kinds of arguments, and all changes of the props of what is shown."""
    items, stats = generate("ToolGen")
    edges = graph(stats)
    for i in range(1 if check.tier == "quick" else 4):
        rng = random.Random(check.seed * 1000 + i)
        rng.shuffle(edges)
        jobs = []
        for item in items:
            config = item["config"]
            ops = []
            if config["file"] == "good" and config["state"] in ("none", "empty"):
                ops = None
            jobs.append({"id": f"{i}-{len(jobs)}", **item, "ops": ops or [], "source": config})
            if ops is None and config["form"] == "after":
                for walk in walks.walks(edges, 200, start=FIRST):
                    more = [x["op"] for x in walk if "op" in x]
                    jobs.append({"id": f"{i}-{len(jobs)}", **item, "ops": more, "source": config})
        rng.shuffle(jobs)
        take(check, f"tool-{i}", jobs, "tool.py", "ToolTrace",
             arguments=len(items), transitions=len(edges) // 2)  # fmt: skip
        check.coverage["states"] += stats["distinct"]
        if check.violations:
            break


def packing(check):
    """All kinds of imports in all places, with all kinds of users of collagraph."""
    items, stats = generate("PackGen")
    for i in range(1 if check.tier == "quick" else 4):
        random.Random(check.seed * 1000 + i).shuffle(items)
        jobs = [{"id": f"{i}-{n}", "items": items[n : n + 20]} for n in range(0, len(items), 20)]
        take(check, f"packing-{i}", jobs, "packing.py", "PackTrace", configurations=len(items))
        check.coverage["states"] += stats["distinct"]
        if check.violations:
            break


FIRST = {"a": "", "b": "", "n": 0}
START = {"disk": {"a": "none", "b": "none"}, "mod": {"a": "none", "b": "none"}}


# ------------------------------------------------------------------ renderers
PLAIN = {
    "dict": {"c": ["group", "box"], "l": ["span", "TEXT_ELEMENT"]},
    "dom": {"c": ["group", "box"], "l": ["span", "TEXT_ELEMENT"]},
}
FREE = {"c": {"c": "", "l": ""}, "root": {"c": "", "l": ""}}


def tree_profiles(world, elements):
    """Class to types, and the profile, for the trees of a world."""
    if world in SPECIAL:
        special = SPECIAL[world]
        types = {c: list(t) for c, t in special["classes"].items()}
        kids, need = special["kids"], special["need"]
    elif world in PLAIN:
        types, kids, need = PLAIN[world], FREE, {}
    else:
        types = {"c": list(WORLDS[world]["elements"]), "l": list(WORLDS[world]["leaves"])}
        if world == "menubar":
            types = {"c": ["menu"], "l": []}
        types = {c: t for c, t in types.items() if t}
        kids = {c: {o: "" for o in types} for c in ("c", "root") if c in types or c == "root"}
        need = {}
    profile = {"kind": "tree", "elements": elements, "classes": sorted(types),
               "kids": kids, "need": need}  # fmt: skip
    return types, profile


def cell_choices(world):
    """All pairs of cells: of one element, and of two elements."""
    table = ALL.get(world, {})
    if world in PLAIN:
        cells = {"group": [("attr", ["a"]), ("attr", ["class"]), ("event", ["click"]),
                           ("event", ["key"])],
                 "TEXT_ELEMENT": [("text", ["text!"])]}  # fmt: skip
    else:
        cells = {}
        for type in dict.fromkeys([*table["elements"], *table["leaves"]]):
            schema = table["schema"]
            events = table["event_names"]
            cells[type] = [("attr", n) for n in schema.get(type, []) + schema.get("*", [])]
            cells[type] += [("event", [e]) for e in events.get(type, events.get("*", []))]
    skip = "QDialog", "menubar", "statusbar", "itemselectionmodel"
    for type, found in cells.items():
        if type in skip or (world == "dock" and type != "label"):
            continue
        for a, b in itertools.combinations(found, 2):
            yield [{"el": 1, "type": type, "kind": k, "name": n} for k, n in (a, b)]
        for a in found if not table.get("single") else ():
            yield [{"el": e, "type": type, "kind": a[0], "name": a[1]} for e in (1, 2)]


def values(cell):
    if cell["kind"] == "event":
        return 3
    options = cell["name"][1:]
    return min(len(options), 2) if options else 2


def calls(worlds):
    """All transitions of the machines of Calls, in these worlds."""

    def step(check):
        quick = check.tier == "quick"
        profiles, todo = {}, []

        def add(profile, **job):
            name = json.dumps(profile, sort_keys=True)
            profiles[name] = profile
            todo.append((name, job))

        for world in worlds:
            if not SPECIAL.get(world, {}).get("only_table"):
                types, profile = tree_profiles(world, 3 if quick else 4)
                add(profile, world=world, kind="tree", types=types)
            if world in TABLES:
                add({"kind": "table", "elements": 3, "places": 3 if quick else 4}, world=world, kind="table")
                if world in SPECIAL:
                    continue
            if world in ("main", "QListView", "QTableView", "treeview"):
                continue
            for cells in cell_choices(world):
                add(
                    {"kind": "cells", "cells": [
                        {"el": c["el"], "values": values(c), "must": c["name"][0].endswith("!")}
                        for c in cells]},
                    world=world, kind="cells", cells=cells,
                )  # fmt: skip
        machines, stats = graphs(profiles)
        for i in range(1 if quick else 5):
            rng = random.Random(check.seed * 1000 + i)
            jobs = []
            for n, (name, job) in enumerate(todo):
                if quick and job["kind"] == "cells" and job["world"] not in PLAIN:
                    if rng.random() > SHARE:
                        continue
                for walk in op_walks(machines[name], 200, rng):
                    jobs.append({"id": f"{i}-{len(jobs)}", "variant": rng.randrange(6),
                                 "walk": walk, **job})  # fmt: skip
            rng.shuffle(jobs)
            take(check, f"calls-{i}", jobs, "calls.py", "CallTrace",
                 transitions_of_models=sum(map(len, machines.values())))  # fmt: skip
            check.coverage["states"] += stats["distinct"]
            if check.violations:
                break

    return step


# How many pairs of cells are tried by quick checks
SHARE = 0.15
