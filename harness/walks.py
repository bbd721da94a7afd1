"""Walks through a graph that take all of its edges."""

import collections
import json


def walks(edges, length, start=None, jump=False):
    """Series of nodes in which every edge (pair of nodes) is taken at least once.

    Every walk has at most about `length` edges; it starts at `start`, or anywhere.
    With `jump`, every node can be followed by any other one.
    """
    key = {}

    def name(node):
        text = json.dumps(node, sort_keys=True)
        key[text] = node
        return text

    todo = collections.defaultdict(list)
    succ = collections.defaultdict(list)
    count = 0
    for a, b in edges:
        a, b = name(a), name(b)
        todo[a].append(b)
        succ[a].append(b)
        count += 1
    origin = name(start) if start is not None else None
    result = []
    while count:
        if origin is not None:
            here = origin
        else:
            here = next(n for n, s in todo.items() if s)
        walk = [here]
        while len(walk) <= length:
            if todo[here]:
                here = todo[here].pop()
                count -= 1
                walk.append(here)
                continue
            path = nearest(here, todo, succ)
            if path is None and jump and count:
                path = [next(n for n, s in todo.items() if s)]
            if path is None or len(walk) + len(path) > max(length, len(path) + 1):
                break
            walk.extend(path)
            here = path[-1]
        if len(walk) == 1 and origin is not None:
            raise ValueError("edges that can't be reached")
        result.append([key[n] for n in walk])
    return result


def nearest(here, todo, succ):
    """The shortest path to a node with edges left, without the node itself."""
    before = {here: None}
    queue = collections.deque([here])
    while queue:
        node = queue.popleft()
        if todo[node]:
            path = []
            while node != here:
                path.append(node)
                node = before[node]
            return path[::-1]
        for other in succ[node]:
            if other not in before:
                before[other] = node
                queue.append(other)
    return None
