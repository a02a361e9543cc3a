"""Static call graph of a dump: direct calls, functions passed as values, closures."""
import re


def targets(dump, body):
    """instance keys a body mentions: callees, function items, closures"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            i = x.get("inst")
            if isinstance(i, str):
                out.add(i)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if x and x[0] == "closure":
                for v in x[1:]:
                    if isinstance(v, str) and v in dump["instances"]:
                        out.add(v)
            for v in x:
                if isinstance(v, (dict, list)):
                    walk(v)
    for b in body["blocks"]:
        walk(b)
    return out


def graph(dump):
    g = {}
    for k, i in dump["instances"].items():
        if i.get("body"):
            g[k] = {x for x in targets(dump, i["body"]) if x in dump["instances"]}
    return g


def reach(g, roots, stop=()):
    seen, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if k in stop:
            continue
        todo += [x for x in g.get(k, ()) if x not in seen]
    return seen
