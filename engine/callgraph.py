"""Call graph over the dumped MIR."""
import re
from core import *
from interp import strip_generics


def refs(f, c):
    """(ids of functions mentioned, statics mentioned) in a body"""
    ids, st = set(), set()
    types = c.types

    def walk(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] in ("fn", "fnptr") and isinstance(x[1], str):
                ids.add(x[1])
            if len(x) == 2 and x[0] == "static":
                st.add(x[1])
            if len(x) == 2 and x[0] in ("closure", "coroutine") and isinstance(x[1], int):
                ids.add(("type", x[1]))
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    for b in f.get("bbs") or []:
        walk(b["s"])
        walk(b["t"])
    out = set()
    for i in ids:
        if isinstance(i, tuple):
            t = types[i[1]]
            j = t.get("fn")
            if j:
                out.add(j)
        else:
            out.add(i)
    return out, st


class Graph:
    def __init__(self, c):
        self.c = c
        self.cache = {}
        self.byname = {}
        for f in c.fns.values():
            self.byname.setdefault(f["name"], []).append(f)

    def out(self, f):
        if f["id"] not in self.cache:
            ids, st = refs(f, self.c)
            # zero-sized function items passed as values: local types of kind fndef / closure
            for l in f.get("locals") or []:
                t = self.c.types[l[0]] if isinstance(l[0], int) else {}
                if t.get("k") in ("closure", "fndef", "coroutine") and t.get("fn"):
                    ids.add(t["fn"])
            self.cache[f["id"]] = (ids, st)
        return self.cache[f["id"]]

    def reach(self, roots):
        """{id: path of names from a root}"""
        seen = {f["id"]: (f["name"],) for f in roots}
        todo = list(roots)
        exts = {}
        statics = {}
        while todo:
            f = todo.pop()
            ids, st = self.out(f)
            p = seen[f["id"]]
            for s in st:
                statics.setdefault(s, p)
            for i in ids:
                g = self.c.fns.get(i)
                if g is not None:
                    if i not in seen:
                        seen[i] = p + (g["name"],)
                        todo.append(g)
                else:
                    e = self.c.exts.get(i)
                    if e is not None:
                        exts.setdefault(i, p + (e["name"],))
        return seen, exts, statics


def path_text(p):
    return " -> ".join(strip_generics(x).split("::", 1)[-1][-60:] for x in p)
