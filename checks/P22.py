import re
from api import *
import ffi
from ffi import Bound
from interp import strip_generics
from P12 import understood_res, last

CONFIGS = ["bind"]
RULE = ("the outcome table of every asynchronous Node operation (driven to completion) equals that of its synchronous counterpart: same library call on the same arguments, same status, same value, "
        "same path facts")
EXPLAIN = "Abstract interpretation of the synchronous entry points and of the coroutine bodies of the asynchronous ones; outcomes are hash-consed terms over the same parameters, so equality is identity."


def table(b, ren):
    out = set()
    for o in b.outs:
        v = subst(o.v, ren)
        fs = frozenset(subst(x, ren) for x in o.facts)
        out.add((o.status, v, fs))
    return out


def pairs():
    """every asynchronous method of the context class with its synchronous counterpart"""
    out = [(op, spec[0], spec[0].replace("::", "::async_")) for op, spec in ffi.NODE_FN.items()]
    known = {x[2] for x in out}
    c = crate("bind", ffi.LANGS["node"][0])
    names = {strip_generics(f["name"]).split("node_eth_kzg::")[-1] for f in c.fns.values() if f["kind"] == "item" and f["crate"] == c.name}
    for n in sorted(names):
        if re.fullmatch(r"DASContextJs::async_\w+", n) and n not in known and n.replace("async_", "") in names:
            op = n.split("::async_")[-1]
            out.append((op if op in ffi.NODE_FN else "compute_cells_and_kzg_proofs", n.replace("async_", ""), n))
    return out


def run(rep, tier):
    for op, fa, fb in pairs():
        a = Bound("node", op, fa)
        b = Bound("node", op, fb)
        w = "node:async " + fa.split("::")[-1]
        ren = {y: x for x, y in zip(a.args, b.args) if x is not y}
        A, B = table(a, {}), table(b, ren)
        rep.count("outcomes compared", len(A) + len(B))
        if A == B:
            rep.ok("same-outcomes", w, "%d outcomes" % len(A))
            continue
        good = lambda S: {(s, v) for s, v, f in S if s in ("ok", "true", "false")}
        ga, gb = good(A), good(B)
        bare = [s for s, v, f in B if s in ("ok", "true", "false") and not called(v, f) and any(s2 == s for s2, _, _ in A) and all(called(v2, f2) for s2, v2, f2 in A if s2 == s)]
        if bare:
            rep.bad("same-outcomes", w, "the asynchronous operation can end with %s without the library having been asked" % bare[0])
            continue
        clear = all(understood_res(v) for s, v in ga | gb) and not any(s == "?" for s, v, f in A | B)
        r = apart(A, B) or reasons(A, B)
        if r:
            rep.bad("same-outcomes", w, r)
        elif ga != gb and clear and not any(v.op == "app" and "coroutine" in str(v.a[0]) for s, v in gb):
            rep.bad("same-outcomes", w, "the asynchronous operation %s" % (diff(ga, gb)))
        elif {s for s, v, f in A} != {s for s, v, f in B} and clear:
            rep.bad("same-outcomes", w, "the asynchronous operation can end with %s, the synchronous one with %s" % (sorted({s for s, v, f in B}), sorted({s for s, v, f in A})))
        else:
            ma, mb = {m for m in a.calls()}, {subst(m, ren) for m in b.calls()}
            if ma != mb and clear:
                rep.bad("same-outcomes", w, "the library is called with other arguments")
            else:
                rep.und("same-outcomes", w, "values agree, path conditions are expressed differently")


def called(v, f):
    return any(ffi.is_op(y) or (y.op == "app" and "coroutine" in str(y.a[0])) for x in [v] + list(f) for y in subterms(x))


def neg(x):
    return x.a[0] if x.op == "not" else Not(x)


def apart(A, B):
    """an outcome of one operation whose path excludes every outcome of the other that has its status"""
    for X, Y, x, y in ((B, A, "asynchronous", "synchronous"), (A, B, "synchronous", "asynchronous")):
        for s, v, f in X:
            if s == "?":
                continue
            same = [g for s2, v2, g in Y if s2 == s]
            if any(s2 == "?" for s2, _, _ in Y):
                continue
            if all(any(neg(z) in g for z in f) for g in same):
                other = [s2 for s2, _, g in Y if not any(neg(z) in g for z in f)]
                if other:
                    return "the %s operation ends with %s where the %s one ends with %s: %s" % (x, s, y, "/".join(sorted(set(other))), "; ".join(sorted(brief(z, 70) for z in f))[:300])
    return None


def reasons(A, B):
    """a rejection that leaves out the library's error where the thrown one carries it, or the other way round"""
    carries = lambda v: any(x.op in ("field", "vfield") and ffi.is_op(x.a[0]) for x in subterms(v))
    for X, Y, x, y in ((B, A, "asynchronous", "synchronous"), (A, B, "synchronous", "asynchronous")):
        for s, v, f in X:
            if s != "err" or any(z.op in ("phi", "lphi") for z in subterms(v)):
                continue
            failed = {z for z in f if z.op == "isv" and ffi.is_op(z.a[0])}
            near = [v2 for s2, v2, g in Y if s2 == "err" and failed and failed <= set(g)]
            if near and not carries(v) and all(carries(v2) for v2 in near):
                return "the %s operation fails with %s where the %s one gives the library's error" % (x, brief(v, 100), y)
    return None


def diff(a, b):
    x = [brief(v, 120) for s, v in b - a][:1]
    y = [brief(v, 120) for s, v in a - b][:1]
    return "returns %s where the synchronous one returns %s" % (x or "nothing", y or "nothing")
