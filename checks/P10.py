from api import *
import ffi
from ffi import Bound, SIZE

CONFIGS = ["bind"]
RULE = ("every slice formed from a caller pointer (and every raw copy through one) extends at most over the memory the interface documents for that pointer: the accompanying "
        "length argument for lists, the fixed sizes for blobs, cells, commitments and proofs, 128 slots for output lists; a slice over a list is formed only where its length "
        "argument is known to be non-zero, so an empty list may be any pointer; the documented sizes are also reached, not undercut, for inputs")
EXPLAIN = ("Abstract interpretation of each C entry point; every slice-forming or copying call through a pointer derived from an argument is recorded with its "
           "symbolic extent and the facts of its path, and the extent is compared with the documented one by linear entailment.")
OUT_SLOTS = 128
OUT_SIZE = {"commitment": 48, "cells": 2048, "proofs": 48}


def pointer(t):
    """(parameter, depth, index) a pointer term designates: depth 0 the argument itself, 1 an entry of the pointer table it points to"""
    while t.op == "app" and t.a[0] == "deref":
        t = t.a[1]
    if t.op == "param":
        return t, 0, None
    if t.op == "elem":
        b = t.a[0]
        while b.op == "app" and b.a[0] in ("rawslice", "deref"):
            b = b.a[1]
        if b.op == "param":
            return b, 1, t.a[1]
    return None, None, None


def run(rep, tier):
    for op in ffi.C_FN:
        one(rep, Bound("c", op))


def plain(t, b):
    """built from this entry point's arguments and constants only"""
    return all(x.op in ("param", "int", "lin", "mul", "len", "max", "min") or isint(x) for x in subterms(t))


def one(rep, b):
    w = b.where
    ext = {}
    for nm, p in b.pos.items():
        if nm in b.lenpos:
            ext[b.args[p]] = (nm, b.args[b.lenpos[nm]], SIZE.get(nm), False)
        else:
            ext[b.args[p]] = (nm, Int(SIZE[nm]), None, False)
    for nm, p in b.outpos.items():
        if nm == "verified":
            ext[b.args[p]] = (nm, Int(1), None, True)
        elif nm == "commitment":
            ext[b.args[p]] = (nm, Int(48), None, True)
        else:
            ext[b.args[p]] = ("output " + nm, Int(OUT_SLOTS), OUT_SIZE[nm], True)
    seen = set()
    n = 0
    for r in b.r.I.log:
        if r.kind == "call" and "from_raw_parts" in r.name:
            ptr, ln = r.args[0], r.args[1]
        elif r.kind == "write" and r.name == "copy_nonoverlapping":
            ptr, ln = r.args[0], r.args[1]
        elif r.kind == "call" and r.name == "copy_nonoverlapping" and len(r.args) == 3:
            ptr, ln = r.args[0], r.args[2]
        else:
            continue
        root, d, _ = pointer(ptr)
        if root is None or root not in ext:
            if root is not None or any(x.op == "param" for x in subterms(ptr)):
                rep.und("pointer-known", w, brief(ptr))
            continue
        n += 1
        nm, outer, inner, isout = ext[root]
        seen.add((root, d))
        want = outer if d == 0 else Int(inner) if inner else None
        if want is None:
            rep.und("extent", "%s:%s" % (w, nm), "nested pointer")
            continue
        v = F.holds(r.facts, Le(ln, want))
        k = "%s:%s%s" % (w, nm, "" if d == 0 else "[i]")
        if v is True:
            rep.ok("extent", k)
        elif plain(ln, b) and not any(x.op in ("phi", "lphi") for x in subterms(ln)):
            rep.bad("extent", k, "a slice of %s elements is formed over memory documented as %s" % (brief(ln, 60), brief(want, 40)))
        else:
            rep.und("extent", k, brief(ln))
        if d == 0 and nm in b.lenpos and not isout:
            nz = F.holds(r.facts, Le(Int(1), ln)) is True or F.holds(r.facts, Not(Eq(ln, Int(0))))
            if nz is True:
                rep.ok("empty-list-untouched", k)
            elif plain(ln, b):
                rep.bad("empty-list-untouched", k, "a slice is formed over the pointer of a list whose length may be zero (the pointer may then be null)")
            else:
                rep.und("empty-list-untouched", k)
    outs = {b.args[p]: nm for nm, p in b.outpos.items()}
    for r in b.r.recs("write"):
        for x in subterms(r.args[2]):
            y = x.a[1] if x.op == "app" and x.a[0] == "deref" else None
            if y in outs:
                rep.bad("output-memory-not-read", "%s:%s" % (w, outs[y]), "reads output memory the caller need not have initialised: %s" % brief(r.args[2], 60))
    rep.count("slices over caller memory", n)
    for root, (nm, outer, inner, isout) in ext.items():
        if nm == "verified":
            continue
        for d in ([0, 1] if inner else [0]):
            if (root, d) in seen:
                rep.ok("reached", "%s:%s" % (w, nm))
            else:
                rep.und("reached", "%s:%s" % (w, nm), "no slice over it was recognised at depth %d" % d)
