from api import *
import ffi
from ffi import Bound, feasible, is_op
from terms import _raw

CONFIGS = ["bind"]
RULE = ("for every outcome of every C entry point: status Ok carries a null message and is reached only when the library call succeeded (or, for verification, was an invalid "
        "proof); status Err carries a heap message built from the library's error and is reached only when it failed; caller output memory is written only on the Ok outcomes, with "
        "the library's result, entry for entry, and on every Ok outcome each output is written")
EXPLAIN = ("Abstract interpretation of each C entry point with the library operation as an uninterpreted call: outcome table (status, message, written memory, path facts) and the "
           "log of writes through caller pointers.")
ERRPAY = Param("library_error")


def run(rep, tier):
    for op in ffi.C_FN:
        one(rep, Bound("c", op))


def root_param(t):
    """the parameter a pointer term was taken from"""
    while t.op in ("app", "elem", "slice", "mref"):
        if t.op == "app":
            if t.a[0] not in ("rawslice", "deref"):
                return None
            t = t.a[1]
        else:
            t = t.a[0]
            if t.op == "mem":
                t = t.a[0]
    return t if t.op == "param" else None


def one(rep, b):
    ver = b.op == "verify_cell_kzg_proof_batch"
    w = b.where
    rep.count("C outcomes", len(b.outs))
    Ms = {m for m in b.calls() if ffi.op_name(m) == b.op}
    if not Ms:
        rep.bad("calls-library", w, "the entry point does not call the operation it is named after")
        return
    if any(ffi.op_name(m) != b.op for m in b.calls()):
        rep.bad("calls-library", w, "calls another operation: %s" % sorted(ffi.op_name(m) for m in b.calls()))
    ok = Agg("std::result::Result", 0, Param("library_ok"))
    er = Agg("std::result::Result", 1, ERRPAY)
    for o in b.outs:
        ms = b.op_terms(o)
        if o.status == "?":
            rep.und("status-known", w, brief(o.v))
            continue
        if o.status == "err":
            msg = o.value
            good = msg.op == "app" and str(msg.a[0]).endswith("into_raw")
            if good:
                rep.ok("error-has-message", w)
            else:
                null = (msg.op == "app" and str(msg.a[0]).split("::")[-1] in ("null", "null_mut")) or (isint(msg) and msg.a[0] == 0)
                rep.judge("error-has-message", w, False if null else None, "an error is returned with message pointer %s, which the caller cannot read or free" % brief(msg))
            fail = any(not feasible(o, m, ok) for m in ms)
            if fail:
                rep.ok("error-means-failed", w)
            elif ms:
                rep.bad("error-means-failed", w, "reports an error on a path where the library call may have succeeded")
            else:
                rep.und("error-means-failed", w, "refused before the library call: " + "; ".join(sorted(brief(x, 60) for x in o.facts))[:200])
        else:
            msg = o.value
            null = (msg.op == "app" and str(msg.a[0]).split("::")[-1] in ("null", "null_mut")) or (isint(msg) and msg.a[0] == 0)
            rep.judge("ok-has-no-message", w, True if null else (False if msg.op == "app" and "into_raw" in str(msg.a[0]) else None), "success carries a message pointer")
            if not ms:
                rep.bad("ok-means-succeeded", w, "reports success without a library call on the path")
            elif ver:
                if o.status == "unset":
                    rep.bad("outputs-written", w, "verification reports success without writing the verdict")
                elif o.status == "true":
                    rep.judge("ok-means-succeeded", w, all(not feasible(o, m, er) for m in ms), "the verdict true is written on a path where verification may have failed")
                else:
                    rep.judge("ok-means-succeeded", w, all(not feasible(o, m, ok) for m in ms), "the verdict false is written on a path where verification may have succeeded")
            else:
                rep.judge("ok-means-succeeded", w, all(not feasible(o, m, er) for m in ms), "reports success on a path where the library call may have failed")
    writes(rep, b, w, ver, ok, er)


def writes(rep, b, w, ver, ok, er):
    outs = {b.args[p]: nm for nm, p in b.outpos.items()}
    ins = {b.args[p]: nm for nm, p in list(b.pos.items()) + list(b.lenpos.items())}
    seen, astray = {}, False
    recs = b.r.recs("write")
    rep.count("writes through caller pointers", len(recs))
    for r in recs:
        ptr, place, val = r.args
        root = root_param(ptr)
        astray = astray or root is None
        if root is None:
            rep.und("write-target", w, brief(ptr))
            continue
        if root in ins:
            rep.bad("inputs-untouched", w, "writes through the input pointer %s" % brief(root))
            continue
        if root not in outs:
            rep.und("write-target", w, brief(ptr))
            continue
        nm = outs[root]
        seen.setdefault(nm, []).append(r)
        if reads_output(val, root):
            rep.bad("output-is-result", "%s:%s" % (w, nm), "what is written depends on what the output memory held before: %s" % brief(val, 60))
        # only after the library call decided
        ms = {y for x in r.facts for y in subterms(x) if is_op(y)}
        o = type("O", (), {"facts": r.facts})
        # an error outcome on whose path everything holds that holds where the write happens
        late = [x for x in b.outs if x.status == "err" and set(r.facts) <= set(x.facts)]
        if late and not r.extra:
            rep.bad("untouched-on-error", "%s:%s" % (w, nm), "output memory is written on a path that goes on to report an error")
        else:
            rep.judge("untouched-on-error", "%s:%s" % (w, nm), None if late else True, "a write may precede an error")
        if not ver:
            rep.judge("written-only-on-success", "%s:%s" % (w, nm), bool(ms) and all(not feasible(o, m, er) for m in ms),
                      "output memory is written on a path where the operation may fail")
            vm = {y for y in subterms(val) if is_op(y)}
            comp = {"commitment": None, "cells": 0, "proofs": 1}[nm]
            good = value_ok(ptr, val, vm, comp)
            if good is True:
                rep.ok("output-is-result", "%s:%s" % (w, nm))
            elif good is False:
                rep.bad("output-is-result", "%s:%s" % (w, nm), "writes %s to %s" % (brief(val), brief(ptr)))
            else:
                rep.und("output-is-result", "%s:%s" % (w, nm), brief(val))
    for nm, rs in seen.items():
        slots(rep, "%s:%s" % (w, nm), rs)
    for nm, rs in seen.items():
        only = sometimes(rs, b, ms_ok=[o for o in b.outs if o.status == "ok"] if not ver else [])
        for o in b.outs if not ver else []:
            ops = {y for x in o.facts for y in subterms(x) if is_op(y)}
            if o.status == "ok" and ops and not any(r.extra for r in rs):
                if not any({y for x in r.facts for y in subterms(x) if is_op(y)} & ops and not any(F.holds(o.facts, x) is False for x in r.facts) for r in rs):
                    rep.bad("outputs-written", "%s:%s" % (w, nm), "the output %s is not written on the success path where %s" % (nm, "; ".join(sorted(brief(x, 60) for x in o.facts if not any(is_op(y) for y in subterms(x))))[:200]))
        if only is not None:
            rep.bad("outputs-written", "%s:%s" % (w, nm), "on success the output %s is written only where %s" % (nm, brief(only, 80)))
    for nm in b.outpos:
        if nm in seen:
            rep.ok("outputs-written", "%s:%s" % (w, nm))
        elif astray:
            rep.und("outputs-written", "%s:%s" % (w, nm), "some writes go through pointers that could not be traced")
        else:
            rep.bad("outputs-written", "%s:%s" % (w, nm), "the output %s is never written" % nm)


def sometimes(rs, b, ms_ok):
    """a condition on the caller's arguments under which alone an output is written, though success does not imply it"""
    if not ms_ok:
        return None
    shared = frozenset.intersection(*[frozenset(r.facts) for r in rs])
    if any(r.extra for r in rs):
        return None
    for x in shared:
        if any(y.op in ("idx", "phi", "lphi", "fold", "self", "bv") or (y.op == "app" and not str(y.a[0]).startswith("op")) or is_op(y) for y in subterms(x)):
            continue
        ps = {y for y in subterms(x) if y.op == "param"}
        if not ps or not ps <= set(b.args) or (x.op == "not" and x.a[0].op == "eq" and any(isint(y) and y.a[0] == 0 for y in x.a[0].a)):
            continue
        for o in ms_ok:
            if any(is_op(y) for f in o.facts for y in subterms(f)) and F.holds(o.facts, x) is not True:
                return x
    return None


def reads_output(val, root):
    return any(x.op == "app" and x.a[0] == "deref" and root_param(x.a[1]) is root or x.op == "mem" and root_param(x.a[0]) is root for x in subterms(val))


def slots(rep, k, rs):
    """a list output is written in every one of its 128 slots"""
    ix = []
    for r in rs:
        p = r.args[0]
        p = p.a[1] if p.op == "app" and p.a[0] == "rawslice" else p
        if p.op == "elem":
            ix.append((p.a[1], r.facts))
    if not ix:
        return
    if any(i.op == "idx" and F.holds(fs, Lt(i, Int(127))) is not True for i, fs in ix):
        rep.ok("every-slot-written", k)
    elif all(i.op == "idx" for i, _ in ix):
        rep.bad("every-slot-written", k, "the last of the 128 output slots is never written")
    else:
        rep.und("every-slot-written", k)


def value_ok(ptr, val, ms, comp):
    """is val the library result's component for the slot ptr designates?"""
    if not ms:
        return False
    if len(ms) != 1:
        return None
    M = next(iter(ms))
    good = field(M, 0, 0)
    v = val
    while v.op == "app" and v.a[0] == "deref":
        v = v.a[1]
    if comp is None:
        return True if v is good else None
    # ptr = rawslice(rawslice($out, n)[k], len); v = result.field[k]
    p = ptr.a[1] if ptr.op == "app" and ptr.a[0] == "rawslice" else ptr
    if v.op != "elem" or p.op != "elem":
        return None
    got = v.a[0]
    if got is fld(good, 1 - comp):
        return False
    if got.op == "perm" and got.a[0] is fld(good, comp):
        return False                      # the right values in another order
    if got is not fld(good, comp):
        return None
    return True if v.a[1] is p.a[1] else False


def fld(t, i):
    return field(t, i)
