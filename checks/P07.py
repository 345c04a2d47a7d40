from api import *
from terms import _raw

CONFIGS = ["multi"]
THOROUGH_CONFIGS = ["multi", "single"]
RULE = ("every success outcome of recovery carries the fact that every one of the 4096 upper coefficients of the polynomial reconstructed from the supplied "
        "cells at the supplied indices is zero, and is reachable only with at most 64 missing cells; outputs are derived from that same polynomial")
EXPLAIN = ("Abstract interpretation of the recovery entry point through erasure decoding. The zero test is found as a universally quantified equality between "
           "an element of a sequence depending on the contents of both inputs and the field's zero, whose index range is [4096, 8192).")


def run(rep, tier):
    for config in (CONFIGS if tier == "quick" else THOROUGH_CONFIGS):
        check(rep, config)


def is_zero(t):
    return (t.op == "agg" and all(isint(x) and x.a[0] == 0 for x in subterms(t, False) if x.op == "int") and any(x.op == "int" for x in subterms(t, False)) and not any(x.op not in ("agg", "arr", "rep", "int") for x in subterms(t, False))) or (t.op == "app" and t.a[0] in ("zero", "Scalar::zero"))


def seq_index(t, lvl, n=None):
    """index expressions c+bv (bv at lvl) under which t looks up sequences or powers"""
    bv = _raw("bv", lvl)
    out = set()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "elem":
            out.add(x.a[1])
        elif x.op == "app" and x.a[0] == "geom":
            out.add(x.a[3])
        st.extend(y for y in x.a if isinstance(y, type(UNIT)))
    offs = set()
    for i in out:
        d = add(i, bv)
        if n is not None and isint(n) and isint(d):
            # counted downwards
            offs.add(d.a[0] - n.a[0] + 1)
            continue
        d = sub(i, bv)
        if isint(d):
            offs.add(d.a[0])
    return offs


def strided(t, lvl):
    """(first, step) when t looks at every step-th position only"""
    bv = _raw("bv", lvl)
    out = set()
    for x in subterms(t):
        i = x.a[1] if x.op == "elem" else x.a[3] if x.op == "app" and x.a[0] == "geom" else None
        if i is not None and i.op == "lin" and contains(i, bv):
            c, m = lin_parts(i)
            if set(m) == {bv} and m[bv] > 1:
                out.add((c, m[bv]))
            else:
                return None
    return out.pop() if len(out) == 1 else None


def sum_test(b):
    """a condition on the sum of the coefficients says nothing about each of them"""
    if b.op != "eq":
        return False
    e = [y for y in b.a if not is_zero(y)]
    if len(e) != 1:
        return False
    t = e[0]
    while t.op == "app" and t.a[0] == "add" and len(t.a) == 3 and any(is_zero(y) for y in t.a[1:]):
        t = [y for y in t.a[1:] if not is_zero(y)][0]
    return t.op == "app" and t.a[0] == "sum" and not any(y.op == "app" and str(y.a[0]).startswith("hash") for y in subterms(t))


def zero_tests(fs, idx, cells):
    """[(lo, n)] ranges of coefficients found to be zero; odd: tests not understood"""
    out, odd = [], []
    for x in fs:
        if x.op == "all":
            n, lvl, body = x.a
            for b in (body.a if body.op == "and" else (body,)):
                t = None
                if b.op == "eq":
                    z = [y for y in b.a if is_zero(y)]
                    e = [y for y in b.a if not is_zero(y)]
                    if len(z) == 1 and len(e) == 1:
                        t = e[0]
                elif b.op == "app" and b.a[0] in ("is_zero", "is_zero_vartime"):
                    t = b.a[1]
                if t is None or cells not in content(t) or idx not in content(t):
                    if cells in content(b) and idx in content(b):
                        odd.append(b)
                    continue
                offs = {o for o in seq_index(t, lvl, n)}
                if len(offs) == 1 and isint(n):
                    out.append((offs.pop(), n.a[0]))
                elif not offs and strided(t, lvl) and isint(n):
                    lo, k = strided(t, lvl)
                    out += [(lo + k * i, 1) for i in range(min(n.a[0], 4))]
                else:
                    odd.append(b)
        elif x.op != "isv" and cells in content(x) and idx in content(x):
            core = x.a[0] if x.op == "not" else x
            if sum_test(core):
                continue
            if core.op in ("phi", "lphi", "fold", "app") or (core.op == "eq" and any(is_zero(y) for y in core.a)):
                odd.append(x)
    return out, odd


def check(rep, config):
    T = Table(config, "recover")
    w = "%s[%s]" % (T.where, config)
    idx, cells = T.p
    rep.count("outcomes", len(T.outs))
    if not T.ok:
        rep.bad("has-success", w, "recovery can no longer succeed")
    for o in T.ok:
        zs, odd = zero_tests(o.facts, idx, cells)
        part = [(lo, lo + n) for lo, n in zs]
        full = any(lo <= 4096 and hi == 8192 for lo, hi in part)
        if full:
            rep.ok("degree-check", w, "coefficients 4096..8191 all zero")
        elif not zs and not odd:
            rep.bad("degree-check", w, "recovery succeeds without testing that the reconstructed polynomial has degree below 4096")
        elif part and not odd:
            rep.bad("degree-check", w, "recovery succeeds having tested only coefficients %s for zero" % part)
        else:
            rep.und("degree-check", w)
        # outputs come from the decoded cells at their indices
        for p, nm in ((idx, "indices"), (cells, "cells")):
            rep.judge("output-from-input", "%s:%s" % (w, nm), p in content(o.payload), "the recovered output does not depend on the supplied %s" % nm)
        v = covers(o.payload, cells, o.facts)
        if v is True:
            rep.ok("every-cell-used", w)
        elif v is False:
            rep.bad("every-cell-used", w, "only part of the supplied cells determines the output")
        else:
            rep.und("every-cell-used", w)
        # what was tested is what is used: no coefficient is replaced by a constant afterwards
        st, seen, bad = [o.payload], set(), None
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "store" and isint(x.a[1]) and is_zero(x.a[2]) and cells in content(x.a[0]) and any(y.op == "app" and y.a[0] == "fr_dec_be" for y in subterms(x.a[0])):
                bad = x
            st.extend(y for y in x.a if isinstance(y, type(UNIT)))
            if x.op in ("phi", "lphi"):
                st.extend(phi_alts(x))
        if bad is not None:
            rep.bad("tested-is-used", w, "position %s of the recovered data is overwritten with zero" % brief(bad.a[1], 20))
        else:
            rep.ok("tested-is-used", w)
    # positions: each cell is written under its own index
    for o in T.ok:
        place(rep, w, o, idx, cells)


def place(rep, w, o, idx, cells):
    n = 0
    st, seen = [o.payload], set()
    found = []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("splice", "store"):
            ci = {y.a[1] for y in subterms(x.a[-1], False) if y.op == "elem" and y.a[0] is cells}
            ii = {y.a[1] for z in x.a[1:-1] if isinstance(z, type(UNIT)) for y in subterms(z, False) if y.op == "elem" and y.a[0] is idx}
            if ci and ii:
                found.append((ci, ii, x))
        st.extend(y for y in x.a if isinstance(y, type(UNIT)))
        if x.op in ("phi", "lphi"):
            st.extend(phi_alts(x))
    if not found:
        rep.und("cell-at-own-index", w)
    for ci, ii, x in found:
        f = ci | ii
        if len(f) == 1:
            rep.ok("cell-at-own-index", w)
        elif all(i.op in ("bv", "idx", "lin", "int") for i in f):
            rep.bad("cell-at-own-index", w, "a cell is placed at another entry's index: %s" % sorted(map(brief, f)))
        else:
            rep.und("cell-at-own-index", w)
