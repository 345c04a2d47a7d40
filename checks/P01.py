from api import *
from terms import _raw, T as T_
import P07

CONFIGS = ["multi"]
THOROUGH_CONFIGS = ["multi", "single"]
RULE = ("every success outcome of batch verification either entails that all four inputs are empty or carries the fact that a pairing product over "
        "all proofs, commitments, cells and indices (each cell combined under its own position, weighted by the transcript challenge, paired with the "
        "setup's g2[64] and g2[0]) is the identity; no success outcome carries a refuted pairing")
EXPLAIN = ("Abstract interpretation of the monomorphised MIR of the verification entry point and everything it calls in the workspace: every path is "
           "followed, loops are summarised, and each outcome carries the conditions that hold on it as terms over the parameters. The rule is checked on "
           "every outcome; values outside the interpreter's reach make an obligation undecided, never a violation.")
ASSUME = ["pairing, multi-scalar multiplication and group decoding of the blst bindings mean what their names say", "the caller obtained the context from a constructor"]


def dedup_source(u):
    """P if u is the list of distinct elements of P, in order of first appearance"""
    if u.op == "fold" and u.a[2].op == "arr" and not u.a[2].a and u.a[3].op == "app" and u.a[3].a[0] == "alts":
        me = _raw("self", u.a[4])
        bv = _raw("bv", u.a[1])
        src = None
        for x in u.a[3].a[1:]:
            if x is me:
                continue
            if x.op == "cat" and len(x.a) == 2 and x.a[0] is me and x.a[1].op == "arr" and len(x.a[1].a) == 1:
                e = x.a[1].a[0]
                if e.op == "elem" and e.a[1] is bv and e.a[0].op == "param" and u.a[0] is tlen(e.a[0]):
                    if src is None or src is e.a[0]:
                        src = e.a[0]
                        continue
            return None
        return src
    return None


def evidence_terms(o):
    """the pairing fact and the emptiness facts that stand in for absent terms of it"""
    pos, _ = pairing_facts(o.facts)
    ev = list(pos)
    for x in o.facts:
        if x.op == "eq" and any(y.op == "len" and y.a[0].op in ("fgen", "cat", "flat", "gen") for y in x.a):
            ev.append(x)
    return pos, ev


def setup_points(t):
    """(field index, element index) of the setup powers used in t"""
    out = set()
    for x in subterms(t):
        if x.op == "elem" and x.a[0].op == "field" and x.a[0].a[0].op == "param" and x.a[0].a[0].a[0] == "trusted_setup":
            out.add((x.a[0].a[1], x.a[1]))
    return out


def millers(t):
    """pairs [(g1, g2)] of the pairing products in t"""
    out = []
    for x in apps(t, "miller"):
        if x.a[1].op == "arr":
            out.append([(p.a[2], p.a[3]) for p in x.a[1].a if p.op == "agg" and len(p.a) == 4])
    return out


def is_hash(x):
    return x.op == "app" and str(x.a[0]).startswith("hash:")


NAMES = ["commitments", "cell indices", "cells", "proofs"]


def g2_fields(c):
    for i, (n, _) in enumerate(adt(c, "trusted_setup::TrustedSetup")["vs"][0]["f"]):
        if n == "g2_monomial":
            return i


def run(rep, tier):
    for config in (CONFIGS if tier == "quick" else THOROUGH_CONFIGS):
        check(rep, config)


def check(rep, config):
    T = Table(config, "verify")
    rep.count("outcomes of batch verification", len(T.outs))
    rep.count("abstract steps", T.r.I.steps)
    w = "%s[%s]" % (T.where, config)
    ps = T.p
    gf = g2_fields(T.c)
    if not T.ok:
        rep.bad("has-success", w, "batch verification can no longer succeed")
        return
    nonempty = 0
    for o in T.ok:
        if empty_inputs(o, ps):
            rep.ok("empty-batch", w, "outcome %d: all inputs empty" % o.i)
            continue
        nonempty += 1
        pos, ev = evidence_terms(o)
        _, neg = pairing_facts(o.facts)
        if not pos:
            fuzzy = any(opaque_atom(x) and apps(x, "final_exp", "miller", "pairing") for x in atoms(o.facts))
            rep.judge("pairing-checked", w, None if fuzzy else False, "a success outcome carries no satisfied pairing equation: %s" % sorted(brief(x, 80) for x in list(o.facts)[:6]))
            continue
        if any(n not in pos and n in neg for n in neg):
            rep.bad("pairing-refuted", w, "a success outcome carries a refuted pairing equation")
        rep.ok("pairing-checked", w)
        # coverage of the inputs
        for p, nm in zip(ps, NAMES):
            v = [covers(t, p, o.facts, is_hash) for t in ev]
            if p is ps[0] and True not in v:
                # every distinct commitment once, found again through its row
                v += [True for t in ev for x in walk(t, is_hash) if dedup_source(x) is p and any(y.op == "elem" and y.a[0] is x and y.a[1].op == "bv" for y in walk(t, is_hash))]
            if True in v:
                rep.ok("input-in-equation", "%s:%s" % (w, nm))
            elif all(x == "none" for x in v):
                rep.bad("input-in-equation", "%s:%s" % (w, nm), "the checked equation does not depend on the %s" % nm)
            else:
                rep.judge("input-in-equation", "%s:%s" % (w, nm), None if None in v else False, "only part of the %s enters the checked equation" % nm)
        for t in pos:
            ms = millers(t)
            for m in ms:
                g2s = [setup_points(g) for _, g in m]
                slots = set().union(*g2s) if g2s else set()
                if slots and all(isint(i) for _, i in slots):
                    want = {(gf, Int(64)), (gf, Int(0))}
                    rep.judge("g2-operands", w, slots == want, "pairs with setup points %s, expected the powers 64 and 0 of g2" % sorted((f, i.a[0]) for f, i in slots))
                else:
                    rep.und("g2-operands", w, "operands not recognised")
            if not ms:
                rep.und("g2-operands", w, "no recognised pairing product")
        alignment(rep, w, ps, o, pos)
        weights(rep, w, ps, o, pos)
    skipped(rep, w, T)
    from P02 import dedup
    dedup(rep, w, T)
    if not nonempty:
        rep.bad("has-success", w, "only the empty batch can verify")
    for o in T.err:
        pos, neg = pairing_facts(o.facts)
        if neg and not pos:
            rep.ok("refuted-is-error", w)
    for o in T.odd:
        rep.und("result-known", w, brief(o.v))


def alignment(rep, w, ps, o, pos):
    """inside one summand of the equation, inputs and weights are used at the same position"""
    seen = set()
    for t in pos:
        for x in subterms(t):
            if not (x.op == "store" or (x.op == "app" and x.a[0] == "mul")):
                continue
            idx = {}
            for y in shallow(x):
                if y.op == "elem" and y.a[0] in ps[1:]:
                    idx.setdefault(y.a[0].a[0], set()).add(y.a[1])
                elif y.op == "elem" and y.a[0].op == "fold" and x.op == "store" and any_sub(y.a[0], lambda z: z.op == "app" and z.a[0] == "mapget"):
                    idx.setdefault("commitment row", set()).add(y.a[1])
                elif y.op == "app" and y.a[0] == "geom" and any_sub(y.a[2], lambda z: z.op == "app" and str(z.a[0]).startswith("hash:")):
                    idx.setdefault("weight", set()).add(y.a[3])
            if len(idx) < 2:
                continue
            flat = set().union(*idx.values())
            key = " and ".join(sorted(idx))
            if key in seen:
                continue
            if len(flat) == 1:
                rep.ok("same-position", w, key)
            elif all(i.op in ("bv", "int", "lin") for i in flat):
                rep.bad("same-position", w, "a summand of the equation mixes positions: %s" % sorted((p, brief(i, 30)) for p, s in idx.items() for i in s))
            else:
                rep.und("same-position", w, key)
    # per-cell weights: challenge-dependent and position-dependent
    for t in pos:
        for x in apps(t, "msm"):
            pts, sc = x.a[1], x.a[2]
            if sc.op in ("gen", "fgen") and ps[3] in content(pts) and not apps(pts, "hash:Sha256"):
                body = sc.a[2] if sc.op == "gen" else sc.a[3]
                bv = _raw("bv", sc.a[1])
                if not contains(body, bv) and not any_sub(body, lambda y: y.op in ("lphi", "phi", "fold")):
                    rep.bad("weights-distinct", w, "every proof gets the same weight %s" % brief(body, 60))
                elif not any_sub(body, lambda y: y.op == "app" and str(y.a[0]).startswith("hash:")):
                    rep.judge("weights-from-transcript", w, None if any(y.op == "app" and y.a[0] not in KNOWN_APPS for y in subterms(body)) else False, "the weights do not depend on the transcript hash")
                else:
                    rep.ok("weights-distinct", w)
                    rep.ok("weights-from-transcript", w)


def test_of(x):
    """y for the conditions y == 0, y is the identity, and their negations"""
    if x.op == "not":
        x = x.a[0]
    if x.op == "app" and str(x.a[0]).split("::")[-1] in ("is_identity", "is_zero", "is_zero_vartime"):
        return x.a[1]
    if x.op == "eq":
        for a, b in (x.a, x.a[::-1]):
            if a.op == "app" and str(a.a[0]).endswith(("default", "zero", "identity")) or P07.is_zero(a):
                return b
    return None


def skipped(rep, w, T):
    """no iteration of a summation leaves its entry out, or leaves an input out of it, because of some value"""
    ps = T.p
    seen = set()
    # what is appended to a list of points, by loop
    pushed = {(r.args[0].a[0], v.a[1].a[0]) for r in T.r.recs("alts") if r.name == "loop" for v, _ in r.extra
              if v.op == "cat" and len(v.a) == 2 and v.a[0] is r.args[0] and v.a[1].op == "arr" and len(v.a[1].a) == 1}
    for r in T.r.recs("alts"):
        if r.name != "loop" or len(r.extra) < 2:
            continue
        L = r.args[0]
        k = L.a[-1]
        here = lambda v: frozenset(y.a[0] for y in walk(v, lambda z: is_hash(z) or z is L) if y.op == "elem" and contains(y.a[1], k) and (y.a[0] in ps or y.a[0].op == "fold"))
        us = [(v, here(v), cs) for v, cs in r.extra]
        full = frozenset().union(*[u for _, u, _ in us])
        if not full or not any(hashed(v) for v, _, _ in us):
            continue
        for v, u, cs in us:
            if u == full or v is L and any((L.a[0], test_of(x)) in pushed for x in cs if x.op != "not"):
                continue
            key = (r.stack[-1], show(v)[:80], len(cs))
            if key in seen:
                continue
            seen.add(key)
            rest = [x for x, y, _ in us if y == full]
            verdict = leaves_out(v, cs, L, k, full - u, rest, ps)
            rep.judge("no-entry-left-out", w, verdict, "an entry is left out of a sum of the equation when %s" % " and ".join(sorted(brief(x, 70) for x in cs)))
    if not seen:
        rep.ok("no-entry-left-out", w)


def leaves_out(v, cs, L, k, missing, rest, ps):
    """False: certainly an entry that matters"""
    if not cs:
        return None
    for x in cs:
        y = x.a[0] if x.op == "not" else x
        t = test_of(x)
        if t is not None:
            if x.op == "not" and t.op == "elem" and t.a[0] is L:
                continue                                  # skipped because something was added before
            if x.op == "not":
                continue
            if t.op == "elem" and t.a[0] is L:
                continue
            if any(contains(z, t) for z in rest) and not part_of_cell(t):
                return None                               # perhaps a summand that is zero
            continue
        if y.op == "eq" and any(isint(z) for z in y.a) and x.op != "not":
            return None                                   # a case worked out by hand
        if any(z.op == "app" and z.a[0] in ("mapget", "contains") for z in subterms(y)) and not any(z.op == "elem" for z in y.a if isinstance(z, T_)):
            return None
        if y.op == "all" or y.op in ("and", "or"):
            return None
        if y.op == "lt" and any(z is k for z in y.a):
            return None
        if y.op not in ("lt", "eq"):
            return None
    return False


def part_of_cell(t):
    """one field element, at a fixed place, of a cell"""
    return any(y.op == "slice" and y.a[0].op == "elem" and y.a[0].a[0].op == "param" and all(isint(b) for b in y.a[1:]) for y in subterms(t))


def ground(t):
    """a constant: nothing of the inputs or of a loop in it"""
    return not any(y.op in ("param", "bv", "idx", "self", "phi", "lphi") for y in subterms(t))


def hashed(t):
    return any_sub(t, is_hash)


def weights(rep, w, ps, o, pos):
    """how the challenge powers are built and combined"""
    for t in pos:
        ws = set()
        for x in walk(t, is_hash):
            # scalars appended one by one; the loop-carried power must never return to a constant
            if x.op == "fold" and x.a[3].op == "app" and x.a[3].a[0] == "alts":
                me = _raw("self", x.a[4])
                al = x.a[3].a[1:]
                app = [y.a[1].a[0] for y in al if y.op == "cat" and len(y.a) == 2 and y.a[0] is me and y.a[1].op == "arr" and len(y.a[1].a) == 1]
                for y in app:
                    for z in [y] + list(y.a):
                        if isinstance(z, T) and z.op == "lphi":
                            pa = phi_alts(z)
                            if len(pa) > 1 and any(hashed(v) for v in pa[1:]):
                                again = [v for v in pa[1:] if ground(v)]
                                rep.judge("weights-distinct", w, not again, "the running power of the challenge is set back to %s inside the loop: weights repeat" % (brief(again[0], 50) if again else ""))
                # some entries carry a challenge factor and others do not
                withh = [y for y in app if hashed(y)]
                bare = [y for y in app if not hashed(y) and any(z.op == "app" and z.a[0] == "fr_dec_be" and ps[2] in content(z) for z in deep(y))]
                if withh and bare:
                    first = all(any(z.op == "elem" and z.a[0] is ps[2] and z.a[1] is Int(0) for z in deep(y)) for y in bare)
                    rep.judge("cells-weighted", w, None if first else False, "cell data enters the equation without a challenge factor on one path (%s)" % brief(bare[0], 60))
                elif withh:
                    rep.ok("cells-weighted", w)
                # weights of one commitment add up over the cells that refer to it
                if x.a[2].op == "rep":
                    for y in al:
                        st = [z for z in walk(y, is_hash) if z.op == "store" and z.a[1].op != "bv" and hashed(z.a[2])]
                        for z in st:
                            row = z.a[1]
                            if not (row.op == "elem" or (row.op == "app" and row.a[0] == "mapget")):
                                continue
                            adds = any(q.op == "elem" and q.a[1] is row and any(r.op in ("self", "store") for r in subterms(q.a[0])) for q in walk(z.a[2], is_hash))
                            fuzzy = any(q.op in ("phi", "lphi") for q in walk(z.a[2], is_hash))
                            rep.judge("row-weights-add-up", w, True if adds else (None if fuzzy else False), "the weight of a commitment is overwritten, not added, when a second cell refers to it")
            if x.op == "app" and x.a[0] == "geom" and hashed(x.a[2]):
                ws.add(x)
        for g in ws:
            i = g.a[3]
            if i.op in ("bv", "idx", "int"):
                continue
            if i.op == "lin":
                continue
            lossy = i.op == "app" and i.a[0] in ("opBitAnd", "rem", "opRem", "opShr", "opBitOr") and any(isint(y) for y in i.a[1:] if isinstance(y, T))
            lossy = lossy or (i.op in ("mod", "rem", "min", "bitand", "trunc") and any(isint(y) or isinstance(y, int) for y in i.a))
            # (x mod m) mod n repeats after m entries when m is bounded by a constant
            lossy = lossy or i.op == "rem" and any(y.op == "rem" and y.a[0].op == "bv" and (isint(y.a[1]) or y.a[1].op == "min" and any(isint(z) for z in y.a[1].a)) for y in (i, i.a[0]))
            content_idx = i.op == "elem" and i.a[0] in ps
            rep.judge("weights-distinct", w, False if lossy or content_idx else None, "the power of the challenge is %s: entries share a weight" % brief(i, 60))


def deep(t):
    """subterms, opening the loop-carried values"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(y for y in x.a if isinstance(y, T))


def shallow(x):
    """subterms of a summand, not descending into hashes"""
    st, seen = [x], set()
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        yield y
        if y.op == "app" and (str(y.a[0]).startswith("hash:") or (y.a[0] in ("sum", "msm") and y is not x)):
            continue
        if y.op in ("lphi", "phi", "self"):
            continue
        if y.op == "app" and y.a[0] == "geom":
            st.append(y.a[1])
            if not any_sub(y.a[2], lambda z: z.op == "app" and str(z.a[0]).startswith("hash:")):
                st.append(y.a[2])
            continue
        st.extend(z for z in y.a if isinstance(z, T))
