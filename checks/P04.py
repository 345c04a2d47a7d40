from api import *
from terms import _raw

CONFIGS = ["multi"]
THOROUGH_CONFIGS = ["multi", "single"]
RULE = ("every success outcome of batch verification entails that the four inputs have equal lengths and that every cell index is below 128; an outcome whose "
        "condition is a length mismatch or an out-of-range index is an input error that is not the invalid-proof error; conversely such an input error is only "
        "returned under its condition")
EXPLAIN = "Abstract interpretation of the verification entry point; linear-arithmetic and forall entailment over the outcome's path facts."


def run(rep, tier):
    for config in (CONFIGS if tier == "quick" else THOROUGH_CONFIGS):
        check(rep, config)


def check(rep, config):
    T = Table(config, "verify")
    w = "%s[%s]" % (T.where, config)
    ps = T.p
    names = ["commitments", "cell_indices", "cells", "proofs"]
    rep.count("outcomes", len(T.outs))
    rep.count("success outcomes", len(T.ok))
    for o in T.ok:
        for i in (0, 2, 3):
            g = Eq(tlen(ps[1]), tlen(ps[i]))
            rep.judge("equal-lengths", "%s:cell_indices/%s" % (w, names[i]), verdict(T, o, g, (ps[1], ps[i])), "success without the lengths having been found equal")
        g = forall(ps[1], lambda e: Lt(e, Int(128)))
        rep.judge("index-range", w, verdict(T, o, g, (ps[1],)), "success without every cell index having been found below 128")
    panics(rep, T, w, ps)
    # input errors are given exactly for malformed batches
    for o in T.err:
        kind = "/".join(o.names)
        if malformed(o.facts, ps) is True:
            if "InvalidProof" in o.names:
                rep.bad("malformed-is-input-error", w, "a malformed batch is reported as an invalid proof")
            else:
                rep.ok("malformed-is-input-error", w, kind)
            continue
        if any(x.op == "isv" and x.a[0].op == "app" and x.a[0].a[0] in ("g1_dec", "fr_dec_be") for x in atoms(o.facts)) or pairing_facts(o.facts)[1]:
            continue
        # refused before any decoding, without a reason the property knows
        lens = all(y.op in ("lt", "not", "eq", "and", "all", "elem", "idx", "bv", "len", "int", "lin", "param", "isv") for x in o.facts for y in subterms(x))
        rep.judge("refusal-justified", "%s:%s" % (w, kind), False if lens and o.facts and not o.lossy else None, "a well-formed batch can be refused: %s" % sorted(brief(x, 60) for x in o.facts))
    # completeness: a mismatch can not continue into decoding or pairing
    for o in T.err:
        pos, neg = pairing_facts(o.facts)
        decoded = any(x.op == "isv" and x.a[0].op == "app" and x.a[0].a[0] in ("g1_dec", "fr_dec_be") for x in atoms(o.facts))
        if decoded or neg:
            for i in (0, 2, 3):
                g = Eq(tlen(ps[1]), tlen(ps[i]))
                rep.judge("validated-before-decoding", "%s:%s" % (w, names[i]), verdict(T, o, g, (ps[1], ps[i])), "%s can be returned for a batch of unequal lengths" % kind_of(o))
            rep.judge("validated-before-decoding", "%s:index" % w, verdict(T, o, forall(ps[1], lambda e: Lt(e, Int(128))), (ps[1],)), "%s can be returned for a batch with an out-of-range index" % kind_of(o))


def panics(rep, T, w, ps):
    """a malformed batch that panics is not answered with an input error"""
    import P05
    oks = [set(o.facts) for o in T.ok]
    for r in T.r.recs("panic"):
        bad = None
        for x in r.args:
            if x.op == "not" and x.a[0].op == "lt" and x.a[0].a[0].op == "elem" and x.a[0].a[0].a[0] is ps[1] and isint(x.a[0].a[1]) and x.a[0].a[1].a[0] >= 128:
                bad = "an out-of-range cell index"
            elif x.op == "not" and x.a[0].op == "eq" and all(y.op == "len" and y.a[0] in ps for y in x.a[0].a):
                bad = "inputs of unequal lengths"
        if bad and P05.verdict(r, set(ps), oks) == "violated":
            rep.bad("malformed-is-input-error", "%s:panic" % w, "%s makes the call panic instead of being answered with an input error: %s" % (bad, brief(r.args[0])))


def kind_of(o):
    return "/".join(o.names)


def verdict(T, o, g, ps):
    if F.holds(o.facts, g) is True:
        return True
    if o.lossy:
        return None
    if all(T.contains_opaque_check(o, p) for p in ps):
        return None
    if any(x.op in ("phi", "lphi") for x in atoms(o.facts)):
        return None
    return False


def malformed(fs, ps):
    for p in ps[1:]:
        if F.holds(fs, Eq(tlen(ps[0]), tlen(p))) is False:
            return True
    for x in fs:
        if x.op == "all" and x.a[2].op == "not":
            continue
        if x.op == "not" and x.a[0].op == "lt" and x.a[0].a[0].op == "elem" and x.a[0].a[0].a[0] is ps[1] and isint(x.a[0].a[1]) and x.a[0].a[1].a[0] >= 128:
            return True
        if x.op == "not" and x.a[0].op == "and" and all(y.op == "eq" for y in x.a[0].a):
            return True
    return None
