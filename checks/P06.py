from api import *
from terms import _raw
from P04 import verdict

CONFIGS = ["multi"]
THOROUGH_CONFIGS = ["multi", "single"]
RULE = ("every success outcome of recovery entails: as many indices as cells; every index below 128; all indices distinct; at least 64 and at most 128 cells. "
        "Every error outcome of the decoding or later stages entails the same, so a malformed request never gets that far")
EXPLAIN = "Abstract interpretation of the recovery entry point; linear-arithmetic and forall entailment over the outcome's path facts; distinctness is recognised as len(indices) = len(set(indices))."


def run(rep, tier):
    for config in (CONFIGS if tier == "quick" else THOROUGH_CONFIGS):
        check(rep, config)


def distinct(T, o, p):
    for x in o.facts:
        if x.op == "eq":
            for a, b in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                if b.op == "len" and b.a[0].op == "app" and b.a[0].a[0] == "set":
                    s = b.a[0].a[1]
                    if s is p and (a is tlen(p) or F.holds(o.facts, Eq(a, tlen(p))) is True):
                        return True
    # a success reached although the indices were found not to be distinct
    if o.kind == "ok" and any(x.op == "not" and is_unique(x.a[0], p, fs) for fs in (o.paths or []) for x in fs):
        return False
    # some other test over the indices' contents that has an error exit
    for e in T.err:
        for x in e.facts - o.facts:
            core = x.a[0] if x.op == "not" else x
            if core.op == "lt" and core.a[0].op == "elem" and core.a[0].a[0] is p and isint(core.a[1]):
                continue
            inner = core.a[2] if core.op == "all" else core
            if p in content(x) and not crypto(x) and not order_only(inner, p):
                if is_unique(core, p, e.facts) and bypassed(o, core, e):
                    continue
                if set_of_less(x, p) or neighbours_only(x, p):
                    return False
                if e.names[-1:] and "RSError" in e.names or any(n in ("ReedSolomon",) for n in e.names):
                    continue
                return None
    return False


def is_unique(core, p, fs):
    """len(set(p)) = len(p)"""
    if core.op != "eq":
        return False
    for a, b in ((core.a[0], core.a[1]), (core.a[1], core.a[0])):
        if b.op == "len" and b.a[0].op == "app" and b.a[0].a[0] == "set" and b.a[0].a[1] is p:
            return a is tlen(p) or F.holds(fs, Eq(a, tlen(p))) is True
    return False


def bypassed(o, core, e):
    """the success o does not come from passing the distinctness test that e failed: its facts contradict
    those under which the test is made, or leave the test's outcome open"""
    if any(F.holds(o.facts, Not(x)) is True for x in e.facts if x is not Not(core)):
        return True
    return any(x.op == "not" and x.a[0].op == "and" and Not(core) in x.a[0].a and len(x.a[0].a) > 1 for x in o.facts)


def order_only(x, p):
    """a test of single elements against constants"""
    return x.op == "lt" and (isint(x.a[1]) or isint(x.a[0])) and not any(y.op in ("fold", "lphi", "phi") for y in subterms(x, False)) and sum(1 for y in subterms(x) if y.op == "elem") <= 1


def set_of_less(x, p):
    """distinctness test over something other than the indices themselves (part of them, or coarsened)"""
    for y in subterms(x, False):
        if y.op == "app" and y.a[0] == "set":
            s = y.a[1]
            if s.op in ("slice",) and s.a[0] is p:
                return True
            if s.op == "gen" and s.a[2].op in ("div", "rem", "trunc"):
                return True
            if s.op == "gen" and s.a[2].op == "agg":
                # entries are told apart by more than their index
                fs = [z for z in s.a[2].a if isinstance(z, T)]
                me = [z for z in fs if z.op == "elem" and z.a[0] is p]
                if me and any(z not in me and content(z) - {p} for z in fs):
                    return True
    return False


def neighbours_only(x, p):
    """an (in)equality of two entries of the list as given, a fixed distance apart"""
    eqs = [y for y in subterms(x) if y.op == "eq" and all(z.op == "elem" and z.a[0] is p for z in y.a)]
    if not eqs or any(y.op in ("fold", "lphi", "phi") or (y.op == "app") for y in subterms(x)):
        return False
    return all(isint(sub(y.a[0].a[1], y.a[1].a[1])) for y in eqs)


def crypto(x):
    return any(y.op == "app" and y.a[0] in ("mul", "finv", "fr_dec_be", "msm") for y in subterms(x))


def check(rep, config):
    T = Table(config, "recover")
    w = "%s[%s]" % (T.where, config)
    idx, cells = T.p
    rep.count("outcomes", len(T.outs))
    late = [o for o in T.err if any(x.op == "isv" and x.a[0].op == "app" and x.a[0].a[0] == "fr_dec_be" for x in atoms(o.facts))]
    for o in T.ok + late:
        wh = w if o.kind == "ok" else "%s:before %s" % (w, o.names[-1] if o.names else "?")
        rep.judge("equal-lengths", wh, verdict(T, o, Eq(tlen(idx), tlen(cells)), (idx, cells)), "continues with different numbers of indices and cells")
        rep.judge("index-range", wh, verdict(T, o, forall(idx, lambda e: Lt(e, Int(128))), (idx,)), "continues without every index being below 128")
        rep.judge("at-least-half", wh, verdict(T, o, Not(Lt(tlen(idx), Int(64))), (idx,)), "continues with fewer than 64 cells")
        d = distinct(T, o, idx)
        rep.judge("distinct", wh, d, "continues without the indices being distinct")
        g = Lt(tlen(idx), Int(129))
        v = verdict(T, o, g, (idx,))
        if v is not True and d is True and F.holds(o.facts, forall(idx, lambda e: Lt(e, Int(128)))) is True:
            v = True          # distinct values below 128 are at most 128
        rep.judge("at-most-all", wh, v, "continues with more than 128 cells")
    if not T.ok:
        rep.bad("has-success", w, "recovery can no longer succeed")
    # a well-formed request is not refused by validation: exact thresholds
    for o in T.err:
        if o in late:
            continue
        r = justified(o, idx, cells)
        if r is None:
            rep.und("refusal-justified", "%s:%s" % (w, o.names[-1] if o.names else "?"))
        else:
            rep.judge("refusal-justified", "%s:%s" % (w, o.names[-1] if o.names else "?"), r, "a well-formed request can be refused: %s" % sorted(brief(x, 60) for x in o.facts))


def justified(o, idx, cells):
    """the refusal's condition implies the request is malformed"""
    fs = o.facts
    if F.holds(fs, Eq(tlen(idx), tlen(cells))) is False:
        return True
    if F.holds(fs, Lt(tlen(idx), Int(64))) is True or F.holds(fs, Lt(tlen(idx), Int(129))) is False or F.holds(fs, Lt(tlen(cells), Int(64))) is True or F.holds(fs, Lt(tlen(cells), Int(129))) is False:
        return True
    for x in fs:
        if x.op == "not" and x.a[0].op == "lt" and x.a[0].a[0].op == "elem" and x.a[0].a[0].a[0] is idx and isint(x.a[0].a[1]):
            return x.a[0].a[1].a[0] >= 128
        if x.op == "not" and x.a[0].op == "eq" and any(y.op == "app" and y.a[0] == "set" for y in subterms(x)):
            return True
    if any(opaque_atom(x) or any(y.op == "app" for y in subterms(x)) for x in atoms(fs)):
        return None
    lens = [x for x in fs if all(y.op in ("lt", "not", "eq", "len", "int", "lin", "param") for y in subterms(x))]
    if len(lens) == len(fs):
        return False
    return None
