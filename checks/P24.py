from api import *
import ffi, P12
from ffi import Bound, SIZE
from terms import _raw, all_raw
from P12 import calls_with_facts, last, PASS
import P21

CONFIGS = ["bind"]
RULE = ("on every path of a Java or Node entry point that reaches the library, the length of every byte array of every role (blob, each commitment, cell and proof) is known to equal the size the "
        "library takes; no byte array is cut, padded or skipped to fit; a path that does not reach the library ends in the error channel")
EXPLAIN = "Abstract interpretation of the JNI and N-API entry points; per role, the universally quantified length fact is looked up among the facts of the paths on which the library call was made."


def run(rep, tier):
    P21.part(rep, "errors-propagate", "arguments-forwarded", "operation-performed")
    for lang in ("java", "node"):
        for op, spec in ffi.LANGS[lang][1].items():
            for b in ffi.bounds(lang, op):
                one(rep, b)


def vague(facts, p):
    """is there a fact about p the rule cannot read?"""
    for x in facts:
        if not any(y is p for y in subterms(x)) or (x.op == "not" and x.a[0].op == "isv"):
            continue
        if any(y.op in ("phi", "lphi", "fold", "self") or (y.op == "app" and last(y.a[0]) not in PASS and not ffi.is_op(y)) for y in subterms(x)):
            return True
    return False


def view(t):
    """the bytes of an entry as the foreign side holds them"""
    return not any(x.op in ("cat", "fold", "phi", "lphi", "self", "ovl", "store", "fgen", "gen", "min", "max") for x in subterms(t))


def unfit(t, p, outs):
    """how the entries of a role are changed on the way to the library, when that is plain"""
    for x in subterms(t):
        if t.op == "gen" and x.op == "slice" and x.a[0].op == "flat" and not contains(x.a[0], _raw("bv", t.a[1])) and mentions(x.a[0], p) and contains(x, _raw("bv", t.a[1])):
            f = x.a[0]
            L = tlen(f.a[2])
            if not isint(L) and all(F.holds(o.facts, all_raw(f.a[0], f.a[1], Eq(L, sub(x.a[2], x.a[1])))) is not True for o in outs):
                return "the entries are joined and cut up again, so that bytes of one can end up in another"
        if x.op == "fgen" and mentions(x.a[3], p) and all(F.holds(o.facts, Eq(tlen(x), x.a[0])) is not True for o in outs):
            if not opaque_atom(x.a[2]) or all(y.op == "app" and last(y.a[0]) in PASS or y.op != "app" for y in subterms(x.a[2])):
                return "entries are skipped unless %s" % brief(x.a[2], 80)
        if x.op == "fold" and x.a[3].op == "app" and x.a[3].a[0] == "alts":
            me = _raw("self", x.a[4])
            for al in x.a[3].a[1:]:
                if al is me and any(y is not me and y.op == "cat" and y.a[0] is me and mentions(y, p) for y in x.a[3].a[1:]):
                    return "an entry can be skipped"
                if al.op == "cat" and al.a[0] is me and len(al.a) == 2 and al.a[1].op == "arr" and len(al.a[1].a) == 1:
                    e = al.a[1].a[0]
                    if e.op == "cat" and mentions(e, p) and all(view(y) for y in e.a) and any(isint(tlen(y)) and tlen(y).a[0] > 0 for y in e.a if not mentions(y, p)):
                        return "an entry can be padded: %s" % brief(e, 120)
    return None


def padded(t, p, outs):
    """one entry, lengthened on a path where it was too short"""
    if t.op == "cat" and not any(x.op in ("phi", "lphi", "fold", "self") for x in subterms(t)) and any(mentions(y, p) for y in t.a):
        for y in t.a:
            if y.op in ("rep", "arr") and not (y.op == "rep" and mentions(y.a[0], p)) and any(F.holds(o.facts, Lt(Int(0), tlen(y))) is True for o in outs):
                return "an entry can be padded: %s" % brief(t, 120)
    return None


def one(rep, b):
    w = b.where
    calls = calls_with_facts(b)
    rep.count("entry points", 1)
    for m, outs in calls.items():
        if ffi.op_name(m) != b.op:
            continue
        for i, nm in enumerate(ffi.ROLES[b.op]):
            if nm not in SIZE:
                continue
            k = "%s:%s" % (w, nm)
            t = m.a[2 + i]
            p = b.args[b.pos[nm]]
            n = lvl = None
            body = t
            r = unfit(t, p, outs) or padded(t, p, outs)
            if r:
                rep.bad("entry-unchanged", k, r)
                continue
            if t.op == "gen":
                n, lvl, body = t.a
            elif t.op == "arr" and not t.a:
                continue
            while body.op == "app" and body.a[0] == "deref":
                body = body.a[1]
            if body.op == "slice" and isint(body.a[2]):
                src = body.a[0]
                r = P12.partly(src)
                if r:
                    rep.bad("entry-unchanged", k, r)
                    continue
                goal = Eq(tlen(src), Int(SIZE[nm]))
                if n is not None:
                    goal = all_raw(n, lvl, goal)
                res = [F.holds(o.facts, goal) is True or has(o.facts, goal) for o in outs]
                if all(res):
                    rep.ok("length-checked", k)
                elif any(vague([x for x in o.facts if x.op != "isv"], p) for o in outs):
                    rep.und("length-checked", k, "facts about the argument that the rule cannot read")
                else:
                    rep.bad("length-checked", k, "a byte array of another length than %d reaches the library, cut to size" % SIZE[nm])
            elif any(x.op in ("ovl", "store", "rep", "cat") for x in subterms(body)) and p in {x for x in subterms(body) if x.op == "param"} and not any(x.op in ("phi", "lphi", "fold") for x in subterms(body)) \
                    and not any("get_byte_array_region" in str(x.a[0]) for x in subterms(body) if x.op == "app"):
                goal = Eq(tlen(p if n is None else elem(p, _raw("bv", lvl))), Int(SIZE[nm]))
                if n is not None:
                    goal = all_raw(n, lvl, goal)
                if all(F.holds(o.facts, goal) is True for o in outs):
                    rep.ok("length-checked", k)
                else:
                    rep.und("length-checked", k, brief(body))
            else:
                rep.und("length-checked", k, brief(body))
    for o in b.outs:
        if not b.op_terms(o) and o.status in ("ok", "true", "false"):
            rep.judge("refusal-is-error", w, None if any(x.op in ("phi", "lphi") for x in atoms(o.facts)) else False, "returns %s without having reached the library" % o.status)
        elif not b.op_terms(o) and o.status == "err":
            rep.ok("refusal-is-error", w)


def has(facts, goal):
    return goal in facts
