import re
from api import *
import ffi
from ffi import Bound, run_fn, entry, is_op
from terms import _raw, all_raw
from P12 import last, calls_with_facts, PASS
import P21

CONFIGS = ["bind"]
RULE = ("no number that reaches the library through a binding (cell indices, list lengths, thread counts) passes a narrowing conversion whose operand the path has not bounded, and every accessor "
        "that reports loss (sign or lossless flags of big integers) has its flag established on the path")
EXPLAIN = "Abstract interpretation of the C, JNI and N-API entry points: narrowing casts are kept as terms; each one inside an argument of a library call must be proved value-preserving from the facts of the path."
FLAGS = {"get_u64": (1, {2: TRUE}), "get_u128": (1, {0: FALSE, 2: TRUE}), "get_i64": (0, {1: TRUE}), "get_i128": (0, {1: TRUE})}
CTORS = {"c": ["eth_kzg_das_context_new"], "java": ["Java_ethereum_cryptography_LibEthKZG_DASContextNew"], "node": ["DASContextJs::new", "DASContextJs::create"]}


def run(rep, tier):
    P21.part(rep, "options-forwarded", "arguments-forwarded")
    for lang, (cr, fns) in ffi.LANGS.items():
        for op, spec in fns.items():
            for b in ffi.bounds(lang, op):
                for m, outs in calls_with_facts(b).items():
                    for i, nm in enumerate(ffi.ROLES[op]):
                        look(rep, "%s:%s" % (b.where, nm), m.a[2 + i], [o.facts for o in outs])
        for nm in CTORS[lang]:
            try:
                c, f = entry(lang, nm)
            except Lost:
                if nm.endswith("create") or nm.endswith("new"):
                    continue
                raise
            r = run_fn(c, f)
            rep.count("constructors", 1)
            counts = {y for rec in r.recs("call") if ffi.op_of(rec.name) in ("with_threads", "new") for a in rec.args for x in subterms(a)
                      if x.op == "agg" and str(x.a[0]).endswith("ThreadCount") for y in x.a[2:] if isinstance(y, T) and y.op in ("param", "field", "vfield", "trunc")}
            for rec in r.recs("call"):
                if ffi.op_of(rec.name) in ("with_threads", "new"):
                    for i, a in enumerate(rec.args):
                        look(rep, "%s:%s" % (lang, nm), a, [rec.facts])
                        fixed(rep, "%s:%s" % (lang, nm), a, rec.facts, counts)


def fixed(rep, w, a, facts, counts):
    """a thread count of the binding's own choosing on a path where the caller's was looked at"""
    for x in subterms(a):
        if x.op == "agg" and str(x.a[0]).endswith("ThreadCount"):
            for y in x.a[2:]:
                for z in (phi_alts(y) if y.op == "phi" else [y]):
                    if not isint(z):
                        continue
                    ps = {q for q in counts if any(contains(f, q) for f in facts)}
                    if ps and not any(F.holds(facts, Eq(q, z)) is True for q in ps):
                        rep.bad("number-unchanged", w, "the context is made with %s threads in place of the number the caller asked for" % brief(z, 20))


def binders(t):
    """{level: count} of the gens a term is made of"""
    return {x.a[1]: x.a[0] for x in subterms(t) if x.op in ("gen", "fgen", "all")}


def established(facts, goal, bs):
    if F.holds(facts, goal) is True or goal in facts:
        return True
    for lvl, n in bs.items():
        g = all_raw(n, lvl, goal)
        if g in facts or F.holds(facts, g) is True:
            return True
    return False


ALTER = ("unsigned_abs", "abs", "wrapping_abs", "saturating_abs", "rem_euclid", "opBitAnd", "opShr", "opShl", "opBitXor", "swap_bytes", "reverse_bits", "clamp", "to_be", "rotate_left", "rotate_right")


def numbers(t):
    """the number terms handed over: the elements of the lists and scalars of t"""
    if t.op == "gen":
        return numbers(t.a[2])
    if t.op == "fgen":
        return numbers(t.a[3])
    if t.op == "agg":
        return [y for x in t.a[1:] if isinstance(x, T) for y in numbers(x)]
    if t.op in ("arr", "cat", "flat"):
        return [y for x in t.a if isinstance(x, T) for y in numbers(x)]
    return [t]


def altered(t):
    """numbers of the caller changed by arithmetic on their way to the library"""
    out = []
    for x in numbers(t):
        while x.op == "trunc":
            x = x.a[0]
        if ((x.op == "app" and last(x.a[0]) in ALTER) or x.op in ("min", "max", "rem", "div", "ssub")) and any(y.op == "param" for y in subterms(x)) and not any(y.op in ("phi", "lphi", "fold", "self") for y in subterms(x)):
            out.append(x)
        elif x.op == "lin" and any(y.op == "param" for y in subterms(x)) and not any(y.op in ("phi", "lphi", "fold", "self", "bv") for y in x.a if isinstance(y, T)) and len(lin_parts(x)[1]) == 1 and not any(y.op == "len" for y in lin_parts(x)[1]):
            out.append(x)
    return out


def hidden(a):
    """an atom about an accessor that says more than its flags and value"""
    return any(x.op in ("phi", "lphi", "fold", "self") or (x.op == "app" and last(x.a[0]) not in FLAGS and last(x.a[0]) not in PASS and not is_op(x)) for x in subterms(a)) and \
        not any(is_op(x) for x in subterms(a))


def look(rep, w, t, factss):
    bs = binders(t)
    lossy = [x for x in subterms(t) if x.op == "trunc"]
    for x in altered(t):
        rep.bad("number-unchanged", w, "the library is given %s instead of the caller's number" % brief(x, 100))
    flagged = [(x, last(x.a[0].a[0])) for x in subterms(t) if x.op in ("field", "vfield") and x.a[0].op == "app" and last(x.a[0].a[0]) in FLAGS]
    for x in lossy:
        src, bits = x.a[0], x.a[1]
        lim = Le(src, Int((1 << bits) - 1))
        if all(established(fs, lim, bs) for fs in factss):
            rep.ok("narrowing-bounded", w)
        elif any(y.op in ("phi", "lphi") for y in subterms(src)):
            rep.und("narrowing-bounded", w, brief(x))
        else:
            rep.bad("narrowing-bounded", w, "%s is cut to %d bits without a bound on its value" % (brief(src, 80), bits))
    for x, acc in flagged:
        vi, need = FLAGS[acc]
        idx = x.a[-1]
        if idx != vi:
            continue
        for fi, want in need.items():
            g = field(x.a[0], fi)
            goal = g if want is TRUE else Not(g)
            ok = all(established(fs, goal, bs) for fs in factss)
            if not ok and acc == "get_u64" and fi == 2:
                ok = False
            if ok:
                rep.ok("loss-flag-checked", w, "%s flag %d" % (acc, fi))
            elif any(hidden(a) and any(y is x.a[0] for y in subterms(a)) for fs in factss for a in atoms(fs)):
                rep.und("loss-flag-checked", w, acc)
            else:
                rep.bad("loss-flag-checked", w, "the value of %s is used without its %s flag having been checked" % (acc, "lossless" if want is TRUE else "sign"))
    if not lossy and not flagged:
        rep.ok("no-narrowing", w)
