from api import *
import ffi, re
from ffi import Bound, is_op, SIZE
from terms import _raw
import P21

CONFIGS = ["bind"]
RULE = ("the library call a binding makes receives, in each argument, the whole of the foreign argument of the same role, entry k at position k, and nothing from another argument; it is made "
        "on the context the caller named; the foreign result is built from the library's result: cells from cells, proofs from proofs, entry k at position k, all of them")
EXPLAIN = ("Abstract interpretation of the C, JNI and N-API entry points with the library as an uninterpreted operation: the argument terms of the library call and the terms of the "
           "returned foreign value are decomposed into (source, range, index).")
PASS = {"rawslice", "deref", "get_byte_array_region", "get_object_array_element", "get_array_length", "convert_byte_array", "get_long_array_region", "get_u128", "get_u64", "trunc", "byte_array_from_slice"}


PRJ = ("field", "vfield")


def last(x):
    return str(x).split("::")[-1]


def understood(t):
    return all(x.op not in ("phi", "lphi", "fold", "self", "mref", "upd") and (x.op != "app" or last(x.a[0]) in PASS or last(x.a[0]) == "is_null") for x in subterms(t))


def source_len(lang, b, nm, p):
    """terms that denote the number of entries of the foreign argument"""
    out = [tlen(p)]
    if nm in b.lenpos:
        out += [b.args[b.lenpos[nm]], tlen(App("rawslice", p, b.args[b.lenpos[nm]]))]
    return out


def is_len_of(t, lang, b, nm, p, facts):
    if t in source_len(lang, b, nm, p):
        return True
    if t.op in PRJ and t.a[0].op == "app" and last(t.a[0].a[0]) == "get_array_length" and t.a[0].a[2] is p:
        return True
    return any(F.holds(facts, Eq(t, x)) is True for x in source_len(lang, b, nm, p))


def indices_into(t, p):
    """index terms with which entries of p are taken in t"""
    out = set()
    for x in subterms(t):
        if x.op == "elem":
            y = x.a[0]
            while y.op == "app" and last(y.a[0]) in ("rawslice", "deref"):
                y = y.a[1]
            if y is p:
                out.add(x.a[1])
        if x.op == "app" and last(x.a[0]) == "get_object_array_element" and x.a[2] is p:
            out.add(x.a[3])
    return out


def strip_trunc(t):
    while t.op == "trunc" or (t.op == "app" and str(t.a[0]) in ("trunc", "conv")):
        t = next(x for x in t.a if isinstance(x, T))
    return t


def run(rep, tier):
    P21.part(rep, "own-context", "arguments-forwarded", "result-forwarded", "operation-performed", "results-carried")
    for lang, (cr, fns) in ffi.LANGS.items():
        for op in fns:
            for b in ffi.bounds(lang, op):
                one(rep, lang, b)
        options(rep, lang)


NEW = {"c": "eth_kzg_das_context_new", "java": "Java_ethereum_cryptography_LibEthKZG_DASContextNew", "node": "DASContextJs::create"}


def options(rep, lang):
    """the precomputation flag decides, and alone decides, whether tables are asked for"""
    c, f = ffi.entry(lang, NEW[lang])
    r = ffi.run_fn(c, f)
    w = "%s:%s" % (lang, NEW[lang].split("::")[-1])
    made = []
    for s, v in r.outs:
        for m in {x for x in subterms(v) if x.op == "app" and ffi.op_of(str(x.a[0])) == "with_threads"}:
            made.append((m, frozenset(s.facts)))
    if lang == "node":
        counts = {x for m, _ in made for x in subterms(m.a[2]) if x.op == "field"}
        flags = {x for _, fs in made for y in fs for x in subterms(y) if x.op == "field" and x.a[0] in r.args and x not in counts}
    else:
        i = {"c": 0, "java": 2}[lang]
        flags = {r.args[i]}
    if not made or len(flags) > 1:
        rep.und("options-forwarded", w, "the library's constructor was not recognised")
        return
    vs = {m.a[3].a[1] if m.a[3].op == "agg" and "UsePrecomp" in str(m.a[3].a[0]) else None for m, _ in made}
    if None in vs:
        rep.und("options-forwarded", w, "; ".join(brief(m.a[3], 60) for m, _ in made))
        return
    for m, fs in made:
        want = m.a[3].a[1] == 0
        if not flags:
            rep.bad("options-forwarded", w, "the caller's precomputation flag is not looked at")
            continue
        p = next(iter(flags))
        on = Not(Eq(p, Int(0))) if lang == "java" else p
        v = F.holds(fs, on)
        if v is not None:
            rep.judge("options-forwarded", w, v is want, "precomputation is %s although the caller asked for the contrary" % ("on" if want else "off"))
        else:
            rest = fs | {Not(on) if want else on}
            about = [x for x in fs if p in set(subterms(x))]
            clear = all(y.op in ("param", "field", "lin", "int", "eq", "lt", "not", "and", "or", "true", "false") for x in about for y in subterms(x))
            rep.judge("options-forwarded", w, False if clear and F.holds(rest, FALSE) is not True else None, "precomputation is %s whatever the caller's flag says, where %s" % ("on" if want else "off", "; ".join(brief(x, 80) for x in about) or "anything"))


def calls_with_facts(b):
    out = {}
    for o in b.outs:
        for m in b.op_terms(o):
            out.setdefault(m, []).append(o)
    return out


def one(rep, lang, b):
    w = b.where
    roles = ffi.ROLES[b.op]
    rp = {nm: b.args[p] for nm, p in b.pos.items()}
    mine = {nm: {rp[nm]} | ({b.args[b.lenpos[nm]]} if nm in b.lenpos else set()) for nm in rp}
    ctxp = b.args[{"c": 0, "java": 2, "node": 0}[lang]]
    calls = calls_with_facts(b)
    rep.count("library calls analysed", len(calls))
    if not calls:
        rep.bad("calls-library", w, "no path calls the operation")
        return
    for m, outs in calls.items():
        if ffi.op_name(m) != b.op:
            rep.bad("calls-library", w, "calls %s" % ffi.op_name(m))
            continue
        ctx = m.a[1]
        ps = {x for x in subterms(ctx) if x.op == "param"}
        bits = lambda x: x.a[1] if isinstance(x.a[1], int) else (x.a[1].a[0] if isint(x.a[1]) else 64)
        cut = [x for x in subterms(ctx) if x.op == "trunc" and x.a[0] is ctxp and bits(x) < 64]
        if cut:
            rep.bad("on-callers-context", w, "the context handle is cut to %d bits" % bits(cut[0]))
        elif ps == {ctxp}:
            rep.ok("on-callers-context", w)
        else:
            rep.judge("on-callers-context", w, None if any(x.op in ("phi", "lphi") for x in subterms(ctx)) else False, "the operation runs on %s" % brief(ctx))
        facts = frozenset.intersection(*[frozenset(o.facts) for o in outs])
        for i, nm in enumerate(roles):
            arg(rep, lang, b, w, nm, m.a[2 + i], rp, mine, facts, {n: m.a[2 + j] for j, n in enumerate(roles)})
    result(rep, lang, b, w)


PERENTRY = ("commitments", "cell_indices", "cells", "proofs")


def arg(rep, lang, b, w, nm, t, rp, mine, facts, args):
    k = "%s:%s" % (w, nm)
    p = rp[nm]
    used = {x for x in subterms(t) if x.op == "param"}
    foreign = {n for n, s in mine.items() if n != nm and used & s}
    if p not in used:
        if foreign:
            rep.bad("right-argument", k, "the library's %s are taken from the foreign %s" % (nm, "/".join(sorted(foreign))))
        elif t.op == "arr" and not t.a:
            L = b.args[b.lenpos[nm]] if nm in b.lenpos else tlen(p)
            v = F.holds(facts, Eq(L, Int(0)))
            rep.judge("whole-argument", k, True if v is True else None, "an empty list is passed")
        else:
            rep.judge("right-argument", k, False if understood(t) else None, "the library's %s do not come from the foreign argument: %s" % (nm, brief(t)))
        return
    if foreign and understood(t):
        rep.bad("right-argument", k, "depends on the foreign %s as well: %s" % ("/".join(sorted(foreign)), brief(t)))
        return
    rep.ok("right-argument", k)
    u = t
    moved = [x for x in subterms(t) if x.op == "perm" and not (x.a[0].op == "arr" and not x.a[0].a)]
    if moved:
        others = [n for n in args if n != nm and n in PERENTRY]
        same = all(any(y.op == "perm" for y in subterms(args[n])) for n in others)
        rep.judge("same-position", k, None if same and others else False, "the caller's %s are put into another order (%s) while the other arguments keep theirs" % (nm, brief(moved[0], 60)))
        return
    if any(skips(x, p) for x in subterms(t) if x.op == "fold"):
        rep.bad("whole-argument", k, "an entry can be skipped before the entries reach the library: %s" % brief(t, 120))
        return
    if u.op == "gen":
        n, lvl, body = u.a
        bv = _raw("bv", lvl)
        ix = {strip_trunc(x) for x in indices_into(body, p)}
        if ix == {bv}:
            rep.ok("same-position", k)
        elif ix and all(x.op in ("lin", "int", "bv") for x in ix):
            rep.bad("same-position", k, "entry k of the library's %s is entry %s of the caller's" % (nm, "/".join(brief(x, 40) for x in ix)))
        else:
            rep.und("same-position", k, brief(body))
        if is_len_of(n, lang, b, nm, p, facts):
            rep.ok("whole-argument", k)
        elif understood(n):
            rep.bad("whole-argument", k, "%s entries are forwarded instead of all" % brief(n, 80))
        else:
            rep.und("whole-argument", k, brief(n))
        inner(rep, k, nm, body, facts)
    elif u.op == "app" and re.match(r"dedup|retain|skip|step_by|drain", last(u.a[0])) and p in {x for x in subterms(u.a[1]) if x.op == "param"}:
        rep.bad("whole-argument", k, "entries are dropped before they reach the library: %s" % brief(u, 80))
    elif u.op == "fgen":
        rep.judge("whole-argument", k, False if understood(t) else None, "entries are filtered before they reach the library")
    elif nm == "cell_indices":
        # forwarded as one array
        if u.op == "app" and last(u.a[0]) == "rawslice" and u.a[1] is p:
            rep.judge("whole-argument", k, True if is_len_of(u.a[2], lang, b, nm, p, facts) else (False if understood(u.a[2]) else None), "%s entries are forwarded" % brief(u.a[2], 60))
        elif u.op == "app" and last(u.a[0]).endswith("get_long_array_region") and u.a[2] is p:
            n = tlen(u.a[4])
            st0 = isint(u.a[3]) and u.a[3].a[0] == 0
            rep.judge("whole-argument", k, True if st0 and is_len_of(n, lang, b, nm, p, facts) else (False if understood(n) else None), "start %s, %s entries are forwarded" % (brief(u.a[3], 20), brief(n, 60)))
        elif u.op == "slice" and understood(u):
            rep.bad("whole-argument", k, "only %s is forwarded" % brief(u))
        else:
            rep.und("whole-argument", k, brief(u))
    else:
        inner(rep, k, nm, u, facts)


def skips(x, p):
    """a loop that appends the caller's entries to a list, on some iterations not"""
    if not (x.a[3].op == "app" and x.a[3].a[0] == "alts"):
        return False
    me = _raw("self", x.a[4])
    als = [y for y in x.a[3].a if isinstance(y, T)]
    return me in als and any(y is not me and y.op == "cat" and y.a[0] is me and mentions(y, p) for y in als)


def partly(t):
    """a list of which the caller's bytes fill only a part: what was put into it covers less than all of it"""
    if t.op == "splice" and t.a[0].op == "rep" and isint(t.a[0].a[0]) and isint(t.a[1]):
        if t.a[1].a[0] > 0:
            return "bytes 0..%d are not the caller's" % t.a[1].a[0]
        z, n = t.a[2], tlen(t.a[0])
        if z.op == "min" and n in z.a and any(isint(y) for y in z.a):
            return "bytes from %s on are not the caller's" % next(y.a[0] for y in z.a if isint(y))
        if isint(z) and not isint(n):
            return "bytes from %d on are not the caller's" % z.a[0]
    if t.op == "cat" and any(y.op == "rep" and isint(y.a[0]) for y in t.a) and not any(y.op in ("phi", "lphi", "fold", "self") for y in subterms(t)):
        return "the caller's bytes are padded"
    return None


def inner(rep, k, nm, t, facts):
    """one byte string: its first and last byte, and nothing cut"""
    if nm not in SIZE:
        return
    if t.op == "app" and t.a[0] == "rawslice" and isint(t.a[2]):
        rep.judge("whole-entry", k, t.a[2].a[0] == SIZE[nm], "%d bytes are forwarded of %d" % (t.a[2].a[0], SIZE[nm]))
    elif t.op == "slice":
        a, z = t.a[1], t.a[2]
        r = partly(t.a[0])
        if r:
            rep.bad("whole-entry", k, r)
        elif isint(a) and isint(z):
            rep.judge("whole-entry", k, a.a[0] == 0 and z.a[0] == SIZE[nm], "bytes %s..%s are forwarded" % (a.a[0], z.a[0]))
            v = F.holds(facts, Eq(tlen(t.a[0]), Int(SIZE[nm])))
            if v is True:
                rep.ok("length-established", k)
            elif understood(t.a[0]) and not any_sub(t, lambda x: x.op == "bv"):
                rep.bad("length-established", k, "the caller's bytes are cut to %d without their length having been checked" % SIZE[nm])
        else:
            rep.und("whole-entry", k, brief(t))
    else:
        r = partly(t)
        pad = r and t.op == "cat" and any(F.holds(facts, Lt(Int(0), tlen(y))) is True for y in t.a if y.op == "rep")
        rep.judge("whole-entry", k, False if r and (t.op != "cat" or pad) else None, r or brief(t))


COMP = {"compute_cells_and_kzg_proofs": (0, 1), "recover_cells_and_kzg_proofs": (0, 1)}


def comps_of(t):
    """components (0 cells, 1 proofs, None whole) of a library result that a term uses"""
    out = set()
    for x in subterms(t):
        if x.op in PRJ and x.a[0].op in PRJ and is_op(x.a[0].a[0]):
            out.add(x.a[1])
    return out


def result(rep, lang, b, w):
    if lang == "c" or b.op == "verify_cell_kzg_proof_batch":
        return
    for o in b.outs:
        if o.status != "ok":
            continue
        v = o.value
        if b.op == "blob_to_kzg_commitment":
            t = v
            while (t.op in PRJ and t.a[0].op == "app" and last(t.a[0].a[0]) == "byte_array_from_slice"):
                t = t.a[0].a[2]
            good = t.op in PRJ and is_op(t.a[0])
            rep.judge("result-forwarded", w, True if good else (None if not understood_res(v) else False), "the foreign result is %s" % brief(v))
            continue
        parts = None
        if lang == "node" and b.fname.endswith("compute_cells"):
            parts = [(v, None)]
        elif lang == "node" and v.op == "agg" and len(v.a) == 4:
            parts = [(v.a[2], None), (v.a[3], None)]
        elif lang == "java" and v.op in ("app",) + PRJ:
            t = v.a[0] if v.op in PRJ else v
            if t.op == "app" and last(t.a[0]) == "new_object":
                vals = t.a[4] if len(t.a) > 4 else None
                if vals is not None and vals.op == "arr" and len(vals.a) == 2:
                    parts = []
                    for e in vals.a:
                        arr = e.a[2] if e.op == "agg" else e
                        sets = [r for r in b.r.recs("call", "set_object_array_element") if r.args[1] is arr]
                        parts.append((arr, sets))
        if parts is None:
            rep.und("result-forwarded", w, brief(v))
            continue
        for want, (t, sets) in enumerate(parts):
            nm = ("cells", "proofs")[want]
            k = "%s:result %s" % (w, nm)
            if sets is None:
                cs = comps_of(t)
                if cs == {want} and t.op == "app" and re.match(r"dedup|retain|truncate|skip|step_by|drain", last(t.a[0])):
                    rep.bad("result-complete", k, "entries of the library's result are dropped: %s" % brief(t, 80))
                elif cs == {want}:
                    rep.ok("result-forwarded", k)
                    if t.op == "gen":
                        bv = _raw("bv", t.a[1])
                        ix = {x.a[1] for x in subterms(t.a[2]) if x.op == "elem" and comps_of(x.a[0])}
                        rep.judge("result-order", k, True if ix == {bv} else (False if ix and all(x.op in ("bv", "int", "lin") for x in ix) else None), "entry k is the library's entry %s" % sorted(brief(x, 40) for x in ix))
                        if isint(t.a[0]):
                            rep.judge("result-complete", k, t.a[0].a[0] == 128, "%d entries are returned" % t.a[0].a[0])
                elif cs and want not in cs:
                    rep.bad("result-forwarded", k, "the %s returned are the library's %s" % (nm, ("cells", "proofs")[1 - want]))
                else:
                    rep.und("result-forwarded", k, brief(t))
            else:
                if not sets:
                    rep.und("result-forwarded", k, "no stores into the array were recognised")
                for r in sets:
                    cs = comps_of(r.args[3])
                    if cs == {want}:
                        rep.ok("result-forwarded", k)
                        ix = {x.a[1] for x in subterms(r.args[3]) if x.op == "elem" and comps_of(x.a[0])}
                        at = strip_trunc(r.args[2])
                        rep.judge("result-order", k, True if ix == {at} else (False if differs(at, ix) or merges(at) or any(merges(i) for i in ix) or ix and all(x.op in ("idx", "int", "lin") for x in ix | {at}) else None), "slot %s receives the library's entry %s" % (brief(at, 30), sorted(brief(x, 40) for x in ix)))
                    elif cs and want not in cs:
                        rep.bad("result-forwarded", k, "the %s returned are the library's %s" % (nm, ("cells", "proofs")[1 - want]))
                    else:
                        rep.und("result-forwarded", k, brief(r.args[3]))
                n = arr_len(t)
                if n is not None and isint(n):
                    rep.judge("result-complete", k, n.a[0] == 128, "an array of %s slots is returned" % n.a[0])
                elif n is not None and not (n.op == "len" and comps_of(n)) and F.holds(o.facts, Eq(n, Int(128))) is not True:
                    known = all(x.op in ("int", "lin", "mul", "max", "min", "div", "rem", "len", "param") or x.op in PRJ or is_op(x) or (x.op == "app" and last(x.a[0]) in PASS) for x in nest(n))
                    rep.judge("result-complete", k, False if known else None, "an array of %s slots is returned" % brief(n, 60))


def arr_len(t):
    t = t.a[0] if t.op in PRJ else t
    if t.op == "app" and last(t.a[0]) == "new_object_array":
        return strip_trunc(t.a[2])
    return None


def nest(t):
    """the arithmetic of a length, down to the lists it is about"""
    yield t
    if t.op == "len" or is_op(t) or (t.op == "app" and last(t.a[0]) in PASS):
        return
    for x in t.a:
        if isinstance(x, T):
            yield from nest(x)


def merges(t):
    """a function of the loop index that sends two of 0..127 to one place"""
    c = [x.a[0] for x in t.a if isinstance(x, T) and isint(x)]
    k = [x for x in map(strip_trunc, (x for x in t.a if isinstance(x, T))) if x.op in ("idx", "bv")]
    if len(c) != 1 or len(k) != 1:
        return False
    c = c[0]
    if t.op == "app" and t.a[0] == "opBitAnd":
        return c & 127 != 127
    if t.op == "app" and t.a[0] == "opShr" or t.op == "div":
        return c > (1 if t.op == "div" else 0) and t.a[0] is not Int(c)
    if t.op == "rem":
        return c < 128
    if t.op == "min":
        return c < 127
    if t.op == "max":
        return c > 0
    return False


def value(t, k):
    """the value of an index expression when the loop index in it is k, None when it depends on more"""
    if t.op in ("idx", "bv"):
        return k
    if t.op == "int":
        return t.a[0]
    if t.op == "lin":
        c, ts = lin_parts(t)
        vs = [(value(x, k), m) for x, m in ts.items()]
        return None if any(v is None for v, _ in vs) else c + sum(v * m for v, m in vs)
    xs = [value(x, k) for x in t.a if isinstance(x, T)]
    if any(x is None for x in xs) or not xs:
        return None
    if t.op == "trunc":
        return xs[0]
    if len(xs) == 2 and min(xs) >= 0:
        a, b = xs
        n = t.a[0] if t.op == "app" else t.op
        if n in ("div", "rem"):
            return None if b == 0 else (a // b if n == "div" else a % b)
        f = {"min": min, "max": max, "opBitAnd": lambda a, b: a & b, "opBitOr": lambda a, b: a | b, "opBitXor": lambda a, b: a ^ b, "opShl": lambda a, b: a << b, "opShr": lambda a, b: a >> b}.get(n)
        return f(a, b) if f else None
    return None


def differs(at, ix):
    """slot and library entry are different functions of one loop index"""
    if len(ix) != 1:
        return False
    i = next(iter(ix))
    if len({x for t in (at, i) for x in subterms(t) if x.op in ("idx", "bv")}) != 1:
        return False
    vs = [(value(at, k), value(i, k)) for k in range(128)]
    return all(a is not None and b is not None for a, b in vs) and any(a != b for a, b in vs)


def understood_res(v):
    return all(x.op not in ("phi", "lphi", "fold", "self") for x in subterms(v))
