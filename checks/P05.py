from api import *
from terms import _raw, subst, rebuild, gen_raw

CONFIGS = ["multi"]
THOROUGH_CONFIGS = ["multi", "single"]
RULE = ("no panic site (bounds, slice, division and overflow assertions, unwrap/expect, explicit panics, foreign calls that unwind) reachable from a public operation is "
        "guarded only by conditions a caller decides: lengths, index values and decode outcomes of the operation's inputs")
EXPLAIN = ("Abstract interpretation of the four public operations over constructor-established contexts. A panic site is discharged when its condition is refuted by the "
           "path's facts; it is a violation when its condition and every fact of its path are predicates over the caller's inputs alone; panic sites "
           "whose condition involves loop-carried or merged values the interpreter cannot bound are undecided and listed.")


def caller_term(t, ps):
    """is the value of t fixed by the caller's inputs alone?"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "fgen":
            # a filtered list: its bound, condition and element are
            n, lvl, cond, body = x.a
            z = {_raw("bv", lvl): Int(0)}
            if not all(caller_term(subst(y, z), ps) for y in (n, cond, body)):
                return False
            continue
        if x.op in ("phi", "lphi", "fold", "self", "bv"):
            return False
        if x.op == "param":
            if x not in ps:
                return False
            continue
        if x.op == "app" and x.a[0] == "finv" and x.a[1].op in ("field", "vfield") and x.a[1].a[0].op == "app" and x.a[1].a[0].a[0] == "fr_dec_be":
            # the inverse of a scalar the caller wrote down: zero is the caller's to choose
            st.append(x.a[1].a[0])
            continue
        if x.op == "app" and (x.a[0] in CRYPTO - {"is_identity"} or x.a[0] not in KNOWN_APPS):
            return False
        st.extend(y for y in x.a if isinstance(y, T))
    return True


def idx_of(t):
    return {x for x in subterms(t) if x.op == "idx"}


def bound_ok(x, ps):
    """lt(k, len(param)) | lt(k, const): the loop header fact of an index"""
    return x.op == "lt" and x.a[0].op == "idx" and (isint(x.a[1]) or (x.a[1].op == "len" and x.a[1].a[0].op in ("param",)) or
                                                    (x.a[1].op == "min" and all(y.op == "len" and y.a[0] in ps for y in x.a[1].a)))


def keys(t, ps):
    """what a fact says something about: the length or the contents of an input"""
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "len" and x.a[0] in ps:
            out.add(("len", x.a[0]))
            continue
        if x.op == "all":
            # the bound of the quantifier is not what the fact is about
            st.extend(y for y in x.a[1:] if isinstance(y, T))
            continue
        if x.op == "param" and x in ps:
            out.add(("content", x))
        st.extend(y for y in x.a if isinstance(y, T))
    return out


def verdict(r, ps, oks):
    """'violated' | 'undecided' for one recorded panic"""
    if r.extra:
        return "undecided"            # a join on the way forgot something that may exclude the panic
    core = [x for x in r.args]
    fs = [x for x in r.facts if x not in set(core)]
    call = {x for x in fs if (caller_all(x, ps) if x.op == "all" else caller_term(x, ps))}
    if not core:
        # an explicit panic: its reason is what sets the path apart from every success
        best = min(oks, key=lambda o: len([x for x in fs if x not in o]), default=None)
        if best is None:
            return "undecided"
        core = [x for x in fs if x not in best and not loop_bound(x, ps)]
        fs = [x for x in fs if x not in core]
        if not core:
            return "undecided"
    hard = [c for c in core if not (caller_all(c, ps) if c.op == "all" else caller_term(c, ps))]
    if hard:
        # the arithmetic content of caller-chosen field elements being (non)zero: a degree check, not an invariant
        if all(zero_test(c, ps) for c in hard) and all(x in best_of(r, oks) for x in fs if x not in core and not caller_or_bound(x, ps)):
            return "violated"
        return "undecided"
    # everything else must be known to happen (facts of a success), or be up to the caller
    other = [x for x in fs if x not in call]
    if other and not any(all(x in o for x in other) for o in oks):
        return "undecided"
    ks = set()
    for c in core:
        ks |= keys(c, ps)
    busy = set()
    for x in other:
        busy |= keys(x, ps)
    if not ks - busy or any(k[0] == "content" and k in busy for k in ks):
        return "undecided"            # what the unmodelled facts say about the same input may exclude the panic
    rest = [x for x in fs if x not in core]
    if len({x for c in core for x in subterms(c) if x.op == "fgen"}) > 1 or any(preds(c, ps) & preds(x, ps) for c in core for x in rest):
        return "undecided"            # two tests of the same contents: the first may exclude the second
    for k in set().union(*[idx_of(c) for c in core], *[idx_of(x) for x in call if x.op != "all"]):
        bs = [x for x in fs if x.op == "lt" and x.a[0] is k]
        if not bs or not all(bound_ok(x, ps) for x in bs):
            return "undecided"
    return "violated"


def empty_case(ts, ps):
    """the terms when every list the caller passes is empty"""
    m = {tlen(p): Int(0) for p in ps}
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        a = [go(y) if isinstance(y, T) else y for y in x.a]
        if x.op in ("fgen", "gen", "flat") and isint(a[0]) and a[0].a[0] == 0:
            r = EMPTY
        elif x.op in ("fold",) and isint(a[0]) and a[0].a[0] == 0:
            r = a[2]
        elif x.op == "app" and x.a[0] == "set" and a[1].op == "arr" and not a[1].a:
            r = EMPTY
        else:
            r = rebuild(x, a) if any(y is not z for y, z in zip(a, x.a)) else x
        r = m.get(r, r)
        memo[x] = r
        return r
    return [go(t) for t in ts]


def on_empty(r, ps, oks):
    """the panic certainly happens on a call with empty lists"""
    if not ps or any(not is_list(p) for p in ps):
        return False
    fs = list(dict.fromkeys(list(r.args) + list(r.facts)))
    rs = empty_case(fs, ps)
    if not r.args:
        return False
    for x, y in zip(fs, rs):
        if y is TRUE:
            continue
        if y is FALSE or x in r.args or content(x) & ps or any(z.op == "len" and z.a[0] in ps for z in subterms(x)):
            return False
        if not all(x in o for o in oks):
            return False
    return True


def choose(ts, m):
    """the terms under a choice of some of their subterms"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = m.get(x)
            if r is None:
                a = [go(y) if isinstance(y, T) else y for y in x.a]
                r = rebuild(x, a) if any(y is not z for y, z in zip(a, x.a)) else x
                r = m.get(r, r)
            memo[x] = r
        return r
    return [go(t) for t in ts]


def core_of(r, oks):
    if r.args:
        return list(r.args)
    best = best_of(r, oks)
    return [x for x in r.facts if x not in best]


def on_full(r, ps, oks):
    """the panic certainly happens when every one of the 128 cells is given, so that none is missing"""
    core = core_of(r, oks)
    miss = {x for t in core for x in subterms(t) if x.op == "fgen" and isint(x.a[0]) and x.a[0].a[0] == 128 and x.a[2].op == "not" and x.a[2].a[0].op == "app" and x.a[2].a[0].a[0] == "contains"
            and any(y.op == "app" and y.a[0] == "set" and content(y) & ps for y in subterms(x.a[2]))}
    if not miss or not core:
        return False
    m = {tlen(p): Int(128) for p in ps if is_list(p)}
    for t in list(r.facts) + core:
        for x in subterms(t):
            if x.op == "len" and x.a[0].op == "fgen" and any(x.a[0].a[:3] == y.a[:3] for y in miss):
                m[x] = Int(0)
    fs = list(dict.fromkeys(core + list(r.facts)))
    for x, y in zip(fs, choose(fs, m)):
        if y is TRUE:
            continue
        if x in core or y is FALSE or not all(x in o for o in oks):
            return False
    return True


def distinct_entries(r, ps, oks):
    """the panic happens for a list of distinct entries that is long enough"""
    core = core_of(r, oks)
    sel = {}
    for t in core:
        for x in subterms(t):
            if x.op == "fold" and x.a[0].op == "len" and x.a[0].a[0] in ps and x.a[2] is EMPTY and x.a[3].op == "app" and x.a[3].a[0] == "alts" and len(x.a[3].a) == 3:
                me = _raw("self", x.a[4])
                p = x.a[0].a[0]
                other = [y for y in x.a[3].a[1:] if y is not me]
                if len(other) == 1 and other[0].op == "cat" and other[0].a[0] is me and other[0].a[1:] == (Arr(elem(p, _raw("bv", x.a[1]))),):
                    sel[x] = p
    if not sel:
        return False
    m = {x: p for x, p in sel.items()}
    for t in list(core) + list(r.facts):
        for x in subterms(t):
            # the number of each entry among the distinct ones: its own position
            if x.op == "fold" and x.a[2] is EMPTY and x.a[0].op == "len" and x.a[0].a[0] in sel.values() and x.a[3].op == "app" and x.a[3].a[0] == "alts" and len(x.a[3].a) == 3:
                p, me, b = x.a[0].a[0], _raw("self", x.a[4]), _raw("bv", x.a[1])
                vs = [y.a[1].a[0] for y in x.a[3].a[1:] if y.op == "cat" and len(y.a) == 2 and y.a[0] is me and y.a[1].op == "arr" and len(y.a[1].a) == 1]
                got = [v for v in vs if any(z.op == "app" and z.a[0] == "mapget" and z.a[2] is elem(p, b) for z in subterms(v))]
                new = [v for v in vs if v.op == "len" and v.a[0].op == "lphi"]
                if len(got) == 1 and len(new) == 1:
                    m[x] = gen_raw(x.a[0], x.a[1], b)
    fs = list(dict.fromkeys(core + list(r.facts)))
    rs = choose(fs, m)
    rest = frozenset(rs)
    if any(not caller_term(y, ps) for x, y in zip(fs, rs) if x in core):
        return False
    if any(not all(x in o for o in oks) and not (caller_all(y, ps) if y.op == "all" else caller_term(y, ps)) for x, y in zip(fs, rs)):
        return False
    return FALSE not in rest and F.holds(rest, FALSE) is not True


def on_order(r, ps, oks):
    """the panic certainly happens when all 128 cells are given, in ascending or in descending order"""
    core = core_of(r, oks)
    lists = [p for p in ps if is_list(p) and "ind" in str(p.a[0])]
    if not core or len(lists) != 1 or r.extra:
        return False
    p = lists[0]
    fs = list(dict.fromkeys(core + list(r.facts)))
    if not any(x.op == "elem" and x.a[0] is p for t in core for x in subterms(t)):
        return False
    for turn in (lambda k: k, lambda k: sub(Int(127), k)):
        m = {tlen(q): Int(128) for q in ps if is_list(q)}
        for t in fs:
            for x in subterms(t):
                if x.op == "elem" and x.a[0] is p:
                    m[x] = turn(x.a[1])
        rs = choose(fs, m)
        bound = frozenset(y for y in rs if y.op == "lt" and y.a[0].op == "idx" and isint(y.a[1]) and y.a[1].a[0] > 0)
        for x, y in zip(fs, rs):
            if y is TRUE or y in bound or F.holds(bound, y) is True:
                continue
            if x in core or F.holds(bound, y) is False or not all(x in o for o in oks):
                break
        else:
            return True
    return False


def index_like(x):
    return x.op in ("int", "lin", "bv", "len", "min", "max", "div", "rem") or x.op == "app" and x.a[0] in ("bitrev", "opBitAnd", "opShl", "opShr")


ZERO = ("zero", "default", "identity", "ZERO")


def zeroish(t, me=frozenset(), d=0):
    """zero, or a list of zeros, when every field element the caller gives is zero"""
    go = lambda x: zeroish(x, me, d + 1)
    if d > 60:
        return False
    if t in me:
        return True
    if t.op == "agg" and "Scalar" in str(t.a[0]):
        return all(y.a[0] == 0 for y in subterms(t) if isint(y))
    if t.op in ("field", "vfield"):
        x = t.a[0]
        return x.op == "app" and x.a[0] == "fr_dec_be" or x.op != "app" and go(x)
    if t.op == "elem" or t.op in ("slice", "perm", "flat"):
        return any(isinstance(x, T) for x in t.a) and go(t.a[2] if t.op == "flat" else t.a[0])
    if t.op == "gen":
        return go(t.a[2])
    if t.op == "fgen":
        return go(t.a[3])
    if t.op == "rep":
        return go(t.a[0])
    if t.op in ("cat", "arr"):
        return all(go(x) for x in t.a if isinstance(x, T))
    if t.op in ("splice", "ovl"):
        return all(go(x) for x in t.a if isinstance(x, T) and x.op not in ("int", "lin", "bv", "mul_", "len") and not index_like(x))
    if t.op == "store":
        return go(t.a[0]) and go(t.a[2])
    if t.op == "fold":
        al = t.a[3]
        als = [y for y in (al.a[1:] if al.op == "app" and al.a[0] == "alts" else (al,)) if isinstance(y, T)]
        zs = [zeroish(y, me | {_raw("self", t.a[4])}, d + 1) for y in als]
        # (the sum without tables is zero: a context without tables will do)
        plain = any(z and y.op == "cat" and y.a[-1].op == "arr" and y.a[-1].a[0].op == "app" and y.a[-1].a[0].a[0] == "msm" for z, y in zip(zs, als))
        return go(t.a[2]) and (all(zs) or plain)
    if t.op == "app":
        n, a = t.a[0], [x for x in t.a[1:] if isinstance(x, T)]
        if str(n).split("::")[-1] in ZERO and not a:
            return True
        if n == "mul":
            return any(go(x) for x in a)
        if n in ("add", "sub", "neg", "double", "sum", "square"):
            return bool(a) and all(go(x) for x in a)
        if n == "msm":
            return go(a[1])
        if n in ("perm", "resize"):
            return go(a[0]) and (n == "perm" or go(a[-1]))
    return False


def on_zero(r, ps, oks):
    """the panic happens when the caller's field elements are all zero"""
    core = core_of(r, oks)
    for c in core:
        while c.op == "all":
            c = c.a[2]
        if not (content(c) & ps):
            return False
        if c.op == "not" and c.a[0].op == "eq":
            # nothing is left once the zeros are dropped
            a, b = c.a[0].a
            n, x = (a, b) if isint(a) else (b, a)
            if isint(n) and n.a[0] > 0 and x.op == "len" and x.a[0].op == "fgen" and x.a[0].a[2].op == "not":
                g = x.a[0].a[2].a[0]
                if g.op == "app" and g.a[0] == "is_identity" and zeroish(g.a[1]) or g.op == "eq" and zeroish(g.a[0]) and zeroish(g.a[1]):
                    continue
            return False
        if c.op != "eq":
            return False
        if not any(zeroish(a) and zeroish(b) for a, b in (c.a,)):
            return False
    return bool(core) and all(x in core or all(x in o for o in oks) or caller_or_bound(x, ps) for x in r.facts)


def is_list(p):
    return not isint(tlen(p))


def zero_test(c, ps):
    """not(0 == f(caller's field elements))"""
    if c.op != "not" or c.a[0].op != "eq":
        return False
    a, b = c.a[0].a
    for z, v in ((a, b), (b, a)):
        if z.op == "agg" and "Scalar" in str(z.a[0]) and not [y for y in subterms(z) if isint(y) and y.a[0]] and v.op == "app" and v.a[0] in ("mul", "add", "sum") and content(v) & ps:
            return bool(apps(v, "fr_dec_be"))
    return False


def best_of(r, oks):
    return min(oks, key=lambda o: len([x for x in r.facts if x not in o]), default=set())


def caller_or_bound(x, ps):
    return loop_bound(x, ps) or (caller_all(x, ps) if x.op == "all" else caller_term(x, ps))


def preds(t, ps):
    """non-arithmetic tests of the contents of an input"""
    out = set()
    for x in subterms(t):
        n = x.op if x.op == "fgen" else x.a[0].a[0] if x.op == "isv" and x.a[0].op == "app" else None
        if n:
            out |= {(n, y) for y in subterms(x) if y in ps}
    return out


def loop_bound(x, ps):
    return x.op == "lt" and x.a[0].op == "idx" and bound_ok(x, ps)


def caller_all(x, ps):
    """a forall over a caller input whose body is a caller predicate"""
    n, lvl, body = x.a
    bv = _raw("bv", lvl)
    from terms import subst
    inst = subst(body, {bv: Int(0)})
    return caller_term(n, ps) and (caller_all(inst, ps) if inst.op == "all" else caller_term(inst, ps))


def site(r):
    from interp import strip_generics
    f = r.stack[-1][0] if isinstance(r.stack[-1], tuple) else r.stack[-1]
    return f


def run(rep, tier):
    for config in (CONFIGS if tier == "quick" else THOROUGH_CONFIGS):
        for which in METHODS:
            T = Table(config, which)
            c = T.c
            w = "%s[%s]" % (T.where, config)
            ps = set(T.p)
            oks = [set(o.facts) for o in T.ok]
            rep.count("asserts and calls evaluated", T.r.I.steps)
            seen = set()
            n = 0
            for r in T.r.recs("panic"):
                f = c.fns.get(site(r))
                from interp import strip_generics
                name = strip_generics(f["name"]) if f else str(site(r))
                v = verdict(r, ps, oks)
                if v != "violated" and not r.extra and (on_empty(r, ps, oks) or on_full(r, ps, oks) or distinct_entries(r, ps, oks) or on_order(r, ps, oks) or on_zero(r, ps, oks)):
                    v = "violated"
                n += 1
                key = "%s:%s:%s" % (w, name.split("::")[-1], r.name.split("::")[-1])
                extra = " and ".join(sorted(brief(x, 120) for x in r.facts if x.op != "all")[:6])
                if v == "violated":
                    rep.bad("no-caller-panic", key, "panics (%s) when %s%s" % (r.name, ("; ".join(brief(x) for x in r.args) + " where ") if r.args else "", extra))
                elif key not in seen:
                    rep.und("no-caller-panic", key, brief(r.args[0]) if r.args else "")
                seen.add(key)
            rep.count("undischarged panic sites", n)
            if not any(o[2] == "violated" and o[1].startswith(w) for o in rep.obs):
                rep.ok("panic-sites-examined", w, "%d undischarged, none decided by the caller alone" % n)
