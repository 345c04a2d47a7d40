from api import *
from interp import Interp
from terms import _raw

CONFIGS = ["bind"]
RULE = ("the linear-combination functions answer with a value exactly when there are as many points as scalars; the value combines point k with scalar k for every k, except that terms whose point is the "
        "identity (or whose scalar is zero) may be left out, on both sides alike; points reaching the multi-exponentiation are known not to be the identity wherever they can come from a caller "
        "or from arithmetic, unless the function's contract puts that on its caller")
EXPLAIN = ("Abstract interpretation of the four linear-combination functions on symbolic lists, and of the public operations; every multi-exponentiation term in their outcomes is decomposed into "
           "(count, filter condition, element) on its point side and its scalar side and the two are compared.")
ASSUME = ["the multi-exponentiation of blst is correct on lists of equal length without identity points"]
BL = "crate_crypto_internal_eth_kzg_bls12_381"
FNS = [("g1_lincomb", False), ("g2_lincomb", False), ("g1_lincomb_unsafe", True), ("g2_lincomb_unsafe", True)]


def side(t):
    """(count, binder, condition or None, element) of a list term"""
    if t.op == "fgen":
        return t.a[0], t.a[1], t.a[2], t.a[3]
    if t.op == "gen":
        return t.a[0], t.a[1], None, t.a[2]
    k = _raw("idx", "k")
    return tlen(t), None, None, None


def norm(t, lvl):
    return t if lvl is None else subst(t, {_raw("bv", lvl): _raw("idx", "k")})


def conjuncts(c):
    if c is None:
        return []
    return [y for x in c.a for y in conjuncts(x)] if c.op == "and" else [c]


def droppable(c, pt, sc):
    """True: what the filter condition removes contributes nothing; False: it removes other terms; None"""
    for x in conjuncts(c):
        l = x.a[0] if x.op == "not" else None
        if l is not None and l.op == "app" and l.a[0] == "is_identity" and l.a[1] is pt:
            continue
        if l is not None and sc is not None and ((l.op == "app" and l.a[0] in ("is_zero", "is_zero_vartime") and l.a[1] is sc) or (l.op == "eq" and sc in l.a)):
            if l.op == "app" or any(zero(y) for y in l.a if y is not sc):
                continue
        if x is TRUE:
            continue
        return None if opaque_atom(x) else False
    return True


def zero(t):
    return bool(isint(t) and t.a[0] == 0) or all(isint(x) and x.a[0] == 0 for x in subterms(t) if x.op == "int") and any(x.op == "int" for x in subterms(t)) and not any(x.op in ("param", "app", "elem") for x in subterms(t))


def identity_filtered(c, pt):
    return any(x.op == "not" and x.a[0].op == "app" and x.a[0].a[0] == "is_identity" and x.a[0].a[1] is pt for x in conjuncts(c))


def run(rep, tier):
    c = crate("bind", BL)
    for name, unsafe in FNS:
        hits = c.find(r"lincomb::%s$" % name)
        if len(hits) != 1:
            if unsafe:
                continue                       # an internal helper: nothing to say when it is gone
            raise Lost("lincomb::%s" % name)
        function(rep, c, hits[0], name, unsafe)
    for op in METHODS:
        for v in ((0,) if tier == "quick" else (0, 1)):
            try:
                T = Table("bind", op, v)
            except IndexError:
                continue
            operation(rep, T)


def pair(P, S):
    """(points, scalars) both as (count, condition, element k), or None"""
    n1, l1, c1, e1 = side(P)
    n2, l2, c2, e2 = side(S)
    k = _raw("idx", "k")
    e1 = norm(e1, l1) if e1 is not None else elem(P, k)
    e2 = norm(e2, l2) if e2 is not None else elem(S, k)
    return n1, (norm(c1, l1) if c1 is not None else None), e1, n2, (norm(c2, l2) if c2 is not None else None), e2


def function(rep, c, f, name, unsafe):
    I = Interp(c)
    args = typed_params(I, f, 0)
    if len(args) != 2:
        raise Lost("lincomb::%s takes %d arguments" % (name, len(args)))
    P, S = args
    same = Eq(tlen(P), tlen(S))
    k = _raw("idx", "k")
    for s, v in I.run(f, args):
        rep.count("outcomes of linear-combination functions")
        if v.op != "agg" or "Option" not in str(v.a[0]):
            rep.und("value-or-none", name, brief(v))
            continue
        eq = F.holds(s.facts, same)
        odd = any(opaque_atom(x) for x in atoms(s.facts))
        if v.a[1] == 0:
            rep.judge("none-only-for-mismatch", name, True if eq is False else (None if odd else False), "None is returned for lists of equal length, on a path with facts %s" % [brief(x, 60) for x in s.facts])
            continue
        if eq is False:
            rep.bad("mismatch-is-none", name, "a value is returned although the lengths differ")
            continue
        rep.judge("mismatch-is-none", name, True if eq is True else (None if odd else False), "a value is returned on a path where the lengths of the two lists may differ")
        m = v.a[2]
        if m.op == "app" and m.a[0] == "identity":
            # only right when nothing is left
            cond = [x.a[1] if isint(x.a[0]) else x.a[0] for x in s.facts if x.op == "eq" and any(isint(y) and y.a[0] == 0 for y in x.a)]
            ok = None
            for l in cond:
                if l.op == "len" and l.a[0].op == "fgen":
                    n, lv, cc, _ = side(l.a[0])
                    d = droppable(norm(cc, lv), elem(P, k), elem(S, k))
                    ok = d if ok is None else (ok or d)
                elif l in (tlen(P), tlen(S)):
                    ok = True
            rep.judge("identity-only-when-nothing-left", name, ok if ok is not None else (None if odd or cond else False), "the identity is returned on a path where terms may be left: %s" % [brief(x, 80) for x in s.facts])
            continue
        if not (m.op == "app" and m.a[0] in ("msm", "msm2")):
            rep.und("combination-understood", name, brief(m))
            continue
        n1, c1, e1, n2, c2, e2 = pair(m.a[1], m.a[2])
        if any(x.op in ("phi", "lphi", "fold", "self") for x in subterms(m)):
            rep.und("combination-understood", name, brief(m))
            continue
        rep.judge("each-point-with-its-scalar", name, e1 is elem(P, k) and e2 is elem(S, k), "term k combines %s with %s" % (brief(e1), brief(e2)))
        rep.judge("filtered-alike", name, c1 is c2, "points are kept where %s, scalars where %s" % (brief(c1) if c1 is not None else "always", brief(c2) if c2 is not None else "always"))
        want = same
        full = all(n in (tlen(P), tlen(S)) or (n.op == "min" and set(n.a) <= {tlen(P), tlen(S)}) for n in (n1, n2))
        rep.judge("all-terms-included", name, True if full else (False if F.holds(s.facts, Lt(n1, tlen(P))) is True or F.holds(s.facts, Lt(n2, tlen(S))) is True or isint(n1) or cut(n1, s.facts, P, S) or cut(n2, s.facts, P, S) else None), "only %s terms are combined" % brief(n1))
        rep.judge("only-empty-terms-dropped", name, droppable(c1, e1, e2), "terms are dropped unless %s" % (brief(c1) if c1 is not None else ""))
        if not unsafe:
            rep.judge("identity-points-filtered", name, identity_filtered(c1, e1), "points that are the identity reach the multi-exponentiation, which then returns the identity")


def cut(n, fs, P, S):
    """n = min(constant, ..) where nothing on the path bounds the lists by that constant"""
    cs = [x.a[0] for x in n.a if isint(x)] if n.op == "min" else []
    return bool(cs) and all(F.holds(fs, Le(tlen(x), Int(cs[0]))) is not True for x in (P, S)) and not any(opaque_atom(x) for x in atoms(fs))


def operation(rep, T):
    ms = set()
    for o in T.outs:
        for t in [o.v] + list(o.facts):
            ms |= set(apps(t, "msm", "msm2"))
    for m in ms:
        rep.count("multi-exponentiations in public operations")
        n1, c1, e1, n2, c2, e2 = pair(m.a[1], m.a[2])
        w = "%s/%s" % (T.where, kind(e1))
        if identity_filtered(c1, e1):
            rep.ok("identity-points-filtered", w)
        else:
            src = {str(p.a[0]) for p in content(e1) if p.op == "param"}
            user = src - {"trusted_setup", "pool"}
            rep.judge("identity-points-filtered", w, False if user and not mentions_filter(m, e1) else None,
                      "points taken from %s reach the multi-exponentiation without identity points being removed; one of them turns the whole sum into the identity" % sorted(user))
        rep.judge("filtered-alike", w, True if c1 is c2 else (False if c1 is not None and c2 is not None and not opaque_atom(c1) and not opaque_atom(c2) and depends_same(c1, c2) else (None if c1 is not None or c2 is not None else True)),
                  "points are kept where %s, scalars where %s" % (brief(c1) if c1 is not None else "always", brief(c2) if c2 is not None else "always"))
        rep.judge("only-empty-terms-dropped", w, droppable(c1, e1, e2), "terms are dropped unless %s" % (brief(c1) if c1 is not None else ""))


def depends_same(a, b):
    return content(a) == content(b)


def mentions_filter(m, e):
    return False


def kind(e):
    src = sorted(str(p.a[0]) for p in content(e) if p.op == "param")
    return "+".join(x for x in src if x != "pool") or "?"
