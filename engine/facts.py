"""Must-facts: entailment and joins, by syntactic closure and difference bounds."""
from terms import *
from terms import _raw


def join(sets):
    r = sets[0]
    for s in sets[1:]:
        r = r & s
    if len(sets) > 1:
        # a fact f on one side and g with g => f on the other are kept when cheap
        extra = set()
        for i, s in enumerate(sets[:6]):
            for x in s - r:
                if x.op in ("lt", "not", "eq") and len(sets) <= 6 and len(s - r) <= 12:
                    if all(x in o or holds(o, x) is True for j, o in enumerate(sets) if j != i):
                        extra.add(x)
        if extra:
            r = r | frozenset(extra)
        c = clause([x - r for x in sets])
        if c is not None and c.op == "not":
            r = r | {c}
    return r


def clause(left):
    """the disjunction of what is special to each side, when each comes down to one fact"""
    if len(left) > 6 or any(not l or len(l) > 8 for l in left):
        return None
    left = [set(l) for l in left]
    changed = True
    while changed:
        changed = False
        for i, l in enumerate(left):
            if len(l) == 1:
                n = Not(next(iter(l)))
                for j, m in enumerate(left):
                    if j != i and n in m and len(m) > 1:
                        m.discard(n)
                        changed = True
    if any(len(l) != 1 for l in left):
        return None
    xs = [next(iter(l)) for l in left]
    if any(idxs(x) for x in xs):
        return None
    return Or(*xs)


def idxs(t):
    return [x for x in subterms(t) if x.op in ("lphi", "phi")]


def lost(sets, r):
    """did the join forget a fact of some side that the result does not account for?"""
    return any(x - r and not any(c.op == "not" and c.a[0].op == "and" and any(Not(y) in c.a[0].a for y in x - r) for c in r) for x in sets)


def ineqs(t, pos=True):
    """linear forms L with L <= 0 implied by t (integers)"""
    if t.op == "lt":
        return [add(sub(t.a[0], t.a[1]), Int(1))]
    if t.op == "not" and t.a[0].op == "lt":
        return [sub(t.a[0].a[1], t.a[0].a[0])]
    if t.op == "eq":
        d = sub(t.a[0], t.a[1])
        return [d, scale(d, -1)]
    return []


def intlike(t):
    return t.op in INTY or t.op in ("elem", "field", "vfield", "app", "param", "trunc", "phi", "lphi", "lin")


NONNEG = ("len", "idx", "bv", "div", "rem", "min", "max", "ssub", "sumlen")


def nonpos(l):
    """L <= 0 obviously (all terms unsigned)?"""
    c, m = lin_parts(l)
    return c <= 0 and all(v <= 0 for k, v in m.items())


def axioms(terms):
    out = []
    for k in terms:
        if k.op == "min":
            for x in k.a:
                out.append(sub(k, x))
        elif k.op == "ssub":
            out.append(sub(k, k.a[0]))
            out.append(sub(sub(k.a[0], k.a[1]), k))
        elif k.op == "div" and isint(k.a[1]):
            d = k.a[1].a[0]
            out.append(sub(scale(k, d), k.a[0]))
            out.append(sub(sub(k.a[0], scale(k, d)), Int(d - 1)))
        elif k.op == "rem":
            out.append(add(sub(k, k.a[1]), Int(1)))
        elif k.op == "app" and k.a[0] == "bitrev" and isint(k.a[2]):
            out.append(sub(k, Int((1 << k.a[2].a[0]) - 1)))
        elif k.op == "max":
            for x in k.a:
                out.append(sub(x, k))
    return out


def prove_le0(l, hyps, depth=3):
    """l <= 0 from hypotheses h <= 0"""
    if nonpos(l):
        return True
    if depth == 0:
        return False
    c, m = lin_parts(l)
    pos = [k for k, v in m.items() if v > 0]
    if not pos:
        # c > 0: cancel a negative term against a lower bound of it
        for k, v in m.items():
            for h in hyps:
                hv = lin_parts(h)[1].get(k)
                if hv and hv < 0 and v % hv == 0 and prove_le0(sub(l, scale(h, v // hv)), hyps, depth - 1):
                    return True
                if hv and hv < v and hv % v == 0 and prove_le0(sub(scale(l, hv // v), h), hyps, depth - 1):
                    return True
        return False
    # eliminate one positive term using a hypothesis where it has a positive coefficient
    k = pos[0]
    for h in hyps:
        hc, hm = lin_parts(h)
        hv = hm.get(k)
        if hv and hv > 0:
            v = m[k]
            if v % hv == 0:
                if prove_le0(sub(l, scale(h, v // hv)), hyps, depth - 1):
                    return True
    return False


def hyps_for(fs, l):
    """inequalities reachable from the terms of l"""
    terms = set(lin_parts(l)[1])
    allq = []
    for f in fs:
        if f.op in ("lt", "eq") or (f.op == "not" and f.a[0].op == "lt"):
            allq += [q for q in ineqs(f)]
    sel, changed, rounds = [], True, 0
    seen = set()
    done = set()
    while changed and rounds < 4:
        changed = False
        rounds += 1
        for q in axioms(terms):
            if q not in seen:
                seen.add(q)
                sel.append(q)
                terms |= set(lin_parts(q)[1])
                changed = True
        for q in forall_bounds(fs, terms, done):
            if q not in seen:
                seen.add(q)
                sel.append(q)
                terms |= set(lin_parts(q)[1])
                changed = True
        for q in allq:
            if q not in seen and any(k in terms for k in lin_parts(q)[1]):
                seen.add(q)
                sel.append(q)
                terms |= set(lin_parts(q)[1])
                changed = True
    return sel


def forall_bounds(fs, terms, done):
    """bounds of caller-supplied elements, instantiated from quantified facts"""
    out = []
    for e in [k for k in terms if k.op == "elem" and k.a[0].op == "param" and k not in done]:
        done.add(e)
        for f in fs:
            if f.op != "all":
                continue
            n, lvl, body = f.a
            bv = _raw("bv", lvl)
            g = elem(e.a[0], bv)
            for x in (body.a if body.op == "and" else (body,)):
                if ((x.op == "lt" and g in x.a) or (x.op == "not" and x.a[0].op == "lt" and g in x.a[0].a)) and \
                        (any(h.op == "lt" and h.a[0] is e.a[1] and (h.a[1] is n or (h.a[1].op == "min" and n in h.a[1].a)) for h in fs) or (isint(e.a[1]) and le0(fs, add(sub(e.a[1], n), Int(1)), 0))):
                    out += ineqs(subst(x, {bv: e.a[1]}))
    return out


def le0(fs, l, depth=2):
    if nonpos(l):
        return True
    if prove_le0(l, hyps_for(fs, l)):
        return True
    if depth:
        for k, v in lin_parts(l)[1].items():
            if (k.op == "min" and v < 0) or (k.op == "max" and v > 0):
                # one of the arguments is the value: prove it for each
                return all(le0(fs, add(sub(l, scale(k, v)), scale(x, v)), depth - 1) for x in k.a)
    return False


def match(pat, t, bv, b):
    """pattern match with bv as the only variable; b: {} or {'j': term}"""
    if pat is bv:
        if "j" in b:
            return b["j"] is t
        b["j"] = t
        return True
    if pat is t and not contains(pat, bv):
        return True
    if not contains(pat, bv):
        return pat is t
    if pat.op == "lin" or t.op == "lin":
        c, m = lin_parts(pat)
        v = m.get(bv)
        if v in (1, -1) and not any(contains(k, bv) for k in m if k is not bv):
            j = scale(sub(t, sub(pat, scale(bv, v))), v)
            if "j" in b:
                return b["j"] is j
            b["j"] = j
            return True
    if pat.op != t.op or len(pat.a) != len(t.a):
        return False
    for x, y in zip(pat.a, t.a):
        if isinstance(x, T):
            if not isinstance(y, T) or not match(x, y, bv, b):
                return False
        elif x != y:
            return False
    return True


def instances(fs, t):
    """is t an instance of a universally quantified fact?"""
    for f in fs:
        if f.op == "all":
            n, lvl, body = f.a
            bv = _raw("bv", lvl)
            for x in (body.a if body.op == "and" else (body,)):
                b = {}
                if match(x, t, bv, b):
                    j = b.get("j")
                    if j is None:
                        if le0(fs, sub(Int(1), n)):
                            return True
                    elif le0(fs, add(sub(j, n), Int(1))):
                        return True
    return False


def holds(fs, t, depth=0):
    """True / False / None"""
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t in fs:
        return True
    nt = Not(t)
    if nt in fs:
        return False
    if t.op == "and":
        rs = [holds(fs, x) for x in t.a]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if t.op == "not" and t.a[0].op == "and":
        r = holds(fs, t.a[0])
        return None if r is None else not r
    core = t.a[0] if t.op == "not" else t
    if core.op == "lt":
        l = add(sub(core.a[0], core.a[1]), Int(1))        # core: l <= 0
        if le0(fs, l):
            return t is core
        g = sub(core.a[1], core.a[0])                     # not core: g <= 0
        if le0(fs, g):
            return t is not core
    elif core.op == "eq":
        a, b = core.a
        if intlike(a) and intlike(b):
            d = sub(a, b)
            if le0(fs, add(d, Int(1))) or le0(fs, add(scale(d, -1), Int(1))):
                return t is not core
            if le0(fs, d) and le0(fs, scale(d, -1)):
                return t is core
    elif core.op == "isv":
        for f in fs:
            if f.op == "isv" and f.a[0] is core.a[0] and f.a[1] != core.a[1]:
                return t is not core
    elif core.op == "all" and t is core and depth < 2:
        n, lvl, body = core.a
        # prove the body for a fresh index
        k = _raw("idx", "fresh%d" % core.id)
        inst = subst(body, {_raw("bv", lvl): k})
        if holds(fs | {Lt(k, n)}, inst, depth + 1) is True:
            return True
        return None
    if depth < 3:
        if instances(fs, t):
            return True
        if instances(fs, nt):
            return False
    return None
