import os
import re
from api import *
from terms import _raw, phi_alts

CONFIGS = ["multi"]
THOROUGH_CONFIGS = ["multi", "single"]
RULE = ("wherever the computation of commitments, cells, proofs, recovery or verdicts branches on a field element or point being zero, one, minus one, "
        "the identity or equal to another, the branch's value equals the general branch's value under that equality; and every success outcome rests on the whole blob")
EXPLAIN = ("Abstract interpretation notes the values each variable can have after a branch together with the conditions of each branch. A branch taken under an "
           "equality is compared with the general one: the equality is substituted in both and both are normalised as polynomials over the ring (points as a module).")

OPS = ("blob", "compute", "recover", "verify")
XN, YN = "G1Affine::x", "G1Affine::y"
R1 = [8589934590, 6378425256633387010, 11064306276430008309, 1739710354780652911]


def run(rep, tier):
    for config in (CONFIGS if tier == "quick" else THOROUGH_CONFIGS):
        check(rep, config)


def ints(t):
    """the integers of a constant aggregate, None when it is not constant"""
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.op == "int":
            out.append(x.a[0])
        elif x.op == "rep":
            if not isint(x.a[1]) or x.a[1].a[0] > 8:
                return None
            st.extend([x.a[0]] * x.a[1].a[0])
        elif x.op in ("agg", "arr"):
            st.extend(y for y in reversed(x.a) if isinstance(y, type(UNIT)))
        else:
            return None
    return out


def ring_const(t):
    """0, 1, -1 for the constants a special case is made of, else None"""
    if t.op == "app":
        if t.a[0] in ("zero", "identity", "Scalar::zero", "default") and len(t.a) == 1:
            return 0
        if t.a[0] in ("one", "Scalar::one") and len(t.a) == 1:
            return 1
        if t.a[0] == "neg":
            v = ring_const(t.a[1])
            return None if v is None else -v
        return None
    if t.op == "agg" and str(t.a[0]).split("::")[-1] in ("Scalar", "blst_fr"):
        v = ints(t)
        if v == [0, 0, 0, 0]:
            return 0
        if v == R1:
            return 1
    return None


def ringlike(t):
    return ring_const(t) is not None or t.op in ("elem", "field", "vfield", "bv", "param", "lphi") or (t.op == "app" and t.a[0] in ("add", "sub", "mul", "neg", "finv", "fpow", "geom", "double", "square", "fdouble", "fsquare", "Fp::mul3", XN, YN, "fr_dec_be", "fr_dec_le", "g1_dec", "msm"))


def norm(t, depth=0):
    """polynomial {sorted atoms: coefficient}"""
    c = ring_const(t)
    if c is not None:
        return {(): c} if c else {}
    if depth < 40 and t.op == "app":
        n, a = t.a[0], t.a[1:]
        if n == "add" and a:
            r = {}
            for y in a:
                r = padd(r, norm(y, depth + 1), 1)
            return r
        if n == "sub" and len(a) == 2:
            return padd(norm(a[0], depth + 1), norm(a[1], depth + 1), -1)
        if n == "neg":
            return padd({}, norm(a[0], depth + 1), -1)
        if n in ("double", "fdouble"):
            return padd(norm(a[0], depth + 1), norm(a[0], depth + 1), 1)
        if n in ("square", "fsquare"):
            return pmul(norm(a[0], depth + 1), norm(a[0], depth + 1))
        if n == "Fp::mul3":
            return pmul({(): 3}, norm(a[0], depth + 1))
        if n == "mul" and a:
            r = {(): 1}
            for y in a:
                r = pmul(r, norm(y, depth + 1))
            return r
        if n == "geom" and isint(a[2]) and a[2].a[0] == 0:
            return norm(a[0], depth + 1)
        if n == "fpow" and isint(a[1]) and 0 <= a[1].a[0] <= 4:
            r = {(): 1}
            for _ in range(a[1].a[0]):
                r = pmul(r, norm(a[0], depth + 1))
            return r
    return {(t,): 1}


def padd(p, q, s):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def pmul(p, q):
    r = {}
    for k, v in p.items():
        for k2, v2 in q.items():
            m = tuple(sorted(k + k2, key=id))
            r[m] = r.get(m, 0) + v * v2
            if not r[m]:
                del r[m]
    return r


def scalar(t):
    while t.op in ("field", "vfield"):
        t = t.a[0]
    return t.op == "app" and t.a[0] in ("fr_dec_be", "fr_dec_le")


def operands(vs):
    """the terms that are added, multiplied or negated in the values, and those that are points taken apart"""
    ops, pts = set(), set()
    for v in vs:
        for x in subterms(v, False):
            if x.op == "app" and x.a[0] in ("add", "mul", "neg", "sub"):
                ops.update(y for y in x.a[1:])
            elif x.op == "app" and x.a[0] in (XN, YN):
                pts.add(x.a[1])
    return ops - pts


def specials(fs, ops=frozenset()):
    """(equalities between ring elements a branch was taken under, the other conditions)"""
    eqs, other = [], []
    for x in fs:
        if x.op == "eq" and all(ringlike(y) for y in x.a) and not all(ring_const(y) is not None for y in x.a) and \
                (any(ring_const(y) is not None for y in x.a) or any(y.op == "app" for y in x.a) or all(scalar(y) for y in x.a) or (all(y.op == "elem" for y in x.a) and any(y in ops for y in x.a))):
            a, b = x.a
            eqs.append((b, a) if ring_const(a) is not None else (a, b))
        elif x.op == "not" and x.a[0].op == "eq" and all(ringlike(y) for y in x.a[0].a):
            pass
        elif x.op == "app" and x.a[0] == "is_identity":
            eqs.append((x.a[1], App("identity")))
        elif x.op == "not" and x.a[0].op == "app" and x.a[0].a[0] == "is_identity":
            pass
        else:
            other.append(x)
    return eqs, frozenset(other)


def parts(v):
    """(base, {index: value}) of a list value; ring elements are themselves"""
    w = {}
    while v.op == "store":
        w.setdefault(v.a[1], v.a[2])
        v = v.a[0]
    if v.op == "cat":
        t = v.a[-1]
        if t.op == "arr":
            return _cat(v.a[:-1]), dict([(("tail", i), x) for i, x in enumerate(t.a)] + list(w.items()))
    return v, w


def _cat(ps):
    return ps[0] if len(ps) == 1 else _raw("cat", *ps)


def pairs(A, G):
    """[(where, special value, general value)]; None when the shapes differ"""
    if ringlike(A) and ringlike(G) and A.op != "lphi" and G.op != "lphi":
        return [("value", A, G)]
    ba, wa = parts(A)
    bg, wg = parts(G)
    if ba is not bg or not (wa or wg):
        return None
    out = []
    for k in list(wa) + [k for k in wg if k not in wa]:
        a, g = wa.get(k), wg.get(k)
        if a is None or g is None:
            if isinstance(k, tuple):
                return None
            old = elem(ba, k)
            a, g = (old if a is None else a), (old if g is None else g)
        out.append((k, a, g))
    return out


def understood(p):
    """atoms that are free to take any value: elements of inputs and of loop-carried lists"""
    def free(t):
        if t.op == "elem":
            return not any(y.op == "phi" for y in subterms(t, False))
        return scalar(t) or t.op in ("param", "bv") or (t.op == "app" and t.a[0] in ("geom", "fr_dec_be", "g1_dec"))
    return all(free(x) for k in p for x in k)


def check(rep, config):
    seen = {}
    nalt = 0
    for op in OPS:
        T = Table(config, op)
        whole(rep, config, op, T)
        affine(rep, config, T)
        for r in T.r.recs("alts"):
            nalt += 1
            ops = operands([v for v, _ in r.extra]) if any(f.op == "eq" for _, c in r.extra for f in c) else ()
            alts = [(v, specials(c, ops)) for v, c in r.extra]
            if not any(e for _, (e, _) in alts):
                continue
            where = "%s[%s]:%s" % (T.where, config, site(r))
            gen = [(v, o) for v, (e, o) in alts if not e]
            for v, (e, o) in alts:
                if not e:
                    continue
                if left_out(v, [g for g, _ in gen]):
                    rep.count("branches leaving out a term (decided by the rule on linear combinations)")
                    continue
                gs = [g for g, go in gen if go <= o] or [g for g, go in gen]
                if len(gs) != 1:
                    seen.setdefault(where, []).append((None, "no single general branch to compare with", e))
                    continue
                seen.setdefault(where, []).append(compare(v, gs[0], e, o))
    rep.count("values noted after branches", nalt)
    for where, rs in sorted(seen.items()):
        if os.environ.get("DBG"):
            for x in rs: print(where[:60], x[0], x[1][:300]) if x[0] is not True else None
        rep.count("special-case branches", len(rs))
        bad = [x for x in rs if x[0] is False]
        und = [x for x in rs if x[0] is None]
        if bad:
            rep.bad("shortcut-exact@" + where, "where %s the value differs from the general one: %s" % (" and ".join("%s = %s" % (brief(a, 60), brief(b, 30)) for a, b in bad[0][2]), bad[0][1]))
        elif und:
            rep.und("shortcut-exact@" + where, und[0][1])
        else:
            rep.ok("shortcut-exact@" + where, "%d special cases equal the general value" % len(rs))


def site(r):
    st = r.stack[-1]
    m = str(st[0] if isinstance(st, tuple) else st)
    names, i = [], 0
    while i < len(m):
        g = re.match(r"(\d+)_?", m[i:])
        if g and g.group(1)[0] != "0":
            n = int(g.group(1))
            w = m[i + g.end():i + g.end() + n]
            if len(w) == n and re.fullmatch(r"[A-Za-z_]\w*", w):
                names.append(w)
                i += g.end() + n
                continue
        if len(names) > 1:
            break
        if not g:
            names = []
        i += max(1, g.end() if g else 1)
    return "::".join(names[1:]) or m[-40:]


def left_out(v, gs):
    """nothing is appended where the general branch appends an entry"""
    return bool(gs) and all(g.op == "cat" and g.a[0] is v for g in gs)


def encoded(t):
    """the bytes of the encoding of a constant, or a constant list of bytes"""
    while t.op == "agg" and len(t.a) == 2 and isinstance(t.a[1], type(UNIT)):
        t = t.a[1]
    if t.op == "app" and len(t.a) == 2 and ring_const(t.a[1]) is not None:
        v = ring_const(t.a[1])
        if t.a[0] == "g1_enc" and v == 0:
            return [0xc0] + [0] * 47
        if t.a[0] == "fr_enc_be" and v in (0, 1):
            return [0] * 31 + [v]
    if t.op == "rep" and isint(t.a[0]) and isint(t.a[1]) and t.a[1].a[0] <= 96:
        return [t.a[0].a[0]] * t.a[1].a[0]
    if t.op == "arr" and t.a and all(isint(x) for x in t.a):
        return [x.a[0] for x in t.a]
    if t.op == "store" and isint(t.a[1]) and isint(t.a[2]):
        b = encoded(t.a[0])
        if b is not None and 0 <= t.a[1].a[0] < len(b):
            b[t.a[1].a[0]] = t.a[2].a[0]
            return b
    return None


def compare(v, g, eqs, other):
    m = {}
    for a, b in eqs:
        if a not in m:
            m[a] = b
    vs, gsb = subst(v, m), subst(g, m)
    ps = pairs(vs, gsb)
    if ps is None:
        return (True, "", eqs) if vs is gsb else (None, "the branches give values of different shapes", eqs)
    res = (True, "", eqs)
    for k, a, b in ps:
        if a is b:
            continue
        ca, cb = encoded(a), encoded(b)
        if ca is not None and cb is not None:
            if ca == cb:
                continue
            return (False, "%s instead of %s" % (brief(a, 90), brief(b, 90)), eqs)
        na, nb = norm(a), norm(b)
        d = padd(na, nb, -1)
        if not d:
            continue
        if understood(d):
            return (False, "%s instead of %s" % (brief(a, 90), brief(b, 90)), eqs)
        res = (None, "the values %s and %s could not be compared" % (brief(a, 60), brief(b, 60)), eqs)
    return res


def whole(rep, config, op, T):
    """every success outcome rests on the whole blob"""
    if op not in ("blob", "compute"):
        return
    blob = T.p[-1]
    for i, o in enumerate(T.ok):
        where = "%s[%s]:%d" % (T.where, config, i)
        c = covers(o.payload, blob, o.facts)
        if c is True:
            rep.ok("whole-blob@" + where, "the result ranges over every byte of the blob")
            continue
        rest = [x for x in o.facts if blob in content(x) and not canonical(x)]
        if c == "none" and not rest:
            rep.ok("whole-blob@" + where, "a constant result, chosen without looking at the blob's contents")
        elif o.lossy or any(y.op in ("phi", "lphi", "self") for x in rest for y in subterms(x)) or c is not False and any(covers(x, blob, o.facts) is not False for x in rest):
            rep.und("whole-blob@" + where, "could not tell which part of the blob the result rests on")
        elif c is None or c is False and any(x.op in ("eq", "all") and any(y.op == "eq" and any(ring_const(z) is not None for z in y.a) for y in subterms(x)) for x in rest):
            # what is left out may be known to be zero here
            rep.und("whole-blob@" + where, "could not tell which part of the blob the result rests on")
        else:
            rep.bad("whole-blob@" + where, "a success outcome %s" % ("whose result covers only part of the blob" if c is False else "with a fixed result is chosen by part of the blob: %s" % brief(rest[0], 120)))


def canonical(x):
    while x.op == "all":
        x = x.a[2]
    return x.op == "isv" and x.a[0].op == "app" and x.a[0].a[0] in ("fr_dec_be", "fr_dec_le")


# --- affine point formulas -----------------------------------------------------
CHORD = "the chord formula is used for two points that may be equal"


def coords(t):
    """the points whose coordinates a field expression is made of"""
    out = []
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] in (XN, YN) and len(x.a) == 2:
            if x.a[1] not in out:
                out.append(x.a[1])
        elif x.op == "app" and x.a[0] in ("add", "sub", "mul", "neg", "fsquare", "fdouble", "Fp::mul3", "square", "double"):
            st.extend(y for y in x.a[1:])
    return out


def atoms_of(p):
    return {x for k in p for x in k}


def same_point(fs, p, q):
    """True/False/None: are two points known equal / known different on the path"""
    if p is q:
        return True
    X = lambda t: App(XN, t)
    Y = lambda t: App(YN, t)
    if Eq(p, q) in fs or (Eq(X(p), X(q)) in fs and Eq(Y(p), Y(q)) in fs):
        return True
    for f in fs:
        if f.op == "not":
            a = f.a[0]
            if a is Eq(p, q) or a is Eq(X(p), X(q)) or (a.op == "and" and all(y in (Eq(X(p), X(q)), Eq(Y(p), Y(q))) for y in a.a)):
                return False
    return None


def touches(fs, p, q):
    return any(any(y is p or y is q for y in subterms(f, False)) and f.op in ("eq", "not", "and", "or") and any(z.op == "eq" for z in subterms(f, False)) for f in fs)


def order(p, q):
    """p, q by position in their list when that can be told"""
    if p.op == q.op == "elem" and p.a[0] is q.a[0]:
        d = sub(p.a[1], q.a[1])
        if isint(d):
            return (p, q) if d.a[0] < 0 else (q, p)
    return None


def affine(rep, config, T):
    """points put together from coordinates satisfy the addition and doubling formulas"""
    res, doubled = {}, set()
    for r in T.r.recs("call"):
        if not str(r.name).endswith("G1Affine::from_raw_unchecked"):
            continue
        where = "%s[%s]:%s" % (T.where, config, site(r))
        v = formula(r.args[0], r.args[1], r.facts)
        res.setdefault(where, []).append(v)
        if v == (True, "tangent"):
            doubled.add(where)
        res[where].append(slope(r.args[0], r.args[1], r.facts))
        rep.count("points assembled from coordinates")
    for r in T.r.recs("alts"):
        ds = [(tail_of(v), c) for v, c in r.extra]
        for t, c in ds:
            if t is None or not coords(t):
                continue
            where = "%s[%s]:%s" % (T.where, config, site(r))
            res.setdefault(where, []).append(denominator(t, c | r.facts, ds))
    for where, rs in sorted(res.items()):
        # equal points are treated apart here; how the paths were told apart was lost where they merged
        rs = [(None, "could not tell whether the two points can be equal here") if x[1] == CHORD and where in doubled else x for x in rs]
        bad = [x for x in rs if x[0] is False]
        und = [x for x in rs if x[0] is None]
        if bad:
            rep.bad("affine-formula@" + where, bad[0][1])
        elif und:
            rep.und("affine-formula@" + where, und[0][1])
        else:
            rep.ok("affine-formula@" + where, "%d point expressions satisfy the curve's formulas for equal and different points" % len(rs))


def tail_of(v):
    if v.op == "cat" and v.a[-1].op == "arr" and len(v.a[-1].a) == 1:
        return v.a[-1].a[0]
    return None


def inverse_atoms(*ps):
    return {x for p in ps for x in atoms_of(p) if not (x.op == "app" and x.a[0] in (XN, YN))}


def formula(x, y, fs):
    if x.op in ("phi", "lphi") or y.op in ("phi", "lphi"):
        return (None, "coordinates merged from several branches")
    px, py = norm(x), norm(y)
    P = coords(x)
    for q in coords(y):
        if q not in P:
            P.append(q)
    inv = inverse_atoms(px, py)
    if not 1 <= len(P) <= 2 or len(inv) != 1:
        if os.environ.get("DBG"):
            print({(a.op, str(a.a[0])[:60], len(a.a)) for a in inv})
        return (None, "not the shape of an addition of two points")
    I = {(next(iter(inv)),): 1}
    if len(P) == 1:
        P = P * 2
    p, q = P
    eq = same_point(fs, p, q)
    if eq is None and Eq(App(XN, p), App(XN, q)) in fs:
        # equal x: the same point or opposite ones, for which no formula in coordinates exists
        eq = True
    X = lambda t: norm(App(XN, t))
    Y = lambda t: norm(App(YN, t))
    neg = lambda a: padd({}, a, -1)

    def out(lam, a, b):
        rx = padd(padd(pmul(lam, lam), X(a), -1), X(b), -1)
        return rx, padd(pmul(lam, padd(X(a), rx, -1)), Y(a), -1)
    if eq is True:
        m = {App(XN, q): App(XN, p), App(YN, q): App(YN, p), q: p}
        sx, sy = norm(subst(x, m)), norm(subst(y, m))
        lam = pmul(pmul({(): 3}, pmul(X(p), X(p))), I)
        if (sx, sy) == out(lam, p, p):
            return (True, "tangent")
        return (False if same_point(fs, p, q) is True else None, "the doubling of a point does not follow the tangent formula")
    lams = [pmul(padd(Y(q), Y(p), -1), I), pmul(padd(Y(p), Y(q), -1), I)]
    ok = any((px, py) == out(l, a, b) for l in lams for a, b in ((p, q), (q, p)))
    if not ok:
        if p is q or not any(px == out(l, p, q)[0] for l in lams) and set(atoms_of(px)) == set():
            return (None, "not the shape of an addition of two points")
        return (False, "the sum of two different points does not follow the chord formula")
    if eq is None:
        if touches(fs, p, q):
            return (None, "could not tell whether the two points can be equal here")
        return (False, CHORD)
    return (True, "")


def slope(x, y, fs):
    """the inverted values a slope is multiplied with: twice y for equal points, the difference of the
    x coordinates, in the order of the numerator's, for different ones"""
    inv = inverse_atoms(norm(x), norm(y))
    P = coords(x)
    for q in coords(y):
        if q not in P:
            P.append(q)
    if len(inv) != 1 or not 1 <= len(P) <= 2:
        return (None, "the slope's denominator was not found")
    ts = []
    for z in subterms(next(iter(inv))):
        t = tail_of(z)
        if t is not None and coords(t):
            ts.append(t)
        elif z.op == "gen" and coords(z.a[2]):
            ts.append(z.a[2])
    if not ts:
        return (None, "the slope's denominator was not found")
    dbl = [t for t in ts if len(coords(t)) == 1]
    dif = [t for t in ts if len(coords(t)) == 2]
    if any(t.op == "phi" for t in ts):
        return (None, "the slope's denominator was not understood")
    eq = len(P) == 1 or same_point(fs, P[0], P[1]) is True or Eq(App(XN, P[0]), App(XN, P[1])) in fs
    if eq:
        return (True, "") if dbl else (False, "the slope of equal points is divided by the difference of their x coordinates, which is zero")
    if not dif:
        return (False, "the slope of different points is not divided by the difference of their x coordinates")
    o = order(*P)
    ds = [sign(t) for t in dif]
    if o is None or any(d is None for d in ds):
        return (None, "the order of the two points could not be told")
    # y = lambda * (..) - ..: the slope's sign shows in the product of lambda and a coordinate x
    lam = next(iter(inv))
    c = norm(y)
    s = None
    for a, b in (o, (o[1], o[0])):
        l = pmul(padd(norm(App(YN, b)), norm(App(YN, a)), -1), {(lam,): 1})
        for f in (a, b):
            rx = padd(padd(pmul(l, l), norm(App(XN, a)), -1), norm(App(XN, b)), -1)
            if c == padd(pmul(l, padd(norm(App(XN, f)), rx, -1)), norm(App(YN, f)), -1):
                s = 1 if a is o[0] else -1
    if s is None:
        return (None, "the slope's numerator was not understood")
    if any(d != s for d in ds):
        return (False, "the slope's numerator and denominator take the two points in opposite orders")
    return (True, "")


def sign(t):
    """1 when the difference is that of the later point less the earlier"""
    o = order(*coords(t))
    if o is None:
        return None
    d = padd(norm(App(XN, o[1])), norm(App(XN, o[0])), -1)
    n = norm(t)
    return 1 if n == d else -1 if n == padd({}, d, -1) else None


def denominator(t, fs, ds):
    """2y where the two points are equal, the difference of the x coordinates elsewhere"""
    P = coords(t)
    n = norm(t)
    if len(P) == 1:
        ys = norm(App("fdouble", App(YN, P[0])))
        same = any(f.op == "eq" and any(a is P[0] for a in f.a) for f in fs)
        if n not in (ys, padd({}, ys, -1)):
            if same and atoms_of(n) <= {App(XN, P[0]), App(YN, P[0])}:
                return (False, "the slope of equal points is divided by %s, not by twice y" % brief(t, 80))
            return (None, "not a slope's denominator")
        if not same:
            return (None, "could not tell that the points are equal here")
        return (True, "")
    if len(P) == 2:
        d = padd(norm(App(XN, P[0])), norm(App(XN, P[1])), -1)
        if n not in (d, padd({}, d, -1)):
            return (None, "not a slope's denominator")
        eq = same_point(fs, P[0], P[1])
        if eq is True:
            return (False, "the slope of equal points is divided by the difference of their x coordinates, which is zero")
        if eq is None and not touches(fs, P[0], P[1]):
            return (False, "the difference of the x coordinates of two points that may be equal is inverted")
        return (True, "") if eq is False else (None, "could not tell whether the two points can be equal here")
    return (None, "not a slope's denominator")
