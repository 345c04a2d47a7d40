"""Hash-consed symbolic values.

A term denotes the value of an expression as a function of the analysed
entry point's parameters.  Constructors normalise, so that two pieces of code
computing the same thing by different means usually get the same term.
Binders (gen, flat, all, ...) bind ('bv', n) where n is the height of the body.
"""
import sys, math
sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "a", "id", "h", "_deps", "sig")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
_n = [0]
# sig: a Bloom filter of the variables a term mentions, to prune substitutions
SIGOPS = {"idx": 3, "bv": 7, "lphi": 11, "phi": 13, "self": 17, "param": 19}


def _raw(op, *a):
    key = (op,) + tuple(x.id if isinstance(x, T) else ("#", x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _n[0] += 1
        t.id = _n[0]
        h = sig = 0
        for x in a:
            if isinstance(x, T):
                if x.h > h:
                    h = x.h
                sig |= x.sig
        if op in SIGOPS:
            sig |= 1 << (((a[0] if isinstance(a[0], int) else t.id) * SIGOPS[op]) % 1021)
        t.sig = sig
        if op == "bv":
            h = max(h, a[0] + 1)
        t.h = h
        t._deps = None
        _tab[key] = t
    return t


LEN = {}          # term -> int: lengths known from array types
PHI = {}          # (op, uid, location) of a phi -> list of alternative terms (filled late)
PHIBASE = {}      # (op, uid, location) -> the term as created


def setphi(t, vals):
    """t (phi|lphi, uid, location, *enclosing loop indices) is one of vals"""
    PHI[(t.op, t.a[0], t.a[1])] = vals
    PHIBASE[(t.op, t.a[0], t.a[1])] = t


def phi_alts(t):
    return PHI.get((t.op, t.a[0], t.a[1]), ())


def plen(t):
    """length of a loop-carried sequence, where it is a function of the loop index"""
    r = PLEN.get(t)
    if r is None:
        b = PLENBASE.get((t.a[0], t.a[1]))
        if b is not None and b in PLEN and len(b.a) == len(t.a):
            r = subst(PLEN[b], {x: y for x, y in zip(b.a[2:], t.a[2:])})
    return r


# --- atoms -------------------------------------------------------------------
def Int(v):
    return _raw("int", int(v))


def Bool(b):
    return _raw("bool", 1 if b else 0)


TRUE, FALSE = Bool(True), Bool(False)


def Str(s):
    return _raw("str", s)


def Param(n):
    return _raw("param", n)


def Idx(uid):
    return _raw("idx", uid)


UNIT = _raw("agg", "tuple", 0)


def isint(t):
    return t.op == "int"


# --- linear arithmetic ---------------------------------------------------------
def lin_parts(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        c = t.a[0]
        return c, {t.a[i]: t.a[i + 1] for i in range(1, len(t.a), 2)}
    return 0, {t: 1}


def mklin(c, m):
    m = {k: v for k, v in m.items() if v}
    if not m:
        return Int(c)
    if c == 0 and len(m) == 1:
        k, v = next(iter(m.items()))
        if v == 1:
            return k
    l = [c]
    for k in sorted(m, key=lambda x: x.id):
        l += [k, m[k]]
    return _raw("lin", *l)


def add(a, b):
    c, m = lin_parts(a)
    d, n = lin_parts(b)
    m = dict(m)
    for k, v in n.items():
        m[k] = m.get(k, 0) + v
    return mklin(c + d, m)


def scale(a, s):
    c, m = lin_parts(a)
    return mklin(c * s, {k: v * s for k, v in m.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if isint(a):
        return scale(b, a.a[0])
    if isint(b):
        return scale(a, b.a[0])
    # distribute over linear forms so that products normalise
    ca, ma = lin_parts(a)
    cb, mb = lin_parts(b)
    if (ca or len(ma) != 1) or (cb or len(mb) != 1):
        r = Int(ca * cb)
        for k, v in ma.items():
            r = add(r, scale(k, v * cb))
        for k, v in mb.items():
            r = add(r, scale(k, v * ca))
        for k, v in ma.items():
            for l, w in mb.items():
                r = add(r, scale(mul(k, l), v * w))
        return r
    (ka, va), = ma.items()
    (kb, vb), = mb.items()
    if va != 1 or vb != 1:
        return scale(mul(ka, kb), va * vb)
    fs = (list(ka.a) if ka.op == "prod" else [ka]) + (list(kb.a) if kb.op == "prod" else [kb])
    return _raw("prod", *sorted(fs, key=lambda x: x.id))


def div(a, b):
    if a.op == "app" and a.a[0] == "opShr" and b is Int(2):
        return App("opShr", a.a[1], add(a.a[2], Int(1)))
    if isint(b) and b.a[0] == 1:
        return a
    if isint(a) and isint(b) and b.a[0]:
        return Int(a.a[0] // b.a[0])
    if isint(b) and b.a[0] > 0:
        c, m = lin_parts(a)
        if c % b.a[0] == 0 and all(v % b.a[0] == 0 for v in m.values()):
            return mklin(c // b.a[0], {k: v // b.a[0] for k, v in m.items()})
    return _raw("div", a, b)


def rem(a, b):
    if isint(a) and isint(b) and b.a[0]:
        return Int(a.a[0] % b.a[0])
    if isint(b) and b.a[0] > 0:
        c, m = lin_parts(a)
        if c % b.a[0] == 0 and all(v % b.a[0] == 0 for v in m.values()):
            return Int(0)
    return _raw("rem", a, b)


def tmin(*ts):
    out = []
    for t in ts:
        for x in (t.a if t.op == "min" else (t,)):
            if x not in out:
                out.append(x)
    ints = [x.a[0] for x in out if isint(x)]
    out = [x for x in out if not isint(x)]
    if ints:
        out.append(Int(min(ints)))
    if len(out) == 1:
        return out[0]
    return _raw("min", *sorted(out, key=lambda x: x.id))


def tmax(a, b):
    if a is b:
        return a
    if isint(a) and isint(b):
        return Int(max(a.a[0], b.a[0]))
    return _raw("max", *sorted([a, b], key=lambda x: x.id))


def ssub(a, b):
    d = sub(a, b)
    if isint(d):
        return Int(max(0, d.a[0]))
    if isint(b) and b.a[0] == 0:
        return a
    return _raw("ssub", a, b)


# --- booleans --------------------------------------------------------------------
def Not(t):
    if t.op == "bool":
        return Bool(not t.a[0])
    if t.op == "not":
        return t.a[0]
    return _raw("not", t)


def And(*ts):
    out = []
    for t in ts:
        for x in (t.a if t.op == "and" else (t,)):
            if x is FALSE:
                return FALSE
            if x is not TRUE and x not in out:
                out.append(x)
    for x in out:
        if Not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _raw("and", *sorted(out, key=lambda x: x.id))


def Or(*ts):
    return Not(And(*[Not(t) for t in ts]))


INTY = ("int", "lin", "prod", "len", "div", "rem", "min", "max", "ssub", "idx", "bv")


def Eq(a, b):
    if a is b:
        return TRUE
    if (a.op == "mref" and b is Int(0)) or (b.op == "mref" and a is Int(0)):
        return FALSE
    if a.op in ("bool",) or b.op in ("bool",):
        k, o = (a, b) if a.op == "bool" else (b, a)
        return o if k is TRUE else Not(o)
    if a.op in INTY or b.op in INTY:
        c, m = lin_parts(sub(a, b))
        if not m:
            return Bool(c == 0)
        if c == 0 or True:
            pos = {k: v for k, v in m.items() if v > 0}
            neg = {k: -v for k, v in m.items() if v < 0}
            x, y = mklin(0, pos), mklin(0, neg)
            if c > 0:
                x = add(x, Int(c))
            else:
                y = add(y, Int(-c))
            if x is y:
                return TRUE
            if isint(y) and y.a[0] == 0 and len(pos) == 1 and c == 0:
                x = next(iter(pos))
            if x.id > y.id:
                x, y = y, x
            return _raw("eq", x, y)
    if a.op in ("str",) and b.op == "str":
        return Bool(a.a[0] == b.a[0])
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a) == len(b.a):
            return And(*[Eq(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.id > b.id:
        a, b = b, a
    return _raw("eq", a, b)


def Lt(a, b):
    """a < b over the integers, in a canonical linear form."""
    c, m = lin_parts(sub(a, b))          # c + m < 0
    if not m:
        return Bool(c < 0)
    g = 0
    for v in m.values():
        g = math.gcd(g, v)
    if g > 1:
        c = -((-c + g - 1) // g)         # g*S + c < 0  <=>  S - ceil(-c/g) < 0
        m = {k: v // g for k, v in m.items()}
    if all(v < 0 for v in m.values()) and c >= 0 and not (c == 0 and len(m) == 1 and next(iter(m)).op == "len"):
        return Not(Lt(mklin(0, {k: -v for k, v in m.items()}), Int(c + 1)))
    pos = {k: v for k, v in m.items() if v > 0}
    neg = {k: -v for k, v in m.items() if v < 0}
    x, y = mklin(0, pos), mklin(0, neg)
    if c > 0:
        x = add(x, Int(c))
    elif c < 0:
        y = add(y, Int(-c))
    if isint(x) and not neg:
        pass
    if not pos and c >= 0 and x.op == "int" and x.a[0] == 0 and y.op == "len":
        # 0 < len(X)  <=>  len(X) != 0
        return Not(Eq(y, Int(0)))
    if not neg and y.op == "int" and y.a[0] == 1 and x.op == "len":
        return Eq(x, Int(0))
    if not neg and y.op == "int" and y.a[0] == 0:
        return FALSE                      # unsigned
    return _raw("lt", x, y)


def Le(a, b):
    return Not(Lt(b, a))


def IsV(x, v, nv=2):
    """x is of variant v (of nv)."""
    if x.op == "agg":
        return Bool(x.a[1] == v)
    if nv == 2 and v == 0:
        return Not(_raw("isv", x, 1))
    return _raw("isv", x, v)


# --- aggregates -------------------------------------------------------------------
def Agg(key, variant, *fs):
    # eta: an aggregate rebuilt from all the fields of one value is that value
    return _raw("agg", key, variant, *fs)


def Tup(*fs):
    return Agg("tuple", 0, *fs)


OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"


def Some(x):
    return Agg(OPT, 1, x)


NONE = Agg(OPT, 0)


def Ok(x):
    return Agg(RES, 0, x)


def Err(x):
    return Agg(RES, 1, x)


def field(x, i, v=None):
    if x.op == "agg":
        if 2 + i < len(x.a):
            return x.a[2 + i]
        return App("badfield", x)
    if x.op == "upd":
        if x.a[1] == i and x.a[2] == v:
            return x.a[3]
        return field(x.a[0], i, v)
    if v is None:
        return _raw("field", x, i)
    return _raw("vfield", x, v, i)


def setfield(x, i, val, v=None):
    if x.op == "agg" and 2 + i < len(x.a):
        a = list(x.a)
        a[2 + i] = val
        return _raw("agg", *a)
    return _raw("upd", x, i, v, val)


def Arr(*es):
    return _raw("arr", *es)


EMPTY = Arr()


def Rep(v, n):
    if isint(n) and n.a[0] <= 4:
        return Arr(*[v] * n.a[0])
    return _raw("rep", v, n)


def _tz(a):
    return Int((a & -a).bit_length() - 1) if a > 0 else None


def _np2(a):
    x = 1
    while x < a:
        x *= 2
    return Int(x)


CONSTFOLD = {
    "tz": _tz,
    "next_pow2": _np2,
    "is_pow2": lambda a: Bool(a > 0 and a & (a - 1) == 0),
    "opShl": lambda a, b: Int(a << b) if b < 64 else None,
    "opShr": lambda a, b: Int(a >> b),
    "opBitAnd": lambda a, b: Int(a & b),
    "opBitOr": lambda a, b: Int(a | b),
    "opBitXor": lambda a, b: Int(a ^ b),
    "pow": lambda a, b: Int(a ** b) if b < 4096 else None,
}


def App(name, *a):
    if name == "opBitAnd" and len(a) == 2 and (a[0].op == "mref" or a[1].op == "mref" or Int(0) in a):
        return Int(0)          # references are aligned; 0 & x
    if name == "mul" and len(a) == 2:
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            if x.op == "app" and x.a[0] == "geom" and x.a[2] is y:
                return _raw("app", "geom", x.a[1], x.a[2], add(x.a[3], Int(1)))
    if name in CONSTFOLD and all(isint(x) for x in a):
        try:
            r = CONSTFOLD[name](*[x.a[0] for x in a])
        except (TypeError, ValueError):
            r = None
        if r is not None:
            return r
    return _raw("app", name, *a)


# --- sequences ---------------------------------------------------------------------
UNIT0 = Int(0)


def tlen(x):
    if x in LEN:
        return Int(LEN[x])
    o = x.op
    if o == "arr":
        return Int(len(x.a))
    if o == "str":
        return Int(len(x.a[0].encode()))
    if o == "rep":
        return x.a[1]
    if o == "gen":
        return x.a[0]
    if o == "slice":
        return sub(x.a[2], x.a[1])
    if o == "cat":
        r = Int(0)
        for p in x.a:
            r = add(r, tlen(p))
        return r
    if o == "flat":
        n, b = x.a[0], x.a[2]
        l = tlen(b)
        if not has_bv(l, x.a[1]):
            return mul(n, l)
        return _raw("sumlen", n, x.a[1], l)
    if o in ("store", "ovl", "splice", "perm"):
        return tlen(x.a[0])
    if o == "fgen" and x.a[3] is not UNIT0:
        # how many pass the filter does not depend on what is kept of them
        n, lvl, c = x.a[:3]
        z = _raw("idx", -1)
        l2, (c2,) = binder(z, subst(c, {_raw("bv", lvl): z}))
        return _raw("len", _raw("fgen", n, l2, c2, UNIT0))
    if o == "app" and x.a[0] == "resize":
        return x.a[2]
    if o == "app" and x.a[0] in ("perm", "splice"):
        return tlen(x.a[1])
    if o == "lphi":
        r = plen(x)
        if r is not None:
            return r
    if o == "fold":
        r = FOLDLEN.get(x)
        if r is None:
            d = None
            for v in x.a[3].a[1:]:
                e = sub(tlen(v), _raw("len", _raw("self", x.a[4])))
                if not isint(e) or (d is not None and d is not e):
                    d = None
                    break
                d = e
            r = add(tlen(x.a[2]), mul(x.a[0], d)) if d is not None else _raw("len", x)
            FOLDLEN[x] = r
        return r
    return _raw("len", x)


# loop-carried sequences whose length after k iterations is known
PLEN = {}
PLENBASE = {}     # (uid, location) -> the loop-carried term a length was recorded for
FOLDLEN = {}


def elem(x, j):
    o = x.op
    if o == "arr":
        if isint(j):
            if 0 <= j.a[0] < len(x.a):
                return x.a[j.a[0]]
        elif len(set(x.a)) == 1:
            return x.a[0]
    elif o == "str" and isint(j):
        b = x.a[0].encode()
        if 0 <= j.a[0] < len(b):
            return Int(b[j.a[0]])
    elif o == "rep":
        return x.a[0]
    elif o == "gen":
        return subst(x.a[2], {_raw("bv", x.a[1]): j})
    elif o == "slice":
        return elem(x.a[0], add(x.a[1], j))
    elif o == "store":
        d = sub(j, x.a[1])
        if isint(d):
            return x.a[2] if d.a[0] == 0 else elem(x.a[0], j)
    elif o == "ovl":
        d = sub(j, x.a[1])
        if isint(d) and d.a[0] >= 0:
            return elem(x.a[0], j)
    elif o == "cat":
        off = Int(0)
        for p in x.a:
            l = tlen(p)
            d = sub(j, off)
            if isint(d) and isint(l):
                if 0 <= d.a[0] < l.a[0]:
                    return elem(p, d)
            elif isint(d) and d.a[0] < 0:
                break
            elif not isint(l) or not isint(d):
                break
            off = add(off, l)
    elif o == "flat":
        l = tlen(x.a[2])
        if isint(l) and l.a[0] == 1:
            return elem(subst(x.a[2], {_raw("bv", x.a[1]): j}), Int(0))
    r = _raw("elem", x, j)
    if x in ELEN:
        LEN[r] = ELEN[x]
    return r


# vectors of fixed-size arrays: the size of each element
ELEN = {}


def store(x, j, v):
    if x.op == "ovl" and sub(j, x.a[1]).op == "int" and sub(j, x.a[1]).a[0] == 0:
        b = subst(x.a[3], {_raw("bv", x.a[2]): j})
        if b is v:
            return ovl(x.a[0], add(x.a[1], Int(1)), x.a[2], x.a[3])
    if x.op == "arr" and isint(j) and 0 <= j.a[0] < len(x.a):
        a = list(x.a)
        a[j.a[0]] = v
        return Arr(*a)
    if elem(x, j) is v:
        return x
    if x.op == "store" and x.a[1] is j:
        return store(x.a[0], j, v)
    return _raw("store", x, j, v)


def ovl(x, n, lvl, body):
    """x with its first n elements replaced by body."""
    if isint(n) and n.a[0] == 0:
        return x
    if tlen(x) is n:
        return gen_raw(n, lvl, body)
    return _raw("ovl", x, n, lvl, body)


def tslice(x, a, b):
    if isint(a) and a.a[0] == 0 and tlen(x) is b:
        return x
    if x.op == "slice":
        return tslice(x.a[0], add(x.a[1], a), add(x.a[1], b))
    if isint(sub(b, a)) and sub(b, a).a[0] == 0:
        return EMPTY
    if x.op == "gen":
        n = sub(b, a)
        lvl = x.a[1]
        return gen_raw(n, lvl, subst(x.a[2], {_raw("bv", lvl): add(_raw("bv", lvl), a)}))
    if x.op == "rep":
        return Rep(x.a[0], sub(b, a))
    if x.op == "arr" and isint(a) and isint(b):
        return Arr(*x.a[a.a[0]:b.a[0]])
    return _raw("slice", x, a, b)


def gen_raw(n, lvl, body):
    """[body(0), ..., body(n-1)], body over bv(lvl)."""
    if isint(n) and n.a[0] == 0:
        return EMPTY
    bv = _raw("bv", lvl)
    if not has_bv(body, lvl):
        return Rep(body, n)
    # renormalise the level
    h = body.h
    if body.op == "elem" and body.a[1] is bv and not has_bv(body.a[0], lvl) and tlen(body.a[0]) is n:
        return body.a[0]
    if body.op == "elem" and not has_bv(body.a[0], lvl):
        off = sub(body.a[1], bv)
        if not has_bv(off, lvl):
            return tslice_o(body.a[0], off, add(off, n))
    return _raw("gen", n, lvl, body)


def tslice_o(x, a, b):
    if isint(a) and a.a[0] == 0 and tlen(x) is b:
        return x
    return _raw("slice", x, a, b)


def binder(idx, *bodies):
    """Binds the iteration symbol idx in bodies; returns (level, bodies')."""
    lvl = 0
    for b in bodies:
        lvl = max(lvl, b.h)
    bv = _raw("bv", lvl)
    return lvl, [subst(b, {idx: bv}) for b in bodies]


def Gen(n, idx, body):
    lvl, (b,) = binder(idx, body)
    return gen_raw(n, lvl, b)


def Flat(n, idx, body):
    if body.op == "arr" and len(body.a) == 1:
        return Gen(n, idx, body.a[0])
    lvl, (b,) = binder(idx, body)
    return flat_raw(n, lvl, b)


def flat_raw(n, lvl, body):
    if isint(n) and n.a[0] == 0:
        return EMPTY
    if body.op == "arr" and len(body.a) == 1:
        return gen_raw(n, lvl, body.a[0])
    if body is EMPTY:
        return EMPTY
    # consecutive chunks of one sequence
    return _raw("flat", n, lvl, body)


def FGen(n, idx, cond, body):
    """Elements body(k) for the k < n with cond(k), in order."""
    if cond is TRUE:
        return Gen(n, idx, body)
    if cond is FALSE:
        return EMPTY
    lvl, (c, b) = binder(idx, cond, body)
    return _raw("fgen", n, lvl, c, b)


def All(n, idx, body):
    if body.op == "and":
        return And(*[All(n, idx, x) for x in body.a])
    if body is TRUE:
        return TRUE
    lvl, (b,) = binder(idx, body)
    return all_raw(n, lvl, b)


def all_raw(n, lvl, body):
    if body is TRUE or (isint(n) and n.a[0] == 0):
        return TRUE
    if isint(n) and n.a[0] <= 4:
        return And(*[subst(body, {_raw("bv", lvl): Int(i)}) for i in range(n.a[0])])
    return _raw("all", n, lvl, body)


def Cat(*ps):
    out = []
    for p in ps:
        for q in (p.a if p.op == "cat" else (p,)):
            if q is EMPTY:
                continue
            if q.op == "str" and q.a[0] == "":
                continue
            if q.op == "arr" and out and out[-1].op == "arr":
                out[-1] = Arr(*(out[-1].a + q.a))
                continue
            out.append(q)
    # gen(k, b) ++ [b(k)] = gen(k+1, b)
    i = 0
    while i + 1 < len(out):
        g, e = out[i], out[i + 1]
        if g.op == "gen" and e.op == "arr":
            es = list(e.a)
            while es and subst(g.a[2], {_raw("bv", g.a[1]): g.a[0]}) is es[0]:
                g = gen_raw(add(g.a[0], Int(1)), g.a[1], g.a[2])
                es.pop(0)
                if g.op != "gen":
                    break
            out[i:i + 2] = [g] + ([Arr(*es)] if es else [])
            if es:
                i += 1
            continue
        if g.op == "slice" and e.op == "slice" and g.a[0] is e.a[0] and g.a[2] is e.a[1]:
            out[i:i + 2] = [tslice(g.a[0], g.a[1], e.a[2])]
            continue
        i += 1
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return _raw("cat", *out)


# --- traversal ------------------------------------------------------------------------
_sub_memo = {}


def has_bv(t, lvl, memo=None):
    return contains(t, _raw("bv", lvl))


def contains(t, x, memo=None):
    if t is x:
        return True
    if x.sig & ~t.sig:
        return False
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = False
    for y in t.a:
        if isinstance(y, T) and contains(y, x, memo):
            r = True
            break
    memo[t] = r
    return r


def any_sub(t, pred, memo=None):
    """Does some subterm (phi alternatives included) satisfy pred?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
        if x.op in ("phi", "lphi"):
            st.extend(phi_alts(x))
    return False


def subterms(t, through_phi=True):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
        if through_phi and x.op in ("phi", "lphi"):
            st.extend(phi_alts(x))


def rebuild(t, a):
    o = t.op
    if o == "lin":
        r = Int(a[0])
        for i in range(1, len(a), 2):
            r = add(r, scale(a[i], a[i + 1]))
        return r
    if o == "prod":
        r = a[0]
        for x in a[1:]:
            r = mul(r, x)
        return r
    f = {
        "div": div, "rem": rem, "min": tmin, "max": tmax, "ssub": ssub, "not": Not, "and": And, "eq": Eq, "lt": Lt,
        "elem": elem, "len": tlen, "slice": tslice, "store": store, "cat": Cat, "gen": gen_raw, "flat": flat_raw,
        "all": all_raw, "rep": Rep, "ovl": ovl, "arr": Arr,
    }.get(o)
    if f:
        return f(*a)
    if o == "app":
        return App(*a)
    if o == "isv":
        x = a[0]
        return Bool(x.a[1] == a[1]) if x.op == "agg" else _raw("isv", *a)
    if o == "field":
        return field(a[0], a[1])
    if o == "vfield":
        return field(a[0], a[2], a[1])
    return _raw(o, *a)


def subst(t, m):
    memo = {}
    sigs = {k.sig for k in m}
    if 0 in sigs:
        sigs = {0}

    def go(x):
        if x in m:
            return m[x]
        xs = ~x.sig
        for g in sigs:
            if not g & xs:
                break
        else:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        ch = False
        a = []
        for y in x.a:
            if isinstance(y, T):
                z = go(y)
                ch = ch or z is not y
                a.append(z)
            else:
                a.append(y)
        r = rebuild(x, a) if ch else x
        if ch and x in LEN and r not in LEN:
            LEN[r] = LEN[x]
        memo[x] = r
        return r
    return go(t)


def params(t):
    """Leaf parameters a term may depend on."""
    return {x for x in subterms(t) if x.op == "param"}


def show(t, d=0):
    if d > 14:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if o == "int":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "str":
        return repr(a[0][:40])
    if o == "param":
        return "$" + str(a[0])
    if o == "idx":
        return "k%s" % a[0]
    if o == "bv":
        return "#%d" % a[0]
    if o == "agg":
        if a[0] == "tuple":
            return "(" + ", ".join(map(s, a[2:])) + ")"
        return "%s@%d{%s}" % (str(a[0]).split("::")[-1], a[1], ", ".join(map(s, a[2:])))
    if o == "lin":
        r = [str(a[0])] if a[0] else []
        for i in range(1, len(a), 2):
            r.append(("%d*" % a[i + 1] if a[i + 1] != 1 else "") + s(a[i]))
        return "(" + "+".join(r) + ")"
    if o == "prod":
        return "*".join(map(s, a))
    if o == "eq":
        return "(%s == %s)" % (s(a[0]), s(a[1]))
    if o == "lt":
        return "(%s < %s)" % (s(a[0]), s(a[1]))
    if o == "not":
        return "!" + s(a[0])
    if o == "elem":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "field":
        return "%s.%d" % (s(a[0]), a[1])
    if o == "vfield":
        return "%s@%d.%d" % (s(a[0]), a[1], a[2])
    if o == "isv":
        return "(%s is v%d)" % (s(a[0]), a[1])
    if o == "all":
        return "ALL #%d<%s: %s" % (a[1], s(a[0]), s(a[2]))
    if o == "gen":
        return "[%s for #%d<%s]" % (s(a[2]), a[1], s(a[0]))
    if o == "flat":
        return "[*%s for #%d<%s]" % (s(a[2]), a[1], s(a[0]))
    if o == "fgen":
        return "[%s for #%d<%s if %s]" % (s(a[3]), a[1], s(a[0]), s(a[2]))
    if o == "arr" and len(a) > 8:
        return "[%d items]" % len(a)
    if o == "arr":
        return "[" + ", ".join(map(s, a)) + "]"
    if o == "cat":
        return " ++ ".join(map(s, a))
    if o == "app":
        return "%s(%s)" % (str(a[0]).split("::")[-1] if "::" in str(a[0]) else a[0], ", ".join(map(s, a[1:])))
    return "%s(%s)" % (o, ", ".join(map(s, a)))
