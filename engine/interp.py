"""Abstract interpretation of monomorphised MIR over symbolic terms.

The state at a program point is an environment (location -> term) plus the set
of branch conditions that must hold there (must-facts).  States are partitioned
by the branches taken (early returns keep their own facts); loops are summarised
once, by closed forms over the iteration index, with the facts established by
every iteration lifted to universally quantified facts when the loop runs to
exhaustion.  Callees with a body are analysed at each call (context sensitive).
Nothing is executed and no constraint solver is used.
"""
import json, os, re
from terms import *
from terms import _raw
import facts as F

CAP = 40


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d["crate"]
        self.types = d["types"]
        self.fns = {f["id"]: f for f in d["fns"]}
        self.exts = {f["id"]: f for f in d["exts"]}
        self.roots = d["roots"]
        self.consts = d["consts"]
        self.statics = d["statics"]
        self.generic = d["generic"]

    def find(self, pat, root=False):
        """Functions whose printed name matches pat (regex, whole tail)."""
        r = re.compile(pat)
        return [f for f in self.fns.values() if r.search(f["name"]) and (not root or f["id"] in self.roots)]


class State:
    __slots__ = ("env", "facts", "lossy", "orig", "over")

    def __init__(self, env, facts, lossy=False, orig=(), over=False):
        self.env, self.facts, self.lossy = env, facts, lossy
        # the conditions of the paths merged into this one since the loop was entered
        self.orig = orig      # conditions of the paths merged into this one
        self.over = over      # some of them were given up

    def fork(self):
        return State(dict(self.env), self.facts, self.lossy, self.orig, self.over)


class Budget(Exception):
    pass


def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


_k2 = {}


def key2(p):
    r = _k2.get(p)
    if r is None:
        segs = [s for s in strip_generics(p).split("::") if s and s != " "]
        if p.startswith("<") and " as " in p:
            # <T as Trait>::method
            m = re.match(r"^<.* as (.*)>::([A-Za-z0-9_]+)$", p)
            if m:
                t = [s for s in strip_generics(m.group(1)).split("::") if s]
                segs = t + [m.group(2)]
        r = "::".join(segs[-2:])
        _k2[p] = r
    return r


# --- control flow graphs ------------------------------------------------------------
def caller_int(v):
    """does a sum or product contain an integer the caller chose (a parameter or an element of one)?"""
    if v.op != "lin":
        return False
    return any(x.op == "param" or (x.op == "elem" and x.a[0].op == "param") for x in lin_parts(v)[1])


class Cfg:
    def __init__(self, f):
        bbs = f["bbs"]
        self.n = len(bbs)
        self.succ = []
        for b in bbs:
            t = b["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "sw":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            else:
                s = []
            self.succ.append(list(dict.fromkeys(s)))
        # reverse post-order of the reachable blocks
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        pos = {b: i for i, b in enumerate(self.rpo)}
        self.pos = pos
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = p, d
                    while x != y:
                        while pos[x] > pos[y]:
                            x = idom[x]
                        while pos[y] > pos[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}            # header -> set of blocks
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if pos[s] <= pos[b]:
                    if dom(s, b):
                        body = self.loops.setdefault(s, {s})
                        w = [b]
                        while w:
                            x = w.pop()
                            if x not in body:
                                body.add(x)
                                w.extend(pred[x])
                    else:
                        self.irreducible = True
        # liveness of locals (address-taken locals are always live)
        nl = len(f["locals"])
        use = [set() for _ in range(self.n)]
        dfn = [set() for _ in range(self.n)]
        self.taken = set()

        def walk(x, b):
            """collect locals read"""
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(e == "*" or (isinstance(e, list) and e and isinstance(e[0], str)) for e in x[1]):
                    if x[0] not in dfn[b]:
                        use[b].add(x[0])
                    for e in x[1]:
                        if isinstance(e, list) and e[0] == "i" and e[1] not in dfn[b]:
                            use[b].add(e[1])
                    return
                for y in x:
                    walk(y, b)
        for b in self.rpo:
            for s in bbs[b]["s"]:
                if s[0] == "=":
                    r = s[2]
                    walk(r, b)
                    if r[0] in ("ref", "addr") and (r[2] or r[0] == "addr"):
                        self.taken.add(r[1][0])
                    if s[1][1]:
                        walk([s[1]], b)
                    else:
                        dfn[b].add(s[1][0])
                else:
                    walk(s[1:], b)
            t = bbs[b]["t"]
            if t[0] == "call":
                walk(t[1], b)
                walk(t[2], b)
                if t[3][1]:
                    walk([t[3]], b)
                else:
                    dfn[b].add(t[3][0])
            elif t[0] == "sw":
                walk(t[1], b)
            elif t[0] == "drop":
                walk([t[1]], b)
            elif t[0] == "assert":
                walk(t[1:4], b)
            elif t[0] == "ret":
                use[b].add(0)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                nw = use[b] | (o - dfn[b])
                if nw != live[b]:
                    live[b] = nw
                    ch = True
        self.live = live


_pf = {}


def is_pairing_fact(x):
    r = _pf.get(x)
    if r is None:
        y = x.a[0] if x.op == "not" else x
        r = (y.op in ("eq", "app")) and any_sub(y, lambda t: t.op == "app" and t.a[0] in ("final_exp", "miller", "pairing"))
        _pf[x] = r
    return r


def isseq(t):
    return t.op in ("arr", "rep", "gen", "cat", "flat", "fgen", "slice", "store", "ovl", "splice", "perm", "fold") or t in LEN or t in PLEN \
        or (t.op == "app" and t.a[0] in ("resize",)) or (t.op == "lphi" and plen(t) is not None)


def mref(loc, *path):
    p = []
    for e in path:
        if p and p[-1].op == "ps":
            a, b = p[-1].a
            if e.op == "pi":
                p[-1] = _raw("pi", add(a, e.a[0]))
                continue
            if e.op == "ps":
                p[-1] = _raw("ps", add(a, e.a[0]), add(a, e.a[1]))
                continue
        p.append(e)
    return _raw("mref", loc, *p)


def pf(i, v=None):
    return _raw("pf", i, v)


def pi(j):
    return _raw("pi", j)


def ps(a, b):
    return _raw("ps", a, b)


def read_path(v, path):
    for e in path:
        if e.op == "pf":
            v = field(v, e.a[0], e.a[1])
        elif e.op == "pi":
            v = elem(v, e.a[0])
        else:
            v = tslice(v, e.a[0], e.a[1])
    return v


def splice(x, a, b, s):
    if isint(a) and a.a[0] == 0 and (tlen(x) is b or tlen(x) is tlen(s)):
        return s
    if x.op == "sovl":
        # x with its first n chunks of length c replaced
        base, n, c, lvl, body = x.a
        if a is mul(n, c) and b is add(a, c) and subst(body, {_raw("bv", lvl): n}) is s:
            return sovl(base, add(n, Int(1)), c, lvl, body)
    return _raw("splice", x, a, b, s)


def sovl(x, n, c, lvl, body):
    if isint(n) and n.a[0] == 0:
        return x
    if tlen(x) is mul(n, c):
        return flat_raw(n, lvl, body)
    return _raw("sovl", x, n, c, lvl, body)


def write_path(v, path, new):
    if not path:
        return new
    e, rest = path[0], path[1:]
    if e.op == "pf":
        return setfield(v, e.a[0], write_path(field(v, e.a[0], e.a[1]), rest, new), e.a[1])
    if e.op == "pi":
        return store(v, e.a[0], write_path(elem(v, e.a[0]), rest, new))
    return splice(v, e.a[0], e.a[1], write_path(tslice(v, e.a[0], e.a[1]), rest, new))


TRANSPARENT = ("Box", "Unique", "NonNull", "ManuallyDrop", "MaybeUninit", "Arc", "Rc", "Pin", "UnsafeCell", "NonZero")


class Rec:
    """A logged event: a call of an external function, a panic, a write through a pointer."""
    __slots__ = ("kind", "name", "args", "facts", "stack", "span", "extra")

    def __init__(self, kind, name, args, facts, stack, span, extra=None):
        self.kind, self.name, self.args, self.facts, self.stack, self.span, self.extra = kind, name, args, facts, stack, span, extra


class Interp:
    def __init__(self, crate, opaque=None, budget=400000):
        self.c = crate
        self.cfgs = {}
        self.log = []
        self.uid = 0
        self.fid = 0
        self.stack = []
        self.opaque = opaque or (lambda f: False)
        self.steps = 0
        self.budget = budget
        self.depth = 0
        self.unknown = {}
        self.notes = set()
        self.fn_seen = {}
        self.sticky_pred = None
        self.cap = CAP
        self.region_ctx = []
        self.loopks = []          # indices of the enclosing loops

    # -- types ------------------------------------------------------------------
    def ty(self, i):
        return self.c.types[i]

    def tyname(self, i):
        t = self.c.types[i]
        return t["path"].split("::")[-1] if t["k"] == "adt" else t["s"]

    def peel(self, i):
        """type id behind references, pointers and boxes"""
        while True:
            t = self.c.types[i]
            if t["k"] in ("ref", "ptr"):
                i = t["e"]
            elif t["k"] == "adt" and t["path"].split("::")[-1] in TRANSPARENT and t["args"] and isinstance(t["args"][0], int):
                i = t["args"][0]
            else:
                return i

    def note_len(self, v, tyid):
        t = self.c.types[self.peel(tyid)]
        if t["k"] == "array" and t["n"] is not None and v.op not in ("arr", "str", "rep", "gen", "cat", "flat", "agg", "mref", "ovl", "store", "slice"):
            LEN.setdefault(v, t["n"])

    def new_uid(self):
        self.uid += 1
        return self.uid

    # -- locations ----------------------------------------------------------------
    def loc(self, fid, n):
        return _raw("loc", fid, n)

    def read_loc(self, st, loc):
        v = st.env.get(loc)
        if v is None:
            if loc.op == "mem":
                v = App("deref", loc.a[0])
            else:
                v = App("uninit", loc)
        return v

    def load(self, st, m):
        """the value behind a reference term"""
        n = 0
        while m.op == "mref":
            m = read_path(self.read_loc(st, m.a[0]), m.a[1:])
            n += 1
            if n > 50:
                break
        return m

    def store_ref(self, st, m, v, span=None):
        """write v through reference m"""
        if m.op != "mref":
            loc, path = _raw("mem", m), ()
        else:
            loc, path = m.a[0], m.a[1:]
        self.write(st, loc, path, v, span)

    def write(self, st, loc, path, v, span=None):
        if loc.op == "mem":
            self.logrec(Rec("write", "write", (loc.a[0], mref(loc, *path), v), st.facts, tuple(self.stack), span))
        st.env[loc] = write_path(self.read_loc(st, loc), tuple(path), v)

    def logrec(self, r):
        self.log.append(r)

    def alternatives(self, kind, var, vs):
        """notes the values a variable can have after different branches, with the conditions of each"""
        if len({v for v, _ in vs}) < 2 or not any(v.op in ("store", "ovl", "app", "cat") for v, _ in vs):
            return
        vs = [(v, o | s.facts) for v, s in vs for o in (s.orig or (s.facts,))]
        common = frozenset.intersection(*[frozenset(f) for _, f in vs])
        self.logrec(Rec("alts", kind, tuple([var] if var is not None else []), common, tuple(self.stack), None, [(v, frozenset(f) - common) for v, f in vs]))

    def resolve(self, st, fid, f, place):
        """place -> (loc, path, type id)"""
        loc, path = self.loc(fid, place[0]), []
        ty = f["locals"][place[0]][0]
        var = None
        for e in place[1]:
            t = self.ty(ty)
            if e == "*":
                cur = read_path(self.read_loc(st, loc), path)
                if t["k"] == "adt":          # Box
                    ty = t["args"][0] if t["args"] else ty
                    continue
                ty = t.get("e", ty)
                if cur.op == "mref":
                    loc, path = cur.a[0], list(cur.a[1:])
                elif t["k"] == "ptr" and cur.op != "pv" and not self.valuelike(cur):
                    loc, path = _raw("mem", cur), []
                elif cur.op == "pv":
                    # pointer to a known value: reads see it, writes are lost
                    self.uid += 1
                    loc, path = _raw("tmp", self.uid), []
                    st.env[loc] = cur.a[0]
                # else: a transparent reference: the value is where it is
                var = None
                continue
            if e[0] == "f":
                nm = t["path"].split("::")[-1] if t["k"] == "adt" else ""
                if nm in TRANSPARENT:
                    ty = e[2]
                    if not (nm == "Box" and e[1] == 1):
                        continue
                path.append(pf(e[1], var))
                ty = e[2]
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                j = self.read_loc(st, self.loc(fid, e[1]))
                path = list(mref(loc, *path, pi(j)).a[1:])
                ty = t.get("e", ty)
            elif e[0] == "ci":
                base = read_path(self.read_loc(st, loc), path)
                j = sub(tlen(base), Int(e[1])) if e[3] else Int(e[1])
                path = list(mref(loc, *path, pi(j)).a[1:])
                ty = t.get("e", ty)
            elif e[0] == "ss":
                base = read_path(self.read_loc(st, loc), path)
                b = sub(tlen(base), Int(e[2])) if e[3] else Int(e[2])
                path = list(mref(loc, *path, ps(Int(e[1]), b)).a[1:])
        return loc, path, ty

    def valuelike(self, v):
        """a pointer-typed term that transparently stands for its pointee"""
        return v.op in ("arr", "agg", "cat", "gen", "flat", "rep", "str", "boxed", "int")

    def read_place(self, st, fid, f, place):
        if not place[1]:
            v = st.env.get(self.loc(fid, place[0]))
            if v is None:
                v = App("uninit", self.loc(fid, place[0]))
            return v
        loc, path, ty = self.resolve(st, fid, f, place)
        v = read_path(self.read_loc(st, loc), path)
        if v.op in ("vfield", "field", "elem", "app"):
            self.note_len(v, ty)
        return v

    # -- constants -------------------------------------------------------------------
    def const(self, tyid, v):
        k = v[0]
        t = self.ty(tyid)
        if k == "i":
            return Int(v[1])
        if k == "b":
            return Bool(v[1])
        if k == "str":
            return Str(v[1])
        if k == "zst":
            if t["k"] == "fndef":
                return _raw("fn", t["fn"], t["path"])
            if t["k"] == "closure":
                return Agg("closure:" + t["fn"], 0)
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "adt":
                return Agg(t["path"], 0)
            return App("zst:" + t["s"])
        if k == "ref":
            e = self.ty(tyid).get("e", tyid)
            return self.const(e, v[1])
        if k == "arr":
            e = t.get("e", tyid)
            return Arr(*[self.const(e, x) for x in v[1]])
        if k == "tup":
            es = t.get("es", [])
            return Tup(*[self.const(e, x) for e, x in zip(es, v[1])])
        if k == "struct" and t["k"] == "adt":
            fs = t["vs"][0]["f"]
            return Agg(t["path"], 0, *[self.const(fd[1], x) for fd, x in zip(fs, v[1])])
        if k == "variant" and t["k"] == "adt":
            return Agg(t["path"], v[1])
        if k == "static":
            return App("static", Str(v[1]))
        if k == "fnptr":
            return _raw("fn", v[1], v[1])
        return App("const:" + t["s"] + ":" + json.dumps(v))

    def operand(self, st, fid, f, o):
        if o[0] in ("c", "m"):
            return self.read_place(st, fid, f, o[1])
        if o[0] == "k":
            v = self.const(o[1], o[2])
            self.note_len(v, o[1])
            return v
        return FALSE      # runtime checks (debug assertions of std)

    def op_ty(self, f, o, st=None, fid=None):
        if o[0] == "k":
            return o[1]
        if o[0] in ("c", "m"):
            return self.place_ty(f, o[1])
        return None

    def place_ty(self, f, place):
        ty = f["locals"][place[0]][0]
        for e in place[1]:
            t = self.ty(ty)
            if e == "*":
                ty = t["args"][0] if t["k"] == "adt" and t["args"] else t.get("e", ty)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = t.get("e", ty)
        return ty

    # -- right-hand sides ----------------------------------------------------------------
    def binop(self, op, a, b, boolean=False):
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        if op == "Eq":
            return Eq(a, b)
        if op == "Ne":
            return Not(Eq(a, b))
        if op == "Lt":
            return Lt(a, b)
        if op == "Le":
            return Le(a, b)
        if op == "Gt":
            return Lt(b, a)
        if op == "Ge":
            return Le(b, a)
        if boolean:
            if op == "BitAnd":
                return And(a, b)
            if op == "BitOr":
                return Or(a, b)
            if op == "BitXor":
                return Or(And(a, Not(b)), And(Not(a), b))
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "Rem":
            return rem(a, b)
        if isint(a) and isint(b):
            x, y = a.a[0], b.a[0]
            if op == "Shl":
                return Int(x << y)
            if op == "Shr":
                return Int(x >> y)
            if op == "BitAnd":
                return Int(x & y)
            if op == "BitOr":
                return Int(x | y)
            if op == "BitXor":
                return Int(x ^ y)
        if op == "Shl" and isint(b):
            return mul(a, Int(1 << b.a[0]))
        if op == "Shr" and isint(b):
            return div(a, Int(1 << b.a[0]))
        if op in ("BitAnd", "BitOr", "BitXor") and a.id > b.id:
            a, b = b, a
        return App("op" + op, a, b)

    def rvalue(self, st, fid, f, r, span):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, f, r[1])
        if k in ("ref", "addr"):
            if r[2]:
                # reborrow of a plain local holding a mutable reference keeps the reference
                loc, path, ty = self.resolve(st, fid, f, r[1])
                if k == "ref" and loc.op == "mem" and not path:
                    self.logrec(Rec("mutborrow", "&mut", (loc.a[0],), st.facts, tuple(self.stack), span))
                return mref(loc, *path)
            if k == "addr":
                v = self.read_place(st, fid, f, r[1])
                pl = r[1]
                if pl[1] and pl[1][-1] == "*":
                    base = self.read_place(st, fid, f, [pl[0], pl[1][:-1]])
                    bt = self.ty(self.place_ty(f, [pl[0], pl[1][:-1]]))
                    if bt["k"] == "ptr":
                        return base
                return _raw("pv", v)
            pl = r[1]
            v = self.read_place(st, fid, f, pl)
            return v
        if k in ("bin", "cbin"):
            a = self.operand(st, fid, f, r[2])
            b = self.operand(st, fid, f, r[3])
            t = self.op_ty(f, r[2])
            boolean = t is not None and self.ty(t)["k"] == "bool"
            if r[1] == "Offset":
                return App("ptroffset", a, b)
            v = self.binop(r[1], a, b, boolean)
            if k == "cbin":
                ov = FALSE
                if r[1].startswith("Sub") and t is not None and self.ty(t)["k"] == "int" and not self.ty(t)["signed"]:
                    ov = Lt(a, b)
                elif r[1].startswith(("Add", "Mul")) and t is not None and self.ty(t)["k"] == "int" and not self.ty(t)["signed"] and caller_int(v):
                    ov = Lt(Int((1 << (self.ty(t).get("bits") or 64)) - 1), v)
                return Tup(v, ov)
            return v
        if k == "un":
            a = self.operand(st, fid, f, r[2])
            if r[1] == "Not":
                t = self.op_ty(f, r[2])
                if t is not None and self.ty(t)["k"] != "bool":
                    return App("bitnot", a)
                return Not(a)
            if r[1] == "Neg":
                return scale(a, -1)
            if r[1] == "PtrMetadata":
                if a.op == "pv":
                    a = a.a[0]
                if a.op == "mref":
                    a = self.load(st, a)
                if a.op == "app" and a.a[0] == "rawslice":
                    return a.a[2]
                return tlen(a)
            return App("un" + r[1], a)
        if k == "len":
            return tlen(self.read_place(st, fid, f, r[1]))
        if k == "rep":
            v = self.operand(st, fid, f, r[1])
            return Rep(v, Int(r[2])) if r[2] is not None else App("rep", v)
        if k == "discr":
            loc, path, ty = self.resolve(st, fid, f, r[1])
            v = read_path(self.read_loc(st, loc), path)
            v = self.load(st, v)
            t = self.ty(ty)
            if t["k"] == "adt":
                if v.op == "agg" and v.a[0] == t["path"] or (v.op == "agg" and len(t["vs"]) > v.a[1]):
                    return Int(t["vs"][v.a[1]]["d"])
            if v.op == "agg" and str(v.a[0]).startswith("coroutine:"):
                return Int(v.a[1])
            return _raw("discr", v, ty)
        if k == "cast":
            v = self.operand(st, fid, f, r[2])
            kind, to = r[1], r[3]
            frm = self.op_ty(f, r[2])
            if kind == "IntToInt":
                a, b = self.ty(frm), self.ty(to)
                if a["k"] == "bool":
                    return v if v.op != "bool" else Int(v.a[0])
                if a["k"] == "int" and b["k"] == "int":
                    if b["bits"] < a["bits"] and not isint(v):
                        if v.op == "app" and v.a[0] == "bitrev" and isint(v.a[2]) and v.a[2].a[0] <= b["bits"]:
                            return v
                        return _raw("trunc", v, b["bits"])
                    if isint(v):
                        x = v.a[0] & ((1 << b["bits"]) - 1)
                        if b["signed"] and x >> (b["bits"] - 1):
                            x -= 1 << b["bits"]
                        return Int(x)
                return v
            if kind.startswith("PointerCoercion(Unsize"):
                self.note_len(v, frm)
                return v
            if kind == "BoxDerefTransmute":
                return v
            return v
        if k == "agg":
            vs = [self.operand(st, fid, f, o) for o in r[2]]
            a = r[1]
            if a[0] == "array":
                return Arr(*vs)
            if a[0] == "tuple":
                return Tup(*vs)
            if a[0] == "adt":
                t = self.ty(a[1])
                if t["ak"] == "union":
                    return vs[0]
                nm = t["path"].split("::")[-1]
                if nm in TRANSPARENT and vs:
                    return vs[0]
                return Agg(t["path"], a[2], *vs)
            if a[0] == "closure":
                t = self.ty(a[1])
                return Agg("closure:" + t["fn"], 0, *vs)
            if a[0] == "coroutine":
                return Agg("coroutine:" + a[1], 0, *vs)
            if a[0] == "rawptr":
                p, n = vs
                if p.op == "pv":
                    p = p.a[0]
                if self.load(st, p) is not p or self.valuelike(p):
                    return p
                return App("rawslice", p, n)
            return App("agg:" + json.dumps(a), *vs)
        if k == "tls":
            return App("tls", Str(r[1]))
        return App("rv:" + json.dumps(r)[:60])

    # -- assumptions ------------------------------------------------------------------
    def assume(self, st, c):
        """adds condition c; False when it contradicts what is known"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == "and":
            return all(self.assume(st, x) for x in c.a)
        h = F.holds(st.facts, c)
        if h is True:
            if c.op in ("isv", "eq", "not", "all"):
                st.facts = st.facts | {c}
            return True
        if h is False:
            return False
        st.facts = st.facts | {c}
        return True

    def branch(self, st, c):
        """[(state, True)], [(state, False)] or both"""
        if c is TRUE:
            return [(st, True)]
        if c is FALSE:
            return [(st, False)]
        out = []
        a, b = st.fork(), st
        if self.assume(a, c):
            out.append((a, True))
        if self.assume(b, Not(c)):
            out.append((b, False))
        return out

    def panic(self, st, what, span, cond=None):
        self.logrec(Rec("panic", what, (cond,) if cond is not None else (), st.facts, tuple(self.stack), span, st.lossy))

    # -- functions ------------------------------------------------------------------------
    def cfg(self, f):
        c = self.cfgs.get(f["id"])
        if c is None:
            c = self.cfgs[f["id"]] = Cfg(f)
        return c

    def run(self, f, args, facts=frozenset()):
        """Analyses f as an entry point; returns [(state, value)]."""
        st = State({}, frozenset(facts))
        return self.call_fn(st, f, args, None)

    def call_fn(self, st, f, args, span):
        if self.depth > 60 or sum(1 for s in self.stack if s[0] == f["id"]) >= 2:
            self.notes.add("recursion:" + f["name"])
            return [(st, App("rec:" + f["name"], *args))]
        self.fid += 1
        fid = self.fid
        self.fn_seen[f["name"]] = self.fn_seen.get(f["name"], 0) + 1
        if f["spread"] is not None and len(args) != f["argc"]:
            sp = f["spread"]
            args = list(args[:sp - 1]) + [Tup(*args[sp - 1:])]
        if len(args) < f["argc"]:
            # an untupled rust-call
            if args and args[-1].op == "agg" and args[-1].a[0] == "tuple":
                args = list(args[:-1]) + list(args[-1].a[2:])
        for i, a in enumerate(args[:f["argc"]]):
            st.env[self.loc(fid, i + 1)] = a
            if a.op in ("param", "elem", "field", "vfield", "app"):
                self.note_len(a, f["locals"][i + 1][0])
        self.stack.append((f["id"], f["name"], span))
        self.depth += 1
        try:
            cfg = self.cfg(f)
            rets = []
            exits, backs = self.region(f, cfg, fid, {0: [st]}, None, rets)
        finally:
            self.depth -= 1
            self.stack.pop()
        out = []
        for s in rets:
            v = s.env.get(self.loc(fid, 0), UNIT)
            for l in [l for l in s.env if l.op == "loc" and l.a[0] == fid]:
                del s.env[l]
            out.append((s, v))
        return self.merge_rets(out)

    def sticky(self, s):
        """outcomes of a pairing comparison, which joins must not forget"""
        return frozenset(x.id for x in s.facts if is_pairing_fact(x) or (self.sticky_pred is not None and self.sticky_pred(x)))

    def join_facts(self, s, states):
        sets = [x.facts for x in states]
        orig = {o | x.facts for x in states for o in (x.orig or (x.facts,))}
        s.over = any(x.over for x in states) or len(orig) > 24
        s.orig = tuple(orig) if len(orig) <= 24 else ()
        s.facts = F.join(sets)
        s.lossy = any(x.lossy for x in states) or F.lost(sets, s.facts)

    def merge_rets(self, out):
        groups = {}
        for s, v in out:
            key = (v.id, tuple(sorted((l.id, t.id) for l, t in s.env.items())), self.sticky(s))
            groups.setdefault(key, []).append((s, v))
        res = []
        for g in groups.values():
            s, v = g[0]
            if len(g) > 1:
                s = s.fork()
                self.join_facts(s, [x for x, _ in g])
            res.append((s, v))
        return res

    def merge_states(self, f, cfg, fid, b, states):
        if len(states) > 1:
            live = cfg.live[b]
            for s in states:
                for l in [l for l in s.env if l.op == "loc" and l.a[0] == fid and l.a[1] not in live and l.a[1] not in cfg.taken]:
                    del s.env[l]
            groups = {}
            for s in states:
                key = (tuple(sorted((l.id, t.id) for l, t in s.env.items())), self.sticky(s))
                groups.setdefault(key, []).append(s)
            out = []
            for g in groups.values():
                s = g[0]
                if len(g) > 1:
                    s = s.fork()
                    self.join_facts(s, g)
                out.append(s)
            states = out
        if len(states) > self.cap:
            states = [self.join_states(states)]
        return states

    def join_states(self, states):
        s0 = states[0].fork()
        self.join_facts(s0, states)
        keys = set(s0.env)
        for s in states[1:]:
            keys |= set(s.env)
        uid = self.new_uid()
        for l in sorted(keys, key=lambda x: x.id):
            vs = []
            for s in states:
                v = s.env.get(l)
                if v is not None and v not in vs:
                    vs.append(v)
            if len(vs) == 1:
                s0.env[l] = vs[0]
            else:
                p = _raw("phi", uid, l.id, *self.loopks)
                setphi(p, vs)
                s0.env[l] = p
                self.alternatives("join", None, [(s.env[l], s) for s in states if l in s.env])
        self.notes.add("joined %d states in %s" % (len(states), self.stack[-1][1] if self.stack else "?"))
        return s0

    def region(self, f, cfg, fid, pending, header, rets):
        """Runs the blocks of a loop body (header given) or of the function.
        Returns (exits: [(target, state)], backs: [state])."""
        blocks = cfg.loops[header] if header is not None else None
        exits, backs = [], []
        for b in cfg.rpo:
            if b not in pending:
                continue
            if blocks is not None and b not in blocks:
                continue
            states = self.merge_states(f, cfg, fid, b, pending.pop(b))
            if b in cfg.loops and b != header:
                outs = []
                for s in states:
                    outs += self.mir_loop(f, cfg, fid, b, s, rets)
            else:
                outs = []
                self.region_ctx.append((fid, header))
                for s in states:
                    outs += self.block(f, cfg, fid, b, s, rets)
                self.region_ctx.pop()
            for t, s in outs:
                if t == header and header is not None:
                    backs.append(s)
                elif t == "BACK":
                    backs.append(s)
                elif blocks is not None and t not in blocks:
                    exits.append((t, s))
                else:
                    pending.setdefault(t, []).append(s)
        return exits, backs

    def mir_loop(self, f, cfg, fid, h, s0, rets):
        def body(hs, k):
            inner = []
            exits, backs = self.region(f, cfg, fid, {h: [hs]}, h, inner)
            # returns from inside the loop cannot happen (ret blocks are outside)
            return backs, exits
        live = set()
        for b in cfg.loops[h]:
            live |= cfg.live[b]
        # locals dead at the header are not loop-carried
        for l in [l for l in s0.env if l.op == "loc" and l.a[0] == fid and l.a[1] not in cfg.live[h] and l.a[1] not in cfg.taken]:
            del s0.env[l]
        return self.run_loop(s0, body)

    # -- loops --------------------------------------------------------------------------
    def run_loop(self, s0, body):
        """body(header state, k) -> (back states, [(tag, exit state)]).
        Returns [(tag, exit state)] with loop-carried values in closed form."""
        uid = self.new_uid()
        k = Idx(uid)
        hv = {}           # loc -> [kind, term]
        failed = set()
        nolen = set()
        lph = {}
        for it in range(18):
            hs = s0.fork()
            hs.orig = ()
            for l, (kd, t) in hv.items():
                hs.env[l] = t
            mark = len(self.log)
            self.loopks.append(k)
            backs, exits = body(hs, k)
            self.loopks.pop()
            changed = False
            for l in list(s0.env):
                vals = []
                for b in backs:
                    v = b.env.get(l)
                    if v is not None and v not in vals:
                        vals.append(v)
                cur = hv[l][1] if l in hv else s0.env[l]
                nxt = cur if l in hv and hv[l][0] == "lphi" else subst(cur, {k: add(k, Int(1))})
                if all(v is nxt for v in vals):
                    continue
                init = s0.env[l]
                if l not in hv:
                    p = self.seq_proposal(init, vals, k)
                    if p is not None:
                        hv[l] = ["closed", p]
                    else:
                        lph[l] = _raw("lphi", uid, l.id, *self.loopks, k)
                        hv[l] = ["lphi", lph[l]]
                    changed = True
                elif hv[l][0] == "closed":
                    failed.add(l)
                    lph.setdefault(l, _raw("lphi", uid, l.id, *self.loopks, k))
                    hv[l] = ["lphi", lph[l]]
                    changed = True
                elif l not in failed:
                    p = self.propose(lph[l], init, vals, k, uid)
                    if p is not None:
                        hv[l] = ["closed", p]
                        failed.add(l)
                        changed = True
                if hv[l][0] == "lphi" and cur is lph.get(l) and isseq(init) and l not in nolen:
                    L = lph[l]
                    if L not in PLEN:
                        ds = {sub(tlen(v), tlen(L)) for v in vals}
                        d = ds.pop() if len(ds) == 1 else None
                        if d is not None and isint(d):
                            PLEN[L] = add(tlen(init), mul(k, d))
                            PLENBASE[(L.a[0], L.a[1])] = L
                            changed = True
                        else:
                            nolen.add(l)
                    else:
                        want = subst(PLEN[L], {k: add(k, Int(1))})
                        if any(tlen(v) is not want for v in vals):
                            del PLEN[L]
                            nolen.add(l)
                            changed = True
            if not changed:
                break
            del self.log[mark:]
        else:
            self.notes.add("loop not stable")
        own = {t for t in lph.values()}
        for l, t in lph.items():
            if hv[l][0] == "lphi":
                setphi(t, [s0.env[l]] + [b.env[l] for b in backs if l in b.env])
        # facts established by every iteration
        common = None
        for b in backs:
            d = b.facts - s0.facts
            common = d if common is None else (common & d)
        common = common or frozenset()
        for l, t in lph.items():
            self.alternatives("loop", t, [(b.env[l], b) for b in backs if l in b.env])
        liftable = [x for x in common if not any(y in own or (y.op == "lphi" and y.a[0] == uid) for y in subterms(x, False))]
        alt = self.either([b.facts - s0.facts - common for b in backs], own, uid)
        if alt is not None:
            liftable.append(alt)
        out = []
        for tag, s in exits:
            n = self.exhaustion(s.facts - s0.facts, common, k, uid, bool(backs))
            if n is None:
                self.rejoin(s, s0, None)
                out.append((tag, s))
                continue
            m = {k: n}
            s = s.fork()
            # loop-carried values without a closed form: folds over the iterations
            fm = {}
            for l, t in lph.items():
                if hv[l][0] == "lphi":
                    fm[t] = self.fold(t, s0.env[l], backs, l, k, n, common, own, uid)
            if fm:
                pass
            delta = s.facts - s0.facts
            m2 = dict(m)
            m2.update(fm)
            s.facts = s0.facts | frozenset(y for y in (subst(x, m2) for x in delta) if y is not TRUE)
            self.rejoin(s, s0, m2)
            for l, v in list(s.env.items()):
                nv = subst(v, m2)
                if nv is not v:
                    s.env[l] = nv
            lifted = set()
            guard = Lt(k, n)
            for x in liftable:
                if x is guard:
                    continue
                y = All(n, k, x)
                if y is not TRUE:
                    lifted |= set(y.a) if y.op == "and" else {y}
            s.facts = s.facts | frozenset(lifted)
            out.append((tag, s))
        return out

    def rejoin(self, s, s0, m):
        """the paths merged before a loop are still the paths merged after it"""
        mine = s.orig
        if m is not None:
            mine = [s0.facts | frozenset(y for y in (subst(x, m) for x in o - s0.facts) if y is not TRUE) for o in mine]
        if s0.orig:
            mine = {a | b for a in (mine or (frozenset(),)) for b in s0.orig}
        s.over = s.over or s0.over or len(mine) > 24
        s.orig = tuple(mine) if len(mine) <= 24 else ()

    def either(self, rests, own, uid):
        """what distinguishes the few kinds of iterations, as one disjunction"""
        if not 2 <= len(rests) <= 3 or any(not r or len(r) > 4 for r in rests):
            return None
        for r in rests:
            for x in r:
                if any(y in own or y.op in ("lphi", "phi", "fold", "self") for y in subterms(x, False)):
                    return None
        # an atom and its negation together say nothing
        rests = list(rests)
        if len(rests) == 2 and all(len(r) == 1 for r in rests):
            (x,), (y,) = rests
            if Not(x) is y:
                return None
        d = Or(*[And(*sorted(r, key=lambda t: t.id if hasattr(t, "id") else id(t))) for r in rests])
        return None if d in (TRUE, FALSE) else d

    def exhaustion(self, delta, common, k, uid, has_back):
        for x in delta:
            if x.op == "not" and x.a[0].op == "lt":
                d = sub(x.a[0].a[0], x.a[0].a[1])
                c, m = lin_parts(d)
                if m.get(k) == 1:
                    n = sub(k, d)
                    if contains(n, k) or any(y.op == "lphi" and y.a[0] == uid for y in subterms(n, False)):
                        continue
                    if not has_back or x.a[0] in common:
                        return n
        return None

    def seq_proposal(self, init, vals, k):
        if len(vals) != 1:
            return None
        v = vals[0]
        if v.op == "adv" and v.a[0] is (init.a[0] if init.op == "adv" else init):
            p0 = init.a[1] if init.op == "adv" else Int(0)
            d = sub(v.a[1], p0)
            if isint(d):
                return _raw("adv", v.a[0], add(p0, mul(d, k)))
        return None

    def propose(self, L, init, vals, k, uid):
        if len(vals) != 1:
            return None
        v = vals[0]

        def clean(t):
            return not any(y.op == "lphi" and y.a[0] == uid for y in subterms(t, False))
        d = sub(v, L)
        if isint(d) or (clean(d) and not contains(d, k)):
            return add(init, mul(d, k))
        if v.op == "app" and v.a[0] == "mul" and len(v.a) == 3 and L in v.a[1:]:
            x = v.a[2] if v.a[1] is L else v.a[1]
            if clean(x) and not contains(x, k):
                return App("geom", init, x, k)
        if v.op == "app" and v.a[0] == "opShr" and len(v.a) == 3 and v.a[1] is L and isint(v.a[2]):
            return App("opShr", init, mul(k, v.a[2]))
        if v.op == "div" and v.a[0] is L and v.a[1] is Int(2):
            return App("opShr", init, k)
        if v.op == "cat" and v.a[0] is L:
            rest = Cat(*v.a[1:])
            if clean(rest):
                lvl, (b,) = binder(k, rest)
                return Cat(init, flat_raw(k, lvl, b))
        if v.op == "store" and v.a[0] is L and v.a[1] is k and clean(v.a[2]):
            lvl, (b,) = binder(k, v.a[2])
            return ovl(init, k, lvl, b)
        if v.op == "store" and v.a[0] is L and v.a[1] is k:
            # v[k] = g(v[k]): element-wise update in place
            e = _raw("elem", L, k)
            x = subst(v.a[2], {e: elem(init, k)})
            if clean(x):
                lvl, (b,) = binder(k, x)
                return ovl(init, k, lvl, b)
        if v.op == "splice" and v.a[0] is L and clean(v.a[3]):
            c = sub(v.a[2], v.a[1])
            if isint(c) and v.a[1] is mul(k, c):
                lvl, (b,) = binder(k, v.a[3])
                return sovl(init, k, c, lvl, b)
        if v.op == "and" and L in v.a:
            rest = And(*[x for x in v.a if x is not L])
            if clean(rest):
                lvl, (b,) = binder(k, rest)
                return And(init, all_raw(k, lvl, b))
        return None

    def fold(self, L, init, backs, l, k, n, common, own, uid):
        vals = {}
        for b in backs:
            v = b.env.get(l)
            if v is not None:
                vals.setdefault(v, []).append(b)
        vs = list(vals)

        def clean(t):
            return not any(y.op == "lphi" and y.a[0] == uid for y in subterms(t, False))
        if len(vs) == 1:
            v = vs[0]
            p = self.propose(L, init, vs, k, uid)
            if p is not None:
                return subst(p, {k: n})
            if v.op == "app" and L in v.a[1:] and len(v.a) == 3:
                x = v.a[2] if v.a[1] is L else v.a[1]
                if clean(x) and v.a[0] in ("add", "mul"):
                    return App(v.a[0], *sorted([init, App("sum" if v.a[0] == "add" else "product", Gen(n, k, x))], key=lambda t: t.id))
                if clean(x):
                    return App("fold:" + v.a[0], init, Gen(n, k, x))
            if v.op == "app" and v.a[0] == "hashupd":
                ch, y = [], v
                while y.op == "app" and y.a[0] == "hashupd":
                    ch.insert(0, y.a[2])
                    y = y.a[1]
                if y is L and all(clean(x) for x in ch):
                    return App("fold:hashupd", init, Gen(n, k, Cat(*ch)))
            # r = (r << 1) | (x >> k & 1): bit reversal
            if v.op == "app" and v.a[0] == "opBitOr" and init is Int(0) and mul(L, Int(2)) in v.a[1:]:
                o = v.a[2] if v.a[1] is mul(L, Int(2)) else v.a[1]
                if o.op == "app" and o.a[0] == "opBitAnd" and Int(1) in o.a[1:]:
                    y = o.a[2] if o.a[1] is Int(1) else o.a[1]
                    if y.op == "app" and y.a[0] == "opShr" and y.a[2] is k and not contains(y.a[1], k):
                        return App("bitrev", y.a[1], n)
        # conditional append
        app = [v for v in vs if v is not L]
        if len(vs) == 2 and L in vs and len(app) == 1 and app[0].op == "cat" and app[0].a[0] is L:
            rest = Cat(*app[0].a[1:])
            bs = vals[app[0]]
            if clean(rest) and rest.op == "arr" and len(rest.a) == 1:
                base = common
                cond = F.join([b.facts for b in bs]) - base
                other = F.join([b.facts for b in vals[L]]) - base
                cs = [c for c in cond if clean(c) and Not(c) in other] or [c for c in cond if clean(c) and contains(c, k)]
                # drop conditions that hold anyway at loop entry
                return Cat(init, FGen(n, k, And(*cs), rest.a[0])) if cs else self.mkfold(n, k, init, vs, L, uid)
        return self.mkfold(n, k, init, vs, L, uid)

    def mkfold(self, n, k, init, vs, L, uid):
        sl = 1 + max([y.a[0] for v in vs for y in subterms(v, False) if y.op == "self"], default=-1)
        selfv = _raw("self", sl)
        body = App("alts", *[subst(v, {L: selfv}) for v in sorted(vs, key=lambda t: t.id)])
        lvl, (b,) = binder(k, body)
        return _raw("fold", n, lvl, init, b, sl)

    # -- blocks ------------------------------------------------------------------------
    def block(self, f, cfg, fid, b, st, rets):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        bb = f["bbs"][b]
        for s in bb["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fid, f, s[2], s[3])
                self.assign(st, fid, f, s[1], v, bb["sp"])
            elif s[0] == "sd":
                loc, path, ty = self.resolve(st, fid, f, s[1])
                t = self.ty(ty)
                self.write(st, loc, path, Agg(t.get("path", "?"), s[2]))
            elif s[0] == "cno":
                a = self.operand(st, fid, f, s[1])
                d = self.operand(st, fid, f, s[2])
                n = self.operand(st, fid, f, s[3])
                self.logrec(Rec("write", "copy_nonoverlapping", (d, n, self.vis(st, a)), st.facts, tuple(self.stack), bb["sp"]))
                self.store_ref(st, d, tslice(self.vis(st, a), Int(0), n), bb["sp"])
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "drop":
            if len(t) > 3:
                try:
                    v = self.read_place(st, fid, f, t[1])
                    self.logrec(Rec("drop", self.ty(t[3])["s"], (v,), st.facts, tuple(self.stack), bb["sp"]))
                except Exception:
                    pass
            return [(t[2], st)]
        if k == "sw":
            return self.switch(f, fid, st, t)
        if k == "assert":
            c = self.operand(st, fid, f, t[1])
            if not t[2]:
                c = Not(c)
            out = []
            for s, ok in self.branch(st, c):
                if ok:
                    out.append((t[4], s))
                else:
                    self.panic(s, t[3][0], bb["sp"], Not(c))
            return out
        if k == "call":
            return self.call_term(f, fid, st, t, bb["sp"])
        return []

    def assign(self, st, fid, f, place, v, span=None):
        if not place[1]:
            st.env[self.loc(fid, place[0])] = v
            if v.op in ("vfield", "field", "elem", "app"):
                self.note_len(v, f["locals"][place[0]][0])
            return
        loc, path, ty = self.resolve(st, fid, f, place)
        self.write(st, loc, path, v, span)

    def switch(self, f, fid, st, t):
        v = self.operand(st, fid, f, t[1])
        if v.op == "int" or v.op == "bool":
            for val, tgt in t[2]:
                if val == v.a[0]:
                    return [(tgt, st)]
            return [(t[3], st)]
        out = []
        if v.op == "discr":
            x, ty = v.a
            tt = self.ty(ty)
            vs = tt.get("vs", [])
            nv = len(vs)
            seen = []
            for val, tgt in t[2]:
                vi = next((i for i, q in enumerate(vs) if q["d"] == val), None)
                if vi is None:
                    continue
                seen.append(vi)
                s = st.fork()
                if self.assume(s, IsV(x, vi, nv)):
                    out.append((tgt, s))
            restv = [i for i in range(nv) if i not in seen]
            if restv:
                s = st.fork()
                ok = True
                if len(restv) == 1:
                    ok = self.assume(s, IsV(x, restv[0], nv))
                    if nv > 2:
                        for i in seen:
                            ok = ok and self.assume(s, Not(IsV(x, i, nv)))
                else:
                    for i in seen:
                        ok = ok and self.assume(s, Not(IsV(x, i, nv)))
                if ok:
                    out.append((t[3], s))
            return out
        ty = self.ty(t[4]) if t[4] is not None else {"k": "int"}
        if ty["k"] == "bool":
            # branches: [[0, else]] otherwise then
            tf = next((tgt for val, tgt in t[2] if val == 0), None)
            tt_ = next((tgt for val, tgt in t[2] if val == 1), t[3])
            if tf is None:
                tf = t[3]
            for s, b in self.branch(st, v):
                out.append((tt_ if b else tf, s))
            return out
        for val, tgt in t[2]:
            s = st.fork()
            if self.assume(s, Eq(v, Int(val))):
                out.append((tgt, s))
        s = st.fork()
        ok = True
        for val, _ in t[2]:
            ok = ok and self.assume(s, Not(Eq(v, Int(val))))
        if ok:
            out.append((t[3], s))
        return out

    # -- calls --------------------------------------------------------------------------
    def call_term(self, f, fid, st, t, span):
        args = [self.operand(st, fid, f, o) for o in t[2]]
        dty = self.place_ty(f, t[3])
        fnv = t[1]
        if fnv[0] == "fn":
            argtys = [self.op_ty(f, o) for o in t[2]]
            res = self.call_id(st, fnv[1], fnv[2], args, dty, argtys, span, t[4] is None, fnv[3] if len(fnv) > 3 else [])
        elif fnv[0] == "ptr":
            v = self.operand(st, fid, f, fnv[1])
            res = self.call_value(st, v, args, span)
        else:
            res = [(st, App("unres:" + str(fnv[1:]), *args))]
        out = []
        for s, v in res:
            if v is RETRY:
                out.append(("BACK" if self.region_ctx and self.region_ctx[-1][1] is not None else t[4], s))
                continue
            if t[4] is None:
                continue
            if v.op in ("app", "vfield", "field", "elem"):
                self.note_len(v, dty)
            self.assign(s, fid, f, t[3], v, span)
            out.append((t[4], s))
        return out

    def call_id(self, st, id, path, args, dty, argtys, span, diverges, gens=()):
        import models
        f = self.c.fns.get(id)
        if f is not None and f["ws"] and f["kind"] == "item":
            if key2(path) in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call") and len(args) == 2 and args[1].op == "agg":
                args = [args[0]] + list(args[1].a[2:])
            if not self.opaque(f):
                return self.call_fn(st, f, args, span)
            self.logrec(Rec("call", f["name"], tuple(args), st.facts, tuple(self.stack), span))
            return self.call_opaque(st, strip_generics(f["path"]), args)
        rec = f or self.c.exts.get(id) or {"name": path, "path": path, "crate": "?", "gens": []}
        call = models.Call(self, rec, path, args, dty, argtys, span, diverges, gens)
        h = models.lookup(call)
        if h is not None:
            r = h(self, st, call)
            if r is not NotImplemented:
                return r
        if diverges:
            self.panic(st, rec["path"], span)
            return []
        if f is not None and not self.opaque(f):
            return self.call_fn(st, f, args, span)
        self.logrec(Rec("call", rec["path"], tuple(self.vis(st, a) for a in args), st.facts, tuple(self.stack), span, path))
        self.unknown[rec["path"]] = self.unknown.get(rec["path"], 0) + 1
        return self.call_opaque(st, models.opname(rec["path"], path), args, _raw("JNI") if rec["path"].startswith("jni::JNIEnv") and args else None, span)

    def vis(self, st, a):
        return self.load(st, a) if a.op == "mref" else a

    def call_opaque(self, st, name, args, handle=None, span=None):
        vs = [self.vis(st, a) for a in args]
        if handle is not None:
            # a method of a foreign environment handle: the handle itself is not data
            vs[0] = handle
            if name.split("::")[-1] in ("throw", "throw_new"):
                st.env[_raw("thrown")] = TRUE
            if name.split("::")[-1] == "new_object_array":
                # a fresh object: told apart by where it was allocated
                vs.append(Str("site:%s/%s" % (span, [x[2] for x in self.stack])))
        for i, a in enumerate(args):
            if i == 0 and handle is not None:
                continue
            for m in self.mrefs_in(a):
                self.store_ref(st, m, App("mut%d:%s" % (i, name), *vs))
        return [(st, App(name, *vs))]

    def mrefs_in(self, a):
        if a.op == "mref":
            return [a]
        if a.op == "agg":
            return [m for x in a.a[2:] if isinstance(x, T) for m in self.mrefs_in(x)]
        return []

    def call_value(self, st, fv, args, span):
        """calls a closure or function value"""
        fv = self.load(st, fv) if fv.op == "mref" else fv
        if fv.op == "agg" and str(fv.a[0]).startswith("closure:"):
            f = self.c.fns.get(fv.a[0][8:])
            if f is not None:
                return self.call_fn(st, f, [fv] + list(args), span)
        if fv.op == "fn":
            return self.call_id(st, fv.a[0], fv.a[1], list(args), None, [None] * len(args), span, False)
        return self.call_opaque(st, "callvalue", [fv] + list(args))


RETRY = _raw("RETRY")


def _peel_ref(self, i):
    while True:
        t = self.c.types[i]
        if t["k"] in ("ref", "ptr"):
            i = t["e"]
        elif t["k"] == "adt" and t["path"].split("::")[-1] in ("Box", "Arc", "Rc") and t["args"] and isinstance(t["args"][0], int):
            i = t["args"][0]
        else:
            return i


Interp.peel_ref = _peel_ref
