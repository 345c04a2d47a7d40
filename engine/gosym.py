"""Path-wise abstract interpretation of the Go binding's SSA form.

Values are nested tuples; functions of the package are entered, everything else
is an event.  Loops are followed twice and the path is then given up ("cut")."""
import itertools, json

MAXPATHS = 4000


class Path:
    def __init__(self):
        self.facts = {}          # condition term -> bool
        self.mem = {}            # address term -> value
        self.events = []         # ("call", name, args, result)
        self.end = None          # ("return", values) | ("panic", value) | ("cut",)

    def copy(self):
        p = Path()
        p.facts, p.mem, p.events = dict(self.facts), dict(self.mem), list(self.events)
        return p


class Go:
    def __init__(self, file):
        d = json.load(open(file))
        self.consts = d["consts"]
        self.fns = {f["name"]: f for f in d["fns"]}
        self.ids = itertools.count()

    def short(self, n):
        return n.split("/")[-1].split(".", 1)[-1] if "/" in n else n

    def internal(self, n):
        f = self.fns.get(n)
        return f if f and f["bbs"] and not self.short(n).startswith(("_C", "_c")) and "._Cfunc_" not in n and "._cgo" not in n and "._Cgo" not in n else None

    def run(self, name, args=None):
        f = self.fns[name]
        args = args if args is not None else [("param", p["n"]) for p in f["params"]]
        out = []
        for p, v in self.call(f, args, [], Path(), 0):
            p.end = v if v[0] in ("panic", "cut") else ("return", v[1])
            out.append(p)
            if len(out) > MAXPATHS:
                break
        return out

    # --- values -------------------------------------------------------------------
    def val(self, env, r):
        if r is None:
            return None
        k = r["k"]
        if k == "nil":
            return ("nil",) if not r["t"].endswith("string") else ("const", '""')
        if k == "const":
            v = r["v"]
            try:
                v = int(v)
            except ValueError:
                v = {"true": True, "false": False}.get(v, v)
            return ("const", v)
        if k in ("fn", "builtin", "global"):
            return (k, r["n"])
        return env.get(r["n"], ("unknown", r["n"]))

    def load(self, p, a):
        if a in p.mem:
            return p.mem[a]
        if a[0] == "fieldaddr":
            b = self.load(p, a[1]) if a[1] in p.mem else None
            if b is not None:
                return self.field(b, a[2])
            return ("field", ("deref", a[1]), a[2])
        if a[0] == "elemaddr":
            return ("elem", a[1], a[2])
        if a[0] == "alloc":
            return ("zero",)
        return ("deref", a)

    def field(self, b, n):
        if b[0] == "struct":
            return dict(b[1]).get(n, ("zero",))
        if b == ("zero",):
            return ("zero",)
        return ("field", b, n)

    def store(self, p, a, v):
        p.mem = {k: x for k, x in p.mem.items() if not (k[0] in ("fieldaddr", "elemaddr") and k[1] == a)}
        if a[0] == "fieldaddr" and a[1] in p.mem:
            b = p.mem[a[1]]
            d = dict(b[1]) if b[0] == "struct" else ({} if b == ("zero",) else None)
            if d is not None:
                d[a[2]] = v
                p.mem[a[1]] = ("struct", tuple(sorted(d.items())))
                return
        p.mem[a] = v

    def length(self, v):
        if v[0] == "slice" and v[1][0] == "alloc" and v[2] in (None, ("const", 0)) and v[3] is None and v[1][2] is not None:
            return ("const", v[1][2])
        if v[0] == "makeslice":
            return v[2]
        if v[0] == "slice" and v[2] in (None, ("const", 0)) and v[3] is not None:
            return v[3]
        if v == ("nil",):
            return ("const", 0)
        return ("len", v)

    def binop(self, tok, x, y):
        if x[0] == "const" and y[0] == "const":
            try:
                a, b = x[1], y[1]
                r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
                     ">": lambda: a > b, ">=": lambda: a >= b}[tok]()
                return ("const", r)
            except (KeyError, TypeError):
                pass
        if tok in ("==", "!="):
            if x == y:
                return ("const", tok == "==")
            fresh = lambda v: v[0] in ("alloc", "makeslice", "closure", "slice", "error", "elemaddr") or (v[0] == "iface" and True)
            if ("nil",) in (x, y) and (fresh(x) or fresh(y)):
                return ("const", tok == "!=")
            if repr(x) > repr(y):
                x, y = y, x
        if tok == "!=":
            return ("not", ("bin", "==", x, y))
        if tok == ">=":
            return ("not", ("bin", "<", x, y))
        if tok == ">":
            return ("bin", "<", y, x)
        if tok == "<=":
            return ("not", ("bin", "<", y, x))
        return ("bin", tok, x, y)

    # --- execution ------------------------------------------------------------------
    def call(self, f, args, binds, p, depth):
        """yields (path, ("ret", values) | ("panic", v) | ("cut",))"""
        if depth > 12:
            p.events.append(("cut", f["name"]))
            yield p, ("cut",)
            return
        env = {q["n"]: a for q, a in zip(f["params"], args)}
        env.update(zip(f["free"], binds))
        yield from self.block(f, 0, None, env, p, depth, {}, [])

    def block(self, f, bi, prev, env, p, depth, visits, defers):
        visits = dict(visits)
        visits[bi] = visits.get(bi, 0) + 1
        if visits[bi] > 2:
            yield p, ("cut",)
            return
        b = f["bbs"][bi]
        env = dict(env)
        new = {}
        for i in b["is"]:
            if i["op"] == "Phi":
                new[i["n"]] = self.val(env, i["args"][b["preds"].index(prev)])
        env.update(new)
        yield from self.instrs(f, b, bi, 0, env, p, depth, visits, defers)

    def instrs(self, f, b, bi, k, env, p, depth, visits, defers):
        while k < len(b["is"]):
            i = b["is"][k]
            k += 1
            op = i["op"]
            v = lambda n: self.val(env, i.get(n))
            if op == "Phi":
                continue
            if op in ("Convert", "ChangeType", "MakeInterface", "ChangeInterface"):
                env[i["n"]] = v("x")
            elif op == "Alloc":
                t = i["t"]
                n = None
                if t.startswith("*["):
                    try:
                        n = int(t[2:t.index("]")])
                    except ValueError:
                        n = None
                a = ("alloc", next(self.ids), n)
                env[i["n"]] = a
            elif op == "UnOp":
                x = v("x")
                if i["tok"] == "*":
                    env[i["n"]] = self.load(p, x)
                elif i["tok"] == "!":
                    env[i["n"]] = ("const", not x[1]) if x[0] == "const" else (x[1] if x[0] == "not" else ("not", x))
                else:
                    env[i["n"]] = ("un", i["tok"], x)
            elif op == "Store":
                self.store(p, v("x"), v("y"))
            elif op == "FieldAddr":
                env[i["n"]] = ("fieldaddr", v("x"), i["field"])
            elif op == "Field":
                env[i["n"]] = self.field(v("x"), i["field"])
            elif op in ("IndexAddr", "Index"):
                x, y = v("x"), v("y")
                env[i["n"]] = ("elemaddr" if op == "IndexAddr" else "elem", x, y)
            elif op == "BinOp":
                env[i["n"]] = self.binop(i["tok"], v("x"), v("y"))
            elif op == "MakeSlice":
                env[i["n"]] = ("makeslice", next(self.ids), v("x"))
            elif op == "Slice":
                x, lo, hi = v("x"), v("lo"), v("hi")
                env[i["n"]] = x if lo in (None, ("const", 0)) and hi is None and x[0] not in ("alloc",) else ("slice", x, lo, hi)
            elif op == "SliceToArrayPointer":
                env[i["n"]] = ("elemaddr", v("x"), ("const", 0))
            elif op == "MakeClosure":
                env[i["n"]] = ("closure", i["x"]["n"], tuple(self.val(env, a) for a in i["args"]))
            elif op == "Extract":
                x = v("x")
                env[i["n"]] = x[1][i["i"]] if x[0] == "tuple" else ("extract", x, i["i"])
            elif op in ("Call", "Defer", "Go"):
                fv = self.val(env, i["f"])
                args = [self.val(env, a) for a in i["args"]]
                if op == "Defer":
                    defers = defers + [(fv, args)]
                    continue
                if op == "Go":
                    p.events.append(("go", fv, tuple(args)))
                    continue
                outs = list(self.apply(fv, args, p, depth, i))
                if len(outs) == 1 and outs[0][1][0] == "val":
                    p = outs[0][0]
                    env[i["n"]] = outs[0][1][1]
                    continue
                for q, r in outs:
                    if r[0] == "val":
                        e2 = dict(env)
                        e2[i["n"]] = r[1]
                        yield from self.instrs(f, b, bi, k, e2, q, depth, visits, defers)
                    else:
                        yield q, r
                return
            elif op == "RunDefers":
                ps = [p]
                for fv, args in reversed(defers):
                    ps = [q for p2 in ps for q, _ in self.apply(fv, args, p2, depth, i)]
                defers = []
                if len(ps) == 1:
                    p = ps[0]
                    continue
                for q in ps:
                    yield from self.instrs(f, b, bi, k, dict(env), q, depth, visits, [])
                return
            elif op == "Return":
                yield p, ("ret", [self.val(env, a) for a in i["args"]])
                return
            elif op == "Panic":
                for fv, args in reversed(defers):
                    for q, _ in self.apply(fv, args, p, depth, i):
                        p = q
                yield p, ("panic", v("x"))
                return
            elif op == "Jump":
                yield from self.block(f, b["succs"][0], bi, env, p, depth, visits, defers)
                return
            elif op == "If":
                c = v("x")
                neg = False
                while c[0] == "not":
                    c, neg = c[1], not neg
                known = c[1] if c[0] == "const" else p.facts.get(c)
                for tv, s in ((True, b["succs"][0]), (False, b["succs"][1])):
                    cv = tv != neg
                    if known is not None and known != cv:
                        continue
                    q = p.copy()
                    if known is None:
                        q.facts[c] = cv
                    yield from self.block(f, s, bi, env, q, depth, visits, defers)
                return
            elif "n" in i:
                env[i["n"]] = ("unknown", op, next(self.ids))
        yield p, ("ret", [])

    def apply(self, fv, args, p, depth, i):
        """yields (path, ("val", v) | ("panic", v) | ("cut",))"""
        if fv[0] == "builtin":
            n = fv[1]
            if n in ("len", "cap"):
                yield p, ("val", self.length(args[0]))
            elif n in ("SliceData", "StringData"):
                yield p, ("val", ("elemaddr", args[0], ("const", 0)))
            else:
                p.events.append(("builtin", n, tuple(args)))
                yield p, ("val", ("unknown", n, next(self.ids)))
            return
        name, binds = (fv[1], []) if fv[0] in ("fn",) else (fv[1], list(fv[2])) if fv[0] == "closure" else (None, [])
        g = self.internal(name) if name else None
        if g:
            for q, r in self.call(g, args, binds, p, depth + 1):
                if r[0] == "ret":
                    vs = r[1]
                    yield q, ("val", vs[0] if len(vs) == 1 else ("tuple", tuple(vs)))
                else:
                    yield q, r
            return
        n = name or ("invoke:" + i["invoke"] if i.get("invoke") else "?")
        cn = n.split("._Cfunc_")[-1] if "._Cfunc_" in n else None
        if "._cgoCheck" in n or "_Cgo_" in n:
            yield p, ("val", ("unit",))
            return
        key = "C." + cn if cn else n
        if key == "C.GoString" or key in ("errors.New", "fmt.Errorf"):
            res = ("gostring", args[0]) if key == "C.GoString" else ("error",) + tuple(args)
        else:
            res = ("result", next(self.ids), key, tuple(args))
        if key == "C.GoString" and len(args) == 1:
            res = ("gostring", args[0])
        p.events.append(("call", key, tuple(args), res))
        yield p, ("val", res)
