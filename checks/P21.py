import re
from api import *
import farm
from jsym import *
from jsym import show as jshow

CONFIGS = ["bind"]
RULE = ("in the Java class, every call into the native library gets the object's current context handle on a path that has excluded a destroyed context, with the method's own arguments in their order, "
        "and its result is what the method returns; the handle is what the native constructor returned for the given options; destroying releases the handle once and forgets it, and close() destroys")
EXPLAIN = ("Path enumeration over the bytecode javac produces for the Java class (branches, field updates, calls inlined within the class, exception handlers): per path, the calls of native methods with their "
           "argument terms, the branch conditions on the handle, and the fields left behind.")
CLS = "LibEthKZG"


class Only:
    """the obligations of some rules only"""

    def __init__(self, rep, rules):
        self.rep, self.rules = rep, rules

    def add(self, rule, *a):
        if rule in self.rules:
            self.rep.add("java-class " + rule, *a)

    ok, bad, und, judge, count = (Report.ok, Report.bad, Report.und, Report.judge, lambda self, *a: None)


def part(rep, *rules):
    run(Only(rep, rules), "quick")


ALTERING = ("and", "or", "xor", "shl", "shr", "ushr", "neg", "lneg", "add", "sub", "mul", "div", "rem", "l2i", "i2l", "l2d", "i2b", "i2s", "i2c")


def altered(t):
    return t[0] in ALTERING or (t[0] == "call" and t[1].startswith("Math.")) or (t[0] == "call" and t[1].split(".")[-1] in ("copyOf", "copyOfRange") and len(t[2]) > 1 and t[2][-1][0] == "const")


def run(rep, tier):
    J = Java(open(farm.javaclass(farm.dump("bind"))).read())
    c = J.classes.get(CLS)
    if c is None:
        raise Lost("the Java class " + CLS)
    nat = {m.name: m for m in c.methods.values() if m.native}
    make = [m for m in nat.values() if rettype(m.desc) == "J"]
    kill = [m for m in nat.values() if rettype(m.desc) == "V" and m.desc == "(J)V"]
    ops = [m for m in nat.values() if m not in make and m not in kill]
    if len(make) != 1 or len(kill) != 1 or not ops:
        raise Lost("the native methods of the Java class")
    make, kill = make[0], kill[0]
    hs = [f for f, d in c.fields.items() if d["desc"] == "J" and "STATIC" not in d["flags"]]
    shared = [f for f, d in c.fields.items() if d["desc"] == "J" and "STATIC" in d["flags"] and "FINAL" not in d["flags"]]
    if not hs and shared:
        rep.bad("handle-field", CLS, "the context handle %s is shared by all objects of the class" % shared[0])
        return
    if len(hs) != 1:
        rep.und("handle-field", CLS, "instance fields of type long: %s" % hs)
        return
    H = ("field", ("this",), hs[0])
    key = (("this",), hs[0])
    Z = ("const", 0)
    pub = [m for m in c.methods.values() if not m.native and m.code and not m.private and not m.static and m.name not in ("<init>", "<clinit>")]
    runs = {m.key: J.run(m) for m in pub}
    rep.count("public Java methods", len(pub))
    served = set()
    for m in pub:
        w = "java:" + m.name
        paths = runs[m.key]
        rep.count("bytecode paths", len(paths))
        natives = {e[1].split(".")[-1] for p in paths for e in p.events if e[0] == "call" and e[1].startswith(CLS + ".") and e[1].split(".")[-1] in nat}
        for o in ops:
            if o.name in natives:
                served.add(o.name)
                operation(rep, w, m, o, paths, H, key, Z)
        if kill.name in natives:
            destroy(rep, w, kill, paths, H, key, Z)
        elif m.name in ("close", "destroy"):
            rep.judge("releases", w, None if any(p.murky or p.end[0] == "cut" for p in paths) else False, "does not release the native context")
        for p in paths:
            for e in p.events:
                if e[0] == "put" and e[1:3] == key and kill.name not in natives:
                    rep.judge("handle-kept", w, False if e[3][0] == "const" else None, "replaces the context handle by %s" % jshow(e[3]))
                if e[0] == "call" and e[1] == CLS + "." + make.name:
                    rep.und("handle-kept", w, "creates another context")
    for o in ops:
        if o.name not in served:
            rep.bad("operation-served", "java:" + o.name, "no public method reaches the native operation")
    for m in c.methods.values():
        if m.name == "<init>" and m.code:
            construct(rep, J, m, make, key)
    pair = J.classes.get("CellsAndProofs")
    if pair is not None:
        carrier(rep, J, pair)


def calls(p, name):
    return [(i, e) for i, e in enumerate(p.events) if e[0] == "call" and e[1] == CLS + "." + name]


def handle_at(p, i, key, H):
    """the handle field's value just before event i"""
    v = H
    for e in p.events[:i]:
        if e[0] == "put" and e[1:3] == key:
            v = e[3]
    return v


def excluded(p, H, Z):
    return any(c in (("ne", H, Z), ("ne", Z, H)) for c in p.conds)


def isdead(p, H, Z):
    return any(c in (("eq", H, Z), ("eq", Z, H)) for c in p.conds)


def vague(p, H):
    return p.murky or p.end[0] == "cut" or any(mentions(c, H) and c[2] != ("const", 0) and c[1] != ("const", 0) for c in p.conds)


def operation(rep, w, m, o, paths, H, key, Z):
    n = len(argtypes(m.desc))
    for p in paths:
        cs = calls(p, o.name)
        for i, e in cs:
            args = e[2]
            h = handle_at(p, i, key, H)
            rep.judge("own-context", w, True if args[0] == H and h == H else (None if vague(p, H) or args[0][0] in ("call", "?", "unset") else False), "the native call is given %s as context" % jshow(args[0]))
            rep.judge("live-context", w, True if excluded(p, H, Z) else (None if vague(p, H) else False), "the native call can be reached although the context was destroyed")
            want = tuple(("param", k) for k in range(n))
            if args[1:] == want:
                rep.ok("arguments-forwarded", w)
            else:
                plain = all(x[0] in ("param", "const", "field") or altered(x) or reordered(p, i, x) for x in args[1:])
                rep.judge("arguments-forwarded", w, False if plain else None, "the native call is given (%s)" % ", ".join(jshow(x) for x in args[1:]))
            if p.end[0] == "return" and not p.caught:
                v = p.end[1]
                same = v == e[3]
                other = v is not None and (v[0] in ("const", "param", "field") or (v[0] == "xor" and e[3] in v))
                rep.judge("result-forwarded", w, True if same else (False if other and not branches_on(p, e[3], v) else None), "returns %s" % jshow(v))
        if not cs and p.end[0] == "return":
            rep.judge("operation-performed", w, None if p.murky else False, "returns %s without calling the library" % jshow(p.end[1]))
        if len(cs) == 1 and p.end[0] == "return" and p.caught and any(mentions(x[1], cs[0][1][3]) for x in p.caught):
            rep.judge("errors-propagate", w, None if p.murky else False, "an error raised by the library is caught and turned into %s" % jshow(p.end[1]))
        if isdead(p, H, Z):
            rep.judge("refused-when-destroyed", w, True if p.end[0] == "throw" else (None if vague(p, H) else False), "a destroyed context is not refused")


def reordered(p, i, x):
    """a copy whose entries were put into another order or overwritten before event i"""
    return any(e[0] == "call" and re.search(r"(^|\.)Arrays\.(sort|parallelSort|fill|setAll|parallelPrefix)$", e[1]) and e[2] and e[2][0] == x for e in p.events[:i])


def branches_on(p, r, v):
    """boolean result rebuilt from a branch on the native result"""
    return v[0] == "const" and any((c[0], c[1]) == ("ne" if v[1] else "eq", r) and c[2] == ("const", 0) for c in p.conds)


def destroy(rep, w, kill, paths, H, key, Z):
    for p in paths:
        cs = calls(p, kill.name)
        after = p.fields.get(key, H)
        if len(cs) > 1:
            rep.judge("released-once", w, None if p.murky else False, "the native context is released %d times on one path" % len(cs))
        for i, e in cs[:1]:
            rep.judge("own-context", w, True if e[2][0] == H else (None if vague(p, H) or e[2][0][0] in ("call", "?") else False), "releases %s" % jshow(e[2][0]))
            rep.judge("forgotten", w, True if after == Z else (None if vague(p, H) or after[0] not in ("field", "const") else False), "the handle is kept after its context was released: the next call uses freed memory")
        if not cs and p.end[0] == "return":
            rep.judge("released", w, True if isdead(p, H, Z) else (None if vague(p, H) else False), "a live context is not released")
            if after == Z and not isdead(p, H, Z):
                rep.judge("released", w, None if vague(p, H) else False, "the handle is dropped without releasing its context")
        if isdead(p, H, Z):
            rep.judge("idempotent", w, True if p.end[0] == "return" else (None if vague(p, H) else False), "destroying twice fails")
    if all(p.end[0] == "return" and not calls(p, kill.name) for p in paths):
        rep.bad("released", w, "the native context is never released")


def construct(rep, J, m, make, key):
    w = "java:new/%d" % len(argtypes(m.desc))
    ps = J.run(m)
    want = argtypes(make.desc)
    mine = argtypes(m.desc)
    for p in ps:
        if p.end[0] != "return":
            continue
        v = p.fields.get(key)
        if v is None:
            rep.judge("handle-kept", w, None if p.murky else False, "no context is created")
            continue
        if v[0] != "call" or v[1] != CLS + "." + make.name:
            rep.judge("handle-kept", w, None if p.murky or v[0] != "const" else False, "the handle is %s" % jshow(v))
            continue
        rep.ok("handle-kept", w)
        if mine == want:
            good = v[2] == tuple(("param", k) for k in range(len(mine)))
            plain = all(x[0] in ("param", "const", "field") or altered(x) for x in v[2])
            rep.judge("options-forwarded", w, True if good else (False if plain else None), "the context is created with (%s)" % ", ".join(jshow(x) for x in v[2]))
        else:
            rep.ok("default-options", w, "(%s)" % ", ".join(jshow(x) for x in v[2]))


def carrier(rep, J, c):
    """the pair of results: what is stored is what is given back"""
    for m in c.methods.values():
        if m.name == "<init>" and m.code and argtypes(m.desc) == ["[[B", "[[B"]:
            for p in J.run(m):
                if p.end[0] != "return":
                    continue
                for k, f in enumerate(("cells", "proofs")):
                    v = p.fields.get((("this",), f))
                    if f in c.fields:
                        rep.judge("results-carried", "java:CellsAndProofs." + f, True if v == ("param", k) else (False if v is None or v[0] in ("param", "const") else None), "holds %s" % jshow(v))
        for f in ("cells", "proofs"):
            if m.name.lower() == "get" + f and m.code and not m.static:
                for p in J.run(m):
                    if p.end[0] == "return":
                        v = p.end[1]
                        rep.judge("results-carried", "java:" + m.name, True if v == ("field", ("this",), f) else (False if v and v[0] in ("field", "const") else None), "returns %s" % jshow(v))
