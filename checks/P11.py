from api import *
import ffi, re
from ffi import run_fn, entry, opaque
from terms import _raw
import P21

CONFIGS = ["bind"]
RULE = ("per entry point, over every path: a context handed out is a fresh heap allocation given up by its owner; the destroy functions reclaim exactly the pointer they are given, once, "
        "drop it, and only when it is not null; no other entry point reclaims, drops or forms an exclusive reference to a context; an error message handed out is a fresh owned C string "
        "and its release function reclaims it once, only when not null; nothing reclaimed is forgotten")
EXPLAIN = "Abstract interpretation of every exported entry point of the C and JNI layers with ownership events (into_raw, from_raw, drop, forget, exclusive borrow of a raw pointer) recorded per path."

NEW = {"c": ["eth_kzg_das_context_new"], "java": ["Java_ethereum_cryptography_LibEthKZG_DASContextNew"]}
FREE = {"c": [("eth_kzg_das_context_free", 0, "Box"), ("eth_kzg_free_error_message", 0, "CString")],
        "java": [("Java_ethereum_cryptography_LibEthKZG_DASContextDestroy", 2, "Box")]}


def root(t):
    while True:
        if t.op == "param":
            return t
        if t.op == "app" and str(t.a[0]).split("::")[-1] in ("deref", "rawslice", "from_raw") or t.op in ("elem", "field", "mref", "pv", "mem") or (t.op == "app" and str(t.a[0]).startswith(("cast", "conv"))):
            t = next(x for x in t.a if isinstance(x, T))
            continue
        return None


def reclaims(r):
    return [x for x in r.recs("call") if re.search(r"(Box|CString|Arc|Rc|Vec|String)(::<.*>)?::from_raw(_parts)?$", x.name)]


def forgets(r):
    return r.recs("forget") + [x for x in r.recs("call") if re.search(r"mem::forget|ManuallyDrop(::<.*>)?::new|Box(::<.*>)?::leak|::into_raw$", x.name)]


def nonnull(rec, p):
    return any(x.op == "not" and "is_null" in str(x.a[0].a[0]) and root(x.a[0].a[1]) is p for x in rec.facts if x.op == "not" and x.a[0].op == "app") or \
        F.holds(rec.facts, Not(Eq(p, Int(0)))) is True


def run(rep, tier):
    P21.part(rep, "own-context", "live-context", "released", "released-once", "forgotten", "handle-kept")
    for lang in ("c", "java"):
        for nm in NEW[lang]:
            new(rep, lang, nm)
        for nm, pos, kind in FREE[lang]:
            free(rep, lang, nm, pos, kind)
        c = crate("bind", ffi.LANGS[lang][0])
        skip = {n for n in NEW[lang]} | {n for n, _, _ in FREE[lang]}
        k = 0
        for f in exported(c):
            nm = strip(f)
            if nm in skip:
                continue
            k += 1
            others(rep, lang, c, f)
        rep.count("other entry points (%s)" % lang, k)


def strip(f):
    from interp import strip_generics
    return strip_generics(f["name"]).split("::")[-1]


def exported(c):
    return [f for f in c.fns.values() if f["kind"] == "item" and f["crate"] == c.name and re.match(r"(eth_kzg_|Java_)", strip(f))]


def new(rep, lang, nm):
    c, f = entry(lang, nm)
    r = run_fn(c, f)
    w = "%s:%s" % (lang, nm)
    for s, v in r.outs:
        t = v
        while t.op == "app" and (str(t.a[0]).startswith(("conv", "cast", "trunc"))):
            if str(t.a[0]).startswith("trunc"):
                rep.bad("fresh-context", w, "the handle is truncated: %s" % brief(v))
            t = t.a[1]
        if t.op == "app" and str(t.a[0]).endswith("into_raw"):
            inner = t.a[1]
            if any(x.op == "app" and str(x.a[0]).split("::")[-1] in ("with_threads", "new") for x in subterms(inner)):
                rep.ok("fresh-context", w)
            else:
                rep.und("fresh-context", w, brief(v))
        elif t.op == "mref" or (t.op == "app" and t.a[0] == "deref") or (isint(t) and t.a[0] != 0):
            rep.bad("fresh-context", w, "the handle handed out is not a heap allocation given up by its owner: %s" % brief(v))
        elif any(x.op == "app" and str(x.a[0]) == "static" for x in subterms(t)):
            rep.bad("fresh-context", w, "the handle handed out is read from a variable shared by all calls: %s" % brief(v, 80))
        elif isint(t) and s.env.get(ffi.THROWN) is TRUE:
            rep.ok("fresh-context", w, "nothing is handed out on the path that throws")
        else:
            rep.und("fresh-context", w, brief(v))
    for x in reclaims(r):
        rep.bad("fresh-context", w, "the handle is reclaimed before it is handed out")


def free(rep, lang, nm, pos, kind):
    c, f = entry(lang, nm)
    r = run_fn(c, f)
    w = "%s:%s" % (lang, nm)
    p = r.args[pos]
    rc = [x for x in reclaims(r) if root(x.args[0]) is p]
    if not rc:
        odd = [x for x in r.recs("call") if any(root(a) is p for a in x.args if isinstance(a, T)) and not re.search(r"is_null|from_ptr$|::as_ref$|::as_mut$|::cast|::read$|::eq$|::ne$|::strlen$", x.name)]
        rep.judge("released", w, None if odd else False, "the pointer passed in is never reclaimed (leak)")
    for x in rc:
        if kind not in x.name:
            rep.bad("released", w, "reclaimed as %s, allocated as %s" % (x.name.split("::")[-2], kind))
        elif x.args[0] is not p and x.args[0].op == "elem":
            rep.bad("released", w, "reclaims %s" % brief(x.args[0]))
        else:
            rep.ok("released", w)
        rep.judge("null-is-ignored", w, True if nonnull(x, p) else False, "reclaims the pointer without having excluded null")
        twice = [y for y in rc if y is not x and y.facts >= x.facts and y.span != x.span]
        if twice:
            rep.bad("released-once", w, "the pointer is reclaimed twice on one path")
        else:
            rep.ok("released-once", w)
    for x in forgets(r):
        if any(root(a) is p for a in x.args if isinstance(a, T)):
            rep.bad("released", w, "the reclaimed value is forgotten, not dropped (%s)" % x.name.split("::")[-1])
    if rc:
        only = [y for y in frozenset.intersection(*[frozenset(x.facts) for x in rc]) if narrows(y, p)]
        if only and not any(x.extra for x in rc):
            rep.bad("released", w, "reclaimed only where %s: other pointers are leaked" % brief(only[0], 80))
        rep.judge("dropped", w, True if any(any(y is p for y in subterms(x.args[0])) for x in r.recs("drop")) else None, "no drop of the reclaimed value was recognised")


def narrows(x, p):
    """a condition on the pointer itself that excludes more than null"""
    if {y for y in subterms(x) if y.op == "param"} != {p} or any(y.op not in ("param", "int", "not", "eq", "lt", "lin") for y in subterms(x)):
        return False
    y = x.a[0] if x.op == "not" else x
    if x.op == "not" and y.op == "eq" and Int(0) in y.a:
        return False
    if F.holds(frozenset([Lt(Int(0), p)]), x) is True:
        return False                      # holds of every address
    return True


def others(rep, lang, c, f):
    r = run_fn(c, f)
    w = "%s:%s" % (lang, strip(f))
    hit = False
    for x in reclaims(r):
        p = root(x.args[0])
        if p is not None and p in r.args:
            rep.bad("borrowed-only", w, "takes ownership of (and so frees) memory that belongs to the caller: %s" % brief(x.args[0]))
            hit = True
    for x in r.recs("call"):
        if re.search(r"ptr::(read|drop_in_place|replace)|ptr::.*::(read|drop_in_place|replace)", x.name) and x.args and root(x.args[0]) is not None and x.args[0] is r.args[0]:
            rep.bad("borrowed-only", w, "moves or drops the context out of the caller's pointer")
            hit = True
    if not hit:
        rep.ok("borrowed-only", w)
    # the same message is not handed out and released
    for x in r.recs("call", r"CString(::<.*>)?::into_raw$"):
        rep.ok("message-owned", w)
    for s, v in r.outs:
        for x in subterms(v):
            if x.op == "app" and str(x.a[0]).split("::")[-1] in ("as_ptr",) and "CString" in str(x.a[0]):
                rep.bad("message-owned", w, "hands out a pointer into a string that is dropped on return")
            elif x.op == "app" and str(x.a[0]).split("::")[-1] in ("as_ptr", "as_mut_ptr") and made_here(x.a[1]):
                rep.bad("message-owned", w, "hands out a pointer into %s, which is dropped on return" % brief(x.a[1], 80))
    # exclusive reference to a shared context
    if not r.args:
        return
    ctx = r.args[0] if lang == "c" else (r.args[2] if len(r.args) > 2 else None)
    if ctx is not None and exclusive(f, r, c, ctx, lang):
        rep.bad("shared-context", w, "forms an exclusive reference to a context that other threads may be using")
    else:
        rep.ok("shared-context", w)


def made_here(t):
    """a string put together during the call, which nothing gives up"""
    while t.op in ("field", "vfield", "mref") or (t.op == "app" and str(t.a[0]).split("::")[-1] in ("deref", "as_bytes", "as_c_str", "unwrap")):
        t = next(x for x in t.a if isinstance(x, T))
    return t.op == "app" and str(t.a[0]).split("::")[-1] in ("new", "from", "into", "to_string", "format", "fmt") and any(x.op == "app" and x.a[0] == "fmt" for x in subterms(t)) \
        and not any(x.op == "app" and str(x.a[0]).split("::")[-1] in ("into_raw", "leak", "forget", "static") for x in subterms(t))


def exclusive(f, r, c, ctx, lang):
    """is `&mut *ctx` formed anywhere the context pointer flows (same function or helpers taking it by raw pointer)?"""
    for x in r.I.log:
        if x.kind == "mutborrow" and root(x.args[0]) is ctx:
            return True
    return False
