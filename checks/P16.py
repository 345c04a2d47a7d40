from api import *
import re
import ffi
from ffi import run_fn, entry
from terms import _raw, subst
import P21

CONFIGS = ["bind"]
RULE = ("every piece of parallel work reachable from a public operation is started inside the context's own pool; the pool is built with 1, n or 0 (library default) threads for the settings "
        "single, n and default; the C, Java and Node constructors pass the caller's thread count and precomputation choice through unchanged; no global pool is configured")
EXPLAIN = "Abstract interpretation of the operations and constructors; parallel-iterator creation, pool construction and pool entry are recorded with the call stack and path facts."
CTORS = {"c": ("eth_kzg_das_context_new", 0, 1), "java": ("Java_ethereum_cryptography_LibEthKZG_DASContextNew", 2, 3)}


def run(rep, tier):
    P21.part(rep, "options-forwarded")
    for op in METHODS:
        T = Table("bind", op)
        rec = [r for r in T.r.I.log if r.kind == "par"]
        rep.count("parallel regions", len(rec))
        w = METHODS[op]
        for r in rec:
            inside = any(s[0] == "install" for s in r.stack)
            fn = next((s[1] for s in reversed(r.stack) if s[0] != "install"), "?")
            if inside:
                rep.ok("inside-own-pool", "%s:%s" % (w, short(fn)))
            else:
                rep.bad("inside-own-pool", "%s:%s" % (w, short(fn)), "parallel work (%s) is started outside the context's pool, on the global one" % r.name)
        for r in T.r.recs("call"):
            if r.name == "ThreadPool::install":
                p = r.args[0]
                own = any(x.op == "param" and x.a[0] == "pool" for x in subterms(p))
                rep.judge("own-pool", w, True if own else None, brief(p))
            if re.match(r"^std::thread::(spawn|scope|scoped|Builder)", r.name):
                rep.bad("own-pool", w, "an operation works on threads of its own (%s), not the pool's" % r.name)
            if "build_global" in r.name or r.name.endswith("ThreadPoolBuilder::<S>::build"):
                rep.bad("own-pool", w, "an operation builds a pool: %s" % r.name)
    pool(rep)
    for lang, (nm, ip, it) in CTORS.items():
        ctor(rep, lang, nm, ip, it)
    node(rep)


def short(n):
    from interp import strip_generics
    return "::".join(strip_generics(n).split("::")[-2:])


def pool(rep):
    c = crate("bind", "rust_eth_kzg")
    _, I = context(c, "bind")
    w = "with_threads"
    tc = [t for t in c.types if t.get("k") == "adt" and t["path"].endswith("::ThreadCount")]
    names = [v["n"] for v in tc[0]["vs"]] if tc else []
    recs = [r for r in I.log if r.kind == "call" and "num_threads" in r.name.split("::")[-1]]
    p = Param("num_threads")
    got = {}
    for r in recs:
        arg = r.args[-1]
        vs = [i for i in range(len(names)) if F.holds(r.facts, IsV(p, i, len(names))) is True]
        if len(vs) == 1:
            got.setdefault(vs[0], set()).add(arg)
        else:
            rep.und("pool-size", w, brief(arg))
    want = {"Single": Int(1), "Multi": field(p, 0, names.index("Multi")) if "Multi" in names else None, "SensibleDefault": Int(0)}
    for i, n in enumerate(names):
        if n not in want:
            continue
        k = "%s:%s" % (w, n)
        if i not in got:
            rep.und("pool-size", k, "no pool construction was recognised")
        elif got[i] == {want[n]}:
            rep.ok("pool-size", k)
        else:
            bad = [x for x in got[i] if x is not want[n]]
            clear = all(not any(y.op in ("phi", "lphi") or (y.op == "app" and y.a[0] not in KNOWN_APPS) for y in subterms(x)) for x in bad)
            rep.judge("pool-size", k, False if clear else None, "the pool gets %s threads, the caller asked for %s" % (brief(bad[0], 60), brief(want[n], 40)))
    for r in I.log:
        if r.kind == "call" and "build_global" in r.name:
            rep.bad("own-pool", w, "configures the process-wide pool")
    built = [r for r in I.log if r.kind == "call" and r.name.endswith("::build") and "ThreadPool" in r.name]
    rep.judge("own-pool", w, True if built else None, "pool construction not recognised")


def threads_of(a):
    """the thread-count argument as (variant, payload)"""
    if a.op == "agg" and str(a.a[0]).endswith("ThreadCount"):
        return a.a[1], (a.a[2] if len(a.a) > 2 else None)
    return None, None


def precomp_of(a):
    if a.op == "agg" and str(a.a[0]).endswith("UsePrecomp"):
        return a.a[1] == 0
    return None


def peel(t):
    while t.op == "trunc" or (t.op == "vfield" and t.a[0].op == "app" and "try_from" in str(t.a[0].a[0])) or (t.op == "app" and str(t.a[0]).startswith("conv")):
        t = next(x for x in t.a if isinstance(x, T))
        if t.op == "app" and "try_from" in str(t.a[0]):
            t = t.a[1]
    return t


def clear_of(n):
    return not any(y.op in ("phi", "lphi") or (y.op == "app" and y.a[0] not in KNOWN_APPS) for y in subterms(n))


def variant_name(r, v):
    c = crate("bind", "rust_eth_kzg")
    tc = [t for t in c.types if t.get("k") == "adt" and t["path"].endswith("::ThreadCount")]
    return tc[0]["vs"][v]["n"] if tc and v < len(tc[0]["vs"]) else None


def open_to(fs, pre, val):
    """are the path's facts, all of them plain, compatible with the caller's choice being val?"""
    core = pre.a[0] if pre.op == "not" else pre
    v = Not(val) if pre.op == "not" else val
    rest = set()
    for x in fs:
        if not clear_of(x):
            if any(y is core for y in subterms(x)):
                return False
            continue
        y = subst(x, {core: v})
        if y is FALSE:
            return False
        rest.add(y)
    return not any(F.holds(frozenset(rest - {x}), x) is False for x in rest)


def passes(rep, w, recs, pre, thr):
    if not recs:
        rep.und("forwarded", w, "no constructor call was recognised")
    seen = set()
    for r in recs:
        v, n = threads_of(r.args[1]) if len(r.args) > 2 else (None, None)
        fixed = {"Single": 1, "SensibleDefault": 0}.get(variant_name(r, v)) if v is not None and n is None else None
        if fixed is not None:
            # a setting that means one particular count
            h = F.holds(r.facts, Eq(thr, Int(fixed)))
            plain = all(clear_of(x) for x in atoms(r.facts) if any(y is thr for y in subterms(x)))
            rep.judge("threads-forwarded", w, True if h is True else (False if h is False or plain else None), "the library is asked for %s threads where the caller's count need not be that" % ("one" if fixed else "the default number of"))
        elif n is None:
            rep.und("threads-forwarded", w, brief(r.args[1]) if len(r.args) > 1 else "")
        elif peel(n) is thr:
            rep.ok("threads-forwarded", w)
        else:
            clear = not any(y.op in ("phi", "lphi") or (y.op == "app" and y.a[0] not in KNOWN_APPS) for y in subterms(n))
            rep.judge("threads-forwarded", w, False if clear else None, "the library is asked for %s threads" % brief(n, 60))
        yes = precomp_of(r.args[2]) if len(r.args) > 2 else None
        on = F.holds(r.facts, pre) if pre.op != "param" else (True if pre in r.facts else None)
        off = F.holds(r.facts, Not(pre)) if pre.op != "param" else (True if Not(pre) in r.facts else None)
        if yes is None or (on is not True and off is not True):
            # a constant choice that ignores the caller
            if yes is not None and len({precomp_of(x.args[2]) for x in recs}) == 1 and not any(any(y is p for y in subterms(x)) for x in r.facts for p in subterms(pre) if p.op == "param"):
                rep.bad("precomputation-forwarded", w, "the precomputation choice is always %s" % ("yes" if yes else "no"))
            elif yes is not None and open_to(r.facts, pre, FALSE if yes else TRUE):
                rep.bad("precomputation-forwarded", w, "precomputation can be %s when the caller asked for the opposite" % ("on" if yes else "off"))
            else:
                rep.und("precomputation-forwarded", w, brief(r.args[2]) if len(r.args) > 2 else "")
        else:
            rep.judge("precomputation-forwarded", w, yes == (on is True), "precomputation is %s when the caller asked for the opposite" % ("on" if yes else "off"))


def ctor(rep, lang, nm, ip, it):
    c, f = entry(lang, nm)
    r = run_fn(c, f)
    recs = [x for x in r.recs("call") if ffi.op_of(x.name) in ("with_threads", "new")]
    pre = r.args[ip] if lang == "c" else Not(Eq(r.args[ip], Int(0)))
    passes(rep, "%s:%s" % (lang, nm), recs, pre, r.args[it])


def node(rep):
    try:
        c, f = entry("node", "DASContextJs::create")
    except Lost:
        rep.und("forwarded", "node:create", "no such factory")
        return
    r = run_fn(c, f)
    recs = [x for x in r.recs("call") if ffi.op_of(x.name) in ("with_threads", "new")]
    o = [t for t in c.types if t.get("k") == "adt" and t["path"].endswith("DASContextOptions")]
    if not o:
        rep.und("forwarded", "node:create", "options type not found")
        return
    fl = [n for n, _ in o[0]["vs"][0]["f"]]
    if "use_precomp" not in fl or "num_threads" not in fl:
        rep.und("forwarded", "node:create", "options fields renamed")
        return
    pre, thr = field(r.args[0], fl.index("use_precomp")), field(r.args[0], fl.index("num_threads"))
    passes(rep, "node:create", recs, pre, thr)
