from api import *
import ffi, re
from callgraph import Graph, path_text
from interp import strip_generics

CONFIGS = ["bind"]
RULE = ("no function reachable from a public operation reads a clock, an entropy source, the environment, the file system, the network or a thread identity, prints, touches a static or thread-local "
        "that can change, turns an address into a number, or mutates the context; the context's type contains no interior mutability outside its thread pool; operations take the context by shared reference")
EXPLAIN = "Call-graph reachability over the monomorphised MIR of the library (and of the C, JNI and N-API layers on top of it) against an effect table for external functions, plus a walk of the context's type graph."
ASSUME = ["external functions not in the effect table are pure", "rayon's pool affects scheduling only"]
EFFECTS = [
    (r"^(std|core)::time::(Instant|SystemTime)", "a clock"), (r"^(rand|rand_core|getrandom|fastrand|rand_chacha)::|::OsRng|thread_rng|::random(_range|_bool)?(::|$)|Field>?::random", "randomness"),
    (r"RandomState.*(hash_one|build_hasher)|BuildHasher::hash_one|DefaultHasher", "a randomly keyed hash"),
    (r"^std::env::", "the environment"), (r"^std::fs::|^std::path::Path::(exists|is_file|read)", "the file system"), (r"^std::net::", "the network"), (r"^std::process::", "the process"),
    (r"^std::io::(_print|_eprint|stdio|Std)|::_print$|::_eprint$", "the console"), (r"^std::thread::(current|sleep|park|yield_now|spawn|Builder)|thread::LocalKey|current_thread_index", "threads or thread-local state"),
    (r"std::sync::(Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|mpsc)|once_cell::|lazy_static|std::sync::atomic::Atomic\w*(::<[^>]*>)?::(store|swap|fetch|compare)|parking_lot::", "state shared between calls"),
]
HASHITER = re.compile(r"collections::(hash_(set|map)|hash::(set|map))::(IntoIter|Iter|Keys|Values|IntoKeys|IntoValues|Drain|Union|Difference|Intersection)")
SOFT = re.compile(r"BuildHasher::hash_one|DefaultHasher|Hasher")
MUTCELL = re.compile(r"::(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Atomic\w*)$|^std::sync::atomic::Atomic")


def effect(name, path):
    for pat, what in EFFECTS:
        if re.search(pat, path) or re.search(pat, name):
            return what
    return None


def run(rep, tier):
    c = crate("bind", "rust_eth_kzg")
    g = Graph(c)
    for op in METHODS:
        f = das_fn(c, METHODS[op])
        judge(rep, "rust:" + METHODS[op], c, g, [f])
    ctxtype(rep, c)
    for lang in ffi.LANGS:
        cc = crate("bind", ffi.LANGS[lang][0])
        gg = Graph(cc)
        for op in ffi.LANGS[lang][1]:
            _, f = ffi.entry(lang, ffi.LANGS[lang][1][op][0])
            judge(rep, "%s:%s" % (lang, op), cc, gg, [f], lang)
    for op in METHODS:
        f = das_fn(c, METHODS[op])
        t = c.types[f["locals"][1][0]]
        mut = t.get("m") or t.get("mut") or t["s"].startswith("&mut") or re.match(r"&('\w+ )?mut ", t["s"])
        rep.judge("shared-context", METHODS[op], not mut if t["k"] == "ref" else None, "the operation takes its context exclusively: %s" % t["s"])


def judge(rep, w, c, g, roots, lang=None):
    seen, exts, statics = g.reach(roots)
    rep.count("functions reached", len(seen))
    rep.count("external functions reached", len(exts))
    bad = False
    for i, p in exts.items():
        e = c.exts[i]
        if HASHITER.search(e["name"]):
            k = "%s:%s" % (w, strip_generics(p[-2]).split("::")[-1] if len(p) > 1 else "?")
            if re.search(r"::collect::<std::(vec::Vec|boxed::Box<\[)", e["name"]) or re.search(r"<std::vec::Vec<.*> as .*(FromIterator|Extend)", e["name"]):
                sorts = any("sort" in (c.exts.get(j) or c.fns.get(j) or {"name": ""})["name"] for f in g.byname.get(p[-2], []) for j in g.out(f)[0]) if len(p) > 1 else True
                if not sorts:
                    bad = True
                rep.judge("no-effects", k, None if sorts else False, "a list is filled in the order of a randomly keyed hash table: %s" % path_text(p))
            elif not re.search(r"::(all|any|count|len|sum|min|max|size_hint|collect::<std::collections::)", e["name"]) and "IntoIterator" not in e["name"]:
                rep.und("no-effects", k, "a randomly keyed hash table is iterated: %s" % path_text(p[-3:]))
        # the foreign runtimes' own glue may do as it pleases
        if lang in ("java", "node") and e["crate"] in ("napi", "napi_sys", "jni", "jni_sys"):
            continue
        what = effect(e["name"], e["path"])
        if what is None:
            continue
        if only_local(c, g, p, e):
            rep.und("no-effects", w, "%s on a local: %s" % (what, path_text(p[-3:])))
            continue
        if "glue" in p[-1] or any("napi" in x for x in p[:-1]):
            continue
        bad = True
        rep.bad("no-effects", "%s:%s" % (w, strip_generics(e["path"])), "depends on %s: %s" % (what, path_text(p)))
    for i, p in seen.items() if lang is None else ():
        f = c.fns.get(i)
        if f is not None and exposes(f):
            bad = True
            rep.bad("no-effects", "%s:%s" % (w, strip_generics(f["name"])), "depends on where its data happens to lie in memory: a pointer is turned into a number (%s)" % path_text(p))
    for s, p in statics.items():
        t = mutable_static(c, s)
        if t:
            bad = True
            rep.bad("no-shared-state", "%s:%s" % (w, s), "uses the mutable static %s: %s" % (s, path_text(p)))
    if not bad:
        rep.ok("no-effects", w, "%d functions, %d external" % (len(seen), len(exts)))


def exposes(f):
    """a pointer-to-integer cast in the body"""
    def walk(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == "cast" and isinstance(x[1], str) and x[1].startswith("PointerExpose"):
                return True
            return any(walk(y) for y in x)
        return False
    return any(walk(b["s"]) for b in f.get("bbs") or [])


def only_local(c, g, p, e):
    """a lock or atomic that no static holds cannot carry anything from one call to the next"""
    if not re.search(r"std::sync::(Mutex|RwLock|atomic|mpsc)|DefaultHasher|hash_one|build_hasher", e["path"] + e["name"]):
        return False
    caller = p[-2] if len(p) > 1 else None
    for f in g.byname.get(caller, []):
        if g.out(f)[1]:
            return False
    return not any(g.out(f)[1] for x in p[:-1] for f in g.byname.get(x, []))


def mutable_static(c, s):
    return "::" in s or s in c.statics or True


def ctxtype(rep, c):
    root = adt(c, "rust_eth_kzg::DASContext")
    seen, st, n = set(), [(root, "DASContext")], 0
    while st:
        t, path = st.pop()
        key = t["s"] + t.get("path", "")
        if key in seen:
            continue
        seen.add(key)
        n += 1
        p = t.get("path", "")
        if p.endswith("ThreadPool"):
            continue
        if MUTCELL.search(p):
            rep.bad("immutable-context", path, "the context holds interior mutability: %s" % t["s"])
            return
        for a in t.get("args", []) or []:
            if isinstance(a, int):
                st.append((c.types[a], path))
        if t["k"] in ("array", "slice", "ref", "ptr") and isinstance(t.get("e"), int):
            st.append((c.types[t["e"]], path))
        if t["k"] == "tuple":
            for a in t.get("es", t.get("args", [])) or []:
                if isinstance(a, int):
                    st.append((c.types[a], path))
        if t["k"] == "adt" and t.get("crate") not in ("std", "core", "alloc"):
            for v in t.get("vs") or []:
                for nm, ty in v["f"]:
                    st.append((c.types[ty], path + "." + nm))
    rep.ok("immutable-context", "DASContext", "%d types" % n)
