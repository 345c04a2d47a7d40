import farm
from gosym import Go
from core import Lost

CONFIGS = ["bind"]
RULE = ("on every path of every exported Go function that calls the C interface: a nil error is returned exactly where the call's status was found to be Ok, and then with the buffer the call filled; "
        "where it was not, a non-nil error carrying the message is returned and the message is released exactly once, after it was read; input buffers are known to have the documented length; "
        "output buffers are long enough; a context with a finalizer is kept alive past the call, and the finalizer releases exactly the context it was set on")
EXPLAIN = "The Go package is built into SSA form (with cgo, against the generated C header) and interpreted path by path; calls into C are events with symbolic results."
# entry point -> argument position -> (role, length)
SIZES = {
    "eth_kzg_blob_to_kzg_commitment": {1: ("in", 131072), 2: ("out", 48)},
}
OTHER = {"eth_kzg_das_context_new", "eth_kzg_das_context_free", "eth_kzg_free_error_message"}


def show(t, n=140):
    def s(v):
        if not isinstance(v, tuple):
            return str(v)
        if v[0] == "param":
            return str(v[1])
        if v[0] == "const":
            return str(v[1])
        if v[0] == "result":
            return v[2] + "(..)"
        if v[0] == "field":
            return s(v[1]) + "." + str(v[2])
        if v[0] == "deref":
            return s(v[1])
        if v[0] == "alloc":
            return "alloc"
        return "%s(%s)" % (v[0], ", ".join(s(x) for x in v[1:]))
    r = s(t)
    return r if len(r) <= n else r[:n] + "…"


def base(v):
    """the buffer an element address lies in, and its offset"""
    if v[0] == "elemaddr":
        return v[1], v[2]
    return None, None


def const_len(g, v):
    l = g.length(v)
    return l[1] if l[0] == "const" else None


def mentions(t, x):
    return t == x or (isinstance(t, tuple) and any(mentions(y, x) for y in t))


def allocs(t):
    if not isinstance(t, tuple):
        return set()
    return ({t} if t[:1] == ("alloc",) else set()).union(*[allocs(y) for y in t]) if t else set()


def reaches(p, t, x):
    """does t mention x, directly or through memory it points to"""
    seen, st = set(), [t]
    while st:
        v = st.pop()
        if mentions(v, x):
            return True
        for a in allocs(v) - seen:
            seen.add(a)
            st.extend(w for k, w in p.mem.items() if mentions(k, a))
    return False


def murky(t):
    return isinstance(t, tuple) and (t[:1] in (("unknown",), ("extract",)) or any(murky(y) for y in t))


def run(rep, tier):
    g = Go(farm.gossa(farm.dump("bind")))
    names = [n for n, f in g.fns.items() if f["exported"] and f["bbs"] and not f["synthetic"]]
    if not any("BlobToKZGCommitment" in n for n in names):
        raise Lost("the Go binding's BlobToKZGCommitment")
    fins = finalized(rep, g, names)
    for n in names:
        paths = g.run(n)
        short = n.split(".")[-1]
        rep.count("exported Go functions")
        if fins:
            for p in paths:
                release(rep, g.fns[n], short, p)
        calls = any(e[0] == "call" and e[1].startswith("C.eth_kzg") and e[1][2:] not in OTHER and "constant" not in e[1] for p in paths for e in p.events)
        if not calls:
            continue
        for p in paths:
            rep.count("paths")
            one(rep, g, g.fns[n], short, p, fins)


def finalized(rep, g, names):
    """is a finalizer that frees the context set; checks it"""
    any_f = False
    for n in names:
        for p in g.run(n):
            news = [e for e in p.events if e[0] == "call" and e[1] == "C.eth_kzg_das_context_new"]
            if not news:
                continue
            short = n.split(".")[-1]
            rep.count("context constructors")
            if p.end[0] != "return" or not p.end[1]:
                continue
            obj = p.end[1][0]
            inner = p.mem.get(obj)
            held = inner is not None and mentions(inner, news[0][3]) or any(k[0] == "fieldaddr" and k[1] == obj and v == news[0][3] for k, v in p.mem.items())
            rep.judge("context-held", short, bool(held) if len(news) == 1 else False, "the object returned does not hold the context that was created" if len(news) == 1 else "%d contexts are created" % len(news))
            fin = [e for e in p.events if e[0] == "call" and e[1] == "runtime.SetFinalizer"]
            frees = [e for e in p.events if e[0] == "call" and e[1] == "C.eth_kzg_das_context_free"]
            rep.judge("not-freed-while-held", short, not frees, "the context is released by its own constructor")
            for e in fin:
                any_f = True
                f = e[2][1]
                fn = f[1] if f[0] in ("fn", "closure") else None
                if fn not in g.fns or e[2][0] != obj:
                    rep.judge("finalizer-understood", short, None, show(f))
                    continue
                for q, r in g.apply(f, [("param", "object")], __import__("gosym").Path(), 0, {}):
                    fr = [x for x in q.events if x[0] == "call" and x[1] == "C.eth_kzg_das_context_free"]
                    good = len(fr) == 1 and fr[0][2][0][0] == "field" and mentions(fr[0][2][0], ("param", "object"))
                    guard = any(mentions(c, ("param", "object")) for c in q.facts)
                    rep.judge("finalizer-frees-once", short, True if good or (not fr and guard) else (None if fr and murky(fr[0][2]) else False),
                              "the finalizer releases the context %d times (%s)" % (len(fr), [show(x[2][0]) for x in fr]))
    return any_f


def release(rep, f, w, p):
    """a context released outside its finalizer is forgotten, or the finalizer is taken away"""
    fr = [e for e in p.events if e[0] == "call" and e[1] == "C.eth_kzg_das_context_free"]
    if not fr or not f["params"] or any(e[0] == "call" and e[1] == "C.eth_kzg_das_context_new" for e in p.events):
        return
    owner = ("param", f["params"][0]["n"])
    ours = [e for e in fr if e[2] and mentions(e[2][0], owner)]
    if not ours:
        return
    off = any(e[0] == "call" and e[1] == "runtime.SetFinalizer" and e[2][0] == owner for e in p.events)
    gone = any(mentions(k, owner) and v == ("nil",) for k, v in p.mem.items())
    rep.judge("released-once", w, True if gone and len(ours) == 1 else (None if murky(ours[0][2][0]) or p.end[0] == "cut" or off and len(ours) == 1 else False),
              "the context is released %s and its finalizer, which still holds it, releases it again" % ("here" if len(ours) == 1 else "%d times here" % len(ours)))


def one(rep, g, f, w, p, fins):
    if p.end[0] == "cut":
        rep.und("path-followed-to-its-end", w, "a loop")
        return
    cs = [(k, e) for k, e in enumerate(p.events) if e[0] == "call" and e[1].startswith("C.eth_kzg") and e[1][2:] not in OTHER and "constant" not in e[1]]
    frees = [(k, e) for k, e in enumerate(p.events) if e[0] == "call" and e[1] == "C.eth_kzg_free_error_message"]
    reads = [(k, e) for k, e in enumerate(p.events) if e[0] == "call" and e[1] in ("C.GoString", "C.GoStringN", "C.GoBytes")]
    if p.end[0] == "panic":
        rep.bad("no-panic", w, "a path ends in a panic: %s" % show(p.end[1]))
        return
    errs = [v for v, t in zip(p.end[1], f["results"]) if t == "error"]
    vals = [v for v, t in zip(p.end[1], f["results"]) if t != "error"]
    if not errs:
        rep.und("has-error-result", w, str(f["results"]))
        return
    err = errs[0]
    nil = True if err == ("nil",) else (None if murky(err) or err[0] in ("extract", "param", "result", "field") else False)
    if not cs:
        rep.judge("refusal-is-an-error", w, None if nil is None else not nil, "a call that never reaches the library returns a nil error")
        if frees:
            rep.bad("message-released-once", w, "a message is released on a path with no library call")
        return
    if len(cs) > 1:
        rep.und("one-library-call", w, "%d calls" % len(cs))
        return
    k, call = cs[0]
    res = call[3]
    name = call[1][2:]
    st = ("field", res, "status")
    msg = ("field", res, "error_msg")
    okf = p.facts.get(("bin", "==", ("const", 0), st))
    if okf is None:
        okf = p.facts.get(("bin", "==", st, ("const", 0)))
    if okf is None:
        other = [c for c in p.facts if mentions(c, st)]
        if p.facts.get(("bin", "==", ("const", 1), st)) is not None:
            okf = not p.facts[("bin", "==", ("const", 1), st)]
        elif any(mentions(c, msg) and ("nil",) in c for c in p.facts):
            okf = [v for c, v in p.facts.items() if mentions(c, msg) and ("nil",) in c][0]
        elif other:
            rep.und("status-tested", w, show(other[0]))
            return
    if okf is None:
        rep.judge("nil-error-only-on-ok", w, False if nil else (None if nil is None else False), "the status of %s does not decide whether an error is returned" % name)
        return
    if okf:
        rep.judge("ok-returns-nil-error", w, nil, "an error is returned although the call succeeded: %s" % show(err))
        rep.judge("message-released-once", w, not any(e[2] and e[2][0] == msg for _, e in frees) or None, "a null message is released after success")
    else:
        rep.judge("nil-error-only-on-ok", w, None if nil is None else not nil, "nil is returned although the status of %s was not Ok" % name)
        mine = [(j, e) for j, e in frees if e[2][0] == msg]
        rep.judge("message-released-once", w, len(mine) == 1, "the error message is released %d times on a path where the call failed" % len(mine))
        if mine:
            late = [j for j, e in reads if e[2] and e[2][0] == msg and j > mine[0][0]]
            rep.judge("message-read-before-release", w, not late, "the message is read after it was released")
        carried = murky(err) or err[0] == "result"
        rep.judge("error-carries-message", w, True if reaches(p, err, msg) else (None if carried else False), "the error returned is %s, not the library's message" % show(err))
    # memory handed to the call
    spec = SIZES.get(name)
    if spec is None:
        rep.und("buffers-understood", w, "no sizes known for " + name)
    for a, (role, n) in (spec or {}).items():
        if a >= len(call[2]):
            rep.und("buffers-understood", w, "argument %d" % a)
            continue
        buf, off = base(call[2][a])
        if buf is None:
            rep.und("buffers-understood", w, show(call[2][a]))
            continue
        if off != ("const", 0):
            rep.judge("whole-buffer-passed", w, False if off[0] == "const" else None, "the call is given the buffer from offset %s on" % show(off))
        L = g.length(buf)
        if role == "in":
            eq = L == ("const", n) or p.facts.get(("bin", "==", ("const", n), L)) is True or p.facts.get(("bin", "==", L, ("const", n))) is True
            rep.judge("input-length-checked", "%s:%d" % (w, a), True if eq else (None if murky(buf) else False), "the library reads %d bytes of a buffer whose length is not known to be %d on this path" % (n, n))
            rep.judge("caller-buffer-passed", "%s:%d" % (w, a), True if buf[0] == "param" else (None if murky(buf) or mentions(buf, ("param", f["params"][-1]["n"])) or buf[0] == "makeslice" else False), "the input given to the library is %s" % show(buf))
        else:
            have = L[1] if L[0] == "const" else None
            rep.judge("output-buffer-size", "%s:%d" % (w, a), (have >= n if isinstance(have, int) else None), "the library writes %d bytes into a buffer of %s" % (n, have))
            if okf:
                ret = vals[0] if vals else None
                rl = const_len(g, ret) if ret is not None else None
                same = ret == buf or (ret is not None and ret[0] == "slice" and ret[1] in (buf, buf[1] if buf[0] == "slice" else None) and ret[2] in (None, ("const", 0)))
                rep.judge("returns-what-was-written", w, True if same and rl == n else (None if ret is not None and murky(ret) else False), "returns %s (length %s)" % (show(ret) if ret is not None else None, rl))
    # the context
    ctx = call[2][0]
    owner = f["params"][0]["n"] if f["params"] else None
    rep.judge("callers-context", w, True if ctx[0] == "field" and mentions(ctx, ("param", owner)) else (None if murky(ctx) else False), "the call is made on %s" % show(ctx))
    if fins:
        alive = any(e[0] == "call" and e[1] == "runtime.KeepAlive" and e[2] and e[2][0] == ("param", owner) for e in p.events[k + 1:])
        rep.judge("kept-alive", w, alive, "nothing keeps the receiver reachable during the library call: its finalizer may free the context meanwhile")
