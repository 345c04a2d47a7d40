from api import *
import farm, re
from callgraph import Graph, path_text

CONFIGS = ["multi", "single"]
RULE = ("the outcome tables of the four public operations are the same in the build with and without the multi-threading feature: same outcomes, same path facts, same values, up to the names of "
        "loop-carried intermediates and the order of commutative operands; and no result of the multi-threaded build depends on the pool or the number of threads, and no parallel consumer whose result is that of whichever thread finishes first is reached")
EXPLAIN = ("Both feature configurations are type-checked and abstractly interpreted separately; tables are compared by canonical digest. A difference is reported only where the two tables "
           "diverge in terms the interpreter fully understands.")
ASSUME = ["rayon's indexed parallel iterators deliver the elements their sequential counterparts do"]
COMM = ("add", "mul", "eq", "and", "or", "opBitAnd", "opBitOr", "opBitXor", "min", "max")
_dig = {}


def dig(t):
    r = _dig.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _dig:
            st.pop()
            continue
        need = [y for y in x.a if isinstance(y, T) and y not in _dig]
        if x.op not in ("lphi", "phi") and need:
            st.extend(need)
            continue
        st.pop()
        if x.op in ("lphi", "phi"):
            r = hash(("loopvar", len(x.a)))
        elif x.op == "idx":
            r = hash("idx")
        elif x.op == "lin":
            r = hash(("lin", tuple(sorted(_dig[y] if isinstance(y, T) else hash(y) for y in x.a))))
        else:
            hs = [_dig[y] if isinstance(y, T) else hash(str(y)) for y in x.a]
            if x.op in COMM:
                hs.sort()
            elif x.op == "app" and x.a[0] in COMM:
                hs = hs[:1] + sorted(hs[1:])
            r = hash((x.op, tuple(hs)))
        _dig[x] = r
    return _dig[t]


def fdig(fs):
    return hash(frozenset(dig(x) for x in fs))


def diverge(x, y, out, seen, depth=0):
    """collects the topmost pairs where two terms differ in head"""
    if (x, y) in seen or dig(x) == dig(y) or len(out) > 20:
        return
    seen.add((x, y))
    if x.op != y.op or len(x.a) != len(y.a) or (x.op == "app" and x.a[0] != y.a[0]):
        out.append((x, y))
        return
    xs = [a for a in x.a if isinstance(a, T)]
    ys = [a for a in y.a if isinstance(a, T)]
    if [a for a in x.a if not isinstance(a, T)] != [a for a in y.a if not isinstance(a, T)] and x.op not in ("lphi", "phi", "idx"):
        out.append((x, y))
        return
    if x.op in COMM or (x.op == "app" and x.a[0] in COMM):
        dy = {dig(b) for b in ys}
        dx = {dig(a) for a in xs}
        xs = [a for a in xs if dig(a) not in dy]
        ys = [b for b in ys if dig(b) not in dx]
        if len(xs) != len(ys):
            out.append((x, y))
            return
    for a, b in zip(xs, ys):
        diverge(a, b, out, seen, depth + 1)


def plain(t):
    return not any(z.op in ("phi", "lphi", "fold", "self") or (z.op == "app" and z.a[0] not in KNOWN_APPS and not str(z.a[0]).startswith(("str::", "mut"))) for z in subterms(t))


def run(rep, tier):
    for op in METHODS:
        A, B = Table("multi", op), Table("single", op)
        w = METHODS[op]
        rep.count("outcomes compared", len(A.outs) + len(B.outs))
        a = {(dig(o.v), fdig(o.facts)) for o in A.outs}
        b = {(dig(o.v), fdig(o.facts)) for o in B.outs}
        if a == b:
            rep.ok("same-table", w, "%d outcomes" % len(a))
        else:
            compare(rep, w, A, B)
        race(rep, w, A.c, op)
        # thread count and pool never reach a result
        hit = [x for o in A.outs for t in list(o.facts) + [o.v] for x in subterms(t) if x.op == "param" and x.a[0] in ("pool", "num_threads")]
        if hit:
            rep.bad("independent-of-threads", w, "a result or a path of the operation depends on the thread pool")
        else:
            cur = [x for o in A.outs for t in list(o.facts) + [o.v] for x in subterms(t) if x.op == "app" and "thread" in str(x.a[0])]
            rep.judge("independent-of-threads", w, None if cur else True, "uses the current number of threads")


ANYWAY = re.compile(r"(^|::|>)(find_any|position_any|find_map_any|try_for_each|try_for_each_with|try_reduce|try_reduce_with|try_fold)(::<|$)")


def race(rep, w, c, op):
    """parallel consumers whose result is whichever thread finishes first"""
    g = Graph(c)
    seen, exts, _ = g.reach([das_fn(c, METHODS[op])])
    rep.count("functions reached", len(seen))
    hit = None
    for i, p in list(exts.items()) + [(j, q) for j, q in seen.items()]:
        e = c.exts.get(i) or c.fns.get(i)
        n = e["name"]
        if "rayon" not in n and "rayon" not in e.get("crate", ""):
            continue
        if ANYWAY.search(n):
            hit = hit or (p, "takes whichever match is found first")
        m = re.search(r"ParallelIterator>?::collect::<std::result::Result<.*, ([\w:]+)>>$", n)
        if m and carries(c, m.group(1)):
            hit = hit or (p, "reports whichever error is found first")
    if hit:
        rep.bad("no-race-for-the-result", w, "the multi-threaded build %s: %s" % (hit[1], path_text(hit[0])))
    else:
        rep.ok("no-race-for-the-result", w)


def carries(c, name):
    """does this error type hold data, so that two errors can differ?"""
    for t in c.types:
        if t["k"] == "adt" and t.get("path", "").split("::")[-1] == name.split("::")[-1]:
            vs = t.get("vs") or []
            return len(vs) > 1 or any(v["f"] for v in vs)
    return True


SEM = {"g1_dec", "g2_dec", "g1_dec_unchecked", "g2_dec_unchecked", "fr_dec_be", "fr_dec_le", "is_identity", "msm", "final_exp", "miller", "pairing", "hash:Sha256", "lt", "eq"}


def heads(da, db):
    """two conditions, one of each build, that are the same but for the operation applied or a constant"""
    def h(x):
        return x.a[0] if x.op == "app" else x.op
    for x in sorted(da, key=lambda t: len(show(t)))[:12]:
        for y in sorted(db, key=lambda t: len(show(t)))[:12]:
            out = []
            diverge(x, y, out, set())
            if out and len(out) <= 3 and all((isint(p) and isint(q)) or (h(p) in SEM and h(q) in SEM and h(p) != h(q) and [z for z in p.a[1:]] == [z for z in q.a[1:]]) for p, q in out):
                return out[0]
    return None


def compare(rep, w, A, B):
    ka = {(o.kind, tuple(o.names)) for o in A.outs}
    kb = {(o.kind, tuple(o.names)) for o in B.outs}
    if ka != kb:
        d = ka ^ kb
        side = "multi-threaded" if d & ka else "single-threaded"
        rep.bad("same-table", w, "only the %s build can end with %s" % (side, sorted(d)[0]))
        return
    unclear = False
    for kind, names in sorted(ka):
        xs = [o for o in A.outs if (o.kind, tuple(o.names)) == (kind, names)]
        ys = [o for o in B.outs if (o.kind, tuple(o.names)) == (kind, names)]
        va, vb = {dig(o.v): o for o in xs}, {dig(o.v): o for o in ys}
        oa, ob = [va[k] for k in va if k not in vb], [vb[k] for k in vb if k not in va]
        if len(oa) == len(ob) == 1:
            out = []
            diverge(oa[0].v, ob[0].v, out, set())
            if out and all(plain(x) and plain(y) for x, y in out):
                rep.bad("same-table", w, "the two builds return different values: %s in the multi-threaded build, %s in the single-threaded one" % (brief(out[0][0], 120), brief(out[0][1], 120)))
                return
            unclear = True
        elif oa or ob:
            unclear = True
        fa, fb = {dig(x): x for o in xs for x in o.facts}, {dig(x): x for o in ys for x in o.facts}
        da, db = [fa[k] for k in fa if k not in fb], [fb[k] for k in fb if k not in fa]
        if kind == "ok" and (da or db):
            if all(plain(x) for x in da + db):
                rep.bad("same-table", w, "success has different conditions in the two builds: %s" % brief((da + db)[0], 160))
                return
        hit = heads(da, db)
        if hit:
            rep.bad("same-table", w, "the outcome %s depends on %s in the multi-threaded build where the single-threaded one has %s" % ("/".join([kind] + list(names)), brief(hit[0], 80), brief(hit[1], 80)))
            return
        unclear = unclear or da or db
    rep.und("same-table", w, "the tables differ in terms the interpreter does not decide")
