from api import *
from terms import _raw
from P01 import dedup_source

CONFIGS = ["multi"]
THOROUGH_CONFIGS = ["multi", "single"]
RULE = ("every success outcome of every public operation entails, for each element of each byte input, that its canonical field decoding (32-byte big-endian, "
        "range checked) or its checked compressed-point decoding (on-curve and subgroup) succeeded; no result or condition contains an unchecked or reducing decode of caller bytes")
EXPLAIN = ("Abstract interpretation of the MIR of the four public operations; decoders of the blst bindings are distinguished by identity (checked vs unchecked). "
           "Universally quantified facts are established by loop summarisation.")
ASSUME = ["blst's from_compressed performs the on-curve and subgroup checks, Scalar::from_bytes_be rejects values >= the modulus"]

UNCHECKED = ("g1_dec_unchecked", "g1_decu", "g1_decu_unchecked", "g2_dec_unchecked", "g2_decu", "g2_decu_unchecked")


def run(rep, tier):
    for config in (CONFIGS if tier == "quick" else THOROUGH_CONFIGS):
        for which in METHODS:
            check(rep, config, which)


def check(rep, config, which):
    T = Table(config, which)
    w = "%s[%s]" % (T.where, config)
    rep.count("outcomes", len(T.outs))
    if which == "verify":
        need = [(T.p[0], "commitment", "g1"), (T.p[2], "cell", 64), (T.p[3], "proof", "g1")]
    elif which == "recover":
        need = [(T.p[1], "cell", 64)]
    else:
        need = [(T.p[0], "blob", 4096)]
    for o in T.ok:
        for p, nm, kind in need:
            wh = "%s:%s" % (w, nm)
            if F.holds(o.facts, Eq(tlen(p), Int(0))) is True:
                rep.ok("decoded-checked", wh, "empty")
                continue
            if kind == "g1":
                goal = forall(p, lambda e: IsV(App("g1_dec", e), 1))
            elif kind == 64:
                goal = forall(p, lambda e: canonical_chunks(e, 64))
            else:
                goal = canonical_chunks(p, 4096)
            r = F.holds(o.facts, goal) is True
            if not r and kind == "g1":
                r = via_dedup(o.facts, p)
            if r:
                rep.ok("decoded-checked", wh)
            else:
                if T.contains_opaque_check(o, p) and not partial(o.facts, p):
                    rep.und("decoded-checked", wh)
                else:
                    rep.bad("decoded-checked", wh, "succeeds without every %s having passed its checked decoding" % nm)
    # caller bytes are never read in another byte order
    for o in T.ok:
        for t in list(o.facts) + [o.v]:
            for x in apps(t, "fr_dec_le", "fr_decu_le"):
                if any(p in content(x) for p in T.p):
                    rep.bad("one-encoding", w, "a success outcome rests on the little-endian decoding %s of caller bytes" % brief(x, 80))
    # no unchecked decode, and no reduction, of caller bytes anywhere
    bad = {}
    n = 0
    for o in T.outs:
        for t in list(o.facts) + [o.v]:
            for x in subterms(t):
                if x.op != "app":
                    continue
                if x.a[0] in UNCHECKED and any(p in content(x.a[1]) for p in T.p):
                    bad[x.a[0]] = x
                elif "from_bendian" in str(x.a[0]) or "from_lendian" in str(x.a[0]) or str(x.a[0]).endswith("from_scalar") or "reduce" in str(x.a[0]):
                    # reductions are for hash outputs only
                    n += 1
                    if any(raw_bytes(y, T.p) for y in x.a[1:] if isinstance(y, T_)):
                        bad[x.a[0]] = x
    for k, x in bad.items():
        rep.bad("no-unchecked-decode", "%s:%s" % (w, k), "caller bytes are decoded by %s" % brief(x, 100))
    if not bad:
        rep.ok("no-unchecked-decode", w)


T_ = type(UNIT)


def raw_bytes(t, ps):
    """caller bytes reach t without passing through a hash or a checked decode"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in ps:
            return True
        if x.op == "app" and (str(x.a[0]).startswith("hash:") or x.a[0] in ("g1_dec", "fr_dec_be", "fr_dec_le")):
            continue
        if x.op == "len":
            continue
        st.extend(y for y in x.a if isinstance(y, T_))
        if x.op in ("phi", "lphi"):
            st.extend(phi_alts(x))
    return False


def via_dedup(fs, p):
    """all distinct elements of p decode"""
    for x in fs:
        if x.op == "all" and x.a[0].op == "len" and dedup_source(x.a[0].a[0]) is p:
            u = x.a[0].a[0]
            want = IsV(App("g1_dec", elem(u, _raw("bv", x.a[1]))), 1)
            if x.a[2] is want or (x.a[2].op == "and" and want in x.a[2].a):
                return True
    return False


def partial(fs, p):
    """decode facts about p exist (so the decode loop was understood)"""
    return any(y.op == "isv" and y.a[0].op == "app" and y.a[0].a[0] in ("g1_dec", "fr_dec_be") and mentions(y, p) for f in fs for y in subterms(f, False))
