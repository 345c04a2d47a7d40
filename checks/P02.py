from api import *
from terms import _raw
from P01 import is_hash, dedup_source, pairing_facts, evidence_terms, empty_inputs, NAMES

CONFIGS = ["multi"]
THOROUGH_CONFIGS = ["multi", "single"]
RULE = ("the argument of the hash from which the batching weights derive is decomposed into its byte pieces; it must absorb, for every entry of the batch and "
        "in a full-width encoding, the commitment (or the de-duplicated commitments plus each entry's row number), the cell index, all 64 evaluations and the proof, "
        "together with the domain separator and both counts; de-duplication must be keyed by the whole commitment and record its position")
EXPLAIN = ("Abstract interpretation of the verification entry point yields the hash input as a closed term (byte pieces under loop binders); the rule is "
           "syntactic on that normal form. Pieces the interpreter cannot decompose make the obligation undecided.")
ASSUME = ["SHA-256 is collision resistant (cryptographic strength is out of scope)"]


def pieces(t, bs=()):
    """[(leaf, binders)] of a byte string"""
    out = []
    if t.op == "cat":
        for x in t.a:
            out += pieces(x, bs)
    elif t.op in ("flat", "gen") and recut(t):
        src, s, whole = recut(t)
        out += pieces(src, bs if whole else bs + (("rest", s),))
    elif t.op in ("flat", "gen"):
        out += pieces(t.a[2], bs + ((t.a[0], t.a[1]),))
    elif t.op == "arr" and not all(isint(x) for x in t.a):
        for x in t.a:
            out += pieces(x, bs)
    elif t.op == "fold":
        alts = t.a[3].a[1:] if t.a[3].op == "app" else ()
        per = [pieces(x, bs + ((t.a[0], t.a[1]),)) for x in alts]
        leaves = [{x for x, b in p if marks(b) is True} for p in per]
        for i, p in enumerate(per):
            for x, b in p:
                if all(x in l for l in leaves):
                    out.append((x, b))
                else:
                    # absorbed on some iterations only: what the others absorb instead must be known to be conclusive
                    rest = [y for j, q in enumerate(per) if len(per) == 1 or x not in leaves[j] for y, _ in q]
                    out.append((x, b + (("some", not any(oddleaf(y) for y in rest)),)))
        out += pieces(t.a[2], bs)
    elif t.op == "phi" or t.op == "lphi":
        out.append((t, bs))
    elif t.op == "self":
        pass
    else:
        out.append((t, bs))
    return out


def recut(t):
    """(sequence, chunk size, is all of it there) of the pieces of a sequence cut into consecutive chunks"""
    n, l, b = t.a
    if b.op != "slice" or contains(b.a[0], _raw("bv", l)):
        return None
    bv = _raw("bv", l)
    s = sub(b.a[2], b.a[1])
    src = b.a[0]
    L = tlen(src)
    if b.a[2].op == "min":
        hi = [x for x in b.a[2].a if contains(x, bv)]
        if len(hi) != 1 or not all(x is L for x in b.a[2].a if x is not hi[0]):
            return None
        s = sub(hi[0], b.a[1])
        whole = True
    else:
        whole = False
    if not isint(s) or s.a[0] <= 0 or b.a[1] is not mul(s, bv):
        return None
    k = s.a[0]
    c, ps = lin_parts(L)
    if c % k == 0 and all(v % k == 0 for v in (ps.values() if isinstance(ps, dict) else [m for _, m in ps])):
        whole = True
    if not (n.op == "app" and n.a[0] == "div" and n.a[2] is s):
        return None
    up = n.a[1] is not L
    if up and n.a[1] is not add(L, Int(k - 1)):
        return None
    if whole != up and not (whole and c % k == 0):
        return src, k, False
    return src, k, True


def oddleaf(x):
    return x.op in ("phi", "lphi", "fold") or (x.op == "app" and x.a[0] not in KNOWN_APPS and not str(x.a[0]).startswith(("to_", "str::")))


def binders(bs):
    return [b for b in bs if b[0] not in ("rest", "some")]


def marks(bs):
    """False: part of this piece is certainly left out; None: perhaps; True: neither"""
    if any(b[0] == "rest" or b == ("some", True) for b in bs):
        return False
    return None if any(b[0] == "some" for b in bs) else True


def bound_of(bs, i):
    for n, l in binders(bs):
        if i.op == "bv" and i.a[0] == l:
            return n
    return None


def run(rep, tier):
    for config in (CONFIGS if tier == "quick" else THOROUGH_CONFIGS):
        check(rep, config)


def full_width(leaf, p, fs):
    """how leaf encodes elements of p: 'full', 'part', or None when p's contents are absent"""
    if p not in content(leaf):
        return None
    if leaf.op == "app" and leaf.a[0] in ("g1_enc", "fr_enc_be", "fr_enc_le", "to_be8", "to_le8"):
        x = leaf.a[1]
        if any(y.op == "trunc" for y in subterms(x)):
            return "part"
        return narrowed(x, p, fs) or "full"
    if leaf.op == "elem":
        return "full"
    if leaf.op == "store" and isinstance(leaf.a[2], T):
        # an encoding with one byte replaced
        k = full_width(leaf.a[0], p, fs)
        v = leaf.a[2]
        if isint(v):
            return "part"
        if v.op == "app" and v.a[0] == "opBitAnd" and any(isint(y) and y.a[0] & 0x7f != 0x7f for y in v.a[1:]):
            return "part"
        return "?" if k else k
    if leaf.op == "slice":
        return "part"
    if leaf.op == "app" and str(leaf.a[0]).startswith(("to_be", "to_le", "to_ne")):
        return "part" if str(leaf.a[0])[-1] in "124" and not str(leaf.a[0]).endswith("16") else "full"
    return "?"


def narrowed(x, p, fs):
    """is what is encoded the outcome of an operation that maps different values to one?"""
    while x.op in ("field", "vfield") or x.op == "app" and x.a[0] in ("g1_dec", "fr_dec_be", "fr_dec_le"):
        x = x.a[1] if x.op == "app" else x.a[0]
    if x.op in ("elem", "slice", "lin", "idx", "bv", "len"):
        return None
    y, bound = None, None
    if x.op in ("rem", "div", "min", "max"):
        y, bound = ([z for z in x.a if not isint(z)] + [None])[0], ([z.a[0] for z in x.a if isint(z)] + [None])[0]
    elif x.op == "app" and x.a[0] in ("opBitAnd", "opRem", "opShr", "opBitOr"):
        y, bound = ([z for z in x.a[1:] if not isint(z)] + [None])[0], ([z.a[0] for z in x.a[1:] if isint(z)] + [None])[0]
    if y is None or bound is None or y.op not in ("elem", "lin", "vfield", "field"):
        return "?"
    if x.op in ("div", "max") and bound > 1 or x.op == "app" and x.a[0] in ("opShr", "opBitOr") and bound:
        return "part"
    if x.op == "app" and x.a[0] == "opBitAnd" and bound & (bound + 1):
        return "part"
    top = bound + 1 if x.op == "app" and x.a[0] == "opBitAnd" or x.op == "min" else bound
    fs = {z for z in fs if z.op == "all" and y.op == "elem" and mentions(z, y.a[0])} | {z for z in fs if z.op != "all"}
    return None if F.holds(fs, forall(y.a[0], lambda e: Lt(e, Int(top))) if y.op == "elem" else Lt(y, Int(top))) is True else "part"


def check(rep, config):
    T = Table(config, "verify")
    w = "%s[%s]" % (T.where, config)
    ps = T.p
    N = tlen(ps[0])
    rep.count("outcomes of batch verification", len(T.outs))
    done = set()
    dedup(rep, w, T)
    for o in T.ok:
        if empty_inputs(o, ps):
            continue
        pos, ev = evidence_terms(o)
        hashes = set()
        for t in ev:
            hashes |= {x for x in subterms(t) if x.op == "app" and str(x.a[0]).startswith("hash:")}
        if pos and not hashes:
            fuzzy = any(x.op == "app" and x.a[0] not in KNOWN_APPS and not str(x.a[0]).startswith(("blst", "mut0:blst", "str::", "G1", "G2")) and x.a[0] not in ("mapget", "mapins", "map", "alts") for t in ev for x in subterms(t))
            rep.judge("weights-from-hash", w, None if fuzzy else False, "the checked equation involves no hash: the batch is combined with predictable weights")
            continue
        challenge(rep, w, ev)
        for h in hashes:
            if (h, o.facts) in done:
                continue
            done.add((h, o.facts))
            transcript(rep, w, ps, o, h)


def challenge(rep, w, ev):
    """the power base takes (nearly) all of the hash, not a few of its bytes"""
    for t in ev:
        for g in walk(t):
            if g.op != "app" or g.a[0] != "geom":
                continue
            base = g.a[2]
            used, whole, seen = set(), False, False
            for y in walk(base, is_hash):
                for z in y.a:
                    if not (hasattr(z, "op") and is_hash(z)):
                        continue
                    seen = True
                    if y.op == "elem" and isint(y.a[1]):
                        used.add(y.a[1].a[0])
                    elif y.op == "splice" and len(y.a) == 4 and isint(y.a[1]) and isint(y.a[2]) and z is y.a[0] and not hashed(y.a[3]):
                        # some of its bytes replaced
                        used |= set(range(32)) - set(range(y.a[1].a[0], y.a[2].a[0]))
                    elif y.op == "slice" and isint(y.a[1]) and isint(y.a[2]):
                        used |= set(range(y.a[1].a[0], min(y.a[2].a[0], 32)))
                    else:
                        whole = True
            if is_hash(base):
                whole = seen = True
            if seen:
                rep.judge("challenge-is-hash", w, True if whole or len(used) >= 16 else False, "only %d bytes of the transcript hash enter the batching weight" % len(used))


def hashed(t):
    return any_sub(t, is_hash)


def transcript(rep, w, ps, o, h):
    pc = []
    for x in h.a[1:]:
        pc += pieces(x)
    rep.count("transcript pieces", len(pc))
    odd = [x for x, _ in pc if oddleaf(x)]
    consts = [x for x, _ in pc if x.op == "str" or (x.op in ("arr",) and all(isint(y) for y in x.a))]
    rep.judge("domain-separator", w, True if any(tl(x) >= 8 for x in consts) else (None if odd else False), "no constant domain separator in the transcript")
    N = len_terms(ps)
    per = {}
    dedup_abs = None
    for leaf, bs in pc:
        for i, p in enumerate(ps):
            k = full_width(leaf, p, o.facts)
            if k is None:
                continue
            per.setdefault(i, []).append((leaf, bs, k))
    for i, p in enumerate(ps):
        nm = "%s:%s" % (w, NAMES[i])
        got = [x for x in per.get(i, []) if not (i == 0 and rowlike(x[0])) and not is_count(x[0])]
        if not got:
            rep.judge("absorbed", nm, None if any(mentions(x, p) for x in odd) else False, "the transcript does not contain the %s" % NAMES[i])
            continue
        res = []
        for leaf, bs, k in got:
            res.append(complete(leaf, bs, k, p, o.facts, i))
        if True in res:
            rep.ok("absorbed", nm)
        elif None in res or any(mentions(x, p) for x in odd):
            rep.und("absorbed", nm, brief(got[0][0]))
        else:
            rep.bad("absorbed", nm, "the %s enter the transcript only in part (%s)" % (NAMES[i], brief(got[0][0], 100)))
    # row numbers, when commitments are absorbed once each
    direct = any(uses_direct(leaf, ps[0]) for leaf, bs, k in per.get(0, []) if not rowlike(leaf))
    if not direct and 0 in per:
        rows = [x for x in per[0] if rowlike(x[0])]
        if not rows:
            rep.judge("absorbed", "%s:row of each cell" % w, None if odd else False, "commitments are de-duplicated but the transcript does not say which commitment each cell belongs to")
        else:
            ok = None
            for leaf, bs, k in rows:
                e = [x for x in subterms(leaf, False) if x.op == "elem" and x.a[0].op == "fold" and any_sub(x.a[0], lambda z: z.op == "app" and z.a[0] == "mapget")]
                for x in e:
                    n = bound_of(bs, x.a[1])
                    if n is not None and marks(bs) is not True:
                        ok = False if marks(bs) is False and ok is None else ok
                    elif n is not None and all_equal(o.facts, n, ps) and k == "full":
                        ok = True
                    elif isint(x.a[1]) or n is not None and F.holds(o.facts, Lt(n, tlen(ps[0]))) is True or k == "part":
                        ok = False if ok is None else ok
            rep.judge("absorbed", "%s:row of each cell" % w, ok, "row numbers enter the transcript only in part")
    # counts
    cnt = [x.a[1] for x, bs in pc if x.op == "app" and str(x.a[0]).startswith("to_") and not binders(bs)]
    cellcount = any(all_equal(o.facts, x, ps) for x in cnt)
    rep.judge("absorbed", "%s:number of cells" % w, True if cellcount else (None if odd else False), "the number of cells is not part of the transcript")
    if not direct:
        us = {x for x in (y.a[0] for l, _ in pc for y in subterms(l, False) if y.op == "elem") if dedup_source(x) is not None}
        cc = any(x.op == "len" and x.a[0] in us for x in cnt)
        rep.judge("absorbed", "%s:number of commitments" % w, True if cc else (None if odd or not us else False), "the number of commitments is not part of the transcript")


def is_count(leaf):
    return leaf.op == "app" and len(leaf.a) == 2 and isinstance(leaf.a[1], T) and leaf.a[1].op == "len"


def tl(x):
    n = tlen(x)
    return n.a[0] if isint(n) else len(x.a[0]) if x.op == "str" else 0


def len_terms(ps):
    return [tlen(p) for p in ps]


def all_equal(fs, n, ps):
    return any(n is tlen(p) or F.holds(fs, Eq(n, tlen(p))) is True for p in ps)


def rowlike(leaf):
    return any_sub(leaf, lambda z: z.op == "app" and z.a[0] == "mapget") and not apps(leaf, "g1_enc", "g1_dec")


def uses_direct(leaf, p):
    return any(x.op == "elem" and x.a[0] is p for x in nofold(leaf))


def nofold(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op in ("fold", "lphi", "phi"):
            continue
        st.extend(y for y in x.a if isinstance(y, T))


def complete(leaf, bs, k, p, fs, i):
    """does this piece, under its binders, absorb every element of p in full?"""
    if marks(bs) is not True:
        return marks(bs)
    bs = binders(bs)
    if k == "part":
        return False
    if k == "?":
        return None
    idx = None
    for x in nofold(leaf):
        if x.op == "elem" and (x.a[0] is p or dedup_source(x.a[0]) is p):
            idx = x.a[1]
            whole = tlen(x.a[0])
    if idx is None:
        return None
    n = bound_of(bs, idx)
    if n is None:
        if idx.op == "elem" and drops(idx.a[0], fs):
            return False
        return False if isint(idx) or (idx.op == "lin" and any(b.op == "bv" for b in lin_parts(idx)[1])) else None
    if not (n is whole or F.holds(fs, Eq(n, whole)) is True):
        return False if F.holds(fs, Lt(n, whole)) is True else None
    if i == 2 and leaf.op == "app" and leaf.a[0].startswith("fr_enc"):
        # all 64 evaluations of the cell
        sl = [x for x in nofold(leaf) if x.op == "slice"]
        if not sl:
            return None
        a = sl[0].a[1]
        inner = [b for b in bs if contains(a, _raw("bv", b[1])) and b[0] is not n]
        if len(inner) != 1:
            return False if isint(a) else None
        m, l = inner[0]
        if not isint(m):
            return None
        if a is mul(_raw("bv", l), Int(32)):
            return m.a[0] == 64
        return False
    return True


def dedup(rep, w, T):
    """commitments are de-duplicated by their full value, and rows point at the recorded position"""
    ps = T.p
    seen = set()
    terms = set()
    for o in T.outs:
        for x in o.facts:
            terms.add(x)
    maps = set()
    for t in terms:
        for x in subterms(t):
            if x.op == "app" and x.a[0] in ("mapget", "mapins") and ps[0] in content(x):
                maps.add(x)
    for x in maps:
        key = x.a[2] if len(x.a) > 2 else None
        if key is None:
            continue
        if key.op == "elem" and key.a[0] is ps[0]:
            rep.ok("dedup-key", w, x.a[0])
        elif key.op in ("slice",) or (key.op == "elem" and key.a[0].op == "elem") or (key.op == "app" and str(key.a[0]).startswith(("from_", "hash"))) or key.op == "trunc":
            rep.bad("dedup-key", w, "commitments are de-duplicated by %s, not by their full value" % brief(key, 80))
        else:
            rep.und("dedup-key", w, brief(key, 80))
        if x.a[0] == "mapins" and len(x.a) > 3:
            v = x.a[3]
            if v.op == "len" and v.a[0].op in ("lphi", "self", "fold"):
                rep.ok("dedup-position", w)
            elif v.op in ("idx", "bv", "int") or (v.op == "lin" and any(y.op in ("idx", "bv", "len") for y in lin_parts(v)[1])):
                rep.bad("dedup-position", w, "a new commitment is recorded at %s rather than at its position among the distinct ones" % brief(v, 60))
            else:
                rep.und("dedup-position", w, brief(v, 60))
