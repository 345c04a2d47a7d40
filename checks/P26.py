import os
from api import *
from terms import _raw
import P07
import P25

CONFIGS = ["multi"]
THOROUGH_CONFIGS = ["multi", "single"]
RULE = ("every error outcome of the four operations contradicts the request being well-formed: its conditions include a failed decoding, unequal lengths, an index "
        "out of range or repeated, too few or too many cells, a failed degree check or a failed pairing equation")
EXPLAIN = ("Abstract interpretation of the four entry points. The conditions of every error outcome are checked for contradiction with the definition of a "
           "well-formed request by linear arithmetic and quantifier instantiation; what an outcome rests on is compared with the success outcomes' conditions.")


def run(rep, tier):
    for config in (CONFIGS if tier == "quick" else THOROUGH_CONFIGS):
        for op in ("blob", "compute", "recover", "verify"):
            check(rep, config, op)


def well_formed(op, ps):
    W = set()
    if op == "verify":
        for i in (0, 2, 3):
            W.add(Eq(tlen(ps[i]), tlen(ps[1])))
        W.add(forall(ps[1], lambda e: Lt(e, Int(128))))
    elif op == "recover":
        W.add(Eq(tlen(ps[0]), tlen(ps[1])))
        W.add(forall(ps[0], lambda e: Lt(e, Int(128))))
        W.add(Le(Int(64), tlen(ps[0])))
        W.add(Le(tlen(ps[0]), Int(128)))
    return W


def check(rep, config, op):
    T = Table(config, op)
    W = well_formed(op, T.p)
    rep.count("error outcomes", len(T.err))
    seen = {}
    for o in T.err:
        kind = "/".join(o.names)
        where = "%s[%s]:%s" % (T.where, config, kind)
        rs = [justified(T, op, x, W, o.lossy and not o.paths) for x in (o.paths if o.lossy and o.paths else [o.facts])]
        v, why = min(rs, key=lambda r: {False: 0, None: 1, True: 2}[r[0]])
        if os.environ.get("DBG"):
            print(where, v, why, o.lossy, [] if v else [brief(x, 150) for x in o.facts])
        seen.setdefault(where, []).append((v, why))
    if op == "recover":
        degree_range(rep, T, config)
    for where, rs in sorted(seen.items()):
        bad = [w for v, w in rs if v is False]
        und = [w for v, w in rs if v is None]
        if bad:
            rep.bad("refusal-justified@" + where, "a well-formed request can be refused: %s" % bad[0])
        elif und:
            rep.und("refusal-justified@" + where, und[0])
        else:
            rep.ok("refusal-justified@" + where, "%d error outcomes, each for: %s" % (len(rs), ", ".join(sorted({w for _, w in rs}))))


DEC = ("g1_dec", "fr_dec_be", "fr_dec_le")
PLAIN = {"lt", "not", "eq", "and", "or", "all", "elem", "idx", "bv", "len", "int", "lin", "param", "isv", "slice", "field", "vfield", "agg", "arr", "rep", "bool", "min", "max", "ssub", "div", "rem"}


def plain(x):
    """does the condition speak about the inputs' lengths, indices, bytes and decoded values only?"""
    picked = x.op == "eq" and all(z.op == "elem" for z in x.a) \
        or x.op == "not" and x.a[0].op == "eq" and Int(0) in x.a[0].a and any(z.op == "len" for z in x.a[0].a)
    for y in subterms(x):
        if y.op == "app":
            if y.a[0] in ("add", "mul") and all(F.intlike(z) and z.op != "app" for z in y.a[1:]):
                continue
            if y.a[0] not in DEC and str(y.a[0]).split("::")[-1] not in ("is_identity", "is_zero", "is_zero_vartime", "zero", "one", "identity", "default", "trunc", "neg") and not isint(y) \
                    and not (picked and y.a[0] in ("mapget", "mapins", "map", "set", "alts")) and not str(y.a[0]).endswith("::default"):
                return False
        elif y.op not in PLAIN:
            if not (picked and y.op in ("fold", "self", "lphi", "cat", "flat")):
                return False
    return True


def lemmas(fs, op, ps):
    """facts about the derived lists of a well-formed request"""
    W = set()
    if op != "recover":
        return W
    idx = ps[0]
    for x in fs:
        for y in subterms(x, False):
            if y.op == "elem" and y.a[0].op == "fgen" and y.a[0].a[3].op == "bv" and y.a[0].a[3].a[0] == y.a[0].a[1]:
                W.add(Lt(y, y.a[0].a[0]))             # an entry picked out of 0..n
            if y.op == "app" and y.a[0] == "set":
                if y.a[1] is idx:
                    W.add(Eq(tlen(y), tlen(idx)))     # no index is repeated
            if y.op == "len" and y.a[0].op == "fgen" and isint(y.a[0].a[0]) and y.a[0].a[0].a[0] == 128:
                n, lvl, pred, body = y.a[0].a
                if pred.op == "not" and pred.a[0].op == "app" and pred.a[0].a[0] == "contains" and pred.a[0].a[2].op == "bv" and pred.a[0].a[2].a[0] == lvl:
                    S = pred.a[0].a[1]
                    if S.op == "app" and S.a[0] == "set" and positions(S.a[1], idx):
                        W.add(Eq(add(y, tlen(idx)), Int(128)))   # the columns not supplied
    return W


def positions(g, idx):
    """is g the list of the indices, or of a permutation of the columns applied to each?"""
    if g is idx:
        return True
    if g.op == "gen" and g.a[0] is tlen(idx):
        b = g.a[2]
        if b.op == "app" and b.a[0] == "bitrev" and isint(b.a[2]) and b.a[2].a[0] == 7:
            b = b.a[1]
        return b.op == "elem" and b.a[0] is idx and b.a[1].op == "bv" and b.a[1].a[0] == g.a[1]
    return False


def justified(T, op, fs, W, lossy):
    for x in fs:
        y = x.a[0] if x.op == "not" else x
        if y.op == "isv" and y.a[0].op == "app" and y.a[0].a[0] in DEC:
            if (x.op == "not") == (y.a[1] == 1):
                return True, "undecodable input"
    pos, neg = pairing_facts(fs)
    if neg and op == "verify":
        return True, "pairing equation"
    W = W | lemmas(fs, op, T.p)
    for x in fs:
        if F.holds((fs - {x}) | W, Not(x)) is True:
            return True, "malformed request"
    if op == "recover":
        idx, cells = T.p
        for x in fs:
            y = x.a[0] if x.op == "not" else x
            if y.op == "eq" and cells in content(y) and idx in content(y) and any(z.op in ("fold", "lphi", "phi") for z in subterms(y)) and any(P07.is_zero(z) for z in y.a):
                return (True, "degree check") if x.op == "not" else (None, "a condition on the reconstructed polynomial was not understood")
            if y.op == "eq" and all(z.op == "elem" and z.a[0] is idx for z in y.a) and y.a[0] is not y.a[1] and x.op != "not":
                return True, "repeated index"
    if lossy:
        return None, "the conditions of the refusal were merged away"
    mine = [x for x in fs if not P25.canonical(x)]
    usual = [k.facts for k in T.ok if not empty_inputs(k, T.p)]
    if os.environ.get("DBG"):
        for x in mine:
            if not plain(x):
                print("   HARD", x.op, sorted({y.op + ":" + (str(y.a[0])[:20] if y.op == "app" else "") for y in subterms(x)}))
    hard = [x for x in mine if not plain(x) and not (usual and all(x in k for k in usual))]
    if hard:
        return None, "the condition %s was not understood" % brief(hard[0], 100)
    own = [x for x in mine if not any(x in k.facts for k in T.ok)] or mine
    return False, "returned when %s" % " and ".join(sorted(brief(x, 90) for x in own))


def degree_range(rep, T, config):
    """the degree check looks at the coefficients of degree 4096 and more only"""
    idx, cells = T.p
    for o in T.ok:
        zs, odd = P07.zero_tests(o.facts, idx, cells)
        for lo, n in zs:
            rep.judge("degree-check-exact", "%s[%s]" % (T.where, config), lo >= 4096, "recovery refuses polynomials whose coefficient %d is not zero" % lo)
