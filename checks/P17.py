from api import *
from interp import Interp
from terms import _raw

CONFIGS = ["bind"]
RULE = ("the checked loader returns only on paths where every monomial G1 and G2 entry, at every position, strips its 0x prefix, decodes from hex to exactly the size of a compressed point and decodes to "
        "a point with the subgroup check; it returns the parsed setup itself; the keys built from a setup hold, at position k, the point of entry k of the monomial list they are documented to use, all "
        "of them for committing and, for verifying, all G2 points and as many G1 points")
EXPLAIN = "Abstract interpretation of the loader and of the key conversions on a symbolic setup with lists of unknown length; the facts of every returning path are searched for the universally quantified decoding facts."
ASSUME = ["hex and JSON decoding are what their crates say"]


def entry(ts, i, k):
    return elem(field(ts, i), k)


def facts_about(fs, ts, i, size, dec):
    """which of the per-entry facts hold for all entries of list i"""
    k = _raw("idx", "goal")
    n = tlen(field(ts, i))
    e = entry(ts, i, k)
    have = {"prefix": False, "hex": False, "size": False, "point": False, "unchecked": False}
    for x in fs:
        if x.op == "all" and (x.a[0] is n or F.holds(fs, Eq(x.a[0], n)) is True or F.holds(fs, Not(Lt(x.a[0], n))) is True):
            b = subst(x.a[2], {_raw("bv", x.a[1]): k})
            for y in (b.a if b.op == "and" else [b]):
                if not any(z is e for z in subterms(y)):
                    continue
                if y.op == "isv" and y.a[1] == 1 and y.a[0].op == "app" and y.a[0].a[0] == dec:
                    have["point"] = True
                if y.op == "isv" and y.a[1] == 1 and y.a[0].op == "app" and y.a[0].a[0] == dec + "_unchecked":
                    have["unchecked"] = True
                if y.op == "isv" and y.a[0].op == "app" and str(y.a[0].a[0]).startswith("str::"):
                    have["prefix"] = True
                if y.op == "not" and y.a[0].op == "isv" and y.a[0].a[0].op == "app" and y.a[0].a[0].a[0] == "hex_dec":
                    have["hex"] = True
                if y.op == "isv" and y.a[0].op == "app" and y.a[0].a[0] == "hex_dec" and y.a[1] == 0:
                    have["hex"] = True
                if y.op == "eq" and any(isint(z) and z.a[0] == size for z in y.a) and any(z.op == "len" for z in y.a):
                    have["size"] = True
    return have


def run(rep, tier):
    c = crate("bind", "rust_eth_kzg")
    names = [n for n, _ in adt(c, "trusted_setup::TrustedSetup")["vs"][0]["f"]]
    for n in ("g1_monomial", "g2_monomial"):
        if n not in names:
            raise Lost("trusted setup field " + n)
    G1, G2 = names.index("g1_monomial"), names.index("g2_monomial")
    fs = c.find(r"TrustedSetup>?::from_json$")
    if len(fs) != 1:
        raise Lost("TrustedSetup::from_json")
    I = Interp(c)
    js = Param("json")
    outs = I.run(fs[0], [js])
    if not outs:
        rep.und("loader-understood", "from_json", "no returning path")
    for s, v in outs:
        rep.count("returning paths of the checked loader")
        src = [x for x in subterms(v) if x.op == "app" and x.a[0] == "json"]
        plain = v.op == "vfield" and src and v.a[0] is src[0] and src[0].a[1] is js
        rep.judge("returns-what-was-parsed", "from_json", True if plain else (False if not opaque_atom(v) and v.op == "agg" else None), "returns %s" % brief(v))
        ts = v
        if not plain:
            continue
        odd = [x for x in s.facts if any(y.op in ("phi", "lphi", "fold") for y in subterms(x))]
        for i, nm, size, dec in ((G1, "g1_monomial", 48, "g1_dec"), (G2, "g2_monomial", 96, "g2_dec")):
            h = facts_about(s.facts, ts, i, size, dec)
            cut = [y for x in s.facts for y in subterms(x) if y.op == "app" and y.a[0] == "hex_dec" and y.a[1].op == "slice" and (isint(y.a[1].a[2]) or (y.a[1].a[2].op == "min" and any(isint(z) for z in y.a[1].a[2].a))) and any(z is field(ts, i) for z in subterms(y))]
            rep.judge("whole-text-decoded", nm, not cut, "only part of an entry's text is decoded: %s" % (brief(cut[0], 80) if cut else ""))
            und = None if odd else False
            rep.judge("every-entry-subgroup-checked", nm, True if h["point"] else und,
                      "a setup is returned although entries of this list %s" % ("are decoded without the subgroup check only" if h["unchecked"] else "are not all decoded with the subgroup check"))
            rep.judge("every-entry-exact-size", nm, True if h["size"] else und, "the decoded size of the entries is not checked to be %d" % size)
            rep.judge("every-entry-0x-hex", nm, True if h["prefix"] and h["hex"] else (None if not h["prefix"] or odd else False), "entries are not all checked to be 0x-prefixed hex")
    for f in c.find(r"(CommitKey|VerificationKey).*>::from$"):
        key = "CommitKey" if "CommitKey" in f["name"].split(" for ")[-1] else "VerificationKey"
        I = Interp(c)
        ts = Param("ts")
        fields = adt(c, "::" + key)["vs"][0]["f"]
        for s, v in I.run(f, [ts]):
            rep.count("key conversions")
            if v.op != "agg":
                rep.und("key-understood", key, brief(v))
                continue
            for (n, ty), t in zip(fields, v.a[2:]):
                tn = c.types[ty]["s"]
                if not tn.startswith("std::vec::Vec<"):
                    continue
                i = G2 if "G2Affine" in tn else G1
                k = _raw("idx", "k")
                w = "%s.%s" % (key, n)
                e = elem(t, k)
                if any(x.op in ("phi", "lphi", "fold", "self") for x in subterms(t)):
                    rep.und("entry-k-at-position-k", w, brief(e))
                    continue
                used = {x for x in subterms(e) if x.op == "elem" and x.a[0].op == "field" and x.a[0].a[0] is ts}
                decs = [x for x in subterms(e) if x.op == "app" and x.a[0] in ("g1_dec", "g2_dec", "g1_dec_unchecked", "g2_dec_unchecked")]
                rep.judge("entry-k-at-position-k", w, used == {entry(ts, i, k)} and len(decs) == 1 and e.op == "vfield" and e.a[0] is decs[0], "position k holds %s" % brief(e))
                want = tlen(field(ts, G2)) if key == "VerificationKey" else tlen(field(ts, G1))
                L = tlen(t)
                rep.judge("all-entries-kept", w, True if L is want or F.holds(s.facts, Eq(L, want)) is True else (False if isint(L) or F.holds(s.facts, Lt(L, want)) is True or isint(sub(L, want)) else None),
                          "holds %s points instead of %s" % (brief(L), brief(want)))
            if key == "VerificationKey":
                for (n, ty), t in zip(fields, v.a[2:]):
                    if c.types[ty]["s"].endswith("G2Affine"):
                        used = {x for x in subterms(t) if x.op == "elem" and x.a[0].op == "field" and x.a[0].a[0] is ts}
                        rep.judge("generator-is-entry-0", key + "." + n, used == {entry(ts, G2, Int(0))} if not opaque_atom(t) else None, "the G2 generator is %s" % brief(t))
