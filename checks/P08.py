from api import *
import ffi
from ffi import Bound, feasible, is_op
from terms import _raw
import P21

CONFIGS = ["bind"]
RULE = ("the error value of every outcome of batch verification whose pairing comparison was refuted is classified as an invalid proof, and no other error outcome is; each binding "
        "maps exactly success to true, the invalid-proof class to false, and every other error to its error channel")
EXPLAIN = ("Abstract interpretation: the classifier is evaluated on the error term of each outcome of the verification entry point, and each binding's outcome table is evaluated "
           "with the library call's result replaced by every error term that verification can produce.")


def err_classes(T):
    """[(payload, is invalid proof)] distinct error values verification can return"""
    out = {}
    for o in T.err:
        pos, neg = pairing_facts(o.facts)
        out.setdefault(o.payload, set()).add(bool(neg))
    return out


def shape(c, v):
    return "/".join(variant_names(c, v))


def run(rep, tier):
    P21.part(rep, "errors-propagate", "result-forwarded", "operation-performed")
    T = Table("bind", "verify")
    cl = err_classes(T)
    rep.count("error outcomes of verification", len(T.err))
    # the library's own classifier
    hits = [f for f in T.c.fns.values() if f["name"].endswith("::invalid_proof") and f["kind"] == "item"]
    if len(hits) != 1:
        raise Lost("Error::invalid_proof")
    from interp import Interp
    bys = {}
    for p, inv in cl.items():
        nm = shape(T.c, p)
        I = Interp(T.c)
        vs = {v for s, v in I.run(hits[0], [p])}
        if len(inv) > 1:
            rep.und("classified", "invalid_proof:" + nm, "the same error value on refuted and unrefuted outcomes")
            bys.setdefault(nm, set()).add(None)
            continue
        want = TRUE if True in inv else FALSE
        bys.setdefault(nm, set()).add(want is TRUE)
        if vs == {want}:
            rep.ok("classified", "invalid_proof:" + nm)
        elif vs <= {TRUE, FALSE} and vs:
            rep.bad("classified", "invalid_proof:" + nm, "the error returned %s is %sclassified as an invalid proof" % (
                "for a refuted pairing" if want is TRUE else "for an input problem", "not " if want is TRUE else ""))
        else:
            rep.und("classified", "invalid_proof:" + nm)
    # a class that says both would be indistinguishable for the caller
    for nm, s in bys.items():
        if len(s) > 1:
            rep.bad("distinguishable", nm, "the same error class is returned for a refuted pairing and for an input problem")
    if not any(True in v for v in cl.values()):
        rep.und("refuted-outcome", "verify", "no error outcome with a refuted pairing was found")
    for lang in ffi.LANGS:
        b = Bound(lang, "verify_cell_kzg_proof_batch")
        rep.count("binding outcomes", len(b.outs))
        judge(rep, b, T, cl, "")
    for nm in ("async_verify_cell_kzg_proof_batch",):
        b = Bound("node", "verify_cell_kzg_proof_batch", "DASContextJs::" + nm)
        judge(rep, b, T, cl, "")


def judge(rep, b, T, cl, tag):
    Ms = {m for m in b.calls() if ffi.op_name(m) == "verify_cell_kzg_proof_batch"}
    if not Ms:
        rep.bad("verdict-from-library", b.where, "the binding's verdict does not come from the library's verification")
        return
    cases = [("accepted", "Result@0", Agg("std::result::Result", 0, UNIT), "true")]
    for p, inv in cl.items():
        if len(inv) == 1:
            cases.append((shape(T.c, p), None, Agg("std::result::Result", 1, p), "false" if True in inv else "err"))
    seen = set()
    for nm, _, res, want in cases:
        got = set()
        for M in Ms:
            for o in b.outs:
                if M in b.op_terms(o) and feasible(o, M, res):
                    got.add(o.status)
        k = "%s:%s" % (b.where, nm)
        extra = {"err"} if (b.lang == "java" and want == "true") else set()
        if not got:
            rep.und("verdict", k, "no outcome")
        elif got - extra == {want}:
            rep.ok("verdict", k, want)
        elif "?" in got:
            rep.und("verdict", k)
        elif want in got:
            rep.und("verdict", k, "outcomes %s" % sorted(got))
        else:
            rep.bad("verdict", k, "reports %s when verification ends with %s (expected %s)" % ("/".join(sorted(got)), nm, want))
    # an outcome that never consulted the library may only be an error
    for o in b.outs:
        if not b.op_terms(o) and o.status in ("true", "false"):
            if any(x.op in ("phi", "lphi") for x in atoms(o.facts)):
                rep.und("verdict-from-library", b.where)
            else:
                rep.bad("verdict-from-library", b.where, "returns %s without consulting the library" % o.status)
