"""Abstract runs of the foreign-function layers (C, JNI, N-API) with the
library's own operations as opaque calls."""
import re
from core import *
from terms import *
from terms import _raw
from interp import Interp, strip_generics, mref
from rules import subterms

OPS = ("verify_cell_kzg_proof_batch", "blob_to_kzg_commitment", "compute_cells_and_kzg_proofs", "recover_cells_and_kzg_proofs", "with_threads", "new")
_pat = re.compile(r"^rust_eth_kzg::.*DASContext>?::(%s)(::<.*>)?$" % "|".join(OPS))


def op_of(name):
    """the library operation a function path denotes, or None"""
    m = _pat.search(name)
    return m.group(1) if m else None


def opaque(f):
    return op_of(f["name"]) is not None or ("TrustedSetup" in f["name"] and f["name"].startswith(("rust_eth_kzg", "<rust_eth_kzg")))


def is_op(t):
    return t.op == "app" and len(t.a) > 2 and "rust_eth_kzg" in str(t.a[0]) and str(t.a[0]).split("::")[-1] in OPS


def op_name(t):
    return str(t.a[0]).split("::")[-1]


def about_op(x):
    return any(is_op(y) for y in subterms(x))


class FRun:
    def __init__(self, c, f, I, args, outs):
        self.c, self.f, self.I, self.args, self.outs = c, f, I, args, outs
        self.name = strip_generics(f["name"]).split("::")[-1]

    def recs(self, kind, pat=None):
        return [r for r in self.I.log if r.kind == kind and (pat is None or re.search(pat, r.name))]

    def ops(self):
        """the library calls made: {term-ish (op, args)} from the log"""
        return [(op_of(r.name), r) for r in self.recs("call") if op_of(r.name)]


_cache = {}


class lens:
    """array lengths noted by one run stay with it (parameter names recur across functions)"""

    def __enter__(self):
        self.l, self.e = dict(terms.LEN), dict(terms.ELEN)

    def __exit__(self, *a):
        for d, o in ((terms.LEN, self.l), (terms.ELEN, self.e)):
            d.clear()
            d.update(o)


def run_fn(c, f, facts=()):
    k = (id(c), f["id"])
    if k not in _cache:
        with lens():
            I = Interp(c, opaque=opaque)
            I.sticky_pred = about_op
            I.cap = 400
            args = typed_params(I, f)
            outs = I.run(f, args, frozenset(facts))
            res = []
            for s, v in outs:
                if v.op == "agg" and str(v.a[0]).startswith("coroutine:") and v.a[0] in c.fns:
                    # drive the future's first poll
                    loc = _raw("tmp", "future")
                    s.env[loc] = v
                    for s2, v2 in I.call_fn(s, c.fns[v.a[0]], [mref(loc), Param("cx")], None):
                        ready = v2.op == "agg" and str(v2.a[0]).endswith("Poll") and v2.a[1] == 0
                        res.append((s2, v2.a[2] if ready else v2))
                else:
                    res.append((s, v))
            _cache[k] = FRun(c, f, I, args, res)
    return _cache[k]


def exported(c, pred):
    return [f for f in c.fns.values() if f["kind"] != "closure" and pred(f)]


# --- the foreign entry points, by their published names and positions ----------------
ROLES = {"blob_to_kzg_commitment": ["blob"], "compute_cells_and_kzg_proofs": ["blob"],
         "verify_cell_kzg_proof_batch": ["commitments", "cell_indices", "cells", "proofs"], "recover_cells_and_kzg_proofs": ["cell_indices", "cells"]}
SIZE = {"blob": 131072, "commitments": 48, "cells": 2048, "proofs": 48}
# op -> (function, {role: position of the argument}, {role: position of its length}, [output positions])
C_FN = {
    "blob_to_kzg_commitment": ("eth_kzg_blob_to_kzg_commitment", {"blob": 1}, {}, {"commitment": 2}),
    "compute_cells_and_kzg_proofs": ("eth_kzg_compute_cells_and_kzg_proofs", {"blob": 1}, {}, {"cells": 2, "proofs": 3}),
    "verify_cell_kzg_proof_batch": ("eth_kzg_verify_cell_kzg_proof_batch", {"commitments": 2, "cell_indices": 4, "cells": 6, "proofs": 8},
                                    {"commitments": 1, "cell_indices": 3, "cells": 5, "proofs": 7}, {"verified": 9}),
    "recover_cells_and_kzg_proofs": ("eth_kzg_recover_cells_and_proofs", {"cells": 2, "cell_indices": 4}, {"cells": 1, "cell_indices": 3}, {"cells": 5, "proofs": 6}),
}
_J = "Java_ethereum_cryptography_LibEthKZG_"
JAVA_FN = {
    "blob_to_kzg_commitment": (_J + "blobToKZGCommitment", {"blob": 3}, {}, {}),
    "compute_cells_and_kzg_proofs": (_J + "computeCellsAndKZGProofs", {"blob": 3}, {}, {}),
    "verify_cell_kzg_proof_batch": (_J + "verifyCellKZGProofBatch", {"commitments": 3, "cell_indices": 4, "cells": 5, "proofs": 6}, {}, {}),
    "recover_cells_and_kzg_proofs": (_J + "recoverCellsAndKZGProofs", {"cell_indices": 3, "cells": 4}, {}, {}),
}
_N = "DASContextJs::"
NODE_FN = {
    "blob_to_kzg_commitment": (_N + "blob_to_kzg_commitment", {"blob": 1}, {}, {}),
    "compute_cells_and_kzg_proofs": (_N + "compute_cells_and_kzg_proofs", {"blob": 1}, {}, {}),
    "verify_cell_kzg_proof_batch": (_N + "verify_cell_kzg_proof_batch", {"commitments": 1, "cell_indices": 2, "cells": 3, "proofs": 4}, {}, {}),
    "recover_cells_and_kzg_proofs": (_N + "recover_cells_and_kzg_proofs", {"cell_indices": 1, "cells": 2}, {}, {}),
}
# further entry points over the same operations, looked at when they exist
NODE_MORE = [("compute_cells_and_kzg_proofs", _N + "compute_cells")]
LANGS = {"c": ("c_eth_kzg", C_FN), "java": ("java_eth_kzg", JAVA_FN), "node": ("node_eth_kzg", NODE_FN)}
THROWN = _raw("thrown")


def entry(lang, fname):
    c = crate("bind", LANGS[lang][0])
    hits = [f for f in c.fns.values() if f["kind"] == "item" and f["crate"] == c.name and strip_generics(f["name"]).endswith("::" + fname)]
    if len(hits) != 1:
        raise Lost("%s: %d functions named %s" % (LANGS[lang][0], len(hits), fname))
    return c, hits[0]


def bounds(lang, op):
    """the abstract runs of every entry point of the operation in a language"""
    spec = LANGS[lang][1][op]
    out = [Bound(lang, op)]
    if lang == "node":
        out.append(Bound(lang, op, spec[0].replace("::", "::async_")))
        for o, nm in NODE_MORE:
            if o == op:
                for n in (nm, nm.replace("::", "::async_")):
                    try:
                        out.append(Bound(lang, op, n))
                    except Lost:
                        pass
    return out


class BOut:
    """one outcome of a foreign entry point"""

    def __init__(self, st, v, status, value):
        self.st, self.v, self.status, self.value = st, v, status, value
        self.facts = st.facts


class Bound:
    def __init__(self, lang, op, fname=None, pos=None):
        spec = LANGS[lang][1].get(op)
        self.lang, self.op = lang, op
        self.fname = fname or spec[0]
        self.pos, self.lenpos, self.outpos = spec[1], spec[2], spec[3]
        c, f = entry(lang, self.fname)
        self.r = run_fn(c, f)
        self.c = c
        self.args = self.r.args
        self.outs = [self.classify(s, v) for s, v in self.r.outs]
        self.where = "%s:%s" % (lang, self.fname.split("::")[-1])

    def classify(self, s, v):
        ver = self.op == "verify_cell_kzg_proof_batch"
        if self.lang == "c":
            if v.op == "agg" and str(v.a[0]).endswith("CResult") and v.a[2].op == "agg":
                if v.a[2].a[1] == 1:
                    return BOut(s, v, "err", v.a[3])
                if not ver:
                    return BOut(s, v, "ok", v.a[3])
                out = s.env.get(_raw("mem", self.args[self.outpos["verified"]]))
                return BOut(s, v, {TRUE: "true", FALSE: "false", None: "unset"}.get(out, "?"), v.a[3])
            return BOut(s, v, "?", v)
        if self.lang == "java":
            if s.env.get(THROWN) is TRUE:
                return BOut(s, v, "err", v)
            if not ver:
                return BOut(s, v, "ok", v)
            k = {TRUE: "true", FALSE: "false"}.get(v)
            if k is None and isint(v):
                k = "true" if v.a[0] else "false"
            return BOut(s, v, k or "?", v)
        if v.op == "agg" and str(v.a[0]).endswith("Result"):
            if v.a[1] == 1:
                return BOut(s, v, "err", v.a[2])
            if not ver:
                return BOut(s, v, "ok", v.a[2])
            return BOut(s, v, {TRUE: "true", FALSE: "false"}.get(v.a[2], "?"), v.a[2])
        return BOut(s, v, "?", v)

    def calls(self):
        """op terms appearing in the facts and values of the outcomes"""
        out = set()
        for o in self.outs:
            for x in list(o.facts) + [o.v]:
                out |= {y for y in subterms(x) if is_op(y)}
        return out

    def op_terms(self, o):
        return {y for x in o.facts for y in subterms(x) if is_op(y)}


def feasible(o, M, result):
    """can the outcome occur when the library call M returned `result`?"""
    for x in o.facts:
        if not any(y is M for y in subterms(x)):
            continue
        if subst(x, {M: result}) is FALSE:
            return False
    return True
