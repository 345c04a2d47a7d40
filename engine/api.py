"""Outcome tables of the public Rust API."""
from rules import *
from terms import _raw

METHODS = {
    "verify": "verify_cell_kzg_proof_batch",
    "blob": "blob_to_kzg_commitment",
    "compute": "compute_cells_and_kzg_proofs",
    "recover": "recover_cells_and_kzg_proofs",
}


def pairing_like(x):
    """a statement about group elements of the equation; it settles nothing about lengths, indices or decodings"""
    return any(y.op == "app" and (str(y.a[0]).startswith("hash:") or y.a[0] in ("miller", "final_exp", "pairing")) for y in subterms(x))


class Out:
    __slots__ = ("facts", "kind", "payload", "names", "v", "i", "lossy", "paths")

    def __init__(self, facts, v, c, i, lossy=False, paths=None):
        self.facts, self.v, self.i, self.lossy, self.paths = facts, v, i, lossy, paths
        self.kind, self.payload = result_kind(v)
        self.names = variant_names(c, self.payload) if self.kind == "err" else []


class Table:
    def __init__(self, config, which, variant=0):
        self.r = das_run(config, METHODS[which], variant)
        self.c = self.r.I.c
        self.outs = [Out(s.facts, v, self.c, i, s.lossy, None if s.over or not s.orig else [o | s.facts for o in s.orig]) for i, (s, v) in enumerate(self.r.outs)]
        self.ok = [o for o in self.outs if o.kind == "ok"]
        self.err = [o for o in self.outs if o.kind == "err"]
        self.odd = [o for o in self.outs if o.kind == "?"]
        self.p = [a for a in self.r.args[1:]]
        self.where = METHODS[which]
        self.config, self.variant = config, variant

    def contains_opaque_check(self, ok, p):
        """is there an error outcome guarded by something uninterpreted about parameter p?"""
        for e in self.err:
            for x in atoms(e.facts - ok.facts):
                if opaque_atom(x, p) and not pairing_like(x):
                    return True
        return False

    def entails(self, ok, goal, p):
        """True/False/None: does the success outcome entail the goal about p"""
        if F.holds(ok.facts, goal) is True:
            return True
        if ok.lossy or any(x.op in ("phi", "lphi") for x in atoms(ok.facts)) or self.contains_opaque_check(ok, p):
            return None
        return False


def empty_inputs(o, ps):
    return all(F.holds(o.facts, Eq(tlen(p), Int(0))) is True for p in ps)


def forall(p, f):
    k = _raw("idx", "goal")
    return All(tlen(p), k, f(elem(p, k)))


def canonical_chunks(x, n):
    """every 32-byte chunk of x decodes as a canonical scalar"""
    j = _raw("idx", "goalj")
    return All(Int(n), j, IsV(App("fr_dec_be", tslice(x, mul(j, Int(32)), add(mul(j, Int(32)), Int(32)))), 1))


def pairing_facts(fs):
    from interp import is_pairing_fact
    pos = [x for x in fs if is_pairing_fact(x) and x.op != "not"]
    neg = [x.a[0] for x in fs if x.op == "not" and is_pairing_fact(x.a[0])]
    return pos, neg
