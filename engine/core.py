"""Shared front end of the checks: dumps -> abstract runs of the public API."""
import sys, time, threading, os, json
sys.setrecursionlimit(1000000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms
from terms import *
from interp import Crate, Interp, Param
import facts as F

BUILD = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build"))


def big_stack(fn):
    """runs fn on a thread with a deep stack; returns its result or raises"""
    box = {}

    def go():
        try:
            box["r"] = fn()
        except BaseException as e:
            import traceback
            box["e"] = e
            box["tb"] = traceback.format_exc()
    threading.stack_size(1024 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in box:
        sys.stderr.write(box["tb"])
        raise box["e"]
    return box["r"]


_crates = {}


def crate(config, name):
    k = (config, name)
    if k not in _crates:
        _crates[k] = Crate(os.path.join(BUILD, "dump-%s" % config, name + ".json"))
    return _crates[k]


class Lost(Exception):
    """an anchor of the analysis (a public name) is gone"""


def public_fn(c, suffix):
    """the one function whose path ends with `suffix` (segments compared, generics stripped)"""
    from interp import strip_generics
    hits = [f for f in c.fns.values() if strip_generics(f["name"]).replace(" ", "").endswith(suffix.replace(" ", "")) and f["kind"] != "closure"]
    if len(hits) != 1:
        raise Lost("%s: %d functions named %s" % (c.d["crate"] if hasattr(c, "d") else "", len(hits), suffix))
    return hits[0]


def argnames(f):
    return [f["locals"][i + 1][1] if len(f["locals"][i + 1]) > 1 else "arg%d" % i for i in range(f["argc"])]


SETUP_LEN = {"g1_monomial": 4096, "g1_lagrange": 4096, "g2_monomial": 65}


def adt(c, suffix):
    for t in c.types:
        if t.get("k") == "adt" and t.get("path", "").endswith(suffix):
            return t
    raise Lost("type %s" % suffix)


def setup_param(c):
    """the trusted setup as a symbolic value with the documented vector lengths"""
    ts = Param("trusted_setup")
    for i, (n, _) in enumerate(adt(c, "trusted_setup::TrustedSetup")["vs"][0]["f"]):
        if n in SETUP_LEN:
            terms.LEN[field(ts, i)] = SETUP_LEN[n]
    return ts


def das_fn(c, name):
    hits = c.find(r"DASContext>?::%s$" % name)
    if len(hits) != 1:
        raise Lost("%d functions named DASContext::%s" % (len(hits), name))
    return hits[0]


def elem_len(I, ty):
    """size of the fixed-size arrays a vector or slice type holds"""
    t = I.ty(I.peel_ref(ty))
    if t["k"] == "adt" and t["path"].endswith("vec::Vec") and t["args"]:
        e = t["args"][0]
    elif t["k"] in ("slice", "array"):
        e = t["e"]
    else:
        return None
    e = I.ty(I.peel_ref(e))
    return e["n"] if e["k"] == "array" and isinstance(e.get("n"), int) else None


def typed_params(I, f, skip=0):
    out = []
    for i, n in enumerate(argnames(f)):
        p = Param(n)
        ty = f["locals"][i + 1][0]
        if i >= skip:
            n = elem_len(I, ty)
            if n is not None:
                terms.ELEN[p] = n
            I.note_len(p, ty)
        out.append(p)
    return out


_ctx = {}


def context(c, config):
    """abstract DASContext values the public constructor can return: [(facts, value)]"""
    if config in _ctx:
        return _ctx[config]
    f = das_fn(c, "new" if config == "single" else "with_threads")
    I = Interp(c)
    ts = setup_param(c)
    tsid = adt(c, "trusted_setup::TrustedSetup")
    args = []
    for i in range(f["argc"]):
        loc = f["locals"][i + 1]
        t = c.types[I.peel_ref(loc[0])]
        args.append(ts if t.get("path") == tsid["path"] else Param(loc[1] if len(loc) > 1 else "a%d" % i))
    seen, out = set(), []
    fields = adt(c, "rust_eth_kzg::DASContext")["vs"][0]["f"]
    for s, v in I.run(f, args):
        for i, (n, ty) in enumerate(fields):
            if "ThreadPool" in c.types[ty]["s"]:
                v = setfield(v, i, Param("pool"))
        if v not in seen:
            seen.add(v)
            out.append((frozenset(), v))
    _ctx[config] = (out, I)
    return _ctx[config]


class Run:
    """outcomes and log of one abstract execution"""

    def __init__(self, I, f, args, outs, secs):
        self.I, self.f, self.args, self.outs, self.secs = I, f, args, outs, secs

    def recs(self, kind):
        return [r for r in self.I.log if r.kind == kind]


_runs = {}


def das_run(config, name, variant=0, opaque=None):
    """abstract execution of a DASContext method on a constructor-established context"""
    k = (config, name, variant)
    if k in _runs:
        return _runs[k]
    c = crate(config, "rust_eth_kzg")
    ctxs, _ = context(c, config)
    f = das_fn(c, name)
    I = Interp(c, opaque=opaque)
    args = [ctxs[variant][1]] + typed_params(I, f, 1)[1:]
    t = time.time()
    outs = I.run(f, args)
    _runs[k] = Run(I, f, args, outs, time.time() - t)
    return _runs[k]
