"""Rule helpers shared by the checks: obligations, coverage of inputs, decodes."""
import json, os, sys, time, re
from core import *
from terms import *
from terms import _raw
import facts as F

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    """obligations of one property: proved / undecided / violated"""

    def __init__(self, prop):
        self.prop = prop
        self.obs = []            # (rule, where, status, detail)
        self.analysed = {}       # what was looked at: label -> count
        self.notes = []
        self.seen = set()

    def add(self, rule, where, status, detail=""):
        k = (rule, where, status, detail)
        if k not in self.seen:
            self.seen.add(k)
            self.obs.append(k)

    def ok(self, rule, where, detail=""):
        self.add(rule, where, "proved", detail)

    def bad(self, rule, where, detail=""):
        self.add(rule, where, "violated", detail)

    def und(self, rule, where, detail=""):
        self.add(rule, where, "undecided", detail)

    def judge(self, rule, where, verdict, detail=""):
        """verdict True / False / None"""
        self.add(rule, where, {True: "proved", False: "violated", None: "undecided"}[verdict], detail)

    def count(self, label, n=1):
        self.analysed[label] = self.analysed.get(label, 0) + n

    def tally(self):
        r = {"proved": 0, "undecided": 0, "violated": 0}
        for o in self.obs:
            r[o[2]] += 1
        return r


# --- atoms ---------------------------------------------------------------------
def atoms(fs):
    """the atomic propositions of a set of facts (connectives and foralls opened)"""
    out = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.op == "and":
            st.extend(x.a)
        elif x.op == "not":
            st.append(x.a[0])
        elif x.op == "all":
            st.append(x.a[2])
        else:
            out.add(x)
    return out


CRYPTO = {"msm", "final_exp", "miller", "pairing", "add", "mul", "neg", "sub", "finv", "fpow", "geom", "hash:Sha256", "fr_enc_be", "g1_enc",
          "mut0:blst::blst_fr_from_scalar", "is_identity", "sum", "product", "conv:Scalar"}
KNOWN_APPS = CRYPTO | {"g1_dec", "g2_dec", "g1_dec_unchecked", "g2_dec_unchecked", "fr_dec_be", "fr_dec_le", "set", "contains", "bitrev", "opBitAnd", "opBitOr",
                       "opShl", "opShr", "opBitXor", "to_be8", "to_le8", "rawslice", "deref", "is_null", "resize", "perm", "swap", "hex_dec"}


def opaque_atom(a, p=None):
    """does the atom rest on something the interpreter has no meaning for
    (a merge, a loop-carried value, an unknown call), outside field arithmetic?"""
    seen = set()
    st = [a]
    hit = False
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("phi", "lphi", "fold", "self"):
            hit = True
            break
        if x.op == "app":
            if x.a[0] in CRYPTO:
                continue
            if x.a[0] not in KNOWN_APPS and not str(x.a[0]).startswith("str::"):
                hit = True
                break
        st.extend(y for y in x.a if isinstance(y, T))
    return hit and (p is None or p in content(a) or mentions_len(a, p))


def mentions_len(t, p):
    return any(x is p for x in subterms(t))


def content(t):
    """parameters whose contents (not only length) the term depends on"""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "param":
            out.add(x)
            continue
        if x.op == "len":
            # the length of a parameter, or of something computed from one
            if x.a[0].op == "param":
                continue
        st.extend(y for y in x.a if isinstance(y, T))
        if x.op in ("phi", "lphi"):
            st.extend(phi_alts(x))
    return out


# --- coverage --------------------------------------------------------------------
BINDERS = {"gen": (0, 1, (2,)), "flat": (0, 1, (2,)), "fgen": (0, 1, (2, 3)), "all": (0, 1, (2,)), "fold": (0, 1, (3,))}


def drops(t, fs=()):
    """is t a list some of whose candidate entries are left out: a loop with an
    iteration that appends nothing, or a filter"""
    if t.op == "fgen":
        pr = t.a[2]
        return not (pr.op == "not" and pr.a[0].op == "app" and pr.a[0].a[0] == "is_identity") and \
            F.holds(fs, Eq(tlen(t), t.a[0])) is not True
    if t.op == "fold" and t.a[3].op == "app" and t.a[3].a[0] == "alts" and len(t.a[3].a) > 2:
        me = _raw("self", t.a[4])
        al = t.a[3].a[1:]
        if me in al and any(x.op == "cat" and x.a[0] is me for x in al):
            return F.holds(fs, Eq(tlen(t), t.a[0])) is not True
    return False


def walk(t, skip=None):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen or (skip and skip(x)):
            continue
        seen.add(x)
        yield x
        st.extend(y for y in x.a if isinstance(y, T))


def uses(t, p, skip=None, fs=()):
    """[(index term, [counts of the loops binding it], dropped)] for the elements
    of sequence parameter p used in t; index None when p is used as a whole.
    dropped: the use sits inside a list that leaves entries out"""
    if not mentions(t, p):
        return []
    es, binders, whole, lossy = set(), [], False, []
    for x in walk(t, skip):
        if x.op == "elem" and x.a[0] is p or x.op == "slice" and x.a[0] is p and not any(y is p for y in x.a[1:]):
            es.add(x)
        elif x.op != "len" and any(y is p for y in x.a if isinstance(y, T)):
            whole = True
        if x.op in BINDERS:
            binders.append((x.a[1], x.a[0], [x.a[i] for i in BINDERS[x.op][2]], drops(x, fs)))
        elif x.op == "ovl":
            binders.append((x.a[2], x.a[1], [x.a[3]], False))
    out = [(None, [], False)] if whole else []
    for e in es:
        i = e.a[1]
        ns, dr = [], False
        bv = i
        if e.op == "slice":
            i = ("slice", e.a[1], e.a[2])
            b = [y for y in lin_parts(e.a[1])[1] if y.op == "bv"]
            bv = b[0] if len(b) == 1 else e.a[1]
        if bv.op == "bv":
            for lvl, n, bodies, d in binders:
                if lvl == bv.a[0] and any(any(y is e for y in walk(b, skip)) for b in bodies):
                    if d:
                        dr = True
                    else:
                        ns.append(n)
        out.append((i, ns, dr))
    return out


_ment = {}


def mentions(t, p):
    k = (t, p)
    r = _ment.get(k)
    if r is None:
        r = any(x is p for x in subterms(t))
        _ment[k] = r
    return r


def covers(t, p, fs, skip=None):
    """True: some use of p in t ranges over every element; False: p's elements
    are used, but provably not all of them; None: unknown; 'none': p is not used"""
    us = uses(t, p, skip, fs)
    if not us:
        return "none"
    N = tlen(p)
    short = []
    steps = {}
    pieces = []
    for i, ns, dr in us:
        if i is None:
            return True                       # the whole sequence
        if isinstance(i, tuple):
            # pieces of the sequence
            a, b = i[1:]
            w = sub(b, a)
            c, m = lin_parts(a)
            if not m or not any(y.op == "bv" for y in m):
                if (isint(a) and a.a[0] == 0) and (b is N or F.holds(fs, Eq(b, N)) is True):
                    return True
                pieces.append((a, b))
            elif len(m) == 1 and isint(w) and c == 0 and list(m.values())[0] == w.a[0]:
                for n in ns:
                    n = mul(n, w)
                    if n is N or F.holds(fs, Eq(n, N)) is True:
                        return True
                    short.append(n if F.holds(fs, Lt(n, N)) is True else None)
                if not ns:
                    short.append(a if dr else None)
            elif len(m) == 1 and isint(w) and list(m.values())[0] > w.a[0] > 0:
                steps.setdefault(list(m.values())[0], set()).update(range(c, c + w.a[0]) if w.a[0] <= 4096 and list(m.values())[0] <= 8192 else range(list(m.values())[0]))
            else:
                short.append(None)
            continue
        if i.op == "bv":
            for n in ns:
                if n is N or F.holds(fs, Eq(n, N)) is True:
                    return True
                short.append(n if F.holds(fs, Lt(n, N)) is True or capped(n, N, fs, p) else None)
            if dr:
                short.append(i)
            elif not ns:
                short.append(None)
        elif isint(i):
            short.append(i)
        elif i.op == "elem" and drops(i.a[0], fs):
            short.append(i)                   # positions picked by a filter
        else:
            c, m = lin_parts(i)
            bv = [x for x in m if x.op == "bv"]
            if len(m) == len(bv) == 1 and m[bv[0]] > 1:
                # every so many positions: some are left out unless the others are visited as well
                steps.setdefault(m[bv[0]], set()).add(c % m[bv[0]])
            else:
                short.append(i if len(bv) == 1 and m[bv[0]] == 1 and isint(sub(i, bv[0])) else None)
    if pieces:
        at = {a: b for a, b in pieces}
        x, n = Int(0), 0
        while x in at and n <= len(at):
            x, n = at[x], n + 1
        if x is N or F.holds(fs, Eq(x, N)) is True:
            return True
        short.append(pieces[0][0] if all(isint(y) for ab in pieces for y in ab) else None)
    for k, rs in steps.items():
        short.append(k if len(rs) < k and len(steps) == 1 else None)
    return False if short and all(x is not None for x in short) else None


def capped(n, N, fs, p):
    """n = min(constant, ..), and nothing on the path bounds the length N of p by that constant"""
    if n.op != "min":
        return False
    cs = [x.a[0] for x in n.a if isint(x)]
    if not cs or F.holds(fs, Le(N, Int(cs[0]))) is True:
        return False
    return not any(opaque_atom(x) and mentions_len(x, p) and not any(y.op == "app" and str(y.a[0]).startswith(("hash:", "geom", "miller")) for y in subterms(x)) for x in atoms(fs))


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


def apps(t, *names):
    return [x for x in subterms(t) if x.op == "app" and x.a[0] in names]


def params_of(r):
    """argument terms of a run by parameter name"""
    return {a.a[0]: a for a in r.args if a.op == "param"}


def result_kind(v):
    """('ok', payload) | ('err', [variant path names], payload) of a Result term"""
    if v.op == "agg" and str(v.a[0]).split("::")[-1] in ("Result", "result"):
        return ("ok" if v.a[1] == 0 else "err"), v.a[2]
    if v.op == "agg" and v.a[1] in (0, 1) and "Result" in str(v.a[0]):
        return ("ok" if v.a[1] == 0 else "err"), v.a[2]
    return "?", v


def variant_names(c, v):
    """the chain of enum variant names of an error value, outermost first"""
    out = []
    while v.op == "agg":
        t = None
        for x in c.types:
            if x.get("k") == "adt" and x["path"] == v.a[0]:
                t = x
                break
        if t is None or not t.get("vs") or v.a[1] >= len(t["vs"]):
            break
        out.append(t["vs"][v.a[1]]["n"])
        nxt = [y for y in v.a[2:] if isinstance(y, T) and y.op == "agg" and y.a[0] != "tuple"]
        if not nxt:
            break
        v = nxt[0]
    return out


def brief(t, n=160):
    s = show(t)
    return s if len(s) <= n else s[:n] + "…"
