"""Semantics of the library functions the analysed code calls.

A model receives the abstract state and the call and returns [(state, value)],
or NotImplemented to fall back on the body (if dumped) or an opaque result."""
import re
from terms import *
from terms import _raw
from interp import key2, mref, pi, ps, pf, RETRY, Rec, strip_generics, read_path
import facts as F


class Call:
    __slots__ = ("I", "rec", "path", "args", "dty", "argtys", "span", "diverges", "gens")

    def __init__(self, I, rec, path, args, dty, argtys, span, diverges, gens):
        self.I, self.rec, self.path, self.args, self.dty, self.argtys = I, rec, path, args, dty, argtys
        self.span, self.diverges, self.gens = span, diverges, gens

    def selfty(self):
        """type of the receiver, behind references"""
        if self.argtys and self.argtys[0] is not None:
            return self.I.ty(self.I.peel_ref(self.argtys[0]))
        return {"k": "?", "s": "?"}


TAB = {}


def m(*keys):
    def d(fn):
        for k in keys:
            TAB[k] = fn
        return fn
    return d


def lookup(c):
    k1 = key2(c.path)
    h = TAB.get(k1)
    if h is None:
        h = TAB.get(key2(c.rec["path"]))
    if h is None:
        meth = k1.split("::")[-1]
        h = TAB.get("*::" + meth)
    return h


def opname(path, trait):
    """a name for an opaque function: the impl's type and method, no generics"""
    mm = re.match(r"^<(.*) as (.*)>::([A-Za-z0-9_]+)$", path)
    if mm:
        t = strip_generics(mm.group(1)).replace("&", "").replace("mut ", "").strip().split("::")[-1]
        return "%s::%s" % (t, mm.group(3))
    return key2(path)


def ident(I, st, c):
    return [(st, c.args[0])]


def pure(name):
    def h(I, st, c):
        return [(st, App(name, *[I.vis(st, a) for a in c.args]))]
    return h


def v0(I, st, c, i=0):
    return I.load(st, c.args[i])


# --- identity-like conversions ---------------------------------------------------------
for k in ("Clone::clone", "*::to_vec", "*::to_owned", "Borrow::borrow", "AsRef::as_ref", "*::as_slice", "*::into_boxed_slice",
          "*::into_vec", "hint::must_use", "hint::black_box", "Arc::new", "Box::new", "Rc::new", "Box::pin", "*::into_inner", "Into::into", "From::from",
          "str::as_bytes", "*::copied", "*::cloned", "ConvertVec::to_vec", "ToOwned::to_owned", "Cow::into_owned", "*::into_bytes", "String::as_str",
          "Option::copied", "Option::cloned", "*::as_ref", "*::to_affine", "*::to_curve", "Vec::from", "*::as_array", "CString::as_c_str", "*::as_str", "ManuallyDrop::new"):
    pass


@m("Clone::clone", "*::to_vec", "*::to_owned", "Borrow::borrow", "AsRef::as_ref", "*::as_slice", "*::into_boxed_slice", "*::into_vec",
   "hint::must_use", "hint::black_box", "Arc::new", "Box::new", "Rc::new", "str::as_bytes", "ConvertVec::to_vec", "ToOwned::to_owned",
   "*::into_bytes", "String::as_str", "Option::copied", "Option::cloned", "Option::as_ref", "Option::as_deref", "*::to_affine", "*::to_curve",
   "Result::as_ref", "*::as_array", "ManuallyDrop::new", "MaybeUninit::new", "*::into_array", "*::as_bytes")
def m_ident(I, st, c):
    return [(st, v0(I, st, c))]


@m("Iterator::copied", "Iterator::cloned", "Iterator::by_ref", "Iterator::fuse", "Iterator::peekable", "ParallelIterator::copied", "ParallelIterator::cloned",
   "IndexedParallelIterator::with_min_len", "IndexedParallelIterator::with_max_len")
def m_it_ident(I, st, c):
    return [(st, c.args[0])]


@m("Deref::deref", "DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "*::as_mut_slice", "Option::as_mut", "Option::as_deref_mut", "*::leak", "*::get_mut_unchecked")
def m_deref(I, st, c):
    a = c.args[0]
    if key2(c.path) == "Deref::deref":
        return [(st, v0(I, st, c))]
    if key2(c.path) in ("Option::as_mut", "Option::as_deref_mut"):
        return NotImplemented
    # a reference to the container is a reference to its content
    return [(st, a if a.op == "mref" else a)]


CONV_ID = re.compile(r"G1|G2|Choice|CtOption|GenericArray|Box|Vec|String|Arc|blst_|str|\[T|\[u8")


@m("From::from", "Into::into")
def m_from(I, st, c):
    f = I.c.fns.get(c.rec.get("id"))
    p = c.rec["path"]
    if f is not None and ("std::convert::Into" in p or "std::convert::From<T>" in p):
        return NotImplemented
    src = I.ty(c.argtys[0])["s"] if c.argtys and c.argtys[0] is not None else ""
    dst = I.ty(c.dty)["s"] if c.dty is not None else ""
    if "HashMap" in dst or "HashSet" in dst or "BTree" in dst:
        return [(st, App("set" if "Set" in dst else "map", v0(I, st, c)))]
    prim = re.compile(r"^&?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|isize|bool)$")
    if prim.match(src) and prim.match(dst):
        return [(st, v0(I, st, c))]
    if prim.match(src):
        return [(st, App("conv:" + dst.split("::")[-1], v0(I, st, c)))]
    return [(st, v0(I, st, c))]


# --- errors, formatting ---------------------------------------------------------------------
@m("fmt::format", "Arguments::new", "Arguments::from_str", "Argument::new_display", "Argument::new_debug", "ToString::to_string", "Arguments::new_const", "Arguments::new_v1")
def m_fmt(I, st, c):
    return [(st, App("fmt", *[I.vis(st, a) for a in c.args]))]


# --- arithmetic --------------------------------------------------------------------------------
@m("num::saturating_sub")
def m_ssub(I, st, c):
    a, b = v0(I, st, c), v0(I, st, c, 1)
    r = ssub(a, b)
    if r.op == "ssub":
        h = F.holds(st.facts, Lt(a, b))
        if h is False:
            r = sub(a, b)
    return [(st, r)]


@m("Ord::min", "cmp::min")
def m_min(I, st, c):
    return [(st, tmin(v0(I, st, c), v0(I, st, c, 1)))]


@m("Ord::max", "cmp::max")
def m_max(I, st, c):
    return [(st, tmax(v0(I, st, c), v0(I, st, c, 1)))]


@m("num::unchecked_add")
def m_uadd(I, st, c):
    return [(st, add(c.args[0], c.args[1]))]


WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}


@m("num::wrapping_add")
def m_wadd(I, st, c):
    a, b = v0(I, st, c), v0(I, st, c, 1)
    t = I.ty(c.dty) if c.dty is not None else {}
    w = WIDTH.get(t.get("s"))
    r = add(a, b)
    x, k = (b, a) if isint(a) else (a, b)
    if w is None or isint(r) or not isint(k) or x.op in INTY or F.holds(st.facts, Lt(r, Int(1 << w))) is True:
        return [(st, r)]
    out = []
    for s, fits in I.branch(st, Lt(x, Int((1 << w) - k.a[0]))):
        out.append((s, r if fits else sub(r, Int(1 << w))))
    return out


@m("num::checked_add", "num::checked_sub", "num::checked_mul")
def m_checked(I, st, c):
    a, b = v0(I, st, c), v0(I, st, c, 1)
    k = key2(c.path)
    if k.endswith("sub"):
        out = []
        for s, lt in I.branch(st, Lt(a, b)):
            out.append((s, NONE if lt else Some(sub(a, b))))
        return out
    r = add(a, b) if k.endswith("add") else mul(a, b)
    if isint(r):
        return [(st, Some(r))]
    s2 = st.fork()
    o = App("fits:" + k, a, b)
    out = []
    for s, ok in I.branch(st, o):
        out.append((s, Some(r) if ok else NONE))
    return out


@m("num::is_power_of_two")
def m_pow2(I, st, c):
    a = c.args[0]
    if isint(a):
        return [(st, Bool(a.a[0] > 0 and a.a[0] & (a.a[0] - 1) == 0))]
    return [(st, App("is_pow2", a))]


@m("num::next_power_of_two")
def m_npow2(I, st, c):
    a = c.args[0]
    if isint(a):
        x = 1
        while x < a.a[0]:
            x *= 2
        return [(st, Int(x))]
    return [(st, App("next_pow2", a))]


@m("num::trailing_zeros")
def m_tz(I, st, c):
    a = c.args[0]
    if isint(a) and a.a[0] > 0:
        return [(st, Int((a.a[0] & -a.a[0]).bit_length() - 1))]
    return [(st, App("tz", a))]


@m("num::pow")
def m_pow(I, st, c):
    a, b = c.args
    if isint(a) and isint(b):
        return [(st, Int(a.a[0] ** b.a[0]))]
    return [(st, App("pow", a, b))]


@m("num::to_be_bytes", "num::to_le_bytes", "num::to_ne_bytes")
def m_bytes(I, st, c):
    t = I.ty(c.dty) if c.dty is not None else {}
    n = t.get("n") or 8
    v = App(key2(c.path).split("::")[1][:5] + str(n), v0(I, st, c))
    LEN[v] = n
    return [(st, v)]


@m("PartialEq::eq", "PartialEq::ne", "ConstantTimeEq::ct_eq", "PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_eq(I, st, c):
    if I.c.fns.get(c.rec.get("id"), {}).get("ws"):
        return NotImplemented
    a, b = v0(I, st, c), v0(I, st, c, 1)
    k = key2(c.path).split("::")[1]
    if k in ("eq", "ct_eq"):
        return [(st, Eq(a, b))]
    if k == "ne":
        return [(st, Not(Eq(a, b)))]
    return [(st, {"lt": Lt(a, b), "le": Le(a, b), "gt": Lt(b, a), "ge": Le(b, a)}[k])]


COMM = ("add", "mul")


@m("Add::add", "Mul::mul", "Sub::sub", "Neg::neg", "Div::div", "Rem::rem", "BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor", "Not::not", "Shl::shl", "Shr::shr")
def m_arith(I, st, c):
    k = key2(c.path).split("::")[1]
    a = [I.load(st, x) for x in c.args]
    t = c.selfty()
    if t["k"] == "int":
        names = {"add": add, "mul": mul, "sub": sub, "div": div, "rem": rem}
        if k in names and len(a) == 2:
            return [(st, names[k](a[0], a[1]))]
    if t["k"] == "bool" or t["s"].endswith("Choice"):
        if k == "bitand":
            return [(st, And(*a))]
        if k == "bitor":
            return [(st, Or(*a))]
        if k == "not":
            return [(st, Not(a[0]))]
    return [(st, fop(k, *a))]


def fop(k, *a):
    """field / group operation"""
    if k in COMM:
        # flatten and sort: associative and commutative
        fs = []
        for x in a:
            if x.op == "app" and x.a[0] == k:
                fs += x.a[1:]
            else:
                fs.append(x)
        return App(k, *sorted(fs, key=lambda t: t.id))
    if k == "sub":
        return fop("add", a[0], fop("neg", a[1]))
    if k == "neg" and a[0].op == "app" and a[0].a[0] == "neg":
        return a[0].a[1]
    return App(k, *a)


@m("AddAssign::add_assign", "MulAssign::mul_assign", "SubAssign::sub_assign", "BitAndAssign::bitand_assign", "BitOrAssign::bitor_assign")
def m_assign(I, st, c):
    k = key2(c.path).split("::")[1].split("_")[0]
    x, y = v0(I, st, c), v0(I, st, c, 1)
    t = c.selfty()
    if t["k"] == "int":
        r = {"add": add, "mul": mul, "sub": sub}.get(k, lambda p, q: App("op" + k, p, q))(x, y)
    elif t["k"] == "bool" or t["s"].endswith("Choice"):
        r = And(x, y) if k == "bitand" else Or(x, y)
    else:
        r = fop(k, x, y)
    I.store_ref(st, c.args[0], r, c.span)
    return [(st, UNIT)]


# --- Option-like (subtle) -------------------------------------------------------------------
@m("CtOption::is_some", "CtOption::is_none")
def m_ctis(I, st, c):
    b = IsV(v0(I, st, c), 1)
    return [(st, b if key2(c.path).endswith("some") else Not(b))]


@m("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_is(I, st, c):
    v = v0(I, st, c)
    k = key2(c.path)
    b = IsV(v, 1)
    return [(st, b if k in ("Option::is_some", "Result::is_err") else Not(b))]


@m("CtOption::unwrap", "CtOption::expect")
def m_ctunwrap(I, st, c):
    v = v0(I, st, c)
    out = []
    for s, ok in I.branch(st, IsV(v, 1)):
        if ok:
            out.append((s, field(v, 0, 1)))
        else:
            I.panic(s, "CtOption::unwrap", c.span, Not(IsV(v, 1)))
    return out


@m("CtOption::unwrap_or", "CtOption::unwrap_or_else")
def m_ctunwrapor(I, st, c):
    v = v0(I, st, c)
    out = []
    for s, ok in I.branch(st, IsV(v, 1)):
        if ok:
            out.append((s, field(v, 0, 1)))
        elif key2(c.path).endswith("else"):
            out += I.call_value(s, c.args[1], [], c.span)
        else:
            out.append((s, c.args[1]))
    return out


@m("CtOption::map", "CtOption::and_then")
def m_ctmap(I, st, c):
    v = v0(I, st, c)
    out = []
    for s, ok in I.branch(st, IsV(v, 1)):
        if ok:
            for s2, r in I.call_value(s, c.args[1], [field(v, 0, 1)], c.span):
                out.append((s2, Some(r) if key2(c.path).endswith("map") else r))
        else:
            out.append((s, NONE))
    return out


@m("CtOption::or_else")
def m_ctorelse(I, st, c):
    v = v0(I, st, c)
    out = []
    for s, ok in I.branch(st, IsV(v, 1)):
        if ok:
            out.append((s, Some(field(v, 0, 1))))
        else:
            out += I.call_value(s, c.args[1], [], c.span)
    return out


@m("CtOption::new")
def m_ctnew(I, st, c):
    out = []
    for s, ok in I.branch(st, c.args[1]):
        out.append((s, Some(c.args[0]) if ok else NONE))
    return out


# --- function values -----------------------------------------------------------------------------
@m("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_call(I, st, c):
    f = c.args[0]
    a = c.args[1]
    args = list(a.a[2:]) if a.op == "agg" and a.a[0] == "tuple" else [field(a, i) for i in range(len(I.ty(c.argtys[1]).get("es", [])))]
    return I.call_value(st, f, args, c.span)


@m("ThreadPool::install", "ThreadPool::scope_install")
def m_install(I, st, c):
    I.logrec(Rec("call", "ThreadPool::install", (v0(I, st, c),), st.facts, tuple(I.stack), c.span))
    I.stack.append(("install", "ThreadPool::install", c.span))
    try:
        return I.call_value(st, c.args[1], [], c.span)
    finally:
        I.stack.pop()


@m("panic::catch_unwind")
def m_catch(I, st, c):
    out = []
    for s, r in I.call_value(st, c.args[0], [], c.span):
        out.append((s, Ok(r)))
    return out


@m("rayon::join", "join::join")
def m_join(I, st, c):
    par(I, st, c, key2(c.path))
    out = []
    for s, a in I.call_value(st, c.args[0], [], c.span):
        for s2, b in I.call_value(s, c.args[1], [], c.span):
            out.append((s2, Tup(a, b)))
    return out


# --- vectors and slices ----------------------------------------------------------------------------
@m("Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity", "VecDeque::new")
def m_vecnew(I, st, c):
    return [(st, EMPTY)]


@m("vec::from_elem")
def m_fromelem(I, st, c):
    return [(st, Rep(c.args[0], c.args[1]))]


@m("Box::new_uninit")
def m_newuninit(I, st, c):
    loc = _raw("heap", I.new_uid())
    st.env[loc] = App("uninit", Int(0))
    return [(st, mref(loc))]


@m("boxed::box_assume_init_into_vec_unsafe", "boxed::box_new", "Box::assume_init")
def m_boxvec(I, st, c):
    a = c.args[0]
    if a.op == "mref" and a.a[0].op == "heap":
        v = I.load(st, a)
        st.env.pop(a.a[0], None)
        return [(st, v)]
    return [(st, I.vis(st, a))]


@m("boxed::write_box_via_move", "intrinsics::write_box_via_move")
def m_writebox(I, st, c):
    I.store_ref(st, c.args[0], c.args[1])
    return [(st, c.args[0])]


@m("Vec::push", "VecDeque::push_back", "String::push")
def m_push(I, st, c):
    I.store_ref(st, c.args[0], Cat(v0(I, st, c), Arr(c.args[1])), c.span)
    return [(st, UNIT)]


@m("Vec::extend_from_slice", "Vec::append", "String::push_str", "Write::write_all")
def m_extslice(I, st, c):
    x = v0(I, st, c, 1)
    I.store_ref(st, c.args[0], Cat(v0(I, st, c), x), c.span)
    if key2(c.path) == "Vec::append":
        I.store_ref(st, c.args[1], EMPTY, c.span)
    return [(st, UNIT)]


@m("Extend::extend")
def m_extend(I, st, c):
    out = []
    for s, x in collect(I, st, c.args[1], c):
        cur = I.load(s, c.args[0])
        if "Hash" in c.selfty()["s"] or "BTree" in c.selfty()["s"]:
            I.store_ref(s, c.args[0], App("set", Cat(cur.a[1] if cur.op == "app" and cur.a[0] == "set" else cur, x)), c.span)
        else:
            I.store_ref(s, c.args[0], Cat(cur, x), c.span)
        out.append((s, UNIT))
    return out


@m("Vec::len", "slice::len", "str::len", "String::len", "ExactSizeIterator::len", "HashMap::len", "HashSet::len", "BTreeSet::len", "BTreeMap::len",
   "VecDeque::len", "array::len", "IndexedParallelIterator::len")
def m_len(I, st, c):
    v = v0(I, st, c)
    if is_seq(v):
        n = seq_len(v)
        return [(st, n if n is not None else App("len", v))]
    if v.op == "app" and v.a[0] == "rawslice":
        return [(st, v.a[2])]
    return [(st, tlen(v))]


@m("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "HashMap::is_empty", "HashSet::is_empty", "ExactSizeIterator::is_empty", "BTreeSet::is_empty")
def m_isempty(I, st, c):
    r = m_len(I, st, c)
    return [(s, Eq(n, Int(0))) for s, n in r]


@m("Vec::clear")
def m_clear(I, st, c):
    I.store_ref(st, c.args[0], EMPTY, c.span)
    return [(st, UNIT)]


@m("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "String::reserve", "HashMap::reserve", "HashSet::reserve")
def m_nop(I, st, c):
    return [(st, UNIT)]


@m("Vec::truncate")
def m_trunc(I, st, c):
    v = v0(I, st, c)
    n = tlen(v)
    h = F.holds(st.facts, Lt(n, c.args[1]))
    m_ = c.args[1] if h is False else tmin(n, c.args[1])
    I.store_ref(st, c.args[0], tslice(v, Int(0), m_), c.span)
    return [(st, UNIT)]


@m("Vec::resize")
def m_resize(I, st, c):
    v = v0(I, st, c)
    n = tlen(v)
    new = c.args[1]
    if v is EMPTY:
        r = Rep(c.args[2], new)
    elif F.holds(st.facts, Lt(new, n)) is False:
        r = Cat(v, Rep(c.args[2], sub(new, n)))
    else:
        r = App("resize", v, new, c.args[2])
        if isint(new):
            LEN[r] = new.a[0]
    I.store_ref(st, c.args[0], r, c.span)
    return [(st, UNIT)]


@m("Vec::pop")
def m_pop(I, st, c):
    v = v0(I, st, c)
    out = []
    for s, e in I.branch(st, Eq(tlen(v), Int(0))):
        if e:
            out.append((s, NONE))
        else:
            n = sub(tlen(v), Int(1))
            x = elem(v, n)
            I.store_ref(s, c.args[0], tslice(v, Int(0), n), c.span)
            out.append((s, Some(x)))
    return out


@m("slice::last", "slice::first")
def m_last(I, st, c):
    v = v0(I, st, c)
    out = []
    for s, e in I.branch(st, Eq(tlen(v), Int(0))):
        if e:
            out.append((s, NONE))
        else:
            out.append((s, Some(elem(v, sub(tlen(v), Int(1)) if key2(c.path).endswith("last") else Int(0)))))
    return out


@m("slice::get", "Vec::get")
def m_get(I, st, c):
    v, i = v0(I, st, c), v0(I, st, c, 1)
    r = as_range(i, tlen(v))
    out = []
    if r:
        a, b = r
        for s, ok in I.branch(st, And(Le(a, b), Le(b, tlen(v)))):
            out.append((s, Some(tslice(v, a, b)) if ok else NONE))
        return out
    for s, ok in I.branch(st, Lt(i, tlen(v))):
        out.append((s, Some(elem(v, i)) if ok else NONE))
    return out


@m("slice::get_mut", "Vec::get_mut")
def m_getmut(I, st, c):
    v, i = v0(I, st, c), v0(I, st, c, 1)
    r = c.args[0]
    rg = as_range(i, tlen(v))
    if r.op != "mref" or rg:
        return NotImplemented
    out = []
    for s, ok in I.branch(st, Lt(i, tlen(v))):
        out.append((s, Some(mref(r.a[0], *(r.a[1:] + (pi(i),)))) if ok else NONE))
    return out


def as_range(i, n):
    if i.op != "agg":
        return None
    k = str(i.a[0]).split("::")[-1]
    if k == "Range":
        return i.a[2], i.a[3]
    if k == "RangeFrom":
        return i.a[2], n
    if k == "RangeTo":
        return Int(0), i.a[2]
    if k == "RangeFull":
        return Int(0), n
    if k == "RangeInclusive":
        return i.a[2], add(i.a[3], Int(1))
    if k == "RangeToInclusive":
        return Int(0), add(i.a[2], Int(1))
    return None


@m("Index::index", "SliceIndex::index", "IndexMut::index_mut", "SliceIndex::index_mut", "slice::get_unchecked", "slice::get_unchecked_mut")
def m_index(I, st, c):
    if I.c.fns.get(c.rec.get("id"), {}).get("ws"):
        return NotImplemented
    k = key2(c.path)
    a, i = c.args
    if k.startswith("SliceIndex"):
        a, i = i, a
    i = I.load(st, i)
    v = I.load(st, a)
    if v.op == "app" and v.a[0] in ("map",) or "HashMap" in c.selfty()["s"] or "BTreeMap" in c.selfty()["s"]:
        out = []
        g = App("mapget", v, i)
        for s, ok in I.branch(st, IsV(g, 1)):
            if ok:
                out.append((s, field(g, 0, 1)))
            else:
                I.panic(s, "map index", c.span, Not(IsV(g, 1)))
        return out
    n = tlen(v)
    r = as_range(i, n)
    cond = And(Le(r[0], r[1]), Le(r[1], n)) if r else Lt(i, n)
    out = []
    unchecked = "unchecked" in k
    if unchecked:
        I.logrec(Rec("unchecked", k, (v, i, cond), st.facts, tuple(I.stack), c.span))
    for s, ok in ([(st, True)] if unchecked else I.branch(st, cond)):
        if not ok:
            I.panic(s, "index", c.span, Not(cond))
            continue
        if a.op == "mref" and "mut" in k:
            out.append((s, mref(a.a[0], *(a.a[1:] + ((ps(r[0], r[1]),) if r else (pi(i),))))))
        else:
            out.append((s, tslice(v, r[0], r[1]) if r else elem(v, i)))
    return out


@m("slice::split_at", "slice::split_at_mut")
def m_splitat(I, st, c):
    a, i = c.args
    v = I.load(st, a)
    out = []
    for s, ok in I.branch(st, Le(i, tlen(v))):
        if not ok:
            I.panic(s, "split_at", c.span, Lt(tlen(v), i))
        elif a.op == "mref" and key2(c.path).endswith("mut"):
            out.append((s, Tup(mref(a.a[0], *(a.a[1:] + (ps(Int(0), i),))), mref(a.a[0], *(a.a[1:] + (ps(i, tlen(v)),))))))
        else:
            out.append((s, Tup(tslice(v, Int(0), i), tslice(v, i, tlen(v)))))
    return out


@m("slice::copy_from_slice", "slice::clone_from_slice")
def m_copyfrom(I, st, c):
    d, x = v0(I, st, c), v0(I, st, c, 1)
    out = []
    cond = Eq(tlen(d), tlen(x))
    for s, ok in I.branch(st, cond):
        if not ok:
            I.panic(s, "copy_from_slice", c.span, Not(cond))
            continue
        if c.args[0].op != "mref":
            I.logrec(Rec("write", "copy_from_slice", (c.args[0], c.args[0], x), s.facts, tuple(I.stack), c.span))
        I.store_ref(s, c.args[0], x, c.span)
        out.append((s, UNIT))
    return out


@m("slice::fill")
def m_fill(I, st, c):
    v = v0(I, st, c)
    I.store_ref(st, c.args[0], Rep(c.args[1], tlen(v)), c.span)
    return [(st, UNIT)]


@m("slice::reverse", "slice::swap", "slice::rotate_left", "slice::rotate_right", "slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_by_key",
   "slice::sort_unstable_by", "slice::sort_unstable_by_key", "ParallelSliceMut::par_sort", "ParallelSliceMut::par_sort_unstable")
def m_perm(I, st, c):
    v = v0(I, st, c)
    k = key2(c.path)
    if k == "slice::swap":
        for i in c.args[1:]:
            out = I.branch(st, Lt(i, tlen(v)))
            ok = [s for s, b in out if b]
            for s, b in out:
                if not b:
                    I.panic(s, "swap index", c.span, Not(Lt(i, tlen(v))))
            if not ok:
                return []
            st = ok[0]
    name = "sorted" if "sort" in k else k.split("::")[1]
    I.store_ref(st, c.args[0], _raw("perm", v, App(name, *[I.vis(st, a) for a in c.args[1:]])), c.span)
    return [(st, UNIT)]


@m("Vec::dedup")
def m_dedup(I, st, c):
    v = v0(I, st, c)
    I.store_ref(st, c.args[0], App("dedup", v), c.span)
    return [(st, UNIT)]


@m("slice::concat", "Concat::concat")
def m_concat(I, st, c):
    v = v0(I, st, c)
    n = tlen(v)
    if v.op == "gen":
        return [(st, flat_raw(v.a[0], v.a[1], v.a[2]))]
    if v.op == "arr":
        return [(st, Cat(*v.a))]
    if v.op == "flat" and v.a[2].op == "arr" and len(v.a[2].a) == 1:
        return [(st, flat_raw(v.a[0], v.a[1], v.a[2].a[0]))]
    k = Idx(I.new_uid())
    return [(st, Flat(n, k, elem(v, k)))]


@m("mem::take", "mem::replace")
def m_take(I, st, c):
    v = v0(I, st, c)
    I.store_ref(st, c.args[0], c.args[1] if len(c.args) > 1 else EMPTY, c.span)
    return [(st, v)]


@m("mem::swap")
def m_swap(I, st, c):
    a, b = v0(I, st, c), v0(I, st, c, 1)
    I.store_ref(st, c.args[0], b)
    I.store_ref(st, c.args[1], a)
    return [(st, UNIT)]


@m("mem::size_of")
def m_sizeof(I, st, c):
    g = c.rec.get("gens") or []
    if g and isinstance(g[0], int):
        t = I.ty(g[0])
        n = sizeof(I, g[0])
        if n is not None:
            return [(st, Int(n))]
        return [(st, App("size_of:" + t["s"]))]
    return NotImplemented


def sizeof(I, i):
    t = I.ty(i)
    if t["k"] == "int":
        return t["bits"] // 8
    if t["k"] == "array" and t["n"] is not None:
        s = sizeof(I, t["e"])
        return s * t["n"] if s is not None else None
    if t["k"] in ("bool",):
        return 1
    if t["k"] == "adt" and len(t.get("vs") or ()) == 1 and t["vs"][0]["f"] and t["path"].startswith(("blst", "rust_eth_kzg", "crate_crypto")):
        ss = [sizeof(I, f[1]) for f in t["vs"][0]["f"]]
        if len(ss) == 1:
            return ss[0]
    if t["k"] in ("ref", "ptr"):
        return 8 if I.ty(t["e"])["k"] not in ("slice", "str", "dyn") else 16
    return None


@m("G1Affine::compressed_size", "G1Projective::compressed_size")
def m_g1size(I, st, c):
    return [(st, Int(48))]


@m("mem::drop")
def m_drop(I, st, c):
    t = I.ty(c.argtys[0])["s"] if c.argtys and c.argtys[0] is not None else "?"
    I.logrec(Rec("drop", t, (I.vis(st, c.args[0]),), st.facts, tuple(I.stack), c.span))
    return [(st, UNIT)]


@m("mem::forget")
def m_forget(I, st, c):
    t = I.ty(c.argtys[0])["s"] if c.argtys and c.argtys[0] is not None else "?"
    I.logrec(Rec("forget", t, (I.vis(st, c.args[0]),), st.facts, tuple(I.stack), c.span))
    return [(st, UNIT)]


# --- TryFrom / TryInto -----------------------------------------------------------------------------
@m("TryFrom::try_from", "TryInto::try_into")
def m_tryfrom(I, st, c):
    p = c.rec["path"]
    if "std::convert::TryInto" in p and I.c.fns.get(c.rec.get("id")) is not None:
        return NotImplemented
    if I.c.fns.get(c.rec.get("id"), {}).get("ws"):
        return NotImplemented
    dst = I.ty(c.dty) if c.dty is not None else None
    v = v0(I, st, c)
    if dst is not None and dst["k"] == "adt" and dst["path"].endswith("Result"):
        ok = dst["args"][0]
        n = I.peel(ok)
        t = I.ty(n)
        st_ = c.selfty() if c.argtys and c.argtys[0] is not None else {"k": "?"}
        if t["k"] == "array" and t["n"] is not None:
            # a slice / Vec / Box<[T]> into an array of the same length
            cond = Eq(tlen(v), Int(t["n"]))
            out = []
            for s, b in I.branch(st, cond):
                # on success the array is the whole of v, whose length is then known
                w = v if isint(tlen(v)) else tslice(v, Int(0), Int(t["n"]))
                out.append((s, Ok(w) if b else Err(App("TryFromSliceError"))))
            return out
        if t["k"] == "int":
            src = I.ty(c.argtys[0]) if c.argtys and c.argtys[0] is not None else {"k": "?"}
            if src["k"] == "int":
                if src["bits"] <= t["bits"] and src["signed"] == t["signed"] and True:
                    return [(st, Ok(v))]
                if isint(v) and 0 <= v.a[0] < (1 << (t["bits"] - (1 if t["signed"] else 0))):
                    return [(st, Ok(v))]
                fits = App("fits%d%s" % (t["bits"], "s" if t["signed"] else "u"), v)
                out = []
                for s, b in I.branch(st, fits):
                    out.append((s, Ok(v) if b else Err(App("TryFromIntError"))))
                return out
    return NotImplemented


# --- sequences / iterators ------------------------------------------------------------------------
SEQ = {"sq", "smut", "smap", "szip", "senum", "srev", "sskip", "stake", "sstep", "schain", "srange", "schunks", "schunksr", "swin", "srep", "sfilter", "sfmap",
       "sflat", "adv", "sunord", "schunksm", "swhile", "sonce", "sinsp", "scycle"}


def is_seq(v):
    return v.op in SEQ


def to_seq(I, st, v, ty=None):
    """the sequence an IntoIterator value yields"""
    if is_seq(v):
        return v
    if v.op == "mref":
        w = I.load(st, v)
        if is_seq(w):
            return w          # &mut iterator
        t = I.ty(I.peel(ty)) if ty is not None else None
        if t is not None and t["k"] == "adt" and t["path"].split("::")[-1] in ("Range", "RangeInclusive"):
            return to_seq(I, st, w)
        return _raw("smut", v, tlen(w))
    if v.op == "agg":
        k = str(v.a[0]).split("::")[-1]
        if k == "Range":
            return _raw("srange", v.a[2], v.a[3])
        if k == "RangeInclusive":
            return _raw("srange", v.a[2], add(v.a[3], Int(1)))
        if k == "Option":
            return _raw("sq", Arr(*v.a[2:]))
    if ty is not None:
        t = I.ty(I.peel_ref(ty))
        if t["k"] == "adt":
            nm = t["path"].split("::")[-1]
            if nm == "Range":
                return _raw("srange", field(v, 0), field(v, 1))
            if nm == "RangeInclusive":
                return _raw("srange", field(v, 0), add(field(v, 1), Int(1)))
            if nm in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
                return _raw("sunord", v, nm)
            if nm in ("Option",):
                return _raw("sq", App("optseq", v))
            if nm in ("Vec", "Iter", "VecDeque", "IntoIter"):
                return _raw("sq", v)
            if nm not in ("Box", "Arc"):
                return _raw("sq", v)
    return _raw("sq", v)


def seq_len(S):
    o = S.op
    if o == "sq":
        return tlen(S.a[0])
    if o == "smut":
        return S.a[1]
    if o in ("smap", "senum", "srev", "sinsp"):
        return seq_len(S.a[0])
    if o == "szip":
        a, b = seq_len(S.a[0]), seq_len(S.a[1])
        if a is None:
            return b
        if b is None:
            return a
        return tmin(a, b)
    if o == "sskip":
        n = seq_len(S.a[0])
        return None if n is None else ssub(n, S.a[1])
    if o == "stake":
        n = seq_len(S.a[0])
        return S.a[1] if n is None else tmin(n, S.a[1])
    if o == "sstep":
        n = seq_len(S.a[0])
        return None if n is None else div(add(n, sub(S.a[1], Int(1))), S.a[1])
    if o == "schain":
        a, b = seq_len(S.a[0]), seq_len(S.a[1])
        return None if a is None or b is None else add(a, b)
    if o == "srange":
        a, b = S.a
        if isint(a) and a.a[0] == 0:
            return b
        return ssub(b, a)
    if o in ("schunks", "schunksm"):
        return div(S.a[2], S.a[1])
    if o == "schunksr":
        return div(add(S.a[2], sub(S.a[1], Int(1))), S.a[1])
    if o == "swin":
        return ssub(add(tlen(S.a[0]), Int(1)), S.a[1])
    if o == "srep" or o == "scycle":
        return None
    if o == "sonce":
        return Int(1)
    if o in ("sfilter", "sfmap"):
        return seq_len(S.a[0])       # of the underlying iteration
    if o == "adv":
        n = seq_len(S.a[0])
        return None if n is None else sub(n, S.a[1])
    if o == "sunord":
        return tlen(S.a[0])
    if o == "sflat":
        return seq_len(S.a[0])
    if o == "swhile":
        return seq_len(S.a[0])
    return None


SKIP = _raw("SKIP")
STOP = _raw("STOP")


def seq_elem(I, st, S, p, span=None):
    """[(state, element p of S or SKIP)]"""
    o = S.op
    if o == "sq":
        return [(st, elem(S.a[0], p))]
    if o == "smut":
        r = S.a[0]
        return [(st, mref(r.a[0], *(r.a[1:] + (pi(p),))))]
    if o == "smap":
        out = []
        for s, v in seq_elem(I, st, S.a[0], p, span):
            if v is SKIP or v is STOP:
                out.append((s, v))
            elif v.op == "SUB":
                out.append((s, _raw("SUB", _raw("smap", v.a[0], S.a[1]))))
            else:
                out += I.call_value(s, S.a[1], [v], span)
        return out
    if o == "sinsp":
        out = []
        for s, v in seq_elem(I, st, S.a[0], p, span):
            out += [(s2, v) for s2, _ in I.call_value(s, S.a[1], [v], span)]
        return out
    if o == "szip":
        out = []
        for s, v in seq_elem(I, st, S.a[0], p, span):
            for s2, w in seq_elem(I, s, S.a[1], p, span):
                if SKIP in (v, w) or v.op == "SUB" or w.op == "SUB":
                    out.append((s2, App("zipelem", S, p)))
                elif STOP in (v, w):
                    out.append((s2, STOP))
                else:
                    out.append((s2, Tup(v, w)))
        return out
    if o == "senum":
        return [(s, v if v in (SKIP, STOP) else Tup(p if not partial(S.a[0]) else App("enumidx", S, p), v)) for s, v in seq_elem(I, st, S.a[0], p, span)]
    if o == "srev":
        n = seq_len(S.a[0])
        return seq_elem(I, st, S.a[0], sub(sub(n, Int(1)), p) if n is not None else App("revidx", S, p), span)
    if o == "sskip":
        return seq_elem(I, st, S.a[0], add(p, S.a[1]), span)
    if o == "stake":
        return seq_elem(I, st, S.a[0], p, span)
    if o == "sstep":
        return seq_elem(I, st, S.a[0], mul(p, S.a[1]), span)
    if o == "srange":
        return [(st, add(S.a[0], p))]
    if o in ("schunks", "schunksr", "swin"):
        n = S.a[1]
        base = mul(p, n) if o != "swin" else p
        end = add(base, n)
        if o == "schunksr":
            end = tmin(end, S.a[2])
            d = rem(S.a[2], n)
            if isint(d) and d.a[0] == 0:
                end = add(base, n)
        return [(st, tslice(S.a[0], base, end))]
    if o == "schunksm":
        r, n = S.a[0], S.a[1]
        base = mul(p, n)
        return [(st, mref(r.a[0], *(r.a[1:] + (ps(base, add(base, n)),))))]
    if o == "srep":
        return [(st, S.a[0])]
    if o == "sonce":
        return [(st, S.a[0])]
    if o == "schain":
        n = seq_len(S.a[0])
        if n is None:
            return seq_elem(I, st, S.a[0], p, span)
        out = []
        for s, a in I.branch(st, Lt(p, n)):
            out += seq_elem(I, s, S.a[0], p, span) if a else seq_elem(I, s, S.a[1], sub(p, n), span)
        return out
    if o == "sfilter":
        out = []
        for s, v in seq_elem(I, st, S.a[0], p, span):
            if v in (SKIP, STOP):
                out.append((s, v))
                continue
            for s2, c in I.call_value(s, S.a[1], [v], span):
                for s3, b in I.branch(s2, c):
                    out.append((s3, v if b else SKIP))
        return out
    if o == "swhile":       # take_while
        out = []
        for s, v in seq_elem(I, st, S.a[0], p, span):
            for s2, c in I.call_value(s, S.a[1], [v], span):
                for s3, b in I.branch(s2, c):
                    out.append((s3, v if b else STOP))
        return out
    if o == "sfmap":
        out = []
        for s, v in seq_elem(I, st, S.a[0], p, span):
            if v in (SKIP, STOP):
                out.append((s, v))
                continue
            for s2, c in I.call_value(s, S.a[1], [v], span):
                for s3, b in I.branch(s2, IsV(c, 1)):
                    out.append((s3, field(c, 0, 1) if b else SKIP))
        return out
    if o == "sflat":
        out = []
        for s, v in seq_elem(I, st, S.a[0], p, span):
            if v in (SKIP, STOP):
                out.append((s, v))
                continue
            vs = [(s, v)] if S.a[1] is NONE else I.call_value(s, S.a[1], [v], span)
            out += [(s2, _raw("SUB", to_seq(I, s2, w))) for s2, w in vs]
        return out
    if o == "adv":
        return seq_elem(I, st, S.a[0], add(p, S.a[1]), span)
    if o == "scycle":
        n = seq_len(S.a[0])
        return seq_elem(I, st, S.a[0], rem(p, n) if n is not None else p, span)
    return [(st, App("seqelem", S, p))]


def partial(S):
    """does the iteration index differ from the element index?"""
    if S.op in ("sfilter", "sfmap", "sflat", "sunord"):
        return True
    return any(isinstance(x, T) and x.op in SEQ and partial(x) for x in S.a)


def pure_seq(S):
    if S.op in ("smap", "sfilter", "sfmap", "sflat", "swhile", "sinsp", "smut", "schunksm", "sunord", "scycle", "schain"):
        return False
    return all(pure_seq(x) for x in S.a if isinstance(x, T) and x.op in SEQ)


@m("IntoIterator::into_iter", "slice::iter", "Vec::iter", "IntoParallelIterator::into_par_iter", "IntoParallelRefIterator::par_iter", "HashMap::iter", "HashSet::iter",
   "Vec::into_iter", "array::iter", "HashSet::into_iter", "HashMap::keys", "HashMap::values", "HashMap::into_values", "HashMap::into_keys", "BTreeSet::iter", "BTreeMap::iter",
   "BTreeMap::values", "BTreeMap::keys", "VecDeque::iter", "str::bytes")
def m_iter(I, st, c):
    a = c.args[0]
    k = key2(c.path)
    par(I, st, c, k)
    v = I.load(st, a) if a.op == "mref" and k.split("::")[0] in ("slice", "Vec", "HashMap", "HashSet", "array") else a
    t = c.selfty()
    if k.split("::")[0] in ("HashMap", "HashSet", "BTreeSet", "BTreeMap") or (t["k"] == "adt" and t["path"].split("::")[-1] in ("HashMap", "HashSet", "BTreeMap", "BTreeSet")):
        I.logrec(Rec("unordered", k, (I.vis(st, a),), st.facts, tuple(I.stack), c.span, t["s"]))
    return [(st, to_seq(I, st, v, c.argtys[0] if c.argtys else None))]


def par(I, st, c, k):
    """notes work handed to a thread pool"""
    if "Parallel" in k or "par_" in k or k.startswith(("rayon::", "join::")):
        I.logrec(Rec("par", k, (), st.facts, tuple(I.stack), c.span))


@m("slice::iter_mut", "Vec::iter_mut", "IntoParallelRefMutIterator::par_iter_mut")
def m_itermut(I, st, c):
    par(I, st, c, key2(c.path))
    a = c.args[0]
    if a.op != "mref":
        return [(st, _raw("sq", a))]
    return [(st, _raw("smut", a, tlen(I.load(st, a))))]


@m("slice::chunks_exact", "slice::chunks", "ParallelSlice::par_chunks", "ParallelSlice::par_chunks_exact", "slice::windows", "slice::chunks_exact_mut", "slice::chunks_mut",
   "ParallelSliceMut::par_chunks_mut", "ParallelSliceMut::par_chunks_exact_mut", "slice::as_chunks")
def m_chunks(I, st, c):
    k = key2(c.path)
    par(I, st, c, k)
    a = c.args[0]
    v = I.load(st, a)
    if "mut" in k:
        if a.op == "mref":
            return [(st, _raw("schunksm", a, c.args[1], tlen(v)))]
        return NotImplemented
    if "windows" in k:
        return [(st, _raw("swin", v, c.args[1]))]
    if "exact" in k:
        return [(st, _raw("schunks", v, c.args[1], tlen(v)))]
    n, d = tlen(v), c.args[1]
    r = rem(n, d)
    if isint(r) and r.a[0] == 0:
        return [(st, _raw("schunks", v, d, n))]
    return [(st, _raw("schunksr", v, d, n))]


ADAPT = {"map": "smap", "zip": "szip", "enumerate": "senum", "rev": "srev", "skip": "sskip", "take": "stake", "step_by": "sstep", "chain": "schain", "filter": "sfilter",
         "filter_map": "sfmap", "flat_map": "sflat", "take_while": "swhile", "inspect": "sinsp", "zip_eq": "szip"}


@m(*["Iterator::" + x for x in ADAPT] + ["ParallelIterator::" + x for x in ADAPT] + ["IndexedParallelIterator::" + x for x in ADAPT])
def m_adapt(I, st, c):
    k = key2(c.path).split("::")[1]
    S = to_seq(I, st, c.args[0], c.argtys[0] if c.argtys else None)
    op = ADAPT[k]
    if k in ("enumerate", "rev"):
        return [(st, _raw(op, S))]
    if k in ("zip", "chain", "zip_eq"):
        S2 = to_seq(I, st, c.args[1], c.argtys[1] if c.argtys and len(c.argtys) > 1 else None)
        if k == "zip_eq":
            pass
        return [(st, _raw(op, S, S2))]
    return [(st, _raw(op, S, c.args[1]))]


@m("Iterator::flatten", "ParallelIterator::flatten", "ParallelIterator::flatten_iter")
def m_flatten(I, st, c):
    return [(st, _raw("sflat", to_seq(I, st, c.args[0], c.argtys[0]), NONE))]


@m("Iterator::cycle")
def m_cycle(I, st, c):
    return [(st, _raw("scycle", to_seq(I, st, c.args[0])))]


@m("iter::repeat", "repeat::repeat")
def m_repeat(I, st, c):
    return [(st, _raw("srep", c.args[0]))]


@m("iter::repeat_n", "repeat_n::repeat_n")
def m_repeatn(I, st, c):
    return [(st, _raw("stake", _raw("srep", c.args[0]), c.args[1]))]


@m("iter::once", "once::once")
def m_once(I, st, c):
    return [(st, _raw("sonce", c.args[0]))]


@m("iter::zip", "zip::zip")
def m_zipf(I, st, c):
    return [(st, _raw("szip", to_seq(I, st, c.args[0], c.argtys[0]), to_seq(I, st, c.args[1], c.argtys[1])))]


@m("RangeInclusive::new")
def m_rinc(I, st, c):
    return [(st, Agg("std::ops::RangeInclusive", 0, c.args[0], c.args[1], FALSE))]


def norm_pos(S):
    if S.op == "adv":
        return S.a[0], S.a[1]
    return S, Int(0)


@m("Iterator::next")
def m_next(I, st, c):
    r = c.args[0]
    it = I.load(st, r)
    if I.c.fns.get(c.rec.get("id"), {}).get("ws"):
        return NotImplemented
    if not is_seq(it):
        S = to_seq(I, st, it, c.argtys[0] if c.argtys else None) if it.op == "agg" else None
        if S is None or not is_seq(S):
            g = App("next", it)
            I.store_ref(st, r, App("advanced", it))
            out = []
            for s, b in I.branch(st, IsV(g, 1)):
                out.append((s, Some(field(g, 0, 1)) if b else NONE))
            return out
        it = S
    S, p = norm_pos(it)
    n = seq_len(S)
    out = []
    opaque_flat = S.op == "sflat" or (S.op == "smap" and any(x.op == "sflat" for x in subterms(S, False)))
    if opaque_flat:
        g = App("next", it)
        I.store_ref(st, r, App("advanced", it))
        return [(s, Some(field(g, 0, 1)) if b else NONE) for s, b in I.branch(st, IsV(g, 1))]
    for s, b in ([(st, True)] if n is None else I.branch(st, Lt(p, n))):
        if not b:
            out.append((s, NONE))
            continue
        for s2, v in seq_elem(I, s, S, p, c.span):
            if v is STOP:
                out.append((s2, NONE))
                continue
            I.store_ref(s2, r, _raw("adv", S, add(p, Int(1))))
            out.append((s2, RETRY if v is SKIP else Some(v)))
    return out


def consume(I, st, S, step, span):
    """for v in S { step(state, v) -> [(state, None | (tag, value))] }
    returns [(state, tag or None)] : None on exhaustion."""
    S = to_seq(I, st, S)
    if S.op == "schain":
        out = []
        for s, t in consume(I, st, S.a[0], step, span):
            if t is None:
                out += consume(I, s, S.a[1], step, span)
            else:
                out.append((s, t))
        return out
    base, p0 = norm_pos(S)
    n = seq_len(base)

    def body(hs, k):
        backs, exits = [], []
        p = add(p0, k)
        for s, b in ([(hs, True)] if n is None else I.branch(hs, Lt(p, n))):
            if not b:
                exits.append((None, s))
                continue
            for s2, v in seq_elem(I, s, base, p, span):
                if v is SKIP:
                    backs.append(s2)
                elif v is STOP:
                    exits.append((None, s2))
                elif v.op == "SUB":
                    for s3, t in consume(I, s2, v.a[0], step, span):
                        (backs.append(s3) if t is None else exits.append((t, s3)))
                else:
                    for s3, t in step(s2, v):
                        (backs.append(s3) if t is None else exits.append((t, s3)))
        return backs, exits
    return [(s, t) for t, s in I.run_loop(st, body)]


def collect(I, st, v, c, ty=None):
    """the elements an iterable yields, as a sequence term: [(state, term)]"""
    S = to_seq(I, st, v, ty if ty is not None else (c.argtys[-1] if c.argtys else None))
    base, p0 = norm_pos(S)
    if pure_seq(base):
        n = seq_len(base)
        if n is not None:
            k = Idx(I.new_uid())
            (s, e), = seq_elem(I, st, base, add(p0, k), c.span)
            return [(s, Gen(sub(n, p0), k, e))]
    acc = _raw("loc", -I.new_uid(), 0)
    st.env[acc] = EMPTY

    def step(s, e):
        s.env[acc] = Cat(s.env[acc], Arr(I.vis(s, e) if e.op == "mref" else e))
        return [(s, None)]
    out = []
    for s, t in consume(I, st, S, step, c.span):
        x = s.env.pop(acc)
        out.append((s, x))
    return out


@m("Iterator::collect", "ParallelIterator::collect", "FromIterator::from_iter", "FromParallelIterator::from_par_iter", "ParallelIterator::collect_vec", "Itertools::collect_vec")
def m_collect(I, st, c):
    d = I.ty(c.dty) if c.dty is not None else {"k": "?"}
    return collect_as(I, st, c, d)


def collect_as(I, st, c, d):
    nm = d["path"].split("::")[-1] if d["k"] == "adt" else ""
    if nm in ("Result", "Option"):
        inner = I.ty(d["args"][0])
        acc = _raw("loc", -I.new_uid(), 0)
        st.env[acc] = EMPTY
        okv = 0 if nm == "Result" else 1

        def step(s, e):
            out = []
            for s2, b in I.branch(s, IsV(e, 1)):
                good = b if nm == "Option" else not b
                if good:
                    s2.env[acc] = Cat(s2.env[acc], Arr(field(e, 0, okv)))
                    out.append((s2, None))
                else:
                    out.append((s2, ("stop", Err(field(e, 0, 1)) if nm == "Result" else NONE)))
            return out
        out = []
        for s, t in consume(I, st, to_seq(I, st, c.args[0], c.argtys[0] if c.argtys else None), step, c.span):
            x = s.env.pop(acc)
            if t is None:
                x = wrapcoll(inner, x)
                out.append((s, Ok(x) if nm == "Result" else Some(x)))
            else:
                out.append((s, t[1]))
        return out
    return [(s, wrapcoll(d, x)) for s, x in collect(I, st, c.args[0], c)]


def wrapcoll(d, x):
    nm = d["path"].split("::")[-1] if d["k"] == "adt" else ""
    if nm in ("HashSet", "BTreeSet"):
        return App("set", x)
    if nm in ("HashMap", "BTreeMap"):
        return App("map", x)
    return x


@m("Iterator::unzip", "ParallelIterator::unzip")
def m_unzip(I, st, c):
    a, b = _raw("loc", -I.new_uid(), 0), _raw("loc", -I.new_uid(), 1)
    st.env[a] = st.env[b] = EMPTY

    def step(s, e):
        s.env[a] = Cat(s.env[a], Arr(field(e, 0)))
        s.env[b] = Cat(s.env[b], Arr(field(e, 1)))
        return [(s, None)]
    out = []
    for s, t in consume(I, st, to_seq(I, st, c.args[0], c.argtys[0] if c.argtys else None), step, c.span):
        x, y = s.env.pop(a), s.env.pop(b)
        out.append((s, Tup(x, y)))
    return out


@m("Iterator::all", "Iterator::any", "ParallelIterator::all", "ParallelIterator::any")
def m_all(I, st, c):
    isall = key2(c.path).endswith("all")

    def step(s, e):
        out = []
        for s2, v in I.call_value(s, c.args[1], [e], c.span):
            for s3, b in I.branch(s2, v):
                out.append((s3, None if b == isall else "stop"))
        return out
    it = I.load(st, c.args[0])
    S = to_seq(I, st, it if c.args[0].op == "mref" and is_seq(it) else c.args[0], c.argtys[0] if c.argtys else None)
    return [(s, Bool(isall) if t is None else Bool(not isall)) for s, t in consume(I, st, S, step, c.span)]


@m("Iterator::find", "Iterator::position", "Iterator::find_map", "ParallelIterator::find_any", "ParallelIterator::find_first", "ParallelIterator::position_any")
def m_find(I, st, c):
    k = key2(c.path).split("::")[1]
    pos = _raw("loc", -I.new_uid(), 0)
    st.env[pos] = Int(0)

    def step(s, e):
        out = []
        for s2, v in I.call_value(s, c.args[1], [e], c.span):
            cond = IsV(v, 1) if k == "find_map" else v
            for s3, b in I.branch(s2, cond):
                if b:
                    r = v if k == "find_map" else Some(s3.env[pos]) if k.startswith("position") else Some(e)
                    out.append((s3, ("stop", r)))
                else:
                    s3.env[pos] = add(s3.env[pos], Int(1))
                    out.append((s3, None))
        return out
    it = I.load(st, c.args[0])
    S = to_seq(I, st, it if c.args[0].op == "mref" and is_seq(it) else c.args[0], c.argtys[0] if c.argtys else None)
    out = []
    for s, t in consume(I, st, S, step, c.span):
        s.env.pop(pos, None)
        out.append((s, NONE if t is None else t[1]))
    return out


@m("Iterator::for_each", "ParallelIterator::for_each")
def m_foreach(I, st, c):
    def step(s, e):
        return [(s2, None) for s2, _ in I.call_value(s, c.args[1], [e], c.span)]
    return [(s, UNIT) for s, t in consume(I, st, to_seq(I, st, c.args[0], c.argtys[0] if c.argtys else None), step, c.span)]


@m("Iterator::try_for_each", "ParallelIterator::try_for_each")
def m_tryforeach(I, st, c):
    d = I.ty(c.dty) if c.dty is not None else {"k": "?"}
    nm = d["path"].split("::")[-1] if d["k"] == "adt" else ""

    def step(s, e):
        out = []
        for s2, v in I.call_value(s, c.args[1], [e], c.span):
            for s3, b in I.branch(s2, IsV(v, 1)):
                good = b if nm == "Option" else not b
                out.append((s3, None if good else ("stop", v if v.op == "agg" else (NONE if nm == "Option" else Err(field(v, 0, 1))))))
        return out
    out = []
    it = I.load(st, c.args[0])
    S = to_seq(I, st, it if c.args[0].op == "mref" and is_seq(it) else c.args[0], c.argtys[0] if c.argtys else None)
    for s, t in consume(I, st, S, step, c.span):
        out.append((s, (Some(UNIT) if nm == "Option" else Ok(UNIT)) if t is None else t[1]))
    return out


@m("Iterator::fold", "Iterator::try_fold")
def m_fold(I, st, c):
    if key2(c.path).endswith("try_fold"):
        return NotImplemented
    acc = _raw("loc", -I.new_uid(), 0)
    st.env[acc] = c.args[1]

    def step(s, e):
        out = []
        for s2, v in I.call_value(s, c.args[2], [s.env[acc], e], c.span):
            s2.env[acc] = v
            out.append((s2, None))
        return out
    out = []
    for s, t in consume(I, st, to_seq(I, st, c.args[0], c.argtys[0] if c.argtys else None), step, c.span):
        out.append((s, s.env.pop(acc)))
    return out


@m("Iterator::sum", "Iterator::product", "ParallelIterator::sum", "Iterator::max", "Iterator::min", "Sum::sum", "Iterator::last", "ParallelIterator::reduce")
def m_sum(I, st, c):
    k = key2(c.path).split("::")[1]
    if k == "reduce":
        return NotImplemented
    out = []
    for s, x in collect(I, st, c.args[0], c):
        if k in ("max", "min", "last"):
            # nothing exactly when the sequence is empty
            n = tlen(x)
            for s2, b in I.branch(s, Lt(Int(0), n)):
                v = elem(x, sub(n, Int(1))) if k == "last" else App(k, x)
                out.append((s2, Some(v) if b else NONE))
        else:
            out.append((s, App(k, x)))
    return out


@m("Iterator::count", "ParallelIterator::count")
def m_count(I, st, c):
    return [(s, tlen(x)) for s, x in collect(I, st, c.args[0], c)]


@m("Iterator::nth")
def m_nth(I, st, c):
    it = I.load(st, c.args[0])
    if not is_seq(it):
        return NotImplemented
    S, p = norm_pos(it)
    n = seq_len(S)
    if n is None or partial(S):
        return NotImplemented
    out = []
    q = add(p, c.args[1])
    for s, b in I.branch(st, Lt(q, n)):
        if b:
            for s2, v in seq_elem(I, s, S, q, c.span):
                I.store_ref(s2, c.args[0], _raw("adv", S, add(q, Int(1))))
                out.append((s2, Some(v)))
        else:
            out.append((s, NONE))
    return out


@m("array::map")
def m_arrmap(I, st, c):
    v = v0(I, st, c)
    call = Call(I, c.rec, c.path, [_raw("smap", _raw("sq", v), c.args[1])], c.dty, [None], c.span, False, c.gens)
    return collect(I, st, call.args[0], call)


@m("array::from_fn")
def m_fromfn(I, st, c):
    t = I.ty(c.dty) if c.dty is not None else {}
    n = t.get("n")
    if n is None:
        return NotImplemented
    S = _raw("smap", _raw("srange", Int(0), Int(n)), c.args[0])
    call = Call(I, c.rec, c.path, [S], c.dty, [None], c.span, False, c.gens)
    return collect(I, st, S, call)


# --- maps and sets ------------------------------------------------------------------------------------
@m("HashMap::new", "HashMap::with_capacity", "BTreeMap::new")
def m_mapnew(I, st, c):
    return [(st, App("map", EMPTY))]


@m("HashSet::new", "HashSet::with_capacity", "BTreeSet::new")
def m_setnew(I, st, c):
    return [(st, App("set", EMPTY))]


@m("HashMap::get", "BTreeMap::get")
def m_mapget(I, st, c):
    v, k = v0(I, st, c), v0(I, st, c, 1)
    g = App("mapget", v, k)
    I.logrec(Rec("map", "get", (v, k), st.facts, tuple(I.stack), c.span))
    out = []
    for s, b in I.branch(st, IsV(g, 1)):
        out.append((s, Some(field(g, 0, 1)) if b else NONE))
    return out


@m("HashMap::insert", "BTreeMap::insert")
def m_mapins(I, st, c):
    v = v0(I, st, c)
    k, x = I.vis(st, c.args[1]), I.vis(st, c.args[2])
    I.logrec(Rec("map", "insert", (v, k, x), st.facts, tuple(I.stack), c.span))
    I.store_ref(st, c.args[0], App("mapins", v, k, x), c.span)
    g = App("mapget", v, k)
    return [(st, g)]


@m("HashMap::contains_key", "BTreeMap::contains_key")
def m_mapcontains(I, st, c):
    return [(st, IsV(App("mapget", v0(I, st, c), v0(I, st, c, 1)), 1))]


@m("HashMap::entry", "BTreeMap::entry")
def m_entry(I, st, c):
    I.logrec(Rec("map", "get", (v0(I, st, c), I.vis(st, c.args[1])), st.facts, tuple(I.stack), c.span))
    return [(st, Agg("ENTRY", 0, c.args[0], I.vis(st, c.args[1])))]


@m("Entry::or_insert", "Entry::or_insert_with")
def m_orinsert(I, st, c):
    e = c.args[0]
    if not (e.op == "agg" and e.a[0] == "ENTRY"):
        return NotImplemented
    mp, key = e.a[2], e.a[3]
    v = I.load(st, mp)
    g = App("mapget", v, key)
    out = []
    for s, b in I.branch(st, IsV(g, 1)):
        if b:
            loc = _raw("heap", I.new_uid())
            s.env[loc] = field(g, 0, 1)
            out.append((s, mref(loc)))
        else:
            vs = [(s, c.args[1])] if key2(c.path).endswith("or_insert") else I.call_value(s, c.args[1], [], c.span)
            for s2, x in vs:
                I.logrec(Rec("map", "insert", (v, key, x), s2.facts, tuple(I.stack), c.span))
                I.store_ref(s2, mp, App("mapins", I.load(s2, mp), key, x), c.span)
                loc = _raw("heap", I.new_uid())
                s2.env[loc] = x
                out.append((s2, mref(loc)))
    return out


@m("HashSet::insert", "BTreeSet::insert")
def m_setins(I, st, c):
    v, x = v0(I, st, c), I.vis(st, c.args[1])
    base = v.a[1] if v.op == "app" and v.a[0] == "set" else v
    fresh = Not(App("contains", v, x))
    out = []
    for s, b in I.branch(st, fresh):
        # the set of all inserted elements; insertion of a member leaves it as it is
        I.store_ref(s, c.args[0], App("set", Cat(base, Arr(x))), c.span)
        out.append((s, Bool(b)))
    return out


@m("HashSet::contains", "BTreeSet::contains", "slice::contains", "Vec::contains")
def m_contains(I, st, c):
    return [(st, App("contains", v0(I, st, c), v0(I, st, c, 1)))]


# --- hashing ----------------------------------------------------------------------------------------------
@m("Digest::new")
def m_dnew(I, st, c):
    t = I.ty(c.dty)["s"] if c.dty is not None else "?"
    mm = re.search(r"(Sha\d+|Blake\w+|Keccak\w*)", t)
    return [(st, Agg("HASHER:" + (mm.group(1) if mm else t), 0, EMPTY))]


@m("Digest::update", "Update::update", "DynDigest::update")
def m_dupdate(I, st, c):
    h = v0(I, st, c)
    x = v0(I, st, c, 1)
    I.store_ref(st, c.args[0], Agg(h.a[0], 0, Cat(field(h, 0), x)) if h.op == "agg" else App("hashupd", h, x), c.span)
    return [(st, UNIT)]


@m("Digest::chain_update", "Digest::new_with_prefix")
def m_dchain(I, st, c):
    if key2(c.path).endswith("prefix"):
        (s, h), = m_dnew(I, st, c)
        return [(s, Agg(h.a[0], 0, v0(I, st, c)))]
    h = v0(I, st, c)
    return [(st, Agg(h.a[0], 0, Cat(field(h, 0), v0(I, st, c, 1))) if h.op == "agg" else App("hashupd", h, v0(I, st, c, 1)))]


def hasher_parts(h):
    """(algorithm, absorbed pieces) of a hasher state, loops included"""
    if h.op == "agg" and str(h.a[0]).startswith("HASHER:"):
        return h.a[0][7:], [field(h, 0)]
    if h.op == "app" and h.a[0] == "hashupd":
        a, ps = hasher_parts(h.a[1])
        return a, ps + [h.a[2]]
    if h.op == "app" and h.a[0] == "fold:hashupd" and len(h.a) == 3 and h.a[2].op == "gen":
        a, ps = hasher_parts(h.a[1])
        g = h.a[2]
        return a, ps + [flat_raw(g.a[0], g.a[1], g.a[2])]
    return None, []


@m("Digest::finalize", "FixedOutput::finalize_fixed")
def m_dfinal(I, st, c):
    h = v0(I, st, c)
    alg, parts = hasher_parts(h)
    v = App("hash:" + alg, Cat(*parts)) if alg else App("hash", h)
    LEN[v] = 32
    I.logrec(Rec("call", "hash", (v,), st.facts, tuple(I.stack), c.span))
    return [(st, v)]


@m("Digest::digest")
def m_digest(I, st, c):
    v = App("hash:Sha256" if "ha256" in c.rec["name"] else "hash:" + c.rec["name"], v0(I, st, c))
    LEN[v] = 32
    I.logrec(Rec("call", "hash", (v,), st.facts, tuple(I.stack), c.span))
    return [(st, v)]


# --- raw memory -----------------------------------------------------------------------------------------------
@m("const_ptr::is_null", "mut_ptr::is_null", "NonNull::is_null")
def m_isnull(I, st, c):
    a = c.args[0]
    if a.op in ("mref", "pv", "arr", "agg", "cat", "gen"):
        return [(st, FALSE)]
    if a.op == "app" and a.a[0] == "null":
        return [(st, TRUE)]
    return [(st, App("is_null", a))]


@m("ptr::null_mut", "ptr::null")
def m_null(I, st, c):
    return [(st, App("null"))]


@m("slice::from_raw_parts", "raw::from_raw_parts", "slice::from_raw_parts_mut", "raw::from_raw_parts_mut", "ptr::slice_from_raw_parts", "ptr::slice_from_raw_parts_mut")
def m_fromraw(I, st, c):
    p, n = c.args
    sz = None
    g = c.rec.get("gens") or []
    if g and isinstance(g[0], int):
        sz = I.ty(g[0])["s"]
    if p.op == "mref":
        # a pointer kept in a local or in caller memory: `&mut *ptr` stands for ptr
        t = I.load(st, p)
        if t.op == "elem" and t.a[0].op == "app" and t.a[0].a[0] == "rawslice":
            p = t
    I.logrec(Rec("call", key2(c.path), (p, n), st.facts, tuple(I.stack), c.span, sz))
    v = App("rawslice", p, n)
    if isint(n):
        LEN[v] = n.a[0]
    if "mut" in key2(c.path):
        loc = _raw("mem", v)
        st.env.setdefault(loc, v)
        return [(st, mref(loc))]
    if p.op == "mref" or I.valuelike(p):
        return [(st, tslice(I.load(st, p), Int(0), n))]
    return [(st, v)]


@m("ptr::write", "mut_ptr::write", "ptr::write_unaligned")
def m_ptrwrite(I, st, c):
    I.store_ref(st, c.args[0], c.args[1], c.span)
    return [(st, UNIT)]


@m("ptr::read", "const_ptr::read", "mut_ptr::read")
def m_ptrread(I, st, c):
    a = c.args[0]
    if a.op == "mref":
        return [(st, I.load(st, a))]
    if a.op == "pv":
        return [(st, a.a[0])]
    return [(st, App("deref", a))]


@m("const_ptr::cast", "mut_ptr::cast", "mut_ptr::cast_const", "const_ptr::cast_mut", "NonNull::as_ptr", "NonNull::new_unchecked", "Vec::as_ptr", "slice::as_ptr",
   "Vec::as_mut_ptr", "slice::as_mut_ptr", "const_ptr::as_ref", "ptr::from_ref", "ptr::from_mut")
def m_ptrcast(I, st, c):
    if key2(c.path) in ("const_ptr::as_ref",):
        return NotImplemented
    a = c.args[0]
    if key2(c.path) in ("Vec::as_ptr", "slice::as_ptr"):
        return [(st, I.vis(st, a))]
    return [(st, a)]


@m("const_ptr::add", "mut_ptr::add", "const_ptr::offset", "mut_ptr::offset")
def m_ptradd(I, st, c):
    if isint(c.args[1]) and c.args[1].a[0] == 0:
        return [(st, c.args[0])]
    return [(st, App("ptroffset", c.args[0], c.args[1]))]


@m("intrinsics::copy_nonoverlapping", "ptr::copy_nonoverlapping", "mut_ptr::copy_from_nonoverlapping")
def m_copy(I, st, c):
    a = list(c.args)
    if key2(c.path).startswith("mut_ptr"):
        a = [a[1], a[0], a[2]]
    src, dst, n = a
    I.logrec(Rec("write", "copy_nonoverlapping", (dst, n, I.vis(st, src)), st.facts, tuple(I.stack), c.span))
    I.store_ref(st, dst, tslice(I.vis(st, src), Int(0), n), c.span)
    return [(st, UNIT)]


# --- trivial opaque pure functions with nicer names -------------------------------------------------------------
def sink(name):
    def h(I, st, c):
        a = [I.vis(st, x) for x in c.args]
        I.logrec(Rec("call", name, tuple(a), st.facts, tuple(I.stack), c.span))
        v = App(name, *a)
        if c.dty is not None:
            I.note_len(v, c.dty)
        return [(st, v)]
    return h


for _k, _n in {
    "G1Affine::from_compressed": "g1_dec", "G1Affine::from_compressed_unchecked": "g1_dec_unchecked",
    "G2Affine::from_compressed": "g2_dec", "G2Affine::from_compressed_unchecked": "g2_dec_unchecked",
    "G1Affine::from_uncompressed": "g1_decu", "G1Affine::from_uncompressed_unchecked": "g1_decu_unchecked",
    "G2Affine::from_uncompressed": "g2_decu", "G2Affine::from_uncompressed_unchecked": "g2_decu_unchecked",
    "Scalar::from_bytes_be": "fr_dec_be", "Scalar::from_bytes_le": "fr_dec_le",
    "Scalar::to_bytes_be": "fr_enc_be", "Scalar::to_bytes_le": "fr_enc_le",
    "G1Affine::to_compressed": "g1_enc", "G2Affine::to_compressed": "g2_enc", "G1Projective::to_compressed": "g1_enc",
    "G1Affine::to_uncompressed": "g1_encu",
    "MultiMillerLoop::multi_miller_loop": "miller", "MillerLoopResult::final_exponentiation": "final_exp",
    "G1Projective::multi_exp": "msm", "G2Projective::multi_exp": "msm2",
    "Group::identity": "identity", "PrimeCurveAffine::identity": "identity",
    "Group::is_identity": "is_identity", "PrimeCurveAffine::is_identity": "is_identity",
    "Group::generator": "generator", "PrimeCurveAffine::generator": "generator",
    "Field::pow_vartime": "fpow", "Field::pow": "fpow", "Field::invert": "finv", "Field::square": "fsquare", "Field::double": "fdouble", "Group::double": "fdouble",
    "hex::decode": "hex_dec", "serde_json::from_str": "json", "de::from_str": "json",
}.items():
    TAB[_k] = sink(_n)


@m("Curve::batch_normalize")
def m_bnorm(I, st, c):
    I.store_ref(st, c.args[1], v0(I, st, c), c.span)
    return [(st, UNIT)]
