from api import *
import farm, os, re
import jsym
from jsym import argtypes, rettype
from interp import strip_generics

CONFIGS = ["bind"]
RULE = ("every native method of the Java class has an exported JNI function of its mangled name whose parameter and result types are the JNI types of the method's descriptor, and every exported JNI "
        "function has a native method; every exported C function is declared in the generated C header and the generated C# imports with the same parameters and result; every C function the Nim sources import exists with the declared parameters and result")
EXPLAIN = "The signatures of the exported functions are read from the type-checked crates and compared with the descriptors in the Java class file, the prototypes of the generated C header and the C# import declarations."
PRE = "Java_ethereum_cryptography_LibEthKZG_"
JT = {"J": ("i64",), "Z": ("u8", "bool"), "I": ("i32",), "V": ("()",), "[B": ("JByteArray", "JPrimitiveArray<i8>", "_jobject"), "[J": ("JLongArray", "JPrimitiveArray<i64>", "_jobject"), "L": ("JObject", "_jobject")}


def jkind(d):
    """the JNI type classes a descriptor admits"""
    if d in ("J", "Z", "I", "V", "[B", "[J"):
        return d
    if d.startswith("[["):
        return "[["
    return "L"


def rkind(c, t):
    """the JNI type class of a Rust type"""
    s = re.sub(r"'\w+,?\s*", "", c.types[t]["s"]).replace("<>", "")
    x = c.types[t]
    if x["k"] == "int":
        return {"i64": "J", "u8": "Z", "i32": "I"}.get(x["s"], x["s"])
    if x["k"] == "tuple" and s == "()":
        return "V"
    if "JObjectArray" in s:
        return "[["
    if "JPrimitiveArray<i64>" in s or "JLongArray" in s:
        return "[J"
    if "JPrimitiveArray<i8>" in s or "JByteArray" in s:
        return "[B"
    if "JObject" in s or "_jobject" in s:
        return "L"
    return s


def compatible(d, r):
    # results are raw object references whatever their class
    return d == r or (r == "L" and d in ("[B", "[J", "[[", "L"))


def run(rep, tier):
    java(rep)
    c = crate("bind", "c_eth_kzg")
    fns = {f["id"]: f for f in c.fns.values() if f["kind"] == "item" and f["crate"] == c.name and f["id"].startswith("eth_kzg_")}
    out = farm.dump("bind")
    header(rep, c, fns, os.path.join(out, "c_eth_kzg.h"), "c")
    header(rep, c, fns, os.path.join(out, "native_methods.g.cs"), "csharp")
    nim(rep, c, fns)


def java(rep):
    J = jsym.Java(open(farm.javaclass(farm.dump("bind"))).read())
    cl = J.classes.get("LibEthKZG")
    if cl is None:
        raise Lost("the Java class LibEthKZG")
    c = crate("bind", "java_eth_kzg")
    exp = {f["id"][len(PRE):]: f for f in c.fns.values() if f["kind"] == "item" and f["crate"] == c.name and f["id"].startswith(PRE)}
    named = {strip_generics(f["name"]).split("::")[-1] for f in c.fns.values() if f["crate"] == c.name and f["kind"] == "item"}
    nat = {m.name: m for m in cl.methods.values() if m.native}
    for n, m in nat.items():
        w = "java:" + n
        rep.count("native methods", 1)
        f = exp.get(n)
        if f is None:
            rep.bad("exported", w, "no exported function %s%s: calling the method fails to link" % (PRE, n))
            continue
        rep.ok("exported", w)
        want = [jkind(x) for x in argtypes(m.desc)]
        have = [rkind(c, f["locals"][i][0]) for i in range(3, f["argc"] + 1)]
        if f["argc"] < 2 or len(want) != len(have):
            rep.bad("same-parameters", w, "the method has %d parameters, the native function %d" % (len(want), f["argc"] - 2))
        else:
            for i, (a, b) in enumerate(zip(want, have)):
                rep.judge("same-parameters", "%s %d" % (w, i + 1), True if compatible(a, b) else (False if b in ("J", "Z", "I", "[[", "[J", "[B") else None), "parameter %d is %s in Java and %s in the native function" % (i + 1, a, b))
        a, b = jkind(rettype(m.desc)), rkind(c, f["locals"][0][0])
        rep.judge("same-result", w, True if compatible(a, b) else (False if b in ("J", "Z", "I", "V", "[[", "[J", "[B") else None), "the result is %s in Java and %s in the native function" % (a, b))
    for n in exp:
        rep.judge("declared", "java:" + n, n in nat, "the exported function has no native method")


def ctype(c, t):
    """the shape of a C-visible type: pointers, width"""
    x = c.types[t]
    if x["k"] == "ptr" or x["k"] == "ref":
        return ctype(c, x["e"]) + "*"
    if x["k"] == "int":
        return x["s"]
    if x["k"] == "tuple":
        return "void"
    return x["s"].split("::")[-1]


CN = {"uint8_t": "u8", "uint64_t": "u64", "uint32_t": "u32", "bool": "bool", "char": "i8", "void": "void", "uintptr_t": "usize", "size_t": "usize", "int32_t": "i32", "int64_t": "i64"}
SN = {"byte": "u8", "ulong": "u64", "uint": "u32", "bool": "bool", "void": "void", "nuint": "usize", "int": "i32", "long": "i64", "sbyte": "i8"}


def header(rep, c, fns, path, lang):
    if not os.path.exists(path):
        rep.und("declared", lang, "the declarations were not generated")
        return
    src = re.sub(r"//[^\n]*|/\*.*?\*/|^#[^\n]*", "", open(path).read(), flags=re.S | re.M)
    protos = {}
    for m in re.finditer(r"([\w\s*]+?)\b(eth_kzg_\w+)\s*\(([^;{]*?)\)\s*;", src):
        protos[m.group(2)] = (m.group(1), m.group(3))

    def shape(s, named=True):
        s = re.sub(r"\[MarshalAs\(.*?\)\]", "", s)
        stars = s.count("*")
        ws = [w for w in re.findall(r"@?\w+", s) if w not in ("const", "struct", "enum", "extern", "internal", "static", "unsafe", "public")]
        if named and len(ws) > 1:
            ws = ws[:-1]
        base = ws[-1] if ws else "?"
        return (CN if lang == "c" else SN).get(base, base) + "*" * stars
    for n, f in sorted(fns.items()):
        w = "%s:%s" % (lang, n)
        rep.count("declarations compared", 1)
        if n not in protos:
            rep.bad("declared", w, "the exported function is not declared")
            continue
        rep.ok("declared", w)
        ret, ps = protos[n]
        ps = [x for x in (y.strip() for y in ps.split(",")) if x and x != "void"]
        have = [shape(x) for x in ps]
        want = [ctype(c, f["locals"][i][0]) for i in range(1, f["argc"] + 1)]
        same = [eq(a, b) for a, b in zip(want, have)]
        rep.judge("same-parameters", w, False if len(want) != len(have) else (True if all(same) else (False if any(a.count("*") != b.count("*") or {a, b} <= KNOWN for a, b, s in zip(want, have, same) if not s) else None)),
                  "exported with (%s), declared with (%s)" % (", ".join(want), ", ".join(have)))
        r = shape(ret, False)
        wr = ctype(c, f["locals"][0][0])
        rep.judge("same-result", w, True if eq(wr, r) else None, "returns %s, declared %s" % (wr, r))
    for n in protos:
        rep.judge("exported", "%s:%s" % (lang, n), n in fns, "declared but not exported")


NN = {"uint64": "u64", "uint32": "u32", "uint8": "u8", "bool": "bool", "void": "void", "uint": "usize", "csize_t": "usize", "int32": "i32", "int64": "i64"}


def nim(rep, c, fns):
    """the Nim declarations of C functions: the function named by importc exists and takes what is declared"""
    n = 0
    for d, _, fs in os.walk(os.path.join(farm.REPO, "bindings/nim")):
        for fn in sorted(fs):
            if not fn.endswith(".nim"):
                continue
            src = re.sub(r"#[^\n]*", "", open(os.path.join(d, fn)).read())
            for m in re.finditer(r"^proc\s+(\w+)\*?\s*\(([^)]*)\)\s*(?::\s*([\w ]+?))?\s*\{\.([^}]*)\.\}", src, re.M):
                imp = re.search(r"importc(?:\s*:\s*\"(\w+)\")?", m.group(4))
                if not imp:
                    continue
                name = imp.group(1) or m.group(1)
                if not name.startswith("eth_kzg_"):
                    continue
                n += 1
                w = "nim:" + name
                rep.count("declarations compared", 1)
                rep.judge("exported", w, name in fns, "declared but not exported")
                if name not in fns:
                    continue
                f = fns[name]
                have, names, wait = [], [], 0
                for x in re.split(r"[,;]", m.group(2)):
                    if not x.strip():
                        continue
                    wait += 1
                    names.append(x.split(":")[0].strip())
                    if ":" in x:
                        have += [shape_nim(x.split(":", 1)[1])] * wait
                        wait = 0
                want = [ctype(c, f["locals"][i][0]) for i in range(1, f["argc"] + 1)]
                if len(have) != len(want):
                    rep.bad("same-parameters", w, "exported with %d parameters, declared with %d" % (len(want), len(have)))
                else:
                    for a, b, q in zip(want, have, names):
                        v = nim_eq(a, b)
                        rep.judge("same-parameters", w + ":" + q, v, "exported as %s, declared as %s" % (a, b))
                rep.judge("same-result", w, nim_eq(ctype(c, f["locals"][0][0]), shape_nim(m.group(3) or "void")), "returns %s, declared %s" % (ctype(c, f["locals"][0][0]), m.group(3)))
    if not n:
        rep.und("exported", "nim", "no Nim declarations found")


def shape_nim(s):
    ws = s.split()
    d = 0
    while ws and ws[0] in ("ptr", "ref", "var"):
        d, ws = d + 1, ws[1:]
    b = ws[-1] if ws else "?"
    return (("?*" if b == "pointer" else "i8*" if b == "cstring" else NN.get(b, b)) + "*" * d)


def nim_eq(a, b):
    """True / False / None; an untyped pointer may point to anything that is no pointer itself"""
    if eq(a, b):
        return True
    if a.count("*") != b.count("*"):
        return False
    if b.startswith("?"):
        return True
    x, y = a.rstrip("*"), b.rstrip("*")
    return False if x in KNOWN and y in KNOWN else None


KNOWN = {"u8", "u32", "u64", "i32", "i64", "bool", "usize", "void"}


def eq(a, b):
    return a == b or (a.rstrip("*") in ("i8", "u8") and b.rstrip("*") in ("i8", "u8") and a.count("*") == b.count("*"))
