from api import *
import farm, os, re
from interp import Interp, strip_generics
import jsym

CONFIGS = ["bind"]
RULE = ("every published constant named after a protocol size (Rust items evaluated by the compiler, C accessor functions, Go, Java and Node constants, C# and Nim declarations) has the protocol's value; "
        "every byte-array type in the signatures of the library's operations has the size of its kind")
EXPLAIN = "The constants are read from the type-checked crates, the abstract runs of the C accessors and of Node's export callbacks, the Go SSA, the Java class file and the declarations of the C# and Nim wrappers, and compared by name."
SIZES = {"bytespercommitment": 48, "bytesperproof": 48, "bytesperfieldelement": 32, "bytesperblob": 131072, "bytespercell": 2048, "maxnumcolumns": 128, "cellsperextblob": 128,
         "fieldelementsperblob": 4096, "fieldelementspercell": 64, "fieldelementsperextblob": 8192, "expansionfactor": 2, "bytesperg1point": 48, "bytesperg1": 48}
WANT = {"rust": ["bytespercommitment", "bytesperfieldelement", "bytesperblob", "bytespercell", "cellsperextblob"], "c": ["bytespercell", "bytesperproof", "cellsperextblob"],
        "go": ["bytespercommitment", "bytesperproof", "bytesperfieldelement", "bytesperblob", "bytespercell"], "java": ["bytespercommitment", "bytesperproof", "bytesperfieldelement", "bytesperblob", "bytespercell", "maxnumcolumns"],
        "node": ["bytespercommitment", "bytesperproof", "bytesperfieldelement", "bytesperblob", "bytespercell", "maxnumcolumns"],
        "csharp": ["bytespercommitment", "bytesperproof", "bytesperfieldelement", "bytesperblob", "bytespercell", "maxnumcolumns"], "nim": ["bytesperfieldelement", "bytesperblob", "bytespercell", "maxnumcolumns"]}
ROLE_SIZES = {"blob_to_kzg_commitment": ([131072], [48]), "compute_cells_and_kzg_proofs": ([131072], [2048, 48]),
              "verify_cell_kzg_proof_batch": ([48, 2048, 48], []), "recover_cells_and_kzg_proofs": ([2048], [2048, 48])}


def norm(n):
    n = n.split("::")[-1].replace("_", "").lower()
    return n


def sources(rep):
    """lang -> [(name as published, value or None)]"""
    out = {k: [] for k in WANT}
    for n, *r in crate("bind", "rust_eth_kzg").consts:
        out["rust"].append((n, r[1] if len(r) > 1 else None))
    c = crate("bind", "c_eth_kzg")
    for f in c.fns.values():
        m = re.search(r"eth_kzg_constant_(\w+)$", f["name"])
        if m and f["kind"] == "item" and f["crate"] == c.name:
            vs = {v for s, v in Interp(c).run(f, [])}
            v = next(iter(vs)) if len(vs) == 1 else None
            out["c"].append((m.group(1), v.a[0] if v is not None and isint(v) else None))
    c = crate("bind", "node_eth_kzg")
    for n, *r in c.consts:
        if n.count("::") == 1 and not n.split("::")[-1].startswith("_"):
            out["node"].append((n, r[1] if len(r) > 1 else None))
    for f in c.fns.values():
        m = re.search(r"__register__const____napi_register__(\w+?)_\d+_callback__$", f["name"])
        if m and f["kind"] == "item" and f["crate"] == c.name:
            I = Interp(c)
            I.run(f, typed_params(I, f))
            vals = {a.a[0] for r in I.log if r.kind == "call" and "to_napi_value" in r.name for a in r.args if isint(a)}
            out["node"].append((m.group(1), vals.pop() if len(vals) == 1 else None))
    d = json.load(open(farm.gossa(farm.dump("bind"))))
    for k, v in (d["consts"].items() if isinstance(d["consts"], dict) else [(x["n"], x["v"]) if isinstance(x, dict) else (x[0], x[1]) for x in d["consts"]]):
        try:
            out["go"].append((k.split(".")[-1], int(v)))
        except (TypeError, ValueError):
            pass
    J = jsym.Java(open(farm.javaclass(farm.dump("bind"))).read())
    for cl in J.classes.values():
        for f, x in cl.fields.items():
            if x["const"] is not None:
                try:
                    out["java"].append((f, int(x["const"].rstrip("lL"))))
                except ValueError:
                    pass
    ws = os.path.join(farm.BUILD, "ws", "bindings")
    out["csharp"] = text(os.path.join(ws, "csharp"), ".cs", r"\bconst\s+(?:int|uint|long|ulong)\s+(\w+)\s*=\s*([\w]+)\s*;")
    out["nim"] = text(os.path.join(ws, "nim"), ".nim", r"^\s*(\w+)\*?\s*=\s*(\w+)\s*$")
    return out


def text(root, ext, pat):
    vals = {}
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("bin", "obj", "target") and "test" not in x.lower())
        for f in sorted(fs):
            if f.endswith(ext):
                src = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(os.path.join(d, f), errors="replace").read(), flags=re.S) if ext == ".cs" else re.sub(r"#[^\n]*", "", open(os.path.join(d, f), errors="replace").read())
                for m in re.finditer(pat, src, re.M):
                    if norm(m.group(1)) in SIZES:
                        vals[m.group(1)] = m.group(2)
    out = []
    for n, v in vals.items():
        k = 0
        while v in vals and k < 5:
            v, k = vals[v], k + 1
        v = v.replace("_", "")
        try:
            out.append((n, int(v, 0)))
        except ValueError:
            out.append((n, None))
    return out


def arrays(c, t, seen=None):
    """sizes of the byte arrays a type is made of, in order"""
    seen = seen or ()
    x = c.types[t]
    if t in seen:
        return []
    seen = seen + (t,)
    if x["k"] == "array":
        e = c.types[x["e"]]
        if e["k"] == "int" and e.get("bits") == 8:
            return [int(x["n"])] if x.get("n") is not None else []
        return arrays(c, x["e"], seen)
    if x["k"] in ("ref", "ptr", "slice"):
        return arrays(c, x["e"], seen)
    return [int(m) for m in re.findall(r"\[u8; (\d+)\]", x["s"])] if "s" in x else []


def run(rep, tier):
    src = sources(rep)
    for lang, items in src.items():
        have = {}
        for n, v in items:
            if norm(n) in SIZES:
                have.setdefault(norm(n), []).append((n, v))
        for k, xs in have.items():
            for n, v in xs:
                rep.count("published constants", 1)
                rep.judge("protocol-value", "%s:%s" % (lang, norm(n)), None if v is None else v == SIZES[k], "%s is %s, the protocol says %d" % (n, v, SIZES[k]))
        for k in WANT[lang]:
            if k not in have:
                rep.und("published", "%s:%s" % (lang, k), "no constant of this name was found")
    for op, (ins, outs) in ROLE_SIZES.items():
        for cfg in ("bind",):
            c = crate(cfg, "rust_eth_kzg")
            fs = [f for f in c.fns.values() if f["kind"] == "item" and f["crate"] == c.name and re.search(r"\b%s$" % op, f["name"])]
            if len(fs) > 1:
                fs = [f for f in fs if "DASContext" in f["name"]] or fs
            if len(fs) != 1:
                rep.und("signature", "rust:" + op, "%d functions of this name" % len(fs))
                continue
            f = fs[0]
            a = [n for i in range(2, f["argc"] + 1) for n in arrays(c, f["locals"][i][0])]
            r = arrays(c, f["locals"][0][0])
            rep.judge("signature", "rust:%s arguments" % op, True if a == ins else (None if not a or len(a) != len(ins) else False), "takes byte arrays of sizes %s, the protocol says %s" % (a, ins))
            if outs:
                rep.judge("signature", "rust:%s result" % op, True if r == outs else (None if not r or len(r) != len(outs) else False), "returns byte arrays of sizes %s, the protocol says %s" % (r, outs))
