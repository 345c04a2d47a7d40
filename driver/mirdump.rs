//! rustc_private driver: dumps the monomorphised MIR of a workspace crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER.  The first argument is the path of rustc
//! (ignored), the rest is the rustc command line.  The dump is written to
//! $MIRDUMP_OUT/<crate>.json for library targets.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::FieldsShape;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx {
    types: Vec<String>,
    tmap: HashMap<Ty, usize>,
    fns: BTreeMap<String, String>,
    exts: BTreeMap<String, String>,
    seen: HashSet<String>,
    queue: VecDeque<Instance>,
    local: String,
    ws: HashSet<String>,
}

const STD_BODIES: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::convert::", "core::bool::",
    "core::cmp::", "core::clone::", "core::borrow::", "core::default::", "core::ops::try_trait::",
    "std::option::", "std::result::", "std::ops::", "std::convert::", "std::bool::",
    "std::cmp::", "std::clone::", "std::borrow::", "std::default::",
];

impl Cx {
    fn span(&self, s: rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tmap.insert(t, i);
        self.types.push(String::new());
        let s = esc(&format!("{}", t));
        let k = t.kind();
        let body = match &k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(*e);
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n)
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"slice\",\"e\":{}", e)
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, matches!(m, Mutability::Mut))
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", e, matches!(m, Mutability::Mut))
                }
                RigidTy::Tuple(ts) => {
                    let ts: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"es\":{}", arr(ts))
                }
                RigidTy::Adt(d, args) => {
                    let gens: Vec<String> = args.0.iter().map(|a| self.garg(a)).collect();
                    let mut vs = vec![];
                    for v in d.variants() {
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = self.ty(f.ty_with_args(args));
                                format!("[{},{}]", esc(&f.name.to_string()), ft)
                            })
                            .collect();
                        let disc = if d.kind().is_enum() {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"f\":{},\"d\":{}}}", esc(&v.name().to_string()), arr(fs), disc));
                    }
                    let kind = if d.kind().is_enum() { "enum" } else if d.kind().is_union() { "union" } else { "struct" };
                    format!(
                        "\"k\":\"adt\",\"path\":{},\"crate\":{},\"ak\":{},\"args\":{},\"vs\":{}",
                        esc(&d.name().to_string()), esc(&d.krate().name.to_string()), esc(kind), arr(gens), arr(vs)
                    )
                }
                RigidTy::FnDef(d, args) => {
                    let inst = Instance::resolve(*d, args).ok();
                    let id = inst.map(|i| self.inst(i)).unwrap_or_default();
                    format!("\"k\":\"fndef\",\"fn\":{},\"path\":{}", esc(&id), esc(&d.name().to_string()))
                }
                RigidTy::Closure(d, args) => {
                    let id = Instance::resolve_closure(*d, args, ClosureKind::FnOnce).ok();
                    // resolve with the closure's own kind so that the body, not a shim, is found
                    let direct = Instance::resolve_closure(*d, args, closure_kind(args)).ok();
                    let id = direct.or(id).map(|i| self.inst(i)).unwrap_or_default();
                    format!("\"k\":\"closure\",\"fn\":{},\"path\":{}", esc(&id), esc(&d.name().to_string()))
                }
                RigidTy::Coroutine(d, _) => format!("\"k\":\"coroutine\",\"path\":{}", esc(&d.name().to_string())),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                RigidTy::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", s, body);
        i
    }
    fn garg(&mut self, a: &GenericArgKind) -> String {
        match a {
            GenericArgKind::Type(t) => self.ty(*t).to_string(),
            GenericArgKind::Const(c) => match c.eval_target_usize() {
                Ok(v) => format!("[\"c\",{}]", v),
                Err(_) => "[\"c\",null]".into(),
            },
            GenericArgKind::Lifetime(_) => "null".into(),
        }
    }
    /// Registers an instance, returns its id.
    fn inst(&mut self, i: Instance) -> String {
        let id = i.mangled_name().to_string();
        let id = match i.kind { InstanceKind::Virtual { idx } => format!("virtual#{}#{}", idx, id), InstanceKind::Shim => format!("shim#{}#{}", i.name(), id), _ => id };
        if self.seen.insert(id.clone()) {
            self.queue.push_back(i);
        }
        id
    }
    fn process(&mut self, i: Instance, id: &str) {
        let name = i.name().to_string();
        let path = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let gens: Vec<String> = i.args().0.iter().map(|a| self.garg(a)).collect();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let is_ws = self.ws.contains(&krate);
        let is_local = krate == self.local;
        // name of impls starts with '<'; look at the def's own path for the module
        let std_ok = {
            let c = krate == "core" || krate == "std" || krate == "alloc";
            c && STD_BODIES.iter().any(|p| path.starts_with(p) || path.contains(&format!("<{}", p)) || path.contains(&format!("as {}", p)))
        };
        let generic = i.args().0.iter().any(|a| !matches!(a, GenericArgKind::Lifetime(_)));
        let want = matches!(i.kind, InstanceKind::Item | InstanceKind::Shim)
            && (is_local || (is_ws && generic) || is_ws || std_ok)
            && !i.is_foreign_item();
        let unsafe_ = match i.ty().kind().fn_sig() { Some(s) => format!("{:?}", s.skip_binder()).contains("Unsafe"), None => false };
        let head = format!(
            "\"id\":{},\"name\":{},\"path\":{},\"crate\":{},\"ws\":{},\"local\":{},\"kind\":{},\"gens\":{},\"foreign\":{},\"unsafe\":{}",
            esc(id), esc(&name), esc(&path), esc(&krate), is_ws, is_local, esc(kind), arr(gens), i.is_foreign_item(), unsafe_
        );
        let body = if want && i.has_body() { i.body() } else { None };
        match body {
            Some(b) => {
                let s = self.body(&b);
                let sp = self.span(b.span);
                self.fns.insert(id.to_string(), format!("{{{},\"span\":{},{}}}", head, esc(&sp), s));
            }
            None => {
                self.exts.insert(id.to_string(), format!("{{{}}}", head));
            }
        }
    }
    /// the (non-generic) body of an async block or function of this crate
    fn coroutine(&mut self, n: &str) {
        let id = format!("coroutine:{}", n);
        if self.fns.contains_key(&id) {
            return;
        }
        self.fns.insert(id.clone(), String::new());
        let mut done = false;
        for item in rustc_public::all_local_items() {
            if item.name().to_string() != n {
                continue;
            }
            if let Some(b) = item.body() {
                let s = self.body(&b);
                let sp = self.span(b.span);
                let head = format!(
                    "\"id\":{},\"name\":{},\"path\":{},\"crate\":{},\"ws\":true,\"local\":true,\"kind\":\"coroutine\",\"gens\":[],\"foreign\":false,\"unsafe\":false",
                    esc(&id), esc(n), esc(n), esc(&self.local.clone())
                );
                self.fns.insert(id.clone(), format!("{{{},\"span\":{},{}}}", head, esc(&sp), s));
                done = true;
                break;
            }
        }
        if !done {
            self.fns.remove(&id);
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.insert(l, v.name.to_string());
            }
        }
        let mut locals = vec![];
        for (i, l) in b.locals().iter().enumerate() {
            let t = self.ty(l.ty);
            locals.push(match names.get(&i) {
                Some(n) => format!("[{},{}]", t, esc(n)),
                None => format!("[{}]", t),
            });
        }
        let spread = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        let mut bbs = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let sp = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{},{},{}]", p, variant_index.to_index(), sp));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let a = self.operand(&c.src);
                        let d = self.operand(&c.dst);
                        let n = self.operand(&c.count);
                        ss.push(format!("[\"cno\",{},{},{},{}]", a, d, n, sp));
                    }
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = self.term(&bb.terminator.kind, b);
            bbs.push(format!("{{\"s\":{},\"t\":{},\"sp\":{}}}", arr(ss), t, esc(&sp)));
        }
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":{},\"bbs\":{}",
            b.arg_locals().len(), spread, arr(locals), arr(bbs)
        )
    }
    fn place(&mut self, p: &Place) -> String {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\"f\",{},{}]", i, t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".into(),
            });
        }
        format!("[{},{}]", p.local, arr(pr))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = self.konst(&c.const_);
                format!("[\"k\",{},{}]", t, v)
            }
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::ZeroSized => "[\"zst\"]".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(*t, a, 0, 0),
                TyConstKind::ZSTValue(_) => "[\"zst\"]".into(),
                _ => "[\"?\"]".into(),
            },
            _ => "[\"?\"]".into(),
        }
    }
    fn uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in (0..n).rev() {
            let b = (*a.bytes.get(off + i)?)?;
            v = (v << 8) | b as u128;
        }
        Some(v)
    }
    fn ptr_at<'a>(&self, a: &'a Allocation, off: usize) -> Option<AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 6 {
            return "[\"?\"]".into();
        }
        let q = "[\"?\"]".to_string();
        let size = match t.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return q,
        };
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => self.uint(a, off, 1).map(|v| format!("[\"b\",{}]", v)).unwrap_or(q),
                RigidTy::Uint(_) | RigidTy::Char => {
                    if self.ptr_at(a, off).is_some() { return q; }
                    self.uint(a, off, size).map(|v| format!("[\"i\",{}]", v)).unwrap_or(q)
                }
                RigidTy::Int(_) => self
                    .uint(a, off, size)
                    .map(|v| {
                        let bits = size * 8;
                        let s = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                        format!("[\"i\",{}]", s)
                    })
                    .unwrap_or(q),
                RigidTy::FnDef(..) => "[\"zst\"]".into(),
                RigidTy::RawPtr(e, _) | RigidTy::Ref(_, e, _) => {
                    let id = match self.ptr_at(a, off) {
                        Some(i) => i,
                        None => return self.uint(a, off, 8).map(|v| format!("[\"addr\",{}]", v)).unwrap_or(q),
                    };
                    let poff = self.uint(a, off, 8).unwrap_or(0) as usize;
                    match GlobalAlloc::from(id) {
                        GlobalAlloc::Memory(m) => match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                                let bs: Vec<u8> = m.bytes.iter().skip(poff).take(n).map(|b| b.unwrap_or(0)).collect();
                                if n > 4096 {
                                    let h = bs.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
                                    return format!("[\"bigstr\",{},{}]", n, esc(&format!("{:016x}", h)));
                                }
                                format!("[\"str\",{}]", esc(&String::from_utf8_lossy(&bs)))
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let n = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if n > 4096 { return format!("[\"bigslice\",{}]", n); }
                                let v: Vec<String> = (0..n).map(|i| self.decode(el, &m, poff + i * es, depth + 1)).collect();
                                format!("[\"ref\",[\"arr\",{}]]", arr(v))
                            }
                            _ => {
                                let v = self.decode(e, &m, poff, depth + 1);
                                format!("[\"ref\",{}]", v)
                            }
                        },
                        GlobalAlloc::Static(s) => format!("[\"static\",{}]", esc(&s.name().to_string())),
                        GlobalAlloc::Function(i) => {
                            let id = self.inst(i);
                            format!("[\"fnptr\",{}]", esc(&id))
                        }
                        _ => q,
                    }
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    if n > 4096 { return format!("[\"bigarr\",{}]", n); }
                    let v: Vec<String> = (0..n).map(|i| self.decode(e, a, off + i * es, depth + 1)).collect();
                    format!("[\"arr\",{}]", arr(v))
                }
                RigidTy::Tuple(ts) => {
                    let offs = match t.layout().map(|l| l.shape().fields) { Ok(FieldsShape::Arbitrary { offsets }) => offsets, _ => return if ts.is_empty() { "[\"zst\"]".into() } else { q } };
                    let v: Vec<String> = ts.iter().enumerate().map(|(i, t)| self.decode(*t, a, off + offs[i].bytes(), depth + 1)).collect();
                    format!("[\"tup\",{}]", arr(v))
                }
                RigidTy::Adt(d, args) if d.kind().is_struct() => {
                    let offs = match t.layout().map(|l| l.shape().fields) { Ok(FieldsShape::Arbitrary { offsets }) => offsets, _ => return q };
                    let fs = d.variants()[0].fields();
                    let v: Vec<String> = fs.iter().enumerate().map(|(i, f)| {
                        let ft = f.ty_with_args(&args);
                        self.decode(ft, a, off + offs[i].bytes(), depth + 1)
                    }).collect();
                    format!("[\"struct\",{}]", arr(v))
                }
                RigidTy::Adt(d, _) if d.kind().is_enum() => {
                    // field-less variants, and Option-like enums through the tag
                    use rustc_public::abi::{VariantsShape, TagEncoding};
                    match t.layout().map(|l| l.shape().variants) {
                        Ok(VariantsShape::Single { index }) => format!("[\"variant\",{}]", index.to_index()),
                        Ok(VariantsShape::Multiple { tag_encoding: TagEncoding::Direct, .. }) => {
                            let fieldless = d.variants().iter().all(|v| v.fields().is_empty());
                            if let (true, Some(v)) = (fieldless, self.uint(a, off, size)) {
                                for x in d.variants() {
                                    if d.discriminant_for_variant(x.idx()).val & ((1u128 << (8 * size.min(15))) - 1) == v {
                                        return format!("[\"variant\",{}]", x.idx().to_index());
                                    }
                                }
                            }
                            let bs: Vec<String> = (0..size).map(|i| a.bytes.get(off + i).and_then(|b| *b).map(|b| format!("{:02x}", b)).unwrap_or("__".into())).collect();
                            format!("[\"raw\",{}]", esc(&bs.concat()))
                        }
                        _ => {
                            let bs: Vec<String> = (0..size).map(|i| a.bytes.get(off + i).and_then(|b| *b).map(|b| format!("{:02x}", b)).unwrap_or("__".into())).collect();
                            format!("[\"raw\",{}]", esc(&bs.concat()))
                        }
                    }
                }
                _ => q,
            },
            _ => q,
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => { let o = self.operand(o); format!("[\"use\",{}]", o) }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o);
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", o, n)
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(p);
                format!("[\"ref\",{},{}]", p, matches!(k, BorrowKind::Mut { .. }))
            }
            Rvalue::AddressOf(k, p) => {
                let p = self.place(p);
                format!("[\"addr\",{},{}]", p, matches!(k, RawPtrKind::Mut))
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); format!("[\"use\",[\"c\",{}]]", p) }
            Rvalue::Len(p) => { let p = self.place(p); format!("[\"len\",{}]", p) }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o, t)
            }
            Rvalue::BinaryOp(op, a, b) => {
                let a = self.operand(a);
                let b = self.operand(b);
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), a, b)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let a = self.operand(a);
                let b = self.operand(b);
                format!("[\"cbin\",{},{},{}]", esc(&format!("{:?}", op)), a, b)
            }
            Rvalue::UnaryOp(op, a) => { let a = self.operand(a); format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), a) }
            Rvalue::Discriminant(p) => { let p = self.place(p); format!("[\"discr\",{}]", p) }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.ty(d.ty_with_args(args));
                        format!("[\"adt\",{},{},{}]", t, v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(*d, args.clone()));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    AggregateKind::Coroutine(d, _) => {
                        let n = d.name().to_string();
                        self.coroutine(&n);
                        format!("[\"coroutine\",{}]", esc(&n))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", k, arr(os))
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name().to_string())),
            #[allow(unreachable_patterns)]
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn term(&mut self, t: &TerminatorKind, b: &Body) -> String {
        match t {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.operand(discr);
                let bs: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                let ty = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"sw\",{},{},{},{}]", d, arr(bs), targets.otherwise(), ty)
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let p = self.place(place);
                format!("[\"drop\",{},{},{}]", p, target, ty)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func.ty(b.locals()) {
                    Ok(t) => match t.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => {
                                let id = self.inst(i);
                                let ga: Vec<String> = a.0.iter().map(|x| self.garg(x)).collect();
                                format!("[\"fn\",{},{},{}]", esc(&id), esc(&d.name().to_string()), arr(ga))
                            }
                            Err(_) => format!("[\"unres\",{}]", esc(&d.name().to_string())),
                        },
                        _ => { let o = self.operand(func); format!("[\"ptr\",{}]", o) }
                    },
                    Err(_) => "[\"?\"]".into(),
                };
                let os: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                let d = self.place(destination);
                let tg = target.map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"call\",{},{},{},{}]", f, arr(os), d, tg)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(cond);
                let m = match msg {
                    AssertMessage::BoundsCheck { len, index } => {
                        let l = self.operand(len);
                        let i = self.operand(index);
                        format!("[\"bounds\",{},{}]", l, i)
                    }
                    AssertMessage::Overflow(op, x, y) => {
                        let x = self.operand(x);
                        let y = self.operand(y);
                        format!("[\"overflow\",{},{},{}]", esc(&format!("{:?}", op)), x, y)
                    }
                    AssertMessage::DivisionByZero(_) => "[\"div0\"]".into(),
                    AssertMessage::RemainderByZero(_) => "[\"rem0\"]".into(),
                    m => format!("[\"other\",{}]", esc(&format!("{:?}", std::mem::discriminant(m)))),
                };
                format!("[\"assert\",{},{},{},{}]", c, expected, m, target)
            }
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        }
    }
}

fn closure_kind(args: &GenericArgs) -> ClosureKind {
    // the closure-kind type is encoded as i8 / i16 / i32 in the third-from-last argument
    let n = args.0.len();
    if n >= 3 {
        if let GenericArgKind::Type(t) = &args.0[n - 3] {
            return match t.kind() {
                TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => ClosureKind::Fn,
                TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut,
                _ => ClosureKind::FnOnce,
            };
        }
    }
    ClosureKind::FnOnce
}

fn dump() -> ControlFlow<()> {
    let out = match std::env::var("MIRDUMP_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let local = rustc_public::local_crate().name.to_string();
    if local == "build_script_build" || local == "build_script_main" {
        return ControlFlow::Continue(());
    }
    let ws: HashSet<String> = std::env::var("MIRDUMP_WS").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut cx = Cx {
        types: vec![], tmap: HashMap::new(), fns: BTreeMap::new(), exts: BTreeMap::new(),
        seen: HashSet::new(), queue: VecDeque::new(), local: local.clone(), ws,
    };
    let mut roots = vec![];
    let mut generic_items = vec![];
    let mut consts = vec![];
    let mut statics = vec![];
    for item in rustc_public::all_local_items() {
        match item.kind() {
            ItemKind::Fn => {
                if item.requires_monomorphization() {
                    generic_items.push(esc(&item.name().to_string()));
                    continue;
                }
                if let Ok(i) = std::convert::TryFrom::try_from(item).and_then(|i: Instance| Ok(i)) {
                    roots.push(esc(&cx.inst(i)));
                }
            }
            ItemKind::Const => {
                let nm = item.name().to_string();
                let t = cx.ty(item.ty());
                if !item.requires_monomorphization() {
                    // the const body is only present when not generic
                    let v = match item.ty().kind() {
                        TyKind::RigidTy(RigidTy::Uint(_)) | TyKind::RigidTy(RigidTy::Int(_)) => <Instance as std::convert::TryFrom<rustc_public::CrateItem>>::try_from(item).ok()
                            .and_then(|i| i.try_const_eval(item.ty()).ok()).and_then(|a| a.read_uint().ok()).map(|x| x.to_string()),
                        _ => None,
                    };
                    consts.push(format!("[{},{},{}]", esc(&nm), t, v.unwrap_or("null".into())));
                }
            }
            ItemKind::Static => statics.push(esc(&item.name().to_string())),
            _ => {}
        }
    }
    while let Some(i) = cx.queue.pop_front() {
        let id = i.mangled_name().to_string();
        let id = match i.kind { InstanceKind::Virtual { idx } => format!("virtual#{}#{}", idx, id), InstanceKind::Shim => format!("shim#{}#{}", i.name(), id), _ => id };
        cx.process(i, &id);
    }
    let mut s = String::new();
    let _ = write!(s, "{{\"crate\":{},\"roots\":{},\"generic\":{},\"consts\":{},\"statics\":{},\n\"types\":[\n", esc(&local), arr(roots), arr(generic_items), arr(consts), arr(statics));
    s.push_str(&cx.types.join(",\n"));
    s.push_str("],\n\"fns\":[\n");
    s.push_str(&cx.fns.values().cloned().collect::<Vec<_>>().join(",\n"));
    s.push_str("],\n\"exts\":[\n");
    s.push_str(&cx.exts.values().cloned().collect::<Vec<_>>().join(",\n"));
    s.push_str("]}\n");
    let tmp = format!("{}/{}.json.tmp", out, local);
    std::fs::write(&tmp, s).expect("write dump");
    std::fs::rename(&tmp, format!("{}/{}.json", out, local)).expect("rename dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // RUSTC_WORKSPACE_WRAPPER: args[0] is the path of the real rustc
    let is_query = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    if is_query || name.starts_with("build_script") || name == "___" || name.is_empty() {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    for f in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Zinline-mir=no", "-Coverflow-checks=on", "--cap-lints=allow"] {
        args.push(f.to_string());
    }
    let r = rustc_public::run!(&args, dump);
    match r {
        Ok(()) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}
