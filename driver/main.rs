// MIR extractor.  Runs as RUSTC_WRAPPER: for the harness crate it dumps, as
// JSON, the monomorphised MIR of everything reachable from the `pub fn root_*`
// functions (bodies are followed into the crates/paths named in MPV_FOLLOW);
// for the crate under analysis it dumps the call sites of every local item
// (generic MIR).  It never executes the analysed code.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateItem, ItemKind};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    queue: VecDeque<usize>,
    follow: Vec<String>,
    deny: Vec<String>,
    specs: HashMap<String, FnDef>,
}

fn int_name(t: &RigidTy) -> Option<(bool, usize)> {
    match t {
        RigidTy::Int(i) => Some((true, i.num_bytes())),
        RigidTy::Uint(u) => Some((false, u.num_bytes())),
        _ => None,
    }
}

impl Cx {
    fn args_json(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in &args.0 {
            if let GenericArgKind::Type(t) = a {
                v.push(self.ty(*t).to_string());
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let s = format!("{}", t);
        let kind = t.kind();
        let j = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(_) | RigidTy::Uint(_) => {
                    let (sg, b) = int_name(r).unwrap();
                    format!("\"k\":\"int\",\"signed\":{},\"bytes\":{}", sg, b)
                }
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().map(|x| x as i64).unwrap_or(-1);
                    let e = self.ty(*e);
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, n)
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"slice\",\"elem\":{}", e)
                }
                RigidTy::RawPtr(e, _) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"ptr\",\"to\":{}", e)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", e, matches!(m, Mutability::Mut))
                }
                RigidTy::Tuple(es) => {
                    let v: Vec<String> = es.iter().map(|e| self.ty(*e).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(","))
                }
                RigidTy::Adt(def, args) => {
                    let a = self.args_json(args);
                    let name = def.name().to_string();
                    let krate = def.krate().name.to_string();
                    let mut vs = vec![];
                    for v in def.variants() {
                        let discr = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".to_string()
                        };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(args);
                            let ft = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(&f.name.to_string()), ft));
                        }
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                            esc(&v.name().to_string()),
                            discr,
                            fs.join(",")
                        ));
                    }
                    let k = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    format!(
                        "\"k\":\"adt\",\"adt\":\"{}\",\"name\":{},\"crate\":{},\"args\":{},\"box\":{},\"variants\":[{}]",
                        k,
                        esc(&name),
                        esc(&krate),
                        a,
                        def.is_box(),
                        vs.join(",")
                    )
                }
                RigidTy::FnDef(def, args) => {
                    let a = self.args_json(args);
                    let inst = match Instance::resolve(*def, args) {
                        Ok(i) => self.inst(i) as i64,
                        Err(_) => -1,
                    };
                    format!("\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}", esc(&def.name().to_string()), a, inst)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(def, args) => {
                    let up = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t) as i64,
                        _ => -1,
                    };
                    let mut bodies = String::new();
                    for (nm, k) in [("fn", ClosureKind::Fn), ("fnmut", ClosureKind::FnMut), ("fnonce", ClosureKind::FnOnce)] {
                        if let Ok(i) = Instance::resolve_closure(*def, args, k) {
                            let i = self.inst(i);
                            write!(bodies, ",\"{}\":{}", nm, i).unwrap();
                        }
                    }
                    format!("\"k\":\"closure\",\"name\":{},\"upvars\":{}{}", esc(&def.name().to_string()), up, bodies)
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[id] = format!("{{\"id\":{},\"s\":{},{}}}", id, esc(&s), j);
        id
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        let id = self.inst_list.len();
        self.insts.insert(i, id);
        self.inst_list.push(i);
        self.queue.push_back(id);
        id
    }

    fn follow(&self, krate: &str, def: &str, name: &str) -> bool {
        for d in &self.deny {
            if def.starts_with(d.as_str()) || name.starts_with(d.as_str()) {
                return false;
            }
        }
        if krate == "multipart" || krate == "mp_harness" {
            return true;
        }
        self.follow.iter().any(|p| def.starts_with(p.as_str()) || name.starts_with(p.as_str()))
    }

    fn place(&mut self, p: &Place, out: &mut String) {
        write!(out, "[{}", p.local).unwrap();
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => out.push_str(",\"*\""),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    write!(out, ",[\"f\",{},{}]", i, t).unwrap()
                }
                ProjectionElem::Index(l) => write!(out, ",[\"i\",{}]", l).unwrap(),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    write!(out, ",[\"ci\",{},{},{}]", offset, min_length, from_end).unwrap()
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    write!(out, ",[\"ss\",{},{},{}]", from, to, from_end).unwrap()
                }
                ProjectionElem::Downcast(v) => write!(out, ",[\"v\",{}]", v.to_index()).unwrap(),
                ProjectionElem::OpaqueCast(_) => out.push_str(",\"oc\""),
            }
        }
        out.push(']');
    }

    fn alloc_val(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let opaque = "{\"k\":\"opaque\"}".to_string();
        if depth > 12 {
            return opaque;
        }
        let kind = t.kind();
        let layout = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return opaque,
        };
        let size = layout.size.bytes();
        let rd = |o: usize, n: usize| -> Option<u128> { a.read_partial_uint(o..o + n).ok() };
        match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match rd(off, 1) {
                    Some(v) => format!("{{\"k\":\"bool\",\"v\":{}}}", v != 0),
                    None => opaque,
                },
                RigidTy::Char => match rd(off, 4) {
                    Some(v) => format!("{{\"k\":\"char\",\"v\":{}}}", v),
                    None => opaque,
                },
                RigidTy::Int(_) | RigidTy::Uint(_) => match rd(off, size) {
                    Some(v) => {
                        let (sg, b) = int_name(r).unwrap();
                        if sg && b < 16 && v >= (1u128 << (b * 8 - 1)) {
                            let m = (1i128 << (b * 8)) as i128;
                            format!("{{\"k\":\"int\",\"v\":{}}}", v as i128 - m)
                        } else {
                            format!("{{\"k\":\"int\",\"v\":{}}}", v)
                        }
                    }
                    None => opaque,
                },
                RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    let id = match prov {
                        Some(p) => p,
                        None => return opaque,
                    };
                    let base = rd(off, 8).unwrap_or(0) as usize;
                    match GlobalAlloc::from(id) {
                        GlobalAlloc::Memory(m) => match to.kind() {
                            TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) => {
                                let len = rd(off + 8, 8).unwrap_or(0) as usize;
                                let elem = match to.kind() {
                                    TyKind::RigidTy(RigidTy::Slice(e)) => Some(e),
                                    _ => None,
                                };
                                let is_u8 = match &elem {
                                    None => true,
                                    Some(e) => matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))),
                                };
                                if is_u8 {
                                    let raw: Vec<String> = m.bytes[base..base + len]
                                        .iter()
                                        .map(|b| b.unwrap_or(0).to_string())
                                        .collect();
                                    format!("{{\"k\":\"bytes\",\"v\":[{}]}}", raw.join(","))
                                } else {
                                    let e = elem.unwrap();
                                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                    let mut v = vec![];
                                    for i in 0..len.min(64) {
                                        v.push(self.alloc_val(&m, base + i * es, e, depth + 1));
                                    }
                                    format!("{{\"k\":\"slice\",\"v\":[{}]}}", v.join(","))
                                }
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque,
                            _ => {
                                let inner = self.alloc_val(&m, base, *to, depth + 1);
                                let ti = self.ty(*to);
                                format!("{{\"k\":\"ref\",\"ty\":{},\"to\":{}}}", ti, inner)
                            }
                        },
                        GlobalAlloc::Function(i) => {
                            let i = self.inst(i);
                            format!("{{\"k\":\"fn\",\"inst\":{}}}", i)
                        }
                        GlobalAlloc::Static(s) => {
                            format!("{{\"k\":\"static\",\"name\":{}}}", esc(&s.name().to_string()))
                        }
                        _ => opaque,
                    }
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                        let raw: Vec<String> =
                            a.bytes[off..off + n].iter().map(|b| b.unwrap_or(0).to_string()).collect();
                        return format!("{{\"k\":\"barr\",\"v\":[{}]}}", raw.join(","));
                    }
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let mut v = vec![];
                    for i in 0..n.min(64) {
                        v.push(self.alloc_val(a, off + i * es, *e, depth + 1));
                    }
                    format!("{{\"k\":\"arr\",\"v\":[{}]}}", v.join(","))
                }
                RigidTy::Tuple(es) => {
                    let offs = match &layout.fields {
                        FieldsShape::Arbitrary { offsets } => offsets.clone(),
                        _ => return if es.is_empty() { "{\"k\":\"adt\",\"variant\":0,\"fields\":[]}".into() } else { opaque },
                    };
                    let mut v = vec![];
                    for (i, e) in es.iter().enumerate() {
                        v.push(self.alloc_val(a, off + offs[i].bytes(), *e, depth + 1));
                    }
                    format!("{{\"k\":\"adt\",\"variant\":0,\"fields\":[{}]}}", v.join(","))
                }
                RigidTy::FnDef(..) => "{\"k\":\"zst\"}".to_string(),
                RigidTy::Closure(..) => "{\"k\":\"zst\"}".to_string(),
                RigidTy::Adt(def, args) => {
                    if def.kind() == AdtKind::Union {
                        return opaque;
                    }
                    let (vidx, offs): (usize, Vec<usize>) = match &layout.variants {
                        VariantsShape::Empty => return opaque,
                        VariantsShape::Single { index } => {
                            let o = match &layout.fields {
                                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                                _ => vec![],
                            };
                            (index.to_index(), o)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let tsize = match tag {
                                Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                                    Primitive::Int { length, .. } => length.bits() / 8,
                                    Primitive::Pointer(_) => 8,
                                    Primitive::Float { length } => length.bits() / 8,
                                },
                            };
                            let toff = match &layout.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let tv = match rd(off + toff, tsize) {
                                Some(v) => v,
                                None => return opaque,
                            };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = None;
                                    for v in def.variants() {
                                        let d = def.discriminant_for_variant(v.idx()).val;
                                        let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                        if d & mask == tv {
                                            r = Some(v.idx().to_index());
                                        }
                                    }
                                    match r {
                                        Some(r) => r,
                                        None => return opaque,
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    if !has_prov && rel <= hi - lo {
                                        (lo + rel) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                        }
                    };
                    let v = match def.variants().into_iter().nth(vidx) {
                        Some(v) => v,
                        None => return opaque,
                    };
                    let mut fs = vec![];
                    for (i, f) in v.fields().iter().enumerate() {
                        if i >= offs.len() {
                            return opaque;
                        }
                        fs.push(self.alloc_val(a, off + offs[i], f.ty_with_args(args), depth + 1));
                    }
                    format!("{{\"k\":\"adt\",\"variant\":{},\"fields\":[{}]}}", vidx, fs.join(","))
                }
                _ => opaque,
            },
            _ => opaque,
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(..)) = t.kind() {
            return "{\"k\":\"zst\"}".into();
        }
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.alloc_val(&a, 0, t, 0)
            }
            ConstantKind::ZeroSized => "{\"k\":\"zst\"}".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => {
                    let a = a.clone();
                    self.alloc_val(&a, 0, *t, 0)
                }
                _ => "{\"k\":\"opaque\"}".into(),
            },
            _ => "{\"k\":\"opaque\"}".into(),
        }
    }

    fn operand(&mut self, o: &Operand, out: &mut String) {
        match o {
            Operand::Copy(p) => {
                out.push_str("[\"c\",");
                self.place(p, out);
                out.push(']');
            }
            Operand::Move(p) => {
                out.push_str("[\"m\",");
                self.place(p, out);
                out.push(']');
            }
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = self.konst(&c.const_);
                write!(out, "[\"k\",{},{}]", t, v).unwrap();
            }
            Operand::RuntimeChecks(_) => out.push_str("[\"rc\"]"),
        }
    }

    fn operands(&mut self, os: &[Operand], out: &mut String) {
        out.push('[');
        for (i, o) in os.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            self.operand(o, out);
        }
        out.push(']');
    }

    fn rvalue(&mut self, r: &Rvalue, out: &mut String) {
        match r {
            Rvalue::Use(o, _) => {
                out.push_str("[\"use\",");
                self.operand(o, out);
                out.push(']');
            }
            Rvalue::Ref(_, bk, p) => {
                write!(out, "[\"ref\",{},", matches!(bk, BorrowKind::Mut { .. })).unwrap();
                self.place(p, out);
                out.push(']');
            }
            Rvalue::Reborrow(_, m, p) => {
                write!(out, "[\"use\",[\"c\",").unwrap();
                let _ = m;
                self.place(p, out);
                out.push_str("]]");
            }
            Rvalue::AddressOf(k, p) => {
                write!(out, "[\"addr\",{},", matches!(k, RawPtrKind::Mut)).unwrap();
                self.place(p, out);
                out.push(']');
            }
            Rvalue::Aggregate(k, os) => {
                let h = match k {
                    AggregateKind::Array(t) => format!("\"array\",{},0", self.ty(*t)),
                    AggregateKind::Tuple => "\"tuple\",0,0".to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.ty(d.ty_with_args(args));
                        format!("\"adt\",{},{}", t, v.to_index())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(*d, args.clone()));
                        format!("\"closure\",{},0", t)
                    }
                    AggregateKind::RawPtr(t, _) => format!("\"rawptr\",{},0", self.ty(*t)),
                    _ => "\"other\",0,0".to_string(),
                };
                write!(out, "[\"agg\",{},", h).unwrap();
                self.operands(os, out);
                out.push(']');
            }
            Rvalue::BinaryOp(op, a, b) => {
                write!(out, "[\"bin\",\"{:?}\",", op).unwrap();
                self.operand(a, out);
                out.push(',');
                self.operand(b, out);
                out.push(']');
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                write!(out, "[\"cbin\",\"{:?}\",", op).unwrap();
                self.operand(a, out);
                out.push(',');
                self.operand(b, out);
                out.push(']');
            }
            Rvalue::UnaryOp(op, a) => {
                write!(out, "[\"un\",\"{:?}\",", op).unwrap();
                self.operand(a, out);
                out.push(']');
            }
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                write!(out, "[\"cast\",{},{},", esc(&format!("{:?}", k)), t).unwrap();
                self.operand(o, out);
                out.push(']');
            }
            Rvalue::CopyForDeref(p) => {
                out.push_str("[\"use\",[\"c\",");
                self.place(p, out);
                out.push_str("]]");
            }
            Rvalue::Discriminant(p) => {
                out.push_str("[\"discr\",");
                self.place(p, out);
                out.push(']');
            }
            Rvalue::Len(p) => {
                out.push_str("[\"len\",");
                self.place(p, out);
                out.push(']');
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x as i64).unwrap_or(-1);
                write!(out, "[\"repeat\",{},", n).unwrap();
                self.operand(o, out);
                out.push(']');
            }
            Rvalue::ThreadLocalRef(_) => out.push_str("[\"tls\"]"),
        }
    }

    fn line(&self, sp: &Span) -> usize {
        sp.get_lines().start_line
    }

    fn unwind(&self, u: &UnwindAction) -> i64 {
        match u {
            UnwindAction::Cleanup(b) => *b as i64,
            _ => -1,
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let mut out = String::new();
        out.push_str("{\"locals\":[");
        for (i, l) in b.locals().iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let t = self.ty(l.ty);
            write!(out, "{}", t).unwrap();
        }
        let f = b.span.get_filename();
        write!(
            out,
            "],\"argc\":{},\"spread\":{},\"file\":{},\"line\":{},\"names\":{{",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            esc(&f.to_string()),
            self.line(&b.span)
        )
        .unwrap();
        let mut first = true;
        let mut seen = std::collections::HashSet::new();
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                if seen.insert(l) {
                    if !first {
                        out.push(',');
                    }
                    first = false;
                    write!(out, "\"{}\":{}", l, esc(&v.name.to_string())).unwrap();
                }
            }
        }
        out.push_str("},\"blocks\":[");
        for (i, bb) in b.blocks.iter().enumerate() {
            if i > 0 {
                out.push_str(",\n");
            }
            out.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let mut s = String::new();
                match &st.kind {
                    StatementKind::Assign(p, r) => {
                        s.push_str("[\"=\",");
                        self.place(p, &mut s);
                        s.push(',');
                        self.rvalue(r, &mut s);
                        write!(s, ",{}]", self.line(&st.source_info.span)).unwrap();
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        s.push_str("[\"sd\",");
                        self.place(place, &mut s);
                        write!(s, ",{}]", variant_index.to_index()).unwrap();
                    }
                    StatementKind::StorageLive(l) => write!(s, "[\"sl\",{}]", l).unwrap(),
                    StatementKind::StorageDead(l) => write!(s, "[\"sx\",{}]", l).unwrap(),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        s.push_str("[\"assume\",");
                        self.operand(o, &mut s);
                        s.push(']');
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        s.push_str("[\"cno\"]");
                    }
                    _ => {}
                }
                if !s.is_empty() {
                    if !first {
                        out.push(',');
                    }
                    first = false;
                    out.push_str(&s);
                }
            }
            out.push_str("],\"t\":");
            match &bb.terminator.kind {
                TerminatorKind::Goto { target } => write!(out, "[\"goto\",{}]", target).unwrap(),
                TerminatorKind::SwitchInt { discr, targets } => {
                    out.push_str("[\"sw\",");
                    self.operand(discr, &mut out);
                    out.push_str(",[");
                    for (i, (v, t)) in targets.branches().enumerate() {
                        if i > 0 {
                            out.push(',');
                        }
                        write!(out, "[{},{}]", v, t).unwrap();
                    }
                    write!(out, "],{}]", targets.otherwise()).unwrap();
                }
                TerminatorKind::Resume => out.push_str("[\"resume\"]"),
                TerminatorKind::Abort => out.push_str("[\"abort\"]"),
                TerminatorKind::Return => out.push_str("[\"ret\"]"),
                TerminatorKind::Unreachable => out.push_str("[\"unreach\"]"),
                TerminatorKind::Drop { place, target, unwind } => {
                    out.push_str("[\"drop\",");
                    self.place(place, &mut out);
                    let t = place.ty(b.locals()).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                    write!(out, ",{},{},{}]", t, target, self.unwind(unwind)).unwrap();
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let mut inst: i64 = -1;
                    let mut defname = String::new();
                    let mut kind = "";
                    let mut targs = "[]".to_string();
                    if let Ok(fty) = func.ty(b.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = fty.kind() {
                            defname = d.name().to_string();
                            targs = self.args_json(&a);
                            if let Ok(mut i) = Instance::resolve(d, &a) {
                                // library functions specified in Rust by the harness
                                if let Some(sd) = self.specs.get(&i.def.name().to_string()) {
                                    if let Ok(j) = Instance::resolve(*sd, &i.args()) {
                                        i = j;
                                    }
                                }
                                kind = match i.kind {
                                    InstanceKind::Item => "item",
                                    InstanceKind::Intrinsic => "intrinsic",
                                    InstanceKind::LlvmIntrinsic => "llvm",
                                    InstanceKind::Virtual { .. } => "virtual",
                                    InstanceKind::Shim => "shim",
                                };
                                inst = self.inst(i) as i64;
                            }
                        }
                    }
                    write!(out, "[\"call\",{{\"def\":{},\"inst\":{},\"kind\":\"{}\",\"targs\":{}", esc(&defname), inst, kind, targs).unwrap();
                    if inst < 0 {
                        out.push_str(",\"fop\":");
                        self.operand(func, &mut out);
                    }
                    out.push_str("},");
                    self.operands(args, &mut out);
                    out.push(',');
                    self.place(destination, &mut out);
                    write!(
                        out,
                        ",{},{},{}]",
                        target.map(|x| x as i64).unwrap_or(-1),
                        self.unwind(unwind),
                        self.line(&bb.terminator.source_info.span)
                    )
                    .unwrap();
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    out.push_str("[\"assert\",");
                    self.operand(cond, &mut out);
                    let m = msg.description().unwrap_or("assertion");
                    write!(
                        out,
                        ",{},{},{},{},{}]",
                        expected,
                        esc(m),
                        target,
                        self.unwind(unwind),
                        self.line(&bb.terminator.source_info.span)
                    )
                    .unwrap();
                }
                TerminatorKind::InlineAsm { .. } => out.push_str("[\"asm\"]"),
            }
            write!(out, ",\"line\":{}}}", self.line(&bb.terminator.source_info.span)).unwrap();
        }
        out.push_str("]}");
        out
    }
}

fn dump_harness(out_path: &str) {
    let follow = std::env::var("MPV_FOLLOW").unwrap_or_default();
    let deny = std::env::var("MPV_DENY").unwrap_or_default();
    let split = |s: &str| s.split(';').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect::<Vec<_>>();
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        queue: VecDeque::new(),
        follow: split(&follow),
        deny: split(&deny),
        specs: HashMap::new(),
    };
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn {
            continue;
        }
        let n = item.name().to_string();
        let short = n.rsplit("::").next().unwrap_or("").to_string();
        if let Some(t) = short.strip_prefix("spec__") {
            if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = item.ty().kind() {
                cx.specs.insert(t.replace("__", "::"), d);
            }
        }
    }
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn {
            continue;
        }
        let n = item.name().to_string();
        let short = n.rsplit("::").next().unwrap_or("").to_string();
        if short.starts_with("root_") {
            if let Ok(i) = Instance::try_from(item) {
                let id = cx.inst(i);
                roots.push((short, id));
            }
        }
    }
    let mut fns: Vec<(usize, String)> = vec![];
    while let Some(id) = cx.queue.pop_front() {
        let i = cx.inst_list[id];
        let name = i.name().to_string();
        let def = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let args = i.args();
        let aj = cx.args_json(&args);
        let is_drop_glue = kind == "shim" && name.contains("drop_in_place");
        let want = !is_drop_glue
            && kind != "virtual"
            && kind != "intrinsic"
            && (cx.follow(&krate, &def, &name));
        let mut bj = "null".to_string();
        let mut sig = "null".to_string();
        if want {
            let has = if kind == "shim" { true } else { i.has_body() };
            if has {
                if let Some(b) = i.body() {
                    bj = cx.body(&b);
                }
            }
        }
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = i.ty().kind() {
            let _ = (d, a);
            if let Some(s) = i.ty().kind().fn_sig() {
                let s = s.skip_binder();
                let o = cx.ty(s.output());
                let ins: Vec<String> = s.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
                sig = format!("{{\"in\":[{}],\"out\":{}}}", ins.join(","), o);
            }
        }
        fns.push((
            id,
            format!(
                "{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"args\":{},\"sig\":{},\"body\":{}}}",
                id,
                esc(&name),
                esc(&def),
                esc(&krate),
                kind,
                aj,
                sig,
                bj
            ),
        ));
    }
    let mut o = String::new();
    o.push_str("{\"roots\":{");
    for (i, (n, id)) in roots.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{}:{}", esc(n), id).unwrap();
    }
    o.push_str("},\n\"fns\":[\n");
    o.push_str(&fns.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"types\":[\n");
    o.push_str(&cx.ty_out.join(",\n"));
    o.push_str("]}\n");
    std::fs::write(out_path, o).unwrap();
}

struct CallCollect<'a> {
    locals: &'a [LocalDecl],
    out: Vec<(String, usize)>,
}
impl<'a> visit::MirVisitor for CallCollect<'a> {
    fn visit_ty(&mut self, ty: &Ty, loc: visit::Location) {
        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = ty.kind() {
            self.out.push((d.name().to_string(), loc.span().get_lines().start_line));
        }
        self.super_ty(ty)
    }
    fn visit_mir_const(&mut self, c: &MirConst, loc: visit::Location) {
        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = c.ty().kind() {
            self.out.push((d.name().to_string(), loc.span().get_lines().start_line));
        }
        self.super_mir_const(c, loc)
    }
}

fn dump_generic(out_path: &str) {
    let mut o = String::from("[\n");
    let mut first = true;
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    for it in items {
        if it.kind() != ItemKind::Fn {
            continue;
        }
        let b = match it.body() {
            Some(b) => b,
            None => continue,
        };
        let mut v = CallCollect { locals: b.locals(), out: vec![] };
        let _ = v.locals;
        v.visit_body(&b);
        let file = b.span.get_filename().to_string();
        let line = b.span.get_lines().start_line;
        if !first {
            o.push_str(",\n");
        }
        first = false;
        let mut seen = std::collections::BTreeSet::new();
        let mut cs = vec![];
        for (c, l) in v.out {
            if seen.insert((c.clone(), l)) {
                cs.push(format!("[{},{}]", esc(&c), l));
            }
        }
        write!(
            o,
            "{{\"name\":{},\"file\":{},\"line\":{},\"refs\":[{}]}}",
            esc(&it.name().to_string()),
            esc(&file),
            line,
            cs.join(",")
        )
        .unwrap();
    }
    o.push_str("]\n");
    std::fs::write(out_path, o).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && !args[1].starts_with('-') && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let mut krate = String::new();
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            krate = args[i + 1].clone();
        }
    }
    let out = std::env::var("MPV_OUT").unwrap_or_default();
    let is_h = krate == "mp_harness" && !out.is_empty();
    let is_m = krate == "multipart" && !out.is_empty();
    if !(is_h || is_m) {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let path = if is_h { format!("{}/mono.json", out) } else { format!("{}/generic.json", out) };
    let r = run!(&args, || -> ControlFlow<(), ()> {
        if is_h {
            dump_harness(&path);
        } else {
            dump_generic(&path);
        }
        ControlFlow::Continue(())
    });
    if let Err(e) = r {
        eprintln!("driver: {:?}", e);
        std::process::exit(1);
    }
}
