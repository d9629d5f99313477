//! MIR exporter: a rustc wrapper that, for the crate named in NRMIR_CRATE, writes
//! the monomorphised, callee-resolved MIR reachable from every non-generic item
//! of the crate (plus the bodies of the small std combinators it calls) as JSON to NRMIR_OUT.
//! For every other crate it behaves exactly like rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::rustc_internal::internal;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape};
use rustc_public::target::MachineInfo;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty, usize>,
    type_work: Vec<Ty>,
    insts: Vec<Instance>,
    inst_ids: HashMap<Instance, usize>,
    statics: HashMap<String, String>,
    static_fns: Vec<usize>,
    keep: Vec<String>,
}

impl<'tcx> Ctx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, i);
        self.type_work.push(t);
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => Some(esc(&format!("{:?}", c.kind()))),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        arr(&v)
    }
    fn fill_types(&mut self) {
        while let Some(t) = self.type_work.pop() {
            let s = self.ty_json(t);
            let i = self.type_ids[&t];
            self.types[i] = s;
        }
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let disp = esc(&format!("{}", t));
        let k = t.kind();
        let Some(r) = k.rigid() else {
            return format!("{{\"k\":\"other\",\"s\":{disp}}}");
        };
        match r {
            RigidTy::Adt(def, args) => {
                let name = esc(&def.name().to_string());
                let ga = self.gargs(args);
                let kind = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let krate = def.krate().name.to_string();
                let mut vs = vec![];
                for v in def.variants() {
                    let d = if def.kind() == AdtKind::Enum {
                        def.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(args);
                        let fid = self.ty(ft);
                        let internal_did = internal(self.tcx, f.def_id());
                        let vis = self.tcx.visibility(internal_did).is_public();
                        fs.push(format!("[{},{},{}]", esc(&f.name.to_string()), fid, vis));
                    }
                    vs.push(format!(
                        "{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}",
                        esc(&v.name().to_string()),
                        d,
                        arr(&fs)
                    ));
                }
                format!(
                    "{{\"k\":\"adt\",\"s\":{disp},\"name\":{name},\"crate\":{},\"kind\":\"{kind}\",\"args\":{ga},\"variants\":{}}}",
                    esc(&krate),
                    arr(&vs)
                )
            }
            RigidTy::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"ref\",\"s\":{disp},\"mut\":{},\"to\":{i}}}", *m == Mutability::Mut)
            }
            RigidTy::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"ptr\",\"s\":{disp},\"mut\":{},\"to\":{i}}}", *m == Mutability::Mut)
            }
            RigidTy::Slice(inner) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"slice\",\"s\":{disp},\"to\":{i}}}")
            }
            RigidTy::Array(inner, n) => {
                let i = self.ty(*inner);
                let n = n.eval_target_usize().map(|n| n.to_string()).unwrap_or("-1".into());
                format!("{{\"k\":\"array\",\"s\":{disp},\"to\":{i},\"len\":{n}}}")
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"s\":{disp},\"elems\":{}}}", arr(&v))
            }
            RigidTy::Closure(def, args) => {
                // instances: resolve lazily (FnOnce by-value view; same body)
                let name = esc(&def.name().to_string());
                let mut inst = "null".to_string();
                for kind in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    // the closure's own kind resolves to the Item body, wider kinds to shims
                    if let Ok(i) = Instance::resolve_closure(*def, args, kind) {
                        if i.kind == InstanceKind::Item {
                            inst = self.inst(i).to_string();
                            break;
                        }
                    }
                }
                format!("{{\"k\":\"closure\",\"s\":{disp},\"name\":{name},\"inst\":{inst}}}")
            }
            RigidTy::FnDef(def, args) => {
                let name = esc(&def.name().to_string());
                let inst = match Instance::resolve(*def, args) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"fndef\",\"s\":{disp},\"name\":{name},\"inst\":{inst}}}")
            }
            RigidTy::Str => format!("{{\"k\":\"str\",\"s\":{disp}}}"),
            RigidTy::Bool => format!("{{\"k\":\"bool\",\"s\":{disp}}}"),
            RigidTy::Char => format!("{{\"k\":\"char\",\"s\":{disp}}}"),
            RigidTy::Int(_) => format!("{{\"k\":\"int\",\"s\":{disp}}}"),
            RigidTy::Uint(_) => format!("{{\"k\":\"uint\",\"s\":{disp}}}"),
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{disp}}}"),
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{disp}}}"),
            RigidTy::Never => format!("{{\"k\":\"never\",\"s\":{disp}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{disp}}}"),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.insts.push(i);
        self.inst_ids.insert(i, id);
        id
    }
    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("[{},{}]", esc(&s.get_filename().to_string()), l.start_line)
    }
    fn alloc_strings(&mut self, a: &Allocation, depth: usize, seen: &mut BTreeSet<usize>, out: &mut Vec<String>) {
        if depth > 8 {
            return;
        }
        let bytes = &a.bytes;
        for (off, prov) in &a.provenance.ptrs {
            let base: usize = {
                let mut v = 0usize;
                for k in 0..8 {
                    v |= (bytes.get(off + k).copied().flatten().unwrap_or(0) as usize) << (8 * k);
                }
                v
            };
            let len: Option<usize> = if off + 16 <= bytes.len()
                && !a.provenance.ptrs.iter().any(|(o, _)| *o == off + 8)
            {
                let mut v = 0usize;
                let mut ok = true;
                for k in 0..8 {
                    match bytes[off + 8 + k] {
                        Some(b) => v |= (b as usize) << (8 * k),
                        None => ok = false,
                    }
                }
                if ok { Some(v) } else { None }
            } else {
                None
            };
            match GlobalAlloc::from(prov.0) {
                GlobalAlloc::Memory(m) => {
                    if m.provenance.ptrs.is_empty() {
                        if let Some(n) = len {
                            if base <= m.bytes.len() && n <= m.bytes.len() - base {
                                let b: Vec<u8> =
                                    m.bytes[base..base + n].iter().map(|x| x.unwrap_or(0)).collect();
                                if let Ok(s) = String::from_utf8(b) {
                                    out.push(s);
                                }
                            }
                        }
                    } else {
                        self.alloc_strings(&m, depth + 1, seen, out);
                    }
                }
                GlobalAlloc::Static(s) => {
                    if let Ok(m) = s.eval_initializer() {
                        self.alloc_strings(&m, depth + 1, seen, out);
                    }
                }
                GlobalAlloc::Function(i) => {
                    let n = self.inst(i);
                    self.static_fns.push(n);
                }
                _ => {}
            }
        }
    }
    fn note_static(&mut self, s: StaticDef) -> String {
        let name = s.name().to_string();
        if !self.statics.contains_key(&name) {
            self.statics.insert(name.clone(), String::new());
            let mut strs = vec![];
            self.static_fns.clear();
            if let Ok(a) = s.eval_initializer() {
                self.alloc_strings(&a, 0, &mut BTreeSet::new(), &mut strs);
            }
            let fns: Vec<String> = self.static_fns.drain(..).map(|x| x.to_string()).collect();
            let t = self.ty(s.ty());
            let did = internal(self.tcx, s.def_id());
            let mutable = self.tcx.is_mutable_static(did);
            let tl = self.tcx.is_thread_local_static(did);
            let v: Vec<String> = strs.iter().map(|s| esc(s)).collect();
            let local = did.is_local();
            let krate = s.krate().name.to_string();
            self.statics.insert(
                name.clone(),
                format!(
                    "{{\"ty\":{t},\"mut\":{mutable},\"tls\":{tl},\"local\":{local},\"crate\":{},\"strings\":{},\"fns\":{}}}",
                    esc(&krate),
                    arr(&v),
                    arr(&fns)
                ),
            );
        }
        name
    }
    fn ptr_target(&mut self, prov: &Prov, base: usize, pointee: Option<Ty>, fat_len: Option<usize>) -> String {
        match GlobalAlloc::from(prov.0) {
            GlobalAlloc::Static(s) => {
                let n = self.note_static(s);
                format!("{{\"c\":\"static\",\"name\":{}}}", esc(&n))
            }
            GlobalAlloc::Function(i) => {
                let id = self.inst(i);
                format!("{{\"c\":\"fnaddr\",\"inst\":{id}}}")
            }
            GlobalAlloc::Memory(m) => {
                let k = pointee.map(|p| p.kind());
                if let Some(k) = &k {
                    if k.is_str() || matches!(k.rigid(), Some(RigidTy::Slice(e)) if format!("{}", e) == "u8")
                        || matches!(k.rigid(), Some(RigidTy::Array(e, _)) if format!("{}", e) == "u8")
                    {
                        let n = fat_len.unwrap_or(m.bytes.len().saturating_sub(base));
                        let end = (base + n).min(m.bytes.len());
                        let b: Vec<u8> = m.bytes[base.min(end)..end].iter().map(|x| x.unwrap_or(0)).collect();
                        return if k.is_str() {
                            format!("{{\"c\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(&b)))
                        } else {
                            let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            format!("{{\"c\":\"bytes\",\"v\":{}}}", arr(&v))
                        };
                    }
                    if let Some(RigidTy::Array(e, _)) = k.rigid() {
                        // array of scalars / strs
                        let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        if es > 0 {
                            let n = m.bytes.len() / es;
                            let mut vs = vec![];
                            for i in 0..n {
                                vs.push(self.sub_alloc_json(&m, i * es, *e));
                            }
                            return format!("{{\"c\":\"array\",\"v\":{}}}", arr(&vs));
                        }
                    }
                    if let Some(RigidTy::Slice(e)) = k.rigid() {
                        let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        if let (true, Some(n)) = (es > 0, fat_len) {
                            let mut vs = vec![];
                            for i in 0..n {
                                vs.push(self.sub_alloc_json(&m, base + i * es, *e));
                            }
                            return format!("{{\"c\":\"array\",\"v\":{}}}", arr(&vs));
                        }
                    }
                    if let Some(p) = pointee {
                        return self.sub_alloc_json(&m, base, p);
                    }
                }
                "{\"c\":\"opaque\"}".into()
            }
            _ => "{\"c\":\"opaque\"}".into(),
        }
    }
    /// decode a value of type `ty` at offset in allocation
    fn sub_alloc_json(&mut self, a: &Allocation, off: usize, ty: Ty) -> String {
        let k = ty.kind();
        let rd = |o: usize, n: usize| -> Option<u128> {
            let mut v = 0u128;
            for i in 0..n {
                v |= (a.bytes.get(o + i).copied().flatten()? as u128) << (8 * i);
            }
            Some(v)
        };
        match k.rigid() {
            Some(RigidTy::Ref(_, inner, _)) | Some(RigidTy::RawPtr(inner, _)) => {
                if let Some((_, p)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                    let base = rd(off, 8).unwrap_or(0) as usize;
                    let ik = inner.kind();
                    let fat = if ik.is_str() || ik.is_slice() {
                        rd(off + 8, 8).map(|x| x as usize)
                    } else {
                        None
                    };
                    let p = p.clone();
                    return self.ptr_target(&p, base, Some(*inner), fat);
                }
                "{\"c\":\"opaque\"}".into()
            }
            Some(RigidTy::Bool) => format!("{{\"c\":\"bool\",\"v\":{}}}", rd(off, 1).unwrap_or(0) != 0),
            Some(RigidTy::Char) => format!("{{\"c\":\"char\",\"v\":{}}}", rd(off, 4).unwrap_or(0)),
            Some(RigidTy::Uint(u)) => {
                format!("{{\"c\":\"int\",\"v\":\"{}\"}}", rd(off, u.num_bytes()).unwrap_or(0))
            }
            Some(RigidTy::Int(u)) => {
                let n = u.num_bytes();
                let v = rd(off, n).unwrap_or(0);
                let bits = 8 * n as u32;
                let s = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                    v as i128 - (1i128 << bits)
                } else {
                    v as i128
                };
                format!("{{\"c\":\"int\",\"v\":\"{}\"}}", s)
            }
            Some(RigidTy::Tuple(ts)) if ts.is_empty() => "{\"c\":\"unit\"}".into(),
            Some(RigidTy::Adt(def, _)) if def.kind() == AdtKind::Enum => {
                // C-like enums, then niche / tagged layouts
                if def.variants().iter().all(|v| v.fields().is_empty()) {
                    let n = ty.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let v = rd(off, n).unwrap_or(0);
                    let ty_id = self.ty(ty);
                    for (i, vd) in def.variants().iter().enumerate() {
                        let d = def.discriminant_for_variant(vd.idx()).val;
                        let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                        if d & m == v {
                            return format!("{{\"c\":\"variant\",\"ty\":{ty_id},\"v\":{i}}}");
                        }
                    }
                }
                if let Some(r) = self.enum_value(a, off, ty, *def) {
                    return r;
                }
                let mut strs = vec![];
                self.alloc_strings(a, 0, &mut BTreeSet::new(), &mut strs);
                let v: Vec<String> = strs.iter().map(|s| esc(s)).collect();
                format!("{{\"c\":\"opaque\",\"strings\":{}}}", arr(&v))
            }
            Some(RigidTy::Adt(def, _)) if def.kind() == AdtKind::Struct && internal(self.tcx, def.def_id()).is_local() => {
                match self.enum_value(a, off, ty, *def) {
                    Some(r) => r,
                    None => "{\"c\":\"opaque\"}".into(),
                }
            }
            Some(RigidTy::Tuple(ts)) => {
                let offs: Vec<usize> = match ty.layout().map(|l| l.shape().fields) {
                    Ok(FieldsShape::Arbitrary { offsets }) => offsets.iter().map(|o| o.bytes()).collect(),
                    _ => vec![],
                };
                if offs.len() != ts.len() {
                    return "{\"c\":\"opaque\"}".into();
                }
                let mut fs = vec![];
                for (t, o) in ts.iter().zip(offs.iter()) {
                    let tid = self.ty(*t);
                    let v = self.sub_alloc_json(a, off + o, *t);
                    fs.push(format!("{{\"ty\":{tid},\"v\":{v}}}"));
                }
                format!("{{\"c\":\"tuple\",\"f\":{}}}", arr(&fs))
            }
            _ => {
                let mut strs = vec![];
                self.alloc_strings(a, 0, &mut BTreeSet::new(), &mut strs);
                let v: Vec<String> = strs.iter().map(|s| esc(s)).collect();
                let hex: String = if a.bytes.len() <= 64 {
                    a.bytes.iter().map(|b| b.map(|b| format!("{b:02x}")).unwrap_or("__".into())).collect()
                } else {
                    String::new()
                };
                format!("{{\"c\":\"opaque\",\"strings\":{},\"hex\":\"{}@{}\"}}", arr(&v), hex, off)
            }
        }
    }
    /// value of an enum (or None when the layout is not understood)
    fn enum_value(&mut self, a: &Allocation, off: usize, ty: Ty, def: AdtDef) -> Option<String> {
        let rd = |o: usize, n: usize| -> Option<u128> {
            let mut v = 0u128;
            for i in 0..n {
                v |= (a.bytes.get(o + i).copied().flatten()? as u128) << (8 * i);
            }
            Some(v)
        };
        let shape = ty.layout().ok()?.shape();
        let offs = |f: &FieldsShape| -> Vec<usize> {
            match f {
                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                _ => vec![],
            }
        };
        let vars = def.variants();
        let mut voffs = offs(&shape.fields);
        let idx = match &shape.variants {
            VariantsShape::Single { index } => index.to_index(),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let to = *offs(&shape.fields).get(*tag_field)?;
                let n = match tag {
                    Scalar::Initialized { value, .. } | Scalar::Union { value } => {
                        value.size(&MachineInfo::target()).bytes()
                    }
                };
                let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + to);
                let idx = match tag_encoding {
                    TagEncoding::Direct => {
                        let v = rd(off + to, n)?;
                        let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                        vars.iter().position(|vd| def.discriminant_for_variant(vd.idx()).val & m == v)?
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if has_ptr {
                            untagged_variant.to_index()
                        } else {
                            let v = rd(off + to, n)?;
                            let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                            let lo = niche_variants.start().to_index();
                            let hi = niche_variants.end().to_index();
                            let rel = v.wrapping_sub(*niche_start) & m;
                            if rel <= (hi - lo) as u128 {
                                lo + rel as usize
                            } else {
                                untagged_variant.to_index()
                            }
                        }
                    }
                };
                voffs = variants.get(idx)?.offsets.iter().map(|o| o.bytes()).collect();
                idx
            }
            _ => return None,
        };
        let ty_id = self.ty(ty);
        if vars.get(idx)?.fields().is_empty() {
            return Some(format!("{{\"c\":\"variant\",\"ty\":{ty_id},\"v\":{idx}}}"));
        }
        // values of the crate itself and the ubiquitous ones
        let name = def.name().to_string();
        let plain = name.ends_with("option::Option") || name.ends_with("result::Result");
        if !plain && !internal(self.tcx, def.def_id()).is_local() {
            return None;
        }
        let kind = ty.kind();
        let args = match kind.rigid() {
            Some(RigidTy::Adt(_, args)) => args.clone(),
            _ => return None,
        };
        let fields = vars.get(idx)?.fields();
        if fields.len() != voffs.len() {
            return None;
        }
        let mut fs = vec![];
        for (f, o) in fields.iter().zip(voffs.iter()) {
            let t = f.ty_with_args(&args);
            let tid = self.ty(t);
            let v = self.sub_alloc_json(a, off + o, t);
            fs.push(format!("{{\"ty\":{tid},\"v\":{v}}}"));
        }
        Some(format!("{{\"c\":\"agg\",\"ty\":{ty_id},\"v\":{idx},\"f\":{}}}", arr(&fs)))
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let tid = self.ty(c.ty());
        let body = match c.kind() {
            ConstantKind::ZeroSized => {
                let k = c.ty().kind();
                match k.rigid() {
                    Some(RigidTy::FnDef(..)) => "{\"c\":\"fn\"}".to_string(),
                    _ => "{\"c\":\"zst\"}".to_string(),
                }
            }
            ConstantKind::Allocated(a) => self.sub_alloc_json(&a.clone(), 0, c.ty()),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"c\":\"int\",\"v\":\"{n}\"}}"),
                Err(_) => "{\"c\":\"opaque\"}".into(),
            },
            _ => "{\"c\":\"opaque\"}".into(),
        };
        format!("{{\"o\":\"const\",\"ty\":{tid},\"v\":{body}}}")
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(*t);
                    format!("[\"f\",{f},{ti}]")
                }
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{offset},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(&v))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("{{\"o\":\"rtc\",\"k\":\"{r:?}\"}}"),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"x\":{}}}", self.operand(o)),
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"x\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p))
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("{{\"r\":\"ref\",\"mut\":{m},\"p\":{}}}", self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", *m == Mutability::Mut, self.place(p))
            }
            Rvalue::AddressOf(k, p) => {
                let m = k.to_mutable_lossy() == Mutability::Mut;
                format!("{{\"r\":\"addr\",\"mut\":{m},\"p\":{}}}", self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let xs: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let xs = arr(&xs);
                match k {
                    AggregateKind::Array(_) => format!("{{\"r\":\"agg\",\"k\":\"array\",\"xs\":{xs}}}"),
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"k\":\"tuple\",\"xs\":{xs}}}"),
                    AggregateKind::Adt(def, v, args, _, af) => {
                        let t = self.ty(def.ty_with_args(args));
                        let af = af.map(|x| x.to_string()).unwrap_or("null".into());
                        format!(
                            "{{\"r\":\"agg\",\"k\":\"adt\",\"ty\":{t},\"variant\":{},\"af\":{af},\"xs\":{xs}}}",
                            v.to_index()
                        )
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = self.ty(Ty::new_closure(*def, args.clone()));
                        format!("{{\"r\":\"agg\",\"k\":\"closure\",\"ty\":{t},\"xs\":{xs}}}")
                    }
                    _ => format!("{{\"r\":\"agg\",\"k\":\"other\",\"xs\":{xs}}}"),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (a, b) = (self.operand(a), self.operand(b));
                format!("{{\"r\":\"bin\",\"op\":\"{op:?}\",\"a\":{a},\"b\":{b}}}")
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (a, b) = (self.operand(a), self.operand(b));
                format!("{{\"r\":\"cbin\",\"op\":\"{op:?}\",\"a\":{a},\"b\":{b}}}")
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(a);
                format!("{{\"r\":\"un\",\"op\":\"{op:?}\",\"a\":{a}}}")
            }
            Rvalue::Cast(k, o, t) => {
                let x = self.operand(o);
                let t = self.ty(*t);
                format!("{{\"r\":\"cast\",\"k\":{},\"x\":{x},\"ty\":{t}}}", esc(&format!("{k:?}")))
            }
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Len(p) => format!("{{\"r\":\"len\",\"p\":{}}}", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let x = self.operand(o);
                let n = n.eval_target_usize().map(|n| n.to_string()).unwrap_or("-1".into());
                format!("{{\"r\":\"repeat\",\"x\":{x},\"n\":{n}}}")
            }
            Rvalue::ThreadLocalRef(i) => format!("{{\"r\":\"tls\",\"name\":{}}}", esc(&i.name().to_string())),
        }
    }
    fn callee(&mut self, func: &Operand, body: &Body) -> String {
        if let Operand::Constant(c) = func {
            let k = c.const_.ty().kind();
            if let Some((def, args)) = k.fn_def() {
                let name = esc(&def.name().to_string());
                let ga = self.gargs(args);
                let inst = match Instance::resolve(def, args) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                return format!("{{\"decl\":{name},\"args\":{ga},\"inst\":{inst}}}");
            }
        }
        let t = func.ty(body.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
        let o = self.operand(func);
        format!("{{\"indirect\":{o},\"ty\":{t}}}")
    }
    fn body(&mut self, b: &Body) -> String {
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local).or_insert(v.name.to_string());
                } else {
                    upnames.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
                }
            }
        }
        for (i, l) in b.locals().iter().enumerate() {
            let t = self.ty(l.ty);
            match names.get(&i) {
                Some(n) => locals.push(format!("[{t},{}]", esc(n))),
                None => locals.push(format!("[{t}]")),
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        st.push(format!("[\"=\",{p},{r},{sp}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{p},{},{sp}]", variant_index.to_index()));
                    }
                    StatementKind::StorageLive(l) => st.push(format!("[\"sl\",{l}]")),
                    StatementKind::StorageDead(l) => st.push(format!("[\"sx\",{l}]")),
                    _ => {}
                }
            }
            let sp = self.span(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"t\":\"goto\",\"to\":{target}}}"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let br: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[\"{v}\",{t}]")).collect();
                    format!(
                        "{{\"t\":\"switch\",\"d\":{d},\"dty\":{dt},\"br\":{},\"else\":{},\"sp\":{sp}}}",
                        arr(&br),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Resume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Abort => "{\"t\":\"abort\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    let ty = place.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("{{\"t\":\"drop\",\"p\":{p},\"ty\":{ty},\"to\":{target},\"sp\":{sp}}}")
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.callee(func, b);
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    let tg = target.map(|t| t.to_string()).unwrap_or("null".into());
                    format!(
                        "{{\"t\":\"call\",\"f\":{f},\"a\":{},\"d\":{d},\"to\":{tg},\"sp\":{sp}}}",
                        arr(&a)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let (kind, ops): (String, Vec<String>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(op, x, y) => {
                            (format!("overflow:{op:?}"), vec![self.operand(x), self.operand(y)])
                        }
                        AssertMessage::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(x)]),
                        AssertMessage::DivisionByZero(x) => ("div0".into(), vec![self.operand(x)]),
                        AssertMessage::RemainderByZero(x) => ("rem0".into(), vec![self.operand(x)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{c},\"exp\":{expected},\"k\":{},\"ops\":{},\"to\":{target},\"sp\":{sp}}}",
                        esc(&kind),
                        arr(&ops)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "{\"t\":\"asm\"}".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{t}}}", arr(&st)));
        }
        let spread = b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into());
        format!(
            "{{\"argc\":{},\"spread\":{spread},\"locals\":{},\"up\":{},\"blocks\":{}}}",
            b.arg_locals().len(),
            arr(&locals),
            arr(&upnames),
            arr(&blocks)
        )
    }
    fn want_body(&self, i: &Instance, krate: &str, defname: &str, name: &str) -> bool {
        let local = rustc_public::local_crate().name.to_string();
        if krate == local {
            return true;
        }
        if i.kind == InstanceKind::Shim {
            // closure-once / fn-ptr shims; drop glue is left out
            return !name.contains("drop_in_place") && !name.contains("drop_glue");
        }
        if krate != "core" && krate != "alloc" && krate != "std" {
            return false;
        }
        let file = i.def.span().get_filename().to_string();
        self.keep.iter().any(|k| {
            if let Some(s) = k.strip_prefix('=') {
                defname == s
            } else if let Some(s) = k.strip_prefix("file:") {
                file.ends_with(s)
            } else {
                defname.starts_with(k.as_str()) || defname.starts_with(&format!("<{k}"))
            }
        })
    }
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = std::env::var("NRMIR_OUT").expect("NRMIR_OUT");
    let keep: Vec<String> =
        std::env::var("NRMIR_KEEP").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(String::from).collect();
    let mut cx = Ctx {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        type_work: vec![],
        insts: vec![],
        inst_ids: HashMap::new(),
        statics: HashMap::new(),
        static_fns: vec![],
        keep,
    };
    let mut roots = vec![];
    let eff = tcx.effective_visibilities(());
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn {
            if item.kind() == ItemKind::Static {
                if let Ok(s) = StaticDef::try_from(item) {
                    cx.note_static(s);
                }
            }
            continue;
        }
        if item.requires_monomorphization() {
            continue;
        }
        let did = internal(tcx, item.def_id());
        let kind = tcx.def_kind(did);
        use rustc_hir::def::DefKind;
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let exported = did.as_local().map(|l| eff.is_reachable(l)).unwrap_or(false);
        let is_trait_impl = tcx.trait_impl_of_assoc(did).is_some();
        if let Ok(i) = Instance::try_from(item) {
            let id = cx.inst(i);
            roots.push(format!("{{\"inst\":{id},\"exported\":{exported},\"trait_impl\":{is_trait_impl}}}"));
        }
    }
    // all local ADTs' generic-free types
    let mut adts = vec![];
    for a in rustc_public::local_crate().adts() {
        if a.generics_of().params.iter().all(|p| matches!(p.kind, rustc_public::ty::GenericParamDefKind::Lifetime)) && a.generics_of().params.is_empty() {
            let t = cx.ty(a.ty());
            let did = internal(tcx, a.def_id());
            let exported = did.as_local().map(|l| eff.is_reachable(l)).unwrap_or(false);
            adts.push(format!("{{\"name\":{},\"ty\":{t},\"exported\":{exported}}}", esc(&a.name().to_string())));
        }
    }
    let mut outs: Vec<String> = vec![];
    let mut n = 0;
    loop {
        cx.fill_types();
        if n >= cx.insts.len() {
            break;
        }
        let i = cx.insts[n];
        let defname = i.def.name().to_string();
        let name = i.name().to_string();
        let krate = i.def.krate().name.to_string();
        let did = internal(tcx, i.def.def_id());
        let local = did.is_local();
        let kind = format!("{:?}", i.kind);
        let foreign = i.is_foreign_item();
        let unsafe_ = {
            use rustc_hir::def::DefKind;
            matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn)
                && tcx.fn_sig(did).skip_binder().safety().is_unsafe()
        };
        let ga = cx.gargs(&i.args());
        let want = i.kind != InstanceKind::Intrinsic && cx.want_body(&i, &krate, &defname, &name) && (i.kind == InstanceKind::Shim || i.has_body());
        let body = if want { i.body().map(|b| cx.body(&b)) } else { None };
        let sp = cx.span(&i.def.span());
        let sig = if body.is_none() && i.kind == InstanceKind::Item {
            match i.ty().kind().fn_sig() {
                Some(sig) => {
                    let sig = sig.skip_binder();
                    let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
                    format!("{{\"in\":[{}],\"out\":{}}}", ins.join(","), cx.ty(sig.output()))
                }
                None => "null".into(),
            }
        } else {
            "null".into()
        };
        outs.push(format!(
            "{{\"sig\":{sig},\"id\":{n},\"def\":{},\"name\":{},\"crate\":{},\"local\":{local},\"kind\":{},\"foreign\":{foreign},\"unsafe\":{unsafe_},\"args\":{ga},\"span\":{sp},\"body\":{}}}",
            esc(&defname),
            esc(&name),
            esc(&krate),
            esc(&kind),
            body.unwrap_or("null".into())
        ));
        n += 1;
    }
    let statics: Vec<String> = {
        let mut v: Vec<_> = cx.statics.iter().collect();
        v.sort();
        v.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect()
    };
    let s = format!(
        "{{\"crate\":{},\"debug_assertions\":{},\"roots\":{},\"adts\":{},\"statics\":{{{}}},\"types\":{},\"insts\":{}}}\n",
        esc(&rustc_public::local_crate().name.to_string()),
        tcx.sess.opts.debug_assertions,
        arr(&roots),
        arr(&adts),
        statics.join(","),
        format!("[{}]", cx.types.join(",\n")),
        format!("[{}]", outs.join(",\n"))
    );
    std::fs::write(&out, s).expect("write NRMIR_OUT");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let target = std::env::var("NRMIR_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target)
        && args.iter().any(|a| a == "--crate-type=lib" || a == "lib");
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        match run_with_tcx!(&args, analyze) {
            Ok(_) => std::process::exit(0),
            Err(e) => {
                eprintln!("nrmir: analysis failed: {e:?}");
                std::process::exit(1)
            }
        }
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
