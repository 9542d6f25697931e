//! mirdump: a rustc driver that compiles a crate as rustc would and, for the crate named
//! in MIRDUMP_CRATE, writes every monomorphic function body reachable from that crate's
//! non-generic functions to MIRDUMP_OUT, one JSON value per line.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct D {
    out: String,
    tys: HashMap<Ty, usize>,
    tyq: VecDeque<(Ty, usize)>,
    fns: HashMap<Instance, usize>,
    fnq: VecDeque<(Instance, usize)>,
    allocs: HashMap<AllocId, usize>,
    allocq: VecDeque<(AllocId, usize)>,
    anon: usize,
    file: String,
}

fn list<T>(it: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut s = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 { s.push(','); }
        s.push_str(&f(x));
    }
    s.push(']');
    s
}

impl D {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.tyq.push_back((t, i));
        i
    }
    fn inst(&mut self, f: Instance) -> usize {
        if let Some(i) = self.fns.get(&f) { return *i; }
        let i = self.fns.len();
        self.fns.insert(f, i);
        self.fnq.push_back((f, i));
        i
    }
    fn alloc_id(&mut self, a: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&a) { return *i; }
        let i = self.allocs.len();
        self.allocs.insert(a, i);
        self.allocq.push_back((a, i));
        i
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        let mut s = String::from("{\"b\":\"");
        for b in &a.bytes {
            match b { Some(b) => { let _ = write!(s, "{:02x}", b); } None => s.push_str("uu") }
        }
        s.push_str("\",\"p\":");
        let ptrs: Vec<_> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
        s.push_str(&list(ptrs, |(o, p)| format!("[{},{}]", o, self.alloc_id(p))));
        s.push('}');
        s
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let a = self.alloc(a); format!("[\"c\",{},{}]", t, a) }
            ConstantKind::ZeroSized => format!("[\"z\",{}]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let a = self.alloc(a); format!("[\"c\",{},{}]", t, a) }
                TyConstKind::ZSTValue(_) => format!("[\"z\",{}]", t),
                k => format!("[\"?\",{},{}]", t, esc(&format!("{:?}", k))),
            },
            k => format!("[\"?\",{},{}]", t, esc(&format!("{:?}", k))),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let pr = list(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "[\"*\"]".into(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, *from_end as u8),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, *from_end as u8),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
        });
        format!("[{},{}]", p.local, pr)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", self.place(p), esc(&format!("{:?}", k))),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"reb\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = list(ops.iter(), |o| self.op(o));
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"arr\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tup\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => format!("[\"adt\",{},{},{}]", self.ty(d.ty_with_args(args)), v.to_index(),
                        match f { Some(f) => f.to_string(), None => "null".into() }),
                    AggregateKind::Closure(d, args) => format!("[\"clo\",{}]", self.ty(Ty::new_closure(*d, args.clone()))),
                    AggregateKind::RawPtr(t, m) => format!("[\"rp\",{}]", self.ty(Ty::new_ptr(*t, *m))),
                    k => format!("[\"?\",{}]", esc(&format!("{:?}", k))),
                };
                format!("[\"agg\",{},{}]", k, ops)
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => {
                let mut extra = String::from("null");
                if let CastKind::PointerCoercion(pc) = k {
                    if let Operand::Constant(c) = o {
                        if let TyKind::RigidTy(rk) = c.ty().kind() {
                            match (pc, rk) {
                                (PointerCoercion::ReifyFnPointer(_), RigidTy::FnDef(d, a)) => {
                                    if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) { extra = self.inst(i).to_string(); }
                                }
                                (PointerCoercion::ClosureFnPointer(_), RigidTy::Closure(d, a)) => {
                                    if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { extra = self.inst(i).to_string(); }
                                }
                                _ => {}
                            }
                        }
                    }
                }
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.op(o), self.ty(*t), extra)
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); format!("[\"use\",[\"p\",{}]]", p) }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, c) => format!("[\"rep\",{},{}]", self.op(o), c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::ThreadLocalRef(_) => "[\"?\",\"tls\"]".into(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = list(b.locals().iter(), |l| self.ty(l.ty).to_string());
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() { names.push(format!("[{},{}]", l, esc(&v.name.to_string()))); }
        }
        let blocks = list(b.blocks.iter(), |bb| {
            let mut sts: Vec<String> = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rv(r);
                        sts.push(format!("[\"=\",{},{},{}]", p, r, s.source_info.span.get_lines().start_line)) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); sts.push(format!("[\"sd\",{},{}]", p, variant_index.to_index())) }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (a, b2, n) = (self.op(&c.src), self.op(&c.dst), self.op(&c.count));
                        sts.push(format!("[\"cno\",{},{},{}]", a, b2, n)) }
                    StatementKind::StorageDead(l) => sts.push(format!("[\"dead\",{}]", l)),
                    StatementKind::StorageLive(l) => sts.push(format!("[\"live\",{}]", l)),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let br = list(targets.branches(), |(v, t)| format!("[{},{}]", v, t));
                    format!("[\"sw\",{},{},{}]", d, br, targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    let t = place.ty(b.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{}]", p, target, t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut f = String::from("null");
                    if let Operand::Constant(c) = func {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.ty().kind() {
                            match Instance::resolve(d, &a) {
                                Ok(i) => { f = self.inst(i).to_string(); }
                                Err(_) => { f = esc(&d.name().to_string()); }
                            }
                        }
                    }
                    if f == "null" { f = format!("[{}]", self.op(func)); }
                    let args = list(args.iter(), |o| self.op(o));
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{},{}]", f, args, d, target.map(|t| t.to_string()).unwrap_or("null".into()), line)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let m = match msg { AssertMessage::Overflow(o, _, _) => format!("overflow {:?}", o),
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        m => format!("{}", m.description().unwrap_or("assert")) };
                    format!("[\"assert\",{},{},{},{},{}]", c, *expected as u8, esc(&m), target, line)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            format!("[[{}],{}]", sts.join(","), t)
        });
        format!("{{\"locals\":{},\"argc\":{},\"names\":[{}],\"spread\":{},\"blocks\":{}}}", locals, b.arg_locals().len(), names.join(","),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), blocks)
    }
    fn emit(&mut self, s: String) { self.out.push_str(&s); self.out.push('\n'); }
    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let s = l.shape();
        let offs = match &s.fields { FieldsShape::Arbitrary { offsets } => list(offsets.iter(), |o| o.bytes().to_string()), _ => "null".into() };
        let vs = match &s.variants {
            VariantsShape::Empty => "null".into(),
            VariantsShape::Single { index } => format!("[\"s\",{}]", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let sz = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                    Primitive::Int { length, .. } => length.bits() / 8, _ => 8 } };
                let toff = match &s.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                let vo = list(variants.iter(), |v| list(v.offsets.iter(), |o| o.bytes().to_string()));
                let enc = match tag_encoding { TagEncoding::Direct => "[\"d\"]".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } =>
                        format!("[\"n\",{},{},{},{}]", untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start) };
                format!("[\"m\",{},{},{},{}]", toff, sz, enc, vo)
            }
        };
        format!("[{},{},{}]", s.size.bytes(), offs, vs)
    }
    fn ty_line(&mut self, t: Ty, i: usize) -> String {
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "[\"bool\"]".into(),
                RigidTy::Char => "[\"char\"]".into(),
                RigidTy::Int(x) => format!("[\"int\",{}]", x.num_bytes() * 8),
                RigidTy::Uint(x) => format!("[\"uint\",{}]", x.num_bytes() * 8),
                RigidTy::Str => "[\"str\"]".into(),
                RigidTy::Never => "[\"never\"]".into(),
                RigidTy::Array(t, n) => format!("[\"array\",{},{}]", self.ty(t), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
                RigidTy::Slice(t) => format!("[\"slice\",{}]", self.ty(t)),
                RigidTy::RawPtr(t, _) => format!("[\"ptr\",{}]", self.ty(t)),
                RigidTy::Ref(_, t, _) => format!("[\"ref\",{}]", self.ty(t)),
                RigidTy::Tuple(ts) => format!("[\"tuple\",{}]", list(ts, |t| self.ty(t).to_string())),
                RigidTy::Pat(t, _) => format!("[\"pat\",{}]", self.ty(t)),
                RigidTy::FnDef(d, a) => {
                    let i = Instance::resolve(d, &a).ok();
                    format!("[\"fndef\",{},{}]", esc(&d.name().to_string()), i.map(|i| self.inst(i).to_string()).unwrap_or("null".into()))
                }
                RigidTy::FnPtr(_) => "[\"fnptr\"]".into(),
                RigidTy::Closure(d, a) => {
                    // captured types are the last generic argument (a tuple)
                    let up = a.0.last().and_then(|g| g.ty().copied());
                    let up = match up.map(|t| t.kind()) { Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => list(ts, |t| self.ty(t).to_string()), _ => "null".into() };
                    let body = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                    let b2 = body.map(|b| self.inst(b).to_string()).unwrap_or("null".into());
                    format!("[\"closure\",{},{},{}]", esc(&d.name().to_string()), up, b2)
                }
                RigidTy::Adt(d, a) => {
                    let kind = d.kind();
                    let vs = list(d.variants_iter(), |v| {
                        let fs = v.fields();
                        let f = list(fs.iter(), |f| { let ft = f.ty_with_args(&a); self.ty(ft).to_string() });
                        let n = list(fs.iter(), |f| esc(&f.name.to_string()));
                        let disc = if kind.is_enum() { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        format!("[{},{},{},{}]", esc(&v.name().to_string()), disc, f, n)
                    });
                    let args = list(a.0.iter().filter_map(|g| g.ty()), |t| self.ty(*t).to_string());
                    let discty = if kind.is_enum() { self.ty(t.kind().discriminant_ty().unwrap()).to_string() } else { "null".into() };
                    format!("[\"adt\",{},\"{:?}\",{},{},{}]", esc(&d.name().to_string()), kind, vs, args, discty)
                }
                RigidTy::Dynamic(..) => "[\"dyn\"]".into(),
                r => format!("[\"?\",{}]", esc(&format!("{:?}", r))),
            },
            k => format!("[\"?\",{}]", esc(&format!("{:?}", k))),
        };
        let lay = self.layout(t);
        let name = format!("{}", t);
        format!("[\"T\",{},{},{},{}]", i, k, lay, esc(&name))
    }
    fn run(&mut self) {
        loop {
            if let Some((f, i)) = self.fnq.pop_front() {
                let name = f.name().to_string();
                let kind = match f.kind { InstanceKind::Virtual { idx } => format!("v{}", idx), k => format!("{:?}", k) };
                let intr = f.intrinsic_name().map(|s| esc(&s.to_string())).unwrap_or("null".into());
                // do not descend into the machinery of panics and formatting
                let skip = ["core::panicking::", "std::panicking::", "core::fmt::", "alloc::fmt::", "std::rt::", "std::io::stdio::", "std::process::", "std::sys", "std::fs::", "std::backtrace",
                    "core::str::slice_error_fail", "alloc::raw_vec::handle_error", "alloc::alloc::", "std::alloc::", "std::thread::", "std::sync::", "scrypt::scrypt::scrypt", "rpassword::", "getrandom::", "sha2::", "hmac::", "pbkdf2::", "digest::",
                    "std::path", "std::ffi", "std::time"]
                    .iter().any(|p| name.trim_start_matches('<').starts_with(p));
                let body = if skip || f.kind == InstanceKind::Intrinsic && f.intrinsic_name().is_some() && !f.has_body() { None } else if f.has_body() {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.body())).ok().flatten() } else { None };
                let bs = match &body { Some(b) => self.body(b), None => "null".into() };
                let targs = list(f.args().0.iter().filter_map(|g| g.ty()).copied().collect::<Vec<_>>(), |t| self.ty(t).to_string());
                let sp = match &body { Some(b) => { let sp = b.span; format!("{}:{}", sp.get_filename(), sp.get_lines().start_line) } None => String::new() };
                let l = format!("[\"F\",{},{},\"{}\",{},{},{},{}]", i, esc(&name), kind, intr, targs, esc(&sp), bs);
                self.emit(l);
            } else if let Some((t, i)) = self.tyq.pop_front() {
                let l = self.ty_line(t, i);
                self.emit(l);
            } else if let Some((a, i)) = self.allocq.pop_front() {
                let l = match GlobalAlloc::from(a) {
                    GlobalAlloc::Memory(m) => { let s = self.alloc(&m); format!("[\"A\",{},\"m\",{}]", i, s) }
                    GlobalAlloc::Static(s) => {
                        let t = self.ty(s.ty());
                        match s.eval_initializer() { Ok(m) => { let al = self.alloc(&m); format!("[\"A\",{},\"s\",{},{},{}]", i, al, t, esc(&s.name().to_string())) }
                            Err(_) => format!("[\"A\",{},\"x\",{}]", i, esc(&s.name().to_string())) }
                    }
                    GlobalAlloc::Function(f) => format!("[\"A\",{},\"f\",{}]", i, self.inst(f)),
                    GlobalAlloc::VTable(t, tr) => {
                        let mut ents = String::from("null");
                        if let Some(tr) = tr {
                            let tref = tr.with_self_ty(t).skip_binder();
                            let es = tref.vtable_entries();
                            ents = list(es, |e| match e { VtblEntry::Method(m) => self.inst(m).to_string(), _ => "null".into() });
                        }
                        format!("[\"A\",{},\"v\",{},{}]", i, self.ty(t), ents)
                    }
                    _ => format!("[\"A\",{},\"x\",\"?\"]", i),
                };
                self.emit(l);
            } else { break }
        }
    }
}

fn dump() -> ControlFlow<(), ()> {
    let mut d = D::default();
    d.file = std::env::var("MIRDUMP_OUT").unwrap();
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue; }
        if it.requires_monomorphization() { continue; }
        if let Ok(i) = Instance::try_from(it) { d.inst(i); }
    }
    d.run();
    std::fs::write(&d.file, &d.out).unwrap();
    eprintln!("mirdump: {} functions, {} types, {} allocations, {} bytes", d.fns.len(), d.tys.len(), d.allocs.len(), d.out.len());
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let raw = args.clone();
    // invoked as RUSTC_WRAPPER: args[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) { args.remove(1); }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    if name.is_some() && name == std::env::var("MIRDUMP_CRATE").ok() {
        let r = rustc_public::run!(&args, dump);
        if r.is_err() { std::process::exit(1); }
    } else {
        use std::os::unix::process::CommandExt;
        let rustc = raw.get(1).cloned().unwrap();
        let e = std::process::Command::new(rustc).args(&args[1..]).exec();
        eprintln!("mirdump: {}", e);
        std::process::exit(1);
    }
}
