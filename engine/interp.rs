use crate::json::{arr, bytes_lit, esc};
use crate::Config;
use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type Tm = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum AggK<'tcx> {
    Adt(DefId, VariantIdx, Ty<'tcx>),
    Tuple,
    Array,
    Closure(DefId, GenericArgsRef<'tcx>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term<'tcx> {
    Int(u128, Ty<'tcx>),
    Lit(Rc<[u8]>),
    Zst(Ty<'tcx>),
    Konst(Rc<str>),
    Sym(u32),
    Field(Tm, Option<VariantIdx>, u32),
    Deref(Tm),
    Index(Tm, Tm),
    CIndex(Tm, u64, bool),
    Sub(Tm, u64, u64, bool),
    Discr(Tm),
    Agg(AggK<'tcx>, Rc<[Tm]>),
    Bin(u8, Tm, Tm),
    Un(u8, Tm),
    Cast(u8, Tm, Ty<'tcx>),
    Ref(Rc<Loc>),
    View(Tm),
    App(Rc<str>, Rc<[Tm]>),
    Snap(Tm, Tm), // pointer (or itself), content
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Root { Local(u32, u32), Heap(Tm), Tmp(u32) }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Pj { F(Option<VariantIdx>, u32), I(Tm), CI(u64, bool), SS(u64, u64, bool) }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Loc { root: Root, proj: Vec<Pj> }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum V { Int(u128), Lit(Rc<[u8]>) }
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Dom { is_in: Option<BTreeSet<V>>, not: BTreeSet<V>, lo: Option<i128>, hi: Option<i128> }

const BINS: &[&str] = &["Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr", "Eq", "Lt", "Le", "Ne", "Ge", "Gt", "Cmp", "Offset", "AddOvf", "SubOvf", "MulOvf", "?"];
fn bin_code(op: BinOp) -> u8 {
    use BinOp::*;
    (match op {
        Add | AddUnchecked | AddWithOverflow => 0, Sub | SubUnchecked | SubWithOverflow => 1,
        Mul | MulUnchecked | MulWithOverflow => 2, Div => 3, Rem => 4, BitXor => 5, BitAnd => 6, BitOr => 7,
        Shl | ShlUnchecked => 8, Shr | ShrUnchecked => 9, Eq => 10, Lt => 11, Le => 12, Ne => 13, Ge => 14, Gt => 15, Cmp => 16, Offset => 17,
    }) as u8
}
const UNS: &[&str] = &["Not", "Neg", "PtrMetadata"];
const CASTS: &[&str] = &["IntToInt", "FloatToInt", "FloatToFloat", "IntToFloat", "Transmute", "Ptr"];

pub struct CallItem { uid: u32, name: Rc<str>, selfty: String, targs: Vec<String>, args: Vec<Tm>, ret: Tm, span: String, infn: Rc<str>, kind: &'static str }
pub enum Item { Call(CallItem), Fact(Tm, V, bool), Drop(String, Tm, String), Loop(String), Merged(Rc<Vec<Vec<MItem>>>), Enter(Rc<str>), Leave(Tm), Store(Tm, Tm, String) }
#[derive(Clone)]
pub enum MItem { Fact(Tm, V, bool), Sub(Rc<Vec<Vec<MItem>>>) }
pub struct Node { item: Item, prev: Option<Rc<Node>> }

pub struct BodyInfo<'tcx> { body: Body<'tcx>, headers: FxHashMap<BasicBlock, FxHashSet<BasicBlock>>, name: Rc<str> }

#[derive(Clone)]
enum After<'tcx> { Assign, Opaque(Rc<Opaque<'tcx>>), Forget(Tm) }
struct Opaque<'tcx> { name: Rc<str>, selfty: String, targs: Vec<String>, args: Vec<(Tm, Ty<'tcx>)>, span: String, infn: Rc<str>, dest_ty: Ty<'tcx>, kind: &'static str }

#[derive(Clone)]
struct Frame<'tcx> {
    uid: u32, body: Rc<BodyInfo<'tcx>>, def: DefId,
    dest: Option<Loc>, ret_bb: Option<BasicBlock>, bb: BasicBlock, stmt: usize, active: Vec<BasicBlock>, loops: Vec<(BasicBlock, Rc<Vec<(Loc, Tm)>>)>, after: After<'tcx>,
}
#[derive(Clone)]
struct State<'tcx> { frames: Vec<Frame<'tcx>>, mem: Rc<FxHashMap<Root, Tm>>, facts: Rc<BTreeMap<Tm, Dom>>, trace: Option<Rc<Node>> }

pub enum EndKind { Return(Tm), Panic(String, Vec<Tm>), Back(String, Vec<(Tm, Tm)>), Diverge(String), Cut(String) }
pub struct End<'tcx> { kind: EndKind, st: State<'tcx>, span: String, infn: Rc<str>, out: Vec<(usize, Tm)>, heap: Vec<(Tm, Tm)> }

#[derive(Clone)]
struct Discover { uid: u32, header: BasicBlock, blocks: FxHashSet<BasicBlock> }

enum SymOrigin { Param(usize, String), Ret(u32), Havoc(u32, Tm), Loop(String, Tm), Other(String) }

pub struct An<'tcx, 'c> {
    tcx: TyCtxt<'tcx>, cfg: &'c Config, env: TypingEnv<'tcx>,
    terms: Vec<Term<'tcx>>, map: FxHashMap<Term<'tcx>, Tm>, tys: Vec<Option<Ty<'tcx>>>,
    syms: Vec<(SymOrigin, Option<Ty<'tcx>>)>,
    bodies: FxHashMap<Instance<'tcx>, Option<Rc<BodyInfo<'tcx>>>>,
    next_uid: u32, steps: u64, count: usize, cut: bool, pending: Vec<End<'tcx>>, stops: Vec<u32>, nends: usize,
    inlined: BTreeSet<String>, opaque_seen: BTreeSet<String>,
}

enum Next<'tcx> { Cont, Fork(Vec<State<'tcx>>), End(EndKind), Ret }

pub fn run<'tcx>(tcx: TyCtxt<'tcx>, cfg: &Config) {
    use std::io::Write;
    let tmp = format!("{}.part", cfg.out);
    let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).expect("create out"));
    let mut out = String::from("{");
    let mut fns: Vec<(String, DefId, String)> = vec![];
    for ldid in tcx.mir_keys(()) {
        let d = ldid.to_def_id();
        match tcx.def_kind(d) { DefKind::Fn | DefKind::AssocFn => {} _ => continue }
        if tcx.is_constructor(d) { continue }
        fns.push((short_name(tcx, d), d, module_of(tcx, d)));
    }
    fns.sort_by(|a, b| a.0.cmp(&b.0).then(a.2.cmp(&b.2)));
    out.push_str("\"fns\":");
    out.push_str(&arr(fns.iter().map(|(n, d, m)| format!("[{},{},{},{}]", esc(n), esc(&span_str(tcx, tcx.def_span(*d))), esc(&format!("{:?}", tcx.visibility(*d))), esc(m)))));
    if cfg.structure {
        out.push_str(",\"structure\":");
        out.push_str(&crate::structure::dump(tcx));
    }
    out.push_str(",\"entries\":[");
    let mut first = true;
    for (n, d, module) in &fns {
        let q = format!("{}|{}", module, n);
        let m: Option<&String> = cfg.entries.iter().find(|e| glob(e, if e.contains('|') { &q } else { n }));
        if m.is_none() { continue }
        if cfg.dump.is_some() {
            let b = tcx.optimized_mir(*d);
            eprintln!("==== {}", n);
            for (bb, data) in b.basic_blocks.iter_enumerated() {
                eprintln!("{:?}:", bb);
                for s in &data.statements { eprintln!("   {:?}", s); }
                eprintln!("   => {:?}", data.terminator().kind);
            }
        }
        let mut an = An { tcx, cfg, env: TypingEnv::post_analysis(tcx, *d), terms: vec![], map: Default::default(), tys: vec![], syms: vec![], bodies: Default::default(),
            next_uid: 1, steps: 0, count: 0, cut: false, pending: vec![], stops: vec![], nends: 0, inlined: Default::default(), opaque_seen: Default::default() };
        let t0 = std::time::Instant::now();
        let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| an.entry(n, *d, module))) { Ok(s) => s, Err(_) => format!("{{\"name\":{},\"module\":{},\"error\":\"analysis failed\"}}", esc(n), esc(module)) };
        if let Ok(p) = std::env::var("YAMLINT_VERBOSE") { use std::io::Write; if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) { let _ = writeln!(f, "ENTRY\t{}\t{}ms\t{} bytes\t{} steps\tpaths={}\tcut={}", n, t0.elapsed().as_millis(), s.len(), an.steps, an.count, an.cut); } }
        if !first { out.push(','); }
        first = false;
        out.push_str(&s);
        out.push('\n');
        f.write_all(out.as_bytes()).expect("write out"); out.clear();
    }
    out.push_str("]}");
    f.write_all(out.as_bytes()).expect("write out");
    drop(f);
    std::fs::rename(&tmp, &cfg.out).expect("write out");
}

pub fn glob(p: &str, s: &str) -> bool {
    fn g(p: &[u8], s: &[u8]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some(b'*') => (0..=s.len()).any(|i| g(&p[1..], &s[i..])),
            Some(c) => s.first() == Some(c) && g(&p[1..], &s[1..]),
        }
    }
    g(p.as_bytes(), s.as_bytes())
}

pub fn span_str(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let l = sm.lookup_char_pos(sp.lo());
    let f = format!("{}", l.file.name.prefer_local_unconditionally());
    let f = match f.find("/src/") { Some(i) if f.starts_with('/') && !f.contains("/library/") => f[i + 1..].to_string(), _ => f };
    format!("{}:{}", f, l.line)
}

pub fn adt_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let k = tcx.crate_name(d.krate).to_string();
    let p = tcx.def_path(d).to_string_no_crate_verbose();
    if d.is_local() { p.trim_start_matches("::").to_string() } else { format!("{}{}", k, p) }
}

pub fn tyname<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(d, a) => {
            let n = tcx.item_name(d.did()).to_string();
            let v: Vec<String> = a.types().map(|x| tyname(tcx, x)).filter(|x| x != "Global").collect();
            if v.is_empty() { n } else { format!("{}<{}>", n, v.join(",")) }
        }
        ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, tyname(tcx, *t)),
        ty::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, tyname(tcx, *t)),
        ty::Slice(t) => format!("[{}]", tyname(tcx, *t)),
        ty::Array(t, _) => format!("[{};N]", tyname(tcx, *t)),
        ty::Tuple(ts) => format!("({})", ts.iter().map(|x| tyname(tcx, x)).collect::<Vec<_>>().join(",")),
        ty::Param(p) => p.name.to_string(),
        ty::FnDef(d, _) => format!("fn:{}", fn_path(tcx, *d).0),
        ty::Closure(d, _) => format!("closure@{}", span_str(tcx, tcx.def_span(*d))),
        ty::Dynamic(p, _) => match p.principal() { Some(x) => format!("dyn {}", tcx.item_name(x.def_id())), None => "dyn".into() },
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => t.to_string(),
        _ => { let s = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()); strip_lt(&s) }
    }
}
fn strip_lt(s: &str) -> String { s.replace("'_ ", "").replace("'{erased} ", "") }

/// Display name of a local function: `<Self as Trait<..>>::m`, `Type::m`, `module::f`.
/// Path of the module or function a function (or the impl it belongs to) is defined in.
pub fn module_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    let mut p = tcx.parent(d);
    while matches!(tcx.def_kind(p), DefKind::Impl { .. } | DefKind::Trait) { p = tcx.parent(p); }
    if p.is_crate_root() { return String::new(); }
    match tcx.def_kind(p) {
        DefKind::Mod => adt_path(tcx, p),
        DefKind::Fn | DefKind::AssocFn => { let m = module_of(tcx, p); format!("{}::[{}]", m, short_name(tcx, p)) }
        _ => adt_path(tcx, p),
    }
}

pub fn short_name(tcx: TyCtxt<'_>, d: DefId) -> String {
    let name = tcx.item_name(d).to_string();
    if let Some(imp) = tcx.impl_of_assoc(d) {
        let st = tcx.type_of(imp).instantiate_identity().skip_normalization();
        if tcx.impl_is_of_trait(imp) {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_normalization();
            let targs: Vec<String> = tr.args.types().skip(1).map(|x| tyname(tcx, x)).collect();
            let ta = if targs.is_empty() { String::new() } else { format!("<{}>", targs.join(",")) };
            return format!("<{} as {}{}>::{}", tyname(tcx, st), tcx.item_name(tr.def_id), ta, name);
        }
        return format!("{}::{}", tyname(tcx, st), name);
    }
    if let Some(tr) = tcx.trait_of_assoc(d) { return format!("{}::{}", tcx.item_name(tr), name); }
    adt_path(tcx, d)
}

/// Path used in events: trait path for trait methods (declared or implemented), type path for inherent ones.
pub fn fn_path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> (String, bool) {
    if matches!(tcx.def_kind(d), DefKind::Closure) { return (format!("closure@{}", span_str(tcx, tcx.def_span(d))), false); }
    if tcx.is_constructor(d) { return (format!("{}", adt_path(tcx, d)), false); }
    let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
    if let Some(tr) = tcx.trait_of_assoc(d) { return (format!("{}::{}", adt_path(tcx, tr), name), true); }
    if let Some(imp) = tcx.impl_of_assoc(d) {
        if tcx.impl_is_of_trait(imp) {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_normalization();
            return (format!("{}::{}", adt_path(tcx, tr.def_id), name), true);
        }
        let st = tcx.type_of(imp).instantiate_identity().skip_normalization();
        let base = match st.kind() {
            ty::Adt(a, _) => adt_path(tcx, a.did()),
            ty::Slice(_) => "slice".into(),
            ty::RawPtr(..) => "ptr".into(),
            ty::Array(..) => "array".into(),
            _ => tyname(tcx, st),
        };
        return (format!("{}::{}", base, name), false);
    }
    (adt_path(tcx, d), false)
}

const INLINE: &[&str] = &[
    "core::option", "core::result", "core::ops::control_flow", "core::ops::try_trait", "core::ops::function", "core::convert",
    "core::cmp", "core::mem", "core::clone", "core::borrow", "core::default", "core::bool", "core::tuple", "core::ptr", "alloc::boxed",
    "core::iter::traits::collect", "alloc::borrow", "core::pin", "core::marker", "core::iter::sources::empty", "core::iter::sources::once",
    "serde_core::de::Visitor::", "core::ops::deref", "core::any", "alloc::slice::hack_never", "core::num::niche_types", "core::alloc", "core::ops::coroutine",
];
// Pure std functions: value depends only on (the current content of) the arguments; no event, an App term.
const PURE: &[&str] = &[
    "str::", "slice::", "char::", "u8::", "u16::", "u32::", "u64::", "u128::", "usize::", "i8::", "i16::", "i32::", "i64::", "i128::", "isize::", "f32::", "f64::",
    "alloc::string::String::len", "alloc::string::String::is_empty", "alloc::string::String::as_", "alloc::string::String::capacity",
    "alloc::vec::Vec::len", "alloc::vec::Vec::is_empty", "alloc::vec::Vec::as_", "alloc::vec::Vec::capacity", "alloc::vec::Vec::iter",
    "core::str::converts::from_utf8", "core::str::converts::from_utf8_unchecked", "core::fmt::Arguments", "core::fmt::rt::", "alloc::fmt::format", "alloc::fmt::{", "core::fmt::Arguments::new",
    "core::cmp::PartialEq::", "core::cmp::PartialOrd::", "core::cmp::Ord::", "core::cmp::Eq::",
    "core::ops::deref::Deref::", "core::convert::AsRef::", "core::borrow::Borrow::", "core::ops::range::", "core::iter::traits::collect::IntoIterator::into_iter",
    "core::str::traits::FromStr::", "core::iter::traits::iterator::Iterator::rev", "core::iter::traits::iterator::Iterator::enumerate",
    "core::iter::traits::iterator::Iterator::zip", "core::iter::traits::iterator::Iterator::cloned", "core::iter::traits::iterator::Iterator::copied",
    "core::iter::traits::iterator::Iterator::peekable", "core::iter::traits::iterator::Iterator::skip", "core::iter::traits::iterator::Iterator::take", "core::iter::traits::iterator::Iterator::by_ref",
    "core::intrinsics::", "core::ops::index::Index::", "core::ops::bit::", "core::ops::arith::", "core::alloc::layout", "core::slice::raw::from_raw_parts", "core::str::as_str",
    "core::hint::", "core::convert::From::from", "core::convert::Into::into", "core::convert::TryFrom::", "core::convert::TryInto::", "core::num::", "core::error::Error::",
    "alloc::collections::btree::map::BTreeMap::len", "alloc::collections::btree::map::BTreeMap::is_empty", "core::slice::iter::Iter::as_slice",
    "core::char::", "core::default::Default::default", "alloc::string::String::new", "alloc::vec::Vec::new", "core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::sync::Arc::clone",
    "alloc::sync::Arc::ptr_eq", "alloc::sync::Arc::new", "alloc::rcs::arc::Arc::clone", "alloc::rcs::arc::Arc::ptr_eq", "alloc::rcs::arc::Arc::new", "core::ptr::null", "core::panic::location", "alloc::string::String::from", "alloc::str::", "alloc::vec::Vec::with_capacity", "alloc::string::ToString::to_string",
    "core::iter::adapters", "core::iter::traits::iterator::Iterator::size_hint", "core::iter::traits::exact_size::ExactSizeIterator::len", "alloc::vec::from_elem", "core::unicode", "core::f64", "core::f32",
    "core::option::Option::as_slice", "core::mem::size_of", "core::mem::maybe_uninit", "core::fmt::Formatter::alternate", "core::fmt::Formatter::", "core::iter::traits::double_ended",
];
const PURE_HOF: &[&str] = &["core::iter::traits::iterator::Iterator::all", "core::iter::traits::iterator::Iterator::any", "core::iter::traits::iterator::Iterator::position", "core::iter::traits::iterator::Iterator::find",
    "core::iter::traits::iterator::Iterator::map", "core::iter::traits::iterator::Iterator::filter", "core::iter::traits::iterator::Iterator::count", "core::iter::traits::iterator::Iterator::take_while", "core::iter::traits::iterator::Iterator::skip_while", "core::iter::traits::iterator::Iterator::max", "core::iter::traits::iterator::Iterator::min"];
const IMPURE: &[&str] = &["core::fmt::Formatter::write", "core::fmt::Formatter::pad", "core::fmt::Formatter::debug", "slice::sort", "slice::swap", "slice::reverse", "slice::copy_from", "slice::fill", "slice::iter_mut", "slice::get_mut", "slice::as_mut", "str::as_mut", "core::iter::traits::double_ended"];

impl<'tcx, 'c> An<'tcx, 'c> {
    // ---------- terms ----------
    fn mk(&mut self, t: Term<'tcx>, ty: Option<Ty<'tcx>>) -> Tm {
        if let Some(&i) = self.map.get(&t) { if self.tys[i as usize].is_none() { self.tys[i as usize] = ty; } return i; }
        let i = self.terms.len() as Tm;
        self.terms.push(t.clone()); self.tys.push(ty); self.map.insert(t, i); i
    }
    fn ty(&self, t: Tm) -> Option<Ty<'tcx>> { self.tys[t as usize] }
    fn t(&self, t: Tm) -> Term<'tcx> { self.terms[t as usize].clone() }
    fn int(&mut self, v: u128, ty: Ty<'tcx>) -> Tm { self.mk(Term::Int(v, ty), Some(ty)) }
    fn boolean(&mut self, b: bool) -> Tm { let ty = self.tcx.types.bool; self.int(b as u128, ty) }
    fn fresh(&mut self, o: SymOrigin, ty: Option<Ty<'tcx>>) -> Tm {
        if let Some(ty) = ty { if let ty::Tuple(l) = ty.kind() { if l.is_empty() { return self.unit(); } } }
        let n = self.syms.len() as u32; self.syms.push((o, ty)); self.mk(Term::Sym(n), ty)
    }
    fn unit(&mut self) -> Tm { self.mk(Term::Agg(AggK::Tuple, Rc::from(vec![])), Some(self.tcx.types.unit)) }
    fn lit(&mut self, b: &[u8]) -> Tm { let ty = self.tcx.types.str_; self.mk(Term::Lit(Rc::from(b)), Some(ty)) }
    fn view(&mut self, c: Tm, ty: Option<Ty<'tcx>>) -> Tm {
        if let Term::Deref(p) = self.t(c) { return p; }
        self.mk(Term::View(c), ty)
    }
    fn app(&mut self, n: &str, args: Vec<Tm>, ty: Option<Ty<'tcx>>) -> Tm { self.mk(Term::App(Rc::from(n), Rc::from(args)), ty) }
    fn is_app(&self, t: Tm, n: &str) -> Option<Rc<[Tm]>> { if let Term::App(m, a) = &self.terms[t as usize] { if &**m == n { return Some(a.clone()); } } None }

    fn variant_discr(&self, adt: ty::AdtDef<'tcx>, v: VariantIdx) -> u128 { if adt.is_enum() { adt.discriminant_for_variant(self.tcx, v).val } else { 0 } }
    fn discr(&mut self, v: Tm) -> Tm {
        match self.t(v) {
            Term::Agg(AggK::Adt(d, var, _), _) => { let adt = self.tcx.adt_def(d); let x = self.variant_discr(adt, var); let ty = self.tcx.types.u128; self.int(x, ty) }
            Term::Int(x, ty) if ty.is_enum() => { let t = self.tcx.types.u128; self.int(x, t) }
            _ => self.mk(Term::Discr(v), None),
        }
    }
    fn field_ty(&self, ty: Option<Ty<'tcx>>, var: Option<VariantIdx>, i: u32) -> Option<Ty<'tcx>> {
        let ty = ty?;
        match ty.kind() {
            ty::Adt(d, a) => {
                let vi = match var { Some(v) => v, None if d.is_enum() => return None, None => VariantIdx::from_u32(0) };
                if vi.as_usize() >= d.variants().len() { return None; }
                let v = d.variant(vi);
                let f = v.fields.get(FieldIdx::from_u32(i))?;
                let t = f.ty(self.tcx, a);
                Some(self.norm(t.skip_normalization()))
            }
            ty::Tuple(l) => l.get(i as usize).copied(),
            ty::Closure(_, a) => a.as_closure().upvar_tys().get(i as usize).copied(),
            _ => None,
        }
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(t)) { Ok(t) => t, Err(_) => self.tcx.erase_and_anonymize_regions(t) }
    }
    fn project(&mut self, v: Tm, p: Pj, ty: Option<Ty<'tcx>>) -> Tm {
        match p {
            Pj::F(var, i) => {
                if let Term::Agg(k, fs) = self.t(v) {
                    let ok = match (k, var) { (AggK::Adt(_, a, _), Some(b)) => a == b, _ => true };
                    if ok { if let Some(f) = fs.get(i as usize) { return *f; } }
                }
                // Ok payload of from_utf8(content) is a view of the same content.
                if let (Some(var), 0) = (var, i) {
                    if var.as_u32() == 0 { if let Some(a) = self.is_app(v, "from_utf8") { return self.view(a[0], ty); } }
                }
                let fty = ty.or_else(|| self.field_ty(self.ty(v), var, i));
                let var = if let Some(t) = self.ty(v) { if let ty::Adt(d, _) = t.kind() { if d.is_enum() { var } else { None } } else { None } } else { var };
                self.mk(Term::Field(v, var, i), fty)
            }
            Pj::I(ix) => {
                if let (Term::Lit(b), Term::Int(n, _)) = (self.t(v), self.t(ix)) { if let Some(x) = b.get(n as usize) { let t = self.tcx.types.u8; return self.int(*x as u128, t); } }
                if let (Term::Agg(AggK::Array, fs), Term::Int(n, _)) = (self.t(v), self.t(ix)) { if let Some(x) = fs.get(n as usize) { return *x; } }
                self.mk(Term::Index(v, ix), ty)
            }
            Pj::CI(o, fe) => {
                if let Term::Lit(b) = self.t(v) {
                    let ix = if fe { b.len() as i64 - o as i64 } else { o as i64 };
                    if ix >= 0 && (ix as usize) < b.len() { let t = self.tcx.types.u8; return self.int(b[ix as usize] as u128, t); }
                }
                if let Term::Agg(AggK::Array, fs) = self.t(v) { if !fe { if let Some(x) = fs.get(o as usize) { return *x; } } }
                self.mk(Term::CIndex(v, o, fe), ty)
            }
            Pj::SS(a, b, fe) => self.mk(Term::Sub(v, a, b, fe), ty),
        }
    }
    fn default_of(&mut self, r: Root) -> Tm {
        match r {
            Root::Heap(p) => {
                let pt = self.ty(p).and_then(|t| pointee(t));
                match self.t(p) { Term::View(c) => c, Term::Snap(_, c) => c, _ => self.mk(Term::Deref(p), pt) }
            }
            Root::Local(a, b) => self.mk(Term::Konst(Rc::from(format!("uninit:{}:{}", a, b))), None),
            Root::Tmp(a) => self.mk(Term::Konst(Rc::from(format!("uninit:t{}", a))), None),
        }
    }
    fn read_root(&mut self, st: &State<'tcx>, r: Root) -> Tm { match st.mem.get(&r) { Some(t) => *t, None => self.default_of(r) } }
    fn read(&mut self, st: &State<'tcx>, l: &Loc) -> Tm {
        let mut v = self.read_root(st, l.root);
        for p in &l.proj { v = self.project(v, *p, None); }
        v
    }
    fn write(&mut self, st: &mut State<'tcx>, l: &Loc, val: Tm, root_ty: Option<Ty<'tcx>>) {
        if l.proj.is_empty() { Rc::make_mut(&mut st.mem).insert(l.root, val); return; }
        let base = self.read_root(st, l.root);
        let bty = self.ty(base).or(root_ty);
        let nv = self.rebuild(base, bty, &l.proj, val);
        Rc::make_mut(&mut st.mem).insert(l.root, nv);
    }
    fn expand(&mut self, v: Tm, ty: Option<Ty<'tcx>>, var: Option<VariantIdx>) -> Option<Tm> {
        if let Term::Agg(k, _) = self.t(v) {
            match (k, var) { (AggK::Adt(_, a, _), Some(b)) if a != b => {}, _ => return Some(v) }
        }
        let ty = ty?;
        match ty.kind() {
            ty::Adt(d, _) => {
                if d.is_union() { return None; }
                let vi = if d.is_enum() { var? } else { VariantIdx::from_u32(0) };
                let n = d.variant(vi).fields.len();
                let pv = if d.is_enum() { Some(vi) } else { None };
                let mut fs = vec![];
                for i in 0..n { fs.push(self.project(v, Pj::F(pv, i as u32), None)); }
                Some(self.mk(Term::Agg(AggK::Adt(d.did(), vi, ty), Rc::from(fs)), Some(ty)))
            }
            ty::Tuple(l) => {
                let mut fs = vec![];
                for i in 0..l.len() { fs.push(self.project(v, Pj::F(None, i as u32), None)); }
                Some(self.mk(Term::Agg(AggK::Tuple, Rc::from(fs)), Some(ty)))
            }
            ty::Closure(d, a) => {
                let n = a.as_closure().upvar_tys().len();
                let mut fs = vec![];
                for i in 0..n { fs.push(self.project(v, Pj::F(None, i as u32), None)); }
                Some(self.mk(Term::Agg(AggK::Closure(*d, a), Rc::from(fs)), Some(ty)))
            }
            _ => None,
        }
    }
    fn rebuild(&mut self, base: Tm, ty: Option<Ty<'tcx>>, proj: &[Pj], val: Tm) -> Tm {
        if proj.is_empty() { return val; }
        match proj[0] {
            Pj::F(var, i) => {
                if let Some(e) = self.expand(base, ty, var) {
                    if let Term::Agg(k, fs) = self.t(e) {
                        if (i as usize) < fs.len() {
                            let fty = self.field_ty(ty.or(self.ty(e)), var, i);
                            let nf = self.rebuild(fs[i as usize], fty.or(self.ty(fs[i as usize])), &proj[1..], val);
                            let mut v: Vec<Tm> = fs.to_vec(); v[i as usize] = nf;
                            return self.mk(Term::Agg(k, Rc::from(v)), ty.or(self.ty(e)));
                        }
                    }
                }
            }
            Pj::CI(o, false) => if let Term::Agg(AggK::Array, fs) = self.t(base) { if (o as usize) < fs.len() {
                let nf = self.rebuild(fs[o as usize], None, &proj[1..], val);
                let mut v: Vec<Tm> = fs.to_vec(); v[o as usize] = nf;
                return self.mk(Term::Agg(AggK::Array, Rc::from(v)), ty);
            } }
            Pj::I(ix) => if let (Term::Agg(AggK::Array, fs), Term::Int(o, _)) = (self.t(base), self.t(ix)) { if (o as usize) < fs.len() {
                let nf = self.rebuild(fs[o as usize], None, &proj[1..], val);
                let mut v: Vec<Tm> = fs.to_vec(); v[o as usize] = nf;
                return self.mk(Term::Agg(AggK::Array, Rc::from(v)), ty);
            } }
            _ => {}
        }
        // memory of unknown shape after a write to one of its parts
        if proj.iter().all(|p| matches!(p, Pj::F(None, _))) {
            let n: String = proj.iter().map(|p| if let Pj::F(_, i) = p { format!(".{}", i) } else { String::new() }).collect();
            return self.app(&format!("update:{}", n), vec![base, val], ty);
        }
        self.fresh(SymOrigin::Other("weak-update".into()), ty)
    }
    fn loc_of_ptr(&mut self, v: Tm) -> Loc { match self.t(v) { Term::Ref(l) => (*l).clone(), Term::Snap(p, _) if p != v => self.loc_of_ptr(p), _ => Loc { root: Root::Heap(v), proj: vec![] } } }
    fn mkref(&mut self, l: Loc, ty: Option<Ty<'tcx>>) -> Tm {
        if l.proj.is_empty() { if let Root::Heap(p) = l.root { return p; } }
        self.mk(Term::Ref(Rc::new(l)), ty)
    }
    fn read_ptr(&mut self, st: &State<'tcx>, p: Tm) -> Tm { let l = self.loc_of_ptr(p); self.read(st, &l) }

    // ---------- places ----------
    fn is_ptr_wrapper(&self, ty: Ty<'tcx>) -> bool {
        if let ty::Adt(d, _) = ty.kind() {
            if d.is_box() { return true; }
            let n = self.tcx.item_name(d.did());
            let n = n.as_str();
            let k = self.tcx.crate_name(d.did().krate);
            return ((n == "NonNull" || n == "Unique") && k.as_str() == "core") || (n == "BoxRaw" && k.as_str() == "alloc");
        }
        false
    }
    fn place_loc(&mut self, st: &State<'tcx>, pl: Place<'tcx>) -> Loc {
        let (fu, body) = { let f = st.frames.last().unwrap(); (f.uid, f.body.clone()) };
        let mut loc = Loc { root: Root::Local(fu, pl.local.as_u32()), proj: vec![] };
        let mut pty = PlaceTy::from_ty(body.body.local_decls[pl.local].ty);
        for e in pl.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let v = self.read(st, &loc);
                    if self.ty(v).is_none() { let t = pty.ty; self.tys[v as usize] = Some(t); }
                    loc = self.loc_of_ptr(v);
                }
                ProjectionElem::Field(i, fty) => {
                    if !(self.is_ptr_wrapper(pty.ty) && i.as_u32() == 0) {
                        let var = pty.variant_index;
                        loc.proj.push(Pj::F(if matches!(pty.ty.kind(), ty::Adt(d, _) if d.is_enum()) { var } else { None }, i.as_u32()));
                        // record types as we go
                        let v = self.read(st, &loc);
                        if self.ty(v).is_none() { self.tys[v as usize] = Some(fty); }
                    }
                }
                ProjectionElem::Index(l) => {
                    let ix = self.read(st, &Loc { root: Root::Local(fu, l.as_u32()), proj: vec![] });
                    loc.proj.push(Pj::I(ix));
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => loc.proj.push(Pj::CI(offset, from_end)),
                ProjectionElem::Subslice { from, to, from_end } => loc.proj.push(Pj::SS(from, to, from_end)),
                ProjectionElem::Downcast(..) | ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
                _ => {}
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        loc
    }
    fn place_ty(&self, st: &State<'tcx>, pl: Place<'tcx>) -> Ty<'tcx> { pl.ty(&st.frames.last().unwrap().body.body.local_decls, self.tcx).ty }
    fn read_place(&mut self, st: &State<'tcx>, pl: Place<'tcx>) -> Tm {
        let l = self.place_loc(st, pl);
        let v = self.read(st, &l);
        if self.ty(v).is_none() { let t = self.place_ty(st, pl); self.tys[v as usize] = Some(t); }
        v
    }
    fn operand(&mut self, st: &State<'tcx>, o: &Operand<'tcx>) -> Tm {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.read_place(st, *p),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(RuntimeChecks::OverflowChecks) => self.boolean(true),
            Operand::RuntimeChecks(_) => self.boolean(false),
        }
    }
    fn op_ty(&self, st: &State<'tcx>, o: &Operand<'tcx>) -> Ty<'tcx> { o.ty(&st.frames.last().unwrap().body.body.local_decls, self.tcx) }

    // ---------- constants ----------
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> Tm {
        let ty = c.const_.ty();
        if let ty::FnDef(..) = ty.kind() { return self.mk(Term::Zst(ty), Some(ty)); }
        match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.const_val(v, ty),
            Err(_) => { let s = format!("{:?}", c.const_); self.mk(Term::Konst(Rc::from(s)), Some(ty)) }
        }
    }
    fn const_val(&mut self, v: ConstValue, ty: Ty<'tcx>) -> Tm {
        match v {
            ConstValue::ZeroSized => self.zst(ty),
            ConstValue::Scalar(Scalar::Int(i)) => {
                if ty.is_integral() || ty.is_bool() || ty.is_char() || ty.is_floating_point() { return self.int(i.to_bits(i.size()), ty); }
                self.konst_mem(None, Some(i.to_bits(i.size())), i.size(), ty)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let inner = pointee(ty);
                match (self.tcx.global_alloc(prov.alloc_id()), inner) {
                    (GlobalAlloc::Memory(_), Some(inner)) => {
                        let c = self.alloc_val(prov.alloc_id(), off, inner);
                        self.mk(Term::View(c), Some(ty))
                    }
                    (GlobalAlloc::Static(d), _) => { let s = format!("static:{}", adt_path(self.tcx, d)); self.mk(Term::Konst(Rc::from(s)), Some(ty)) }
                    (GlobalAlloc::Function { instance }, _) => { let s = format!("fnptr:{}", fn_path(self.tcx, instance.def_id()).0); self.mk(Term::Konst(Rc::from(s)), Some(ty)) }
                    _ => self.mk(Term::Konst(Rc::from(format!("ptr:{:?}", prov.alloc_id()))), Some(ty)),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                    let el = pointee(ty);
                    let bytes_like = match el.map(|t| *t.kind()) { Some(ty::Str) => true, Some(ty::Slice(t)) => t == self.tcx.types.u8, _ => false };
                    if bytes_like {
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize).to_vec();
                        let l = self.lit(&b);
                        return self.mk(Term::View(l), Some(ty));
                    }
                }
                self.mk(Term::Konst(Rc::from(format!("slice:{:?}", alloc_id))), Some(ty))
            }
            ConstValue::Indirect { alloc_id, offset } => self.alloc_val(alloc_id, offset, ty),
        }
    }
    fn zst(&mut self, ty: Ty<'tcx>) -> Tm {
        match ty.kind() {
            ty::Tuple(l) if l.is_empty() => self.unit(),
            ty::Adt(d, _) if d.is_struct() => {
                let n = d.non_enum_variant().fields.len();
                let mut fs = vec![];
                for i in 0..n { let ft = self.field_ty(Some(ty), None, i as u32).unwrap(); fs.push(self.zst(ft)); }
                self.mk(Term::Agg(AggK::Adt(d.did(), VariantIdx::from_u32(0), ty), Rc::from(fs)), Some(ty))
            }
            ty::Closure(d, a) => self.mk(Term::Agg(AggK::Closure(*d, a), Rc::from(vec![])), Some(ty)),
            ty::Array(..) => self.mk(Term::Agg(AggK::Array, Rc::from(vec![])), Some(ty)),
            _ => self.mk(Term::Zst(ty), Some(ty)),
        }
    }
    fn konst_mem(&mut self, _a: Option<()>, bits: Option<u128>, size: Size, ty: Ty<'tcx>) -> Tm {
        // scalar-represented ADT constant (e.g. fieldless enum, newtype over int)
        if let Some(b) = bits {
            if let ty::Adt(d, _) = ty.kind() {
                if d.is_enum() && d.variants().iter().all(|v| v.fields.is_empty()) {
                    for (vi, _) in d.variants().iter_enumerated() {
                        let dv = self.variant_discr(*d, vi);
                        let mask = if size.bits() >= 128 { u128::MAX } else { (1u128 << size.bits()) - 1 };
                        if dv & mask == b { return self.mk(Term::Agg(AggK::Adt(d.did(), vi, ty), Rc::from(vec![])), Some(ty)); }
                    }
                }
            }
            if let Some(t) = self.via_layout_scalar(b, size, ty) { return t; }
            return self.mk(Term::Konst(Rc::from(format!("bits:{}:{}", b, tyname(self.tcx, ty)))), Some(ty));
        }
        self.mk(Term::Konst(Rc::from("const")), Some(ty))
    }
    fn via_layout_scalar(&mut self, bits: u128, size: Size, ty: Ty<'tcx>) -> Option<Tm> {
        let bytes = bits.to_le_bytes()[..size.bytes() as usize].to_vec();
        self.decode(&Mem::Bytes(bytes), 0, ty, 0)
    }
    fn alloc_val(&mut self, id: interpret::AllocId, off: Size, ty: Ty<'tcx>) -> Tm {
        match self.decode(&Mem::Alloc(id), off.bytes(), ty, 0) {
            Some(t) => t,
            None => { let s = format!("alloc:{:?}+{}:{}", id, off.bytes(), tyname(self.tcx, ty)); self.mk(Term::Konst(Rc::from(s)), Some(ty)) }
        }
    }
    /// Decode a constant's memory according to its layout.
    fn decode(&mut self, m: &Mem, off: u64, ty: Ty<'tcx>, depth: u32) -> Option<Tm> {
        if depth > 8 { return None; }
        let lay = self.tcx.layout_of(self.env.as_query_input(ty)).ok()?;
        let size = lay.size.bytes();
        if lay.is_zst() && lay.is_sized() && !matches!(ty.kind(), ty::Adt(d, _) if d.is_enum()) { return Some(self.zst(ty)); }
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => { let b = m.bytes(self.tcx, off, size)?; let mut x = [0u8; 16]; x[..size as usize].copy_from_slice(&b); Some(self.int(u128::from_le_bytes(x), ty)) }
            ty::Array(el, n) => {
                let n = n.try_to_target_usize(self.tcx)?;
                if *el == self.tcx.types.u8 { let b = m.bytes(self.tcx, off, n)?; return Some(self.lit(&b)); }
                if n > 64 { return None; }
                let es = self.tcx.layout_of(self.env.as_query_input(*el)).ok()?.size.bytes();
                let mut fs = vec![];
                for i in 0..n { fs.push(self.decode(m, off + i * es, *el, depth + 1)?); }
                Some(self.mk(Term::Agg(AggK::Array, Rc::from(fs)), Some(ty)))
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let (aid, o) = m.ptr(self.tcx, off)?;
                match self.tcx.global_alloc(aid) {
                    GlobalAlloc::Memory(a) => match inner.kind() {
                        ty::Str | ty::Slice(_) => {
                            let len = u64::from_le_bytes(m.bytes(self.tcx, off + 8, 8)?.try_into().ok()?);
                            if matches!(inner.kind(), ty::Str) || matches!(inner.kind(), ty::Slice(t) if *t == self.tcx.types.u8) {
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + len) as usize).to_vec();
                                let l = self.lit(&b); return Some(self.mk(Term::View(l), Some(ty)));
                            }
                            if let ty::Slice(el) = inner.kind() {
                                if len > 64 { return None; }
                                let es = self.tcx.layout_of(self.env.as_query_input(*el)).ok()?.size.bytes();
                                let mut fs = vec![];
                                for i in 0..len { fs.push(self.decode(&Mem::Alloc(aid), o + i * es, *el, depth + 1)?); }
                                let c = self.mk(Term::Agg(AggK::Array, Rc::from(fs)), Some(*inner));
                                return Some(self.mk(Term::View(c), Some(ty)));
                            }
                            None
                        }
                        _ => { let c = self.decode(&Mem::Alloc(aid), o, *inner, depth + 1)?; Some(self.mk(Term::View(c), Some(ty))) }
                    },
                    _ => None,
                }
            }
            ty::Tuple(l) => {
                let mut fs = vec![];
                for (i, t) in l.iter().enumerate() { let o = lay.fields.offset(i).bytes(); fs.push(self.decode(m, off + o, t, depth + 1)?); }
                Some(self.mk(Term::Agg(AggK::Tuple, Rc::from(fs)), Some(ty)))
            }
            ty::Adt(d, _) if d.is_struct() => {
                let n = d.non_enum_variant().fields.len();
                let mut fs = vec![];
                for i in 0..n { let ft = self.field_ty(Some(ty), None, i as u32)?; let o = lay.fields.offset(i).bytes(); fs.push(self.decode(m, off + o, ft, depth + 1)?); }
                Some(self.mk(Term::Agg(AggK::Adt(d.did(), VariantIdx::from_u32(0), ty), Rc::from(fs)), Some(ty)))
            }
            ty::Adt(d, _) if d.is_enum() => {
                use rustc_abi::{TagEncoding, Variants};
                let (vi, vlay) = match &lay.variants {
                    Variants::Single { index } => (*index, lay),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = lay.fields.offset(tag_field.as_usize()).bytes();
                        let tsize = tag.size(&self.tcx).bytes();
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let b = m.bytes(self.tcx, off + toff, tsize)?;
                                let mut x = [0u8; 16]; x[..tsize as usize].copy_from_slice(&b);
                                let val = u128::from_le_bytes(x);
                                let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                d.variants().indices().find(|v| self.variant_discr(*d, *v) & mask == val)?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if m.is_ptr(self.tcx, off + toff) { *untagged_variant } else {
                                    let b = m.bytes(self.tcx, off + toff, tsize)?;
                                    let mut x = [0u8; 16]; x[..tsize as usize].copy_from_slice(&b);
                                    let val = u128::from_le_bytes(x);
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                    let rel = val.wrapping_sub(*niche_start) & mask;
                                    let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if rel <= cnt { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant }
                                }
                            }
                        };
                        let cx = ty::layout::LayoutCx::new(self.tcx, self.env);
                        (vi, lay.for_variant(&cx, vi))
                    }
                    _ => return None,
                };
                let n = d.variant(vi).fields.len();
                let mut fs = vec![];
                for i in 0..n { let ft = self.field_ty(Some(ty), Some(vi), i as u32)?; let o = vlay.fields.offset(i).bytes(); fs.push(self.decode(m, off + o, ft, depth + 1)?); }
                Some(self.mk(Term::Agg(AggK::Adt(d.did(), vi, ty), Rc::from(fs)), Some(ty)))
            }
            _ => None,
        }
    }
}

pub enum Mem { Alloc(interpret::AllocId), Bytes(Vec<u8>) }
impl Mem {
    fn bytes(&self, tcx: TyCtxt<'_>, off: u64, n: u64) -> Option<Vec<u8>> {
        match self {
            Mem::Bytes(b) => b.get(off as usize..(off + n) as usize).map(|x| x.to_vec()),
            Mem::Alloc(id) => match tcx.global_alloc(*id) {
                GlobalAlloc::Memory(a) => { let a = a.inner(); if off + n > a.len() as u64 { return None; } Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize).to_vec()) }
                _ => None,
            },
        }
    }
    fn is_ptr(&self, tcx: TyCtxt<'_>, off: u64) -> bool {
        match self { Mem::Bytes(_) => false, Mem::Alloc(id) => match tcx.global_alloc(*id) { GlobalAlloc::Memory(a) => a.inner().provenance().ptrs().get(&Size::from_bytes(off)).is_some(), _ => false } }
    }
    fn ptr(&self, tcx: TyCtxt<'_>, off: u64) -> Option<(interpret::AllocId, u64)> {
        match self {
            Mem::Bytes(_) => None,
            Mem::Alloc(id) => match tcx.global_alloc(*id) {
                GlobalAlloc::Memory(a) => {
                    let p = a.inner().provenance().ptrs().get(&Size::from_bytes(off))?.alloc_id();
                    let b = self.bytes(tcx, off, 8)?;
                    Some((p, u64::from_le_bytes(b.try_into().ok()?)))
                }
                _ => None,
            },
        }
    }
}

pub fn pointee<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
    match t.kind() {
        ty::Ref(_, t, _) | ty::RawPtr(t, _) => Some(*t),
        ty::Adt(d, a) if d.is_box() => Some(a.type_at(0)),
        ty::Adt(_, a) if { let s = format!("{:?}", t); s.starts_with("std::ptr::NonNull<") || s.starts_with("std::ptr::Unique<") || s.starts_with("core::ptr::") } => a.types().next(),
        _ => None,
    }
}
include!("interp2.rs");
