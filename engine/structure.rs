// Crate-wide structural facts read from MIR: every resolved call, cast, dereference of raw pointers, drop impls.
use crate::interp::{adt_path, fn_path, short_name, span_str, tyname};
use crate::json::{arr, esc};
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, TyCtxt};

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut fns = vec![];
    for ldid in tcx.mir_keys(()) {
        let d = ldid.to_def_id();
        let kind = tcx.def_kind(d);
        match kind { DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {} _ => continue }
        if tcx.is_constructor(d) { continue }
        let root = tcx.typeck_root_def_id(d);
        let name = short_name(tcx, root);
        let body = tcx.optimized_mir(d);
        let mut calls = vec![]; let mut casts = vec![]; let mut aggs = vec![]; let mut drops = vec![];
        for data in body.basic_blocks.iter() {
            for s in &data.statements {
                if let StatementKind::Assign(b) = &s.kind {
                    match &b.1 {
                        Rvalue::Cast(k, o, t) => { let from = o.ty(&body.local_decls, tcx); if !matches!(k, CastKind::PointerCoercion(..)) { casts.push(format!("[{},{},{},{}]", esc(&format!("{:?}", k)), esc(&tyname(tcx, from)), esc(&tyname(tcx, *t)), esc(&span_str(tcx, s.source_info.span)))); } }
                        Rvalue::Aggregate(k, _) => if let AggregateKind::Adt(d, v, ..) = &**k { let adt = tcx.adt_def(*d); if d.is_local() { aggs.push(format!("[{},{},{}]", esc(&adt_path(tcx, *d)), esc(&if adt.is_enum() { adt.variant(*v).name.to_string() } else { String::new() }), esc(&span_str(tcx, s.source_info.span)))); } },
                        _ => {}
                    }
                }
            }
            match &data.terminator().kind {
                TerminatorKind::Call { func, destination, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let rt = destination.ty(&body.local_decls, tcx).ty;
                    let (n, ta) = match ft.kind() { ty::FnDef(d, a) => { let a = a.skip_binder(); (fn_path(tcx, *d).0, a.types().map(|t| tyname(tcx, t)).collect::<Vec<_>>()) } _ => (format!("ptr:{}", tyname(tcx, ft)), vec![]) };
                    calls.push(format!("[{},{},{},{},{}]", esc(&n), arr(ta.iter().map(|x| esc(x))), esc(&tyname(tcx, rt)), esc(&span_str(tcx, data.terminator().source_info.span)), data.is_cleanup));
                }
                TerminatorKind::Drop { place, .. } => { let t = place.ty(&body.local_decls, tcx).ty; drops.push(esc(&tyname(tcx, t))); }
                _ => {}
            }
        }
        fns.push(format!("{{\"fn\":{},\"kind\":{},\"span\":{},\"calls\":{},\"casts\":{},\"aggs\":{},\"drops\":{}}}", esc(&name), esc(&format!("{:?}", kind)), esc(&span_str(tcx, tcx.def_span(d))), arr(calls), arr(casts), arr(aggs), arr(drops)));
    }
    arr(fns)
}
