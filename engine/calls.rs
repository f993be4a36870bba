// call handling and output (included into interp.rs)

const JOIN_LIMIT: usize = 6;
const JOIN_GROUP: usize = 3;
fn join_dom(a: &Dom, b: &Dom) -> Dom {
    let mut d = Dom::default();
    match (&a.is_in, &b.is_in) {
        (Some(x), Some(y)) => { d.is_in = Some(x.union(y).cloned().collect()); }
        (Some(x), None) => { d.not = b.not.iter().filter(|v| !x.contains(v)).cloned().collect(); }
        (None, Some(y)) => { d.not = a.not.iter().filter(|v| !y.contains(v)).cloned().collect(); }
        (None, None) => { d.not = a.not.intersection(&b.not).cloned().collect(); }
    }
    d.lo = match (a.lo, b.lo) { (Some(x), Some(y)) => Some(x.min(y)), _ => None };
    d.hi = match (a.hi, b.hi) { (Some(x), Some(y)) => Some(x.max(y)), _ => None };
    d
}
fn join_facts(a: &BTreeMap<Tm, Dom>, b: &BTreeMap<Tm, Dom>) -> BTreeMap<Tm, Dom> {
    let mut o = BTreeMap::new();
    for (t, x) in a { if let Some(y) = b.get(t) { let d = join_dom(x, y); if d != Dom::default() { o.insert(*t, d); } } }
    o
}

impl<'tcx, 'c> An<'tcx, 'c> {
    fn is_prim(&self, t: Ty<'tcx>) -> bool { matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) }
    fn peel(&mut self, st: &State<'tcx>, mut v: Tm, mut ty: Ty<'tcx>) -> (Tm, Ty<'tcx>) {
        while let ty::Ref(_, t, _) = ty.kind() { v = self.read_ptr(st, v); ty = *t; if self.tys[v as usize].is_none() { self.tys[v as usize] = Some(ty); } }
        (v, ty)
    }
    /// Canonical, memory-independent form of an argument of a pure function.
    fn pure_arg(&mut self, st: &State<'tcx>, v: Tm, ty: Ty<'tcx>) -> Tm {
        if let ty::Closure(..) = ty.kind() { if let Some(l) = self.lambda(st, v, ty) { return l; } }
        if self.stringish(ty) { if let Some(c) = self.content(st, v, ty) { return c; } }
        match ty.kind() {
            ty::Ref(_, t, _) => { let c = self.read_ptr(st, v); if self.tys[c as usize].is_none() { self.tys[c as usize] = Some(*t); }
                if self.stringish(*t) { if let Some(c) = self.content(st, c, *t) { return c; } }
                let c = self.pure_arg(st, c, *t); self.view(c, Some(ty)) }
            _ => {
                if let Term::Agg(k, fs) = self.t(v) {
                    let mut out = vec![]; 
                    for f in fs.iter() { let fty = self.ty(*f); out.push(match fty { Some(t) => self.pure_arg(st, *f, t), None => self.snapshot(st, *f, 0) }); }
                    if out[..] == fs[..] { return v; }
                    return self.mk(Term::Agg(k, Rc::from(out)), Some(ty));
                }
                self.snapshot(st, v, 0)
            }
        }
    }
    /// Summary of a closure that performs only pure calls: its cases over canonical bound variables.
    fn lambda(&mut self, st: &State<'tcx>, v: Tm, ty: Ty<'tcx>) -> Option<Tm> {
        let (d, a) = match ty.kind() { ty::Closure(d, a) => (*d, *a), _ => return None };
        if st.frames.iter().any(|f| f.def == d) { return None; }
        if self.holds_mut_closure(a) { return None; }
        let inst = Instance::new_raw(d, a);
        let b = self.body(inst)?;
        let mut s = State { frames: vec![], mem: st.mem.clone(), facts: st.facts.clone(), trace: None };
        let fr = self.new_frame(inst, b.clone(), None, None, After::Assign);
        let uid = fr.uid;
        s.frames.push(fr);
        let envty = b.body.local_decls[Local::from_u32(1)].ty;
        let env = if envty.is_ref() { self.tmp_ref(&mut s, v, Some(envty)) } else { v };
        Rc::make_mut(&mut s.mem).insert(Root::Local(uid, 1), env);
        for (i, l) in b.body.args_iter().skip(1).enumerate() {
            let lt = b.body.local_decls[l].ty;
            let x = self.app(&format!("bound{}:{}", i, tyname(self.tcx, lt)), vec![], Some(lt));
            Rc::make_mut(&mut s.mem).insert(Root::Local(uid, l.as_u32()), x);
        }
        let saved = (std::mem::take(&mut self.pending), self.nends);
        let mut ends = vec![]; let mut backs = vec![]; let mut rets = vec![];
        self.explore(s, None, &mut ends, &mut backs, &mut rets);
        self.pending = saved.0; self.nends = saved.1;
        if ends.len() > 24 { return None; }
        let mut cases = vec![];
        for e in ends {
            let mut fs: Vec<(Tm, V, bool)> = vec![];
            let mut cur = e.st.trace.as_ref();
            while let Some(n) = cur {
                match &n.item { Item::Call(c) => if c.kind != "pure" { return None; }, Item::Drop(..) | Item::Loop(..) | Item::Store(..) => return None, Item::Fact(t, v, eq) => fs.push((*t, v.clone(), *eq)), _ => {} }
                cur = n.prev.as_ref();
            }
            fs.reverse();
            let ret = match e.kind { EndKind::Return(t) => self.snapshot(&e.st, t, 0), EndKind::Panic(n, _) => self.app(&format!("panics:{}", n), vec![], None), _ => return None };
            if fs.is_empty() { cases.push(ret); continue; }
            let desc = fs.iter().map(|(t, v, eq)| format!("{}{}", if *eq { "==" } else { "!=" }, self.v_json(*t, v))).collect::<Vec<_>>().join(",");
            let mut a = vec![ret]; a.extend(fs.iter().map(|x| x.0));
            cases.push(self.app(&format!("case:{}", desc), a, None));
        }
        cases.sort();
        Some(self.app("lambda", cases, Some(ty)))
    }
    fn holds_mut_closure(&self, a: GenericArgsRef<'tcx>) -> bool { a.as_closure().upvar_tys().iter().any(|t| self.holds_mut(t, 0)) }
    fn tmp_ref(&mut self, st: &mut State<'tcx>, v: Tm, ty: Option<Ty<'tcx>>) -> Tm {
        let id = self.next_uid; self.next_uid += 1;
        Rc::make_mut(&mut st.mem).insert(Root::Tmp(id), v);
        self.mk(Term::Ref(Rc::new(Loc { root: Root::Tmp(id), proj: vec![] })), ty)
    }
    fn cur_infn(&self, st: &State<'tcx>) -> Rc<str> {
        // nearest enclosing local function
        for f in st.frames.iter().rev() { if f.def.is_local() { return f.body.name.clone(); } }
        Rc::from("")
    }
    fn cur_span(&self, st: &State<'tcx>, sp: Span) -> String {
        let top = st.frames.last().unwrap();
        if top.def.is_local() { return span_str(self.tcx, sp); }
        for f in st.frames.iter().rev() { if f.def.is_local() { return span_str(self.tcx, f.body.body.basic_blocks[f.bb].terminator().source_info.span); } }
        span_str(self.tcx, sp)
    }

    fn call(&mut self, st: &mut State<'tcx>, f: Tm, fty: Ty<'tcx>, av: Vec<(Tm, Ty<'tcx>)>, dest: Loc, dty: Ty<'tcx>, target: Option<BasicBlock>, sp: Span,
            disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        let tcx = self.tcx;
        let (def, args) = match fty.kind() {
            ty::FnDef(d, a) => (*d, a.skip_binder()),
            _ => return self.callable(st, f, fty, av, dest, dty, target, sp, disc, backs),
        };
        let args = self.norm_args(args);
        if tcx.is_constructor(def) {
            let v = self.construct(def, av.iter().map(|x| x.0).collect(), dty);
            return self.finish(st, v, dest, target, disc, backs);
        }
        if tcx.is_closure_like(def) { return self.callable(st, f, fty, av, dest, dty, target, sp, disc, backs); }
        let (name, is_trait) = fn_path(tcx, def);
        let selfty: Option<Ty<'tcx>> = if is_trait { args.types().next() } else { None };

        if let Some(v) = self.builtin(st, &name, def, args, &av, dty) { return self.finish(st, v, dest, target, disc, backs); }

        // callable traits
        if matches!(&*name, "core::ops::function::FnOnce::call_once" | "core::ops::function::FnMut::call_mut" | "core::ops::function::Fn::call") && av.len() == 2 {
            let (mut c, mut cty) = av[0];
            let tup = av[1];
            let mut rest = vec![];
            if let ty::Tuple(l) = tup.1.kind() { for (i, t) in l.iter().enumerate() { let v = self.project(tup.0, Pj::F(None, i as u32), Some(t)); rest.push((v, t)); } }
            // F is args[0]; call/call_mut take &F
            let fself = args.type_at(0);
            if !name.ends_with("call_once") { if let ty::Ref(..) = cty.kind() { c = self.read_ptr(st, c); cty = fself; } }
            return self.callable(st, c, cty, rest, dest, dty, target, sp, disc, backs);
        }

        let inst = if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) { Instance::try_resolve(tcx, self.env, def, args).ok().flatten() } else { None };
        let local_inst;
        if let Some(inst) = inst {
            if let InstanceKind::Intrinsic(d) = inst.def { let n = tcx.item_name(d).to_string(); return self.intrinsic(st, &n, args, av, dest, dty, target, sp, disc, backs); }
            let rd = inst.def_id();
            local_inst = rd.is_local();
            let rname = if rd.is_local() { short_name(tcx, rd) } else { adt_path(tcx, rd) };
            let is_item = matches!(inst.def, InstanceKind::Item(_)) || format!("{:?}", inst.def).starts_with("Shim(Clone");
            let mut inline = false; let mut kind = "opaque";
            if local_inst && is_item {
                inline = !self.cfg.opaque.iter().any(|g| glob(g, &rname));
                if inline && st.frames.iter().any(|fr| fr.def == rd) { inline = false; kind = "rec"; }
                if st.frames.len() > 60 { inline = false; kind = "deep"; }
            } else if is_item && !rd.is_local() && in_set(INLINE, &rname) && st.frames.len() < 48 { inline = true; }
            if inline {
                if let Some(b) = self.body(inst) {
                    if b.body.arg_count == av.len() {
                        self.inlined.insert(rname.clone());
                        return self.enter(st, inst, b, av, Some(dest), target, After::Assign, disc, backs);
                    }
                }
            }
            if !local_inst && target.is_some() && (self.is_pure(&name, &rname) || (in_set(PURE_HOF, &name) && self.lambdas_ok(st, &av))) { return self.pure_call(st, &name, selfty, args, av, dest, dty, target, sp, disc, backs); }
            if local_inst { return self.opaque(st, &rname, selfty, args, av, dest, dty, target, sp, kind, disc, backs); }
        } else if target.is_some() && (self.is_pure(&name, &name) || (in_set(PURE_HOF, &name) && self.lambdas_ok(st, &av))) { return self.pure_call(st, &name, selfty, args, av, dest, dty, target, sp, disc, backs); }
        self.opaque(st, &name, selfty, args, av, dest, dty, target, sp, "opaque", disc, backs)
    }
    fn norm_args(&self, a: GenericArgsRef<'tcx>) -> GenericArgsRef<'tcx> {
        match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(a)) { Ok(t) => t, Err(_) => self.tcx.erase_and_anonymize_regions(a) }
    }
    fn lambdas_ok(&mut self, st: &State<'tcx>, av: &[(Tm, Ty<'tcx>)]) -> bool {
        av.iter().all(|(v, t)| match t.kind() { ty::Closure(..) => self.lambda(st, *v, *t).is_some(), ty::FnDef(..) => true, _ => true }) && av.iter().skip(1).all(|(_, t)| matches!(t.kind(), ty::Closure(..) | ty::FnDef(..)))
    }
    fn is_pure(&self, name: &str, rname: &str) -> bool { (in_set(PURE, name) || in_set(PURE, rname)) && !in_set(IMPURE, name) }
    fn construct(&mut self, def: DefId, fs: Vec<Tm>, dty: Ty<'tcx>) -> Tm {
        let adt = match dty.kind() { ty::Adt(d, _) => *d, _ => return self.app("ctor", fs, Some(dty)) };
        let vi = if adt.is_enum() { adt.variant_index_with_ctor_id(def) } else { VariantIdx::from_u32(0) };
        self.mk(Term::Agg(AggK::Adt(adt.did(), vi, dty), Rc::from(fs)), Some(dty))
    }
    fn finish(&mut self, st: &mut State<'tcx>, v: Tm, dest: Loc, target: Option<BasicBlock>, disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        self.write(st, &dest, v, None);
        match target { Some(b) => self.goto(st, b, disc, backs), None => Next::End(EndKind::Diverge("no return".into())) }
    }
    fn enter(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, b: Rc<BodyInfo<'tcx>>, av: Vec<(Tm, Ty<'tcx>)>, dest: Option<Loc>, target: Option<BasicBlock>, after: After<'tcx>,
             disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        let merge = matches!(after, After::Assign) && inst.def_id().is_local() && !self.tcx.is_closure_like(inst.def_id());
        let fr = self.new_frame(inst, b.clone(), dest, target, after);
        let uid = fr.uid;
        self.push(st, Item::Enter(b.name.clone()));
        st.frames.push(fr);
        let m = Rc::make_mut(&mut st.mem);
        for (i, (v, _)) in av.iter().enumerate() { m.insert(Root::Local(uid, i as u32 + 1), *v); }
        if !merge { return Next::Cont; }
        // explore the callee to completion and join the states it returns with
        let base = st.trace.clone();
        self.stops.push(uid);
        let mut ends = vec![]; let mut rets = vec![];
        self.explore(st.clone(), disc, &mut ends, backs, &mut rets);
        self.stops.pop();
        if disc.is_none() { self.pending.extend(ends); }
        let rets = self.join_returns(rets, &base);
        let mut outs = vec![];
        for mut s in rets {
            match target {
                Some(b) => match self.goto(&mut s, b, disc, backs) { Next::Cont => outs.push(s), Next::Fork(v) => outs.extend(v), Next::End(k) => if disc.is_none() { self.pending_end(s, k) }, Next::Ret => {} },
                None => if disc.is_none() { self.pending_end(s, EndKind::Diverge("returned from never".into())) },
            }
        }
        Next::Fork(outs)
    }
    /// Join returned states that agree on memory (hence on the returned value) when there are many of them and nothing observable happened in the callee.
    fn join_returns(&mut self, rets: Vec<State<'tcx>>, base: &Option<Rc<Node>>) -> Vec<State<'tcx>> {
        if rets.len() <= JOIN_LIMIT { return rets; }
        let mut groups: Vec<(Vec<(Root, Tm)>, BTreeSet<Tm>, Vec<State<'tcx>>)> = vec![];
        let mut out = vec![];
        'next: for s in rets {
            let mut cur = s.trace.as_ref(); let mut quiet = true;
            while let Some(n) = cur {
                if let Some(b) = base { if Rc::ptr_eq(n, b) { break; } }
                match &n.item { Item::Call(c) => if c.kind != "pure" { quiet = false; break; }, Item::Drop(..) | Item::Loop(..) | Item::Store(..) => { quiet = false; break; } _ => {} }
                cur = n.prev.as_ref();
            }
            if !quiet { out.push(s); continue; }
            let mut m: Vec<(Root, Tm)> = s.mem.iter().map(|(a, b)| (*a, *b)).filter(|(r, _)| !matches!(r, Root::Tmp(_)) ).collect(); m.sort();
            let pos: BTreeSet<Tm> = s.facts.iter().filter(|(_, d)| d.is_in.as_ref().map_or(false, |x| x.iter().any(|v| matches!(v, V::Lit(_))))).map(|(t, _)| *t).collect();
            for g in groups.iter_mut() { if g.0 == m && g.1 == pos { g.2.push(s); continue 'next; } }
            groups.push((m, pos, vec![s]));
        }
        for (_, _, g) in groups {
            if g.len() <= JOIN_GROUP { out.extend(g); continue; }
            let mut branches = vec![];
            for s in g.iter() {
                let mut v = vec![]; let mut cur = s.trace.as_ref();
                while let Some(n) = cur {
                    if let Some(b) = base { if Rc::ptr_eq(n, b) { break; } }
                    match &n.item { Item::Fact(t, x, eq) => v.push(MItem::Fact(*t, x.clone(), *eq)), Item::Merged(m) => v.push(MItem::Sub(m.clone())), _ => {} }
                    cur = n.prev.as_ref();
                }
                v.reverse(); branches.push(v);
            }
            let mut it = g.into_iter();
            let mut acc = it.next().unwrap();
            let mut facts = (*acc.facts).clone();
            for s in it { facts = join_facts(&facts, &s.facts); for (r, t) in s.mem.iter() { if !acc.mem.contains_key(r) { Rc::make_mut(&mut acc.mem).insert(*r, *t); } } }
            acc.facts = Rc::new(facts);
            acc.trace = base.clone();
            self.push(&mut acc, Item::Merged(Rc::new(branches)));
            let u = self.unit(); self.push(&mut acc, Item::Leave(u));
            out.push(acc);
        }
        out
    }
    /// Call a value of callable type (closure, function item, function pointer, unknown callable).
    fn callable(&mut self, st: &mut State<'tcx>, c: Tm, cty: Ty<'tcx>, rest: Vec<(Tm, Ty<'tcx>)>, dest: Loc, dty: Ty<'tcx>, target: Option<BasicBlock>, sp: Span,
                disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        let mut c = c; let mut cty = cty; let mut ptr = None;
        loop {
            match cty.kind() {
                ty::Ref(_, t, _) => { ptr = Some(c); c = self.read_ptr(st, c); cty = *t; }
                ty::Adt(d, a) if d.is_box() => { ptr = Some(c); c = self.read_ptr(st, c); cty = a.type_at(0); }
                _ => break,
            }
        }
        // a function pointer holding a known function
        if let ty::FnPtr(..) = cty.kind() {
            match self.t(c) { Term::Zst(t) => cty = t, Term::Agg(AggK::Closure(..), _) => { if let Some(t) = self.ty(c) { cty = t; } } _ => {} }
        }
        match cty.kind() {
            ty::Closure(d, a) => {
                let inst = Instance::new_raw(*d, a);
                if st.frames.iter().filter(|f| f.def == *d).count() < 1 {
                    if let Some(b) = self.body(inst) {
                        let envty = b.body.local_decls[Local::from_u32(1)].ty;
                        let env = if envty.is_ref() { match ptr { Some(p) => p, None => self.tmp_ref(st, c, Some(envty)) } } else { c };
                        let mut v = vec![(env, envty)]; v.extend(rest);
                        return self.enter(st, inst, b, v, Some(dest), target, After::Assign, disc, backs);
                    }
                }
                let n = format!("closure@{}", span_str(self.tcx, self.tcx.def_span(*d)));
                let e = self.tcx.mk_args(&[]);
                self.opaque(st, &n, None, e, rest, dest, dty, target, sp, "opaque", disc, backs)
            }
            ty::FnDef(..) => self.call(st, c, cty, rest, dest, dty, target, sp, disc, backs),
            _ => {
                let n = format!("callable:{}", tyname(self.tcx, cty));
                let e = self.tcx.mk_args(&[]);
                let mut v = vec![(c, cty)]; v.extend(rest);
                self.opaque(st, &n, None, e, v, dest, dty, target, sp, "opaque", disc, backs)
            }
        }
    }

    fn pure_call(&mut self, st: &mut State<'tcx>, name: &str, selfty: Option<Ty<'tcx>>, args: GenericArgsRef<'tcx>, av: Vec<(Tm, Ty<'tcx>)>, dest: Loc, dty: Ty<'tcx>, target: Option<BasicBlock>, sp: Span,
                 disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        let mut a = vec![];
        for (v, t) in &av { a.push(self.pure_arg(st, *v, *t)); }
        let targs: Vec<String> = args.types().map(|t| tyname(self.tcx, t)).collect();
        let n = if targs.is_empty() { name.to_string() } else { format!("{}<{}>", name, targs.join(",")) };
        if disc.is_none() && a.len() == 2 && (matches!(name, "core::ops::index::Index::index" | "str::split_at" | "slice::split_at")) {
            // indexing panics when the position or range does not fit
            let mut rt = av[0].1; while let ty::Ref(_, t, _) = rt.kind() { rt = *t; }
            let kind = tyname(self.tcx, rt);
            let kind = if kind == "str" || kind.ends_with("String") { "str" } else if rt.is_slice() || rt.is_array() || kind.starts_with("Vec<") || kind.contains("::Vec<") { "slice" } else { "" };
            if !kind.is_empty() {
                let bt = self.tcx.types.bool;
                let c = self.app(&format!("index_fail_{}", kind), a.clone(), Some(bt));
                let mut bad = st.clone();
                if self.assume(&mut bad, c, V::Int(1), true) {
                    self.push(&mut bad, Item::Fact(c, V::Int(1), true));
                    self.pending_end(bad, EndKind::Panic(format!("slice index out of range: {}", kind), a.clone()));
                }
            }
        }
        let v = self.app(&n, a.clone(), Some(dty));
        // &mut arguments of "pure" functions lose their content
        for (x, t) in &av { if let ty::Ref(_, it, m) = t.kind() { if m.is_mut() { let l = self.loc_of_ptr(*x); let old = self.read(st, &l); let f = self.fresh(SymOrigin::Havoc(0, old), Some(*it)); self.write(st, &l, f, None); } } }
        let infn = self.cur_infn(st); let span = self.cur_span(st, sp);
        self.push(st, Item::Call(CallItem { uid: 0, name: Rc::from(name), selfty: selfty.map(|t| tyname(self.tcx, t)).unwrap_or_default(), targs, args: a, ret: v, span, infn, kind: "pure" }));
        // closures handed to iterator adapters etc. may run
        self.finish(st, v, dest, target, disc, backs)
    }

    fn opaque(&mut self, st: &mut State<'tcx>, name: &str, selfty: Option<Ty<'tcx>>, args: GenericArgsRef<'tcx>, av: Vec<(Tm, Ty<'tcx>)>, dest: Loc, dty: Ty<'tcx>, target: Option<BasicBlock>, sp: Span,
              kind: &'static str, disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        self.opaque_seen.insert(name.to_string());
        let skip = if selfty.is_some() { 1 } else { 0 };
        let targs: Vec<String> = args.types().skip(skip).map(|t| tyname(self.tcx, t)).collect();
        let infn = self.cur_infn(st); let span = self.cur_span(st, sp);
        if target.is_none() {
            let mut a = vec![];
            for (v, t) in &av { a.push(self.pure_arg(st, *v, *t)); }
            return Next::End(EndKind::Panic(name.to_string(), a));
        }
        let o = Rc::new(Opaque { name: Rc::from(name), selfty: selfty.map(|t| tyname(self.tcx, t)).unwrap_or_default(), targs, args: av.clone(), span, infn, dest_ty: dty, kind });
        // closures passed directly: explore both "not called" and "called once"
        let mut forks = vec![];
        for (v, t) in &av {
            let (mut cv, mut ct) = (*v, *t); let mut ptr = None;
            while let ty::Ref(_, it, _) = ct.kind() { ptr = Some(cv); cv = self.read_ptr(st, cv); ct = *it; }
            if let ty::Closure(d, a) = ct.kind() {
                let inst = Instance::new_raw(*d, a);
                if st.frames.iter().any(|f| f.def == *d) { continue; }
                if let Some(b) = self.body(inst) {
                    let mut s = st.clone();
                    let envty = b.body.local_decls[Local::from_u32(1)].ty;
                    let env = if envty.is_ref() { match ptr { Some(p) => p, None => self.tmp_ref(&mut s, cv, Some(envty)) } } else { cv };
                    let mut vv = vec![(env, envty)];
                    for l in b.body.args_iter().skip(1) { let lt = b.body.local_decls[l].ty; let x = self.fresh(SymOrigin::Other(format!("closure-arg {}", name)), Some(lt)); vv.push((x, lt)); }
                    self.enter(&mut s, inst, b, vv, Some(dest.clone()), target, After::Opaque(o.clone()), disc, backs);
                    forks.push(s);
                }
            }
        }
        if forks.is_empty() { return self.finish_opaque(st, &o, dest, target, disc, backs); }
        let mut s = st.clone();
        match self.finish_opaque(&mut s, &o, dest, target, disc, backs) { Next::Cont => forks.push(s), Next::Fork(v) => forks.extend(v), Next::End(k) => if disc.is_none() { self.pending_end(s, k) }, Next::Ret => {} }
        Next::Fork(forks)
    }
    fn finish_opaque(&mut self, st: &mut State<'tcx>, o: &Opaque<'tcx>, dest: Loc, target: Option<BasicBlock>, disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        let uid = self.next_uid; self.next_uid += 1;
        let mut a = vec![];
        for (v, t) in &o.args { a.push(if self.stringish(*t) && t.is_ref() && !t.is_mutable_ptr() { match self.content(st, *v, *t) { Some(c) => self.view(c, Some(*t)), None => self.snapshot(st, *v, 0) } } else { self.snapshot(st, *v, 0) }); }
        let ret = self.fresh(SymOrigin::Ret(uid), Some(o.dest_ty));
        for (v, t) in &o.args { self.havoc(st, *v, *t, uid, 0); }
        self.push(st, Item::Call(CallItem { uid, name: o.name.clone(), selfty: o.selfty.clone(), targs: o.targs.clone(), args: a, ret, span: o.span.clone(), infn: o.infn.clone(), kind: o.kind }));
        self.finish(st, ret, dest, target, disc, backs)
    }
    /// Forget what an unknown callee may have changed through `v`.
    fn havoc(&mut self, st: &mut State<'tcx>, v: Tm, ty: Ty<'tcx>, uid: u32, depth: u32) {
        if depth > 4 { return; }
        match ty.kind() {
            ty::Ref(_, t, m) if m.is_mut() => self.havoc_ptr(st, v, *t, uid, depth),
            ty::RawPtr(t, m) if m.is_mut() => self.havoc_ptr(st, v, *t, uid, depth),
            ty::Adt(d, a) if d.is_box() => self.havoc(st, v, a.type_at(0), uid, depth + 1),
            ty::Adt(d, _) if d.is_enum() => {
                if let Term::Agg(AggK::Adt(_, vi, _), fs) = self.t(v) { for i in 0..fs.len() { if let Some(t) = self.field_ty(Some(ty), Some(vi), i as u32) { self.havoc(st, fs[i], t, uid, depth + 1); } } }
            }
            ty::Adt(d, _) if d.is_struct() => {
                if !self.holds_mut(ty, 0) { return; }
                if let Term::Agg(_, fs) = self.t(v) { for i in 0..fs.len() { if let Some(t) = self.field_ty(Some(ty), None, i as u32) { self.havoc(st, fs[i], t, uid, depth + 1); } } }
                else if d.did().is_local() { let n = d.non_enum_variant().fields.len(); for i in 0..n { if let Some(t) = self.field_ty(Some(ty), None, i as u32) { let x = self.project(v, Pj::F(None, i as u32), Some(t)); self.havoc(st, x, t, uid, depth + 1); } } }
            }
            ty::Tuple(l) => { for (i, t) in l.iter().enumerate() { let x = self.project(v, Pj::F(None, i as u32), Some(t)); self.havoc(st, x, t, uid, depth + 1); } }
            ty::Closure(..) => { if let Term::Agg(_, fs) = self.t(v) { for (i, f) in fs.iter().enumerate() { if let Some(t) = self.field_ty(Some(ty), None, i as u32) { self.havoc(st, *f, t, uid, depth + 1); } } } }
            _ => {}
        }
    }
    fn holds_mut(&self, ty: Ty<'tcx>, depth: u32) -> bool {
        if depth > 4 { return false; }
        match ty.kind() {
            ty::Ref(_, _, m) => m.is_mut(),
            ty::RawPtr(_, m) => m.is_mut(),
            ty::Adt(d, a) => if d.did().is_local() && !d.is_union() { d.all_fields().any(|f| { let t = self.norm(f.ty(self.tcx, a).skip_normalization()); self.holds_mut(t, depth + 1) }) } else { a.types().any(|t| self.holds_mut(t, depth + 1)) },
            ty::Tuple(l) => l.iter().any(|t| self.holds_mut(t, depth + 1)),
            _ => false,
        }
    }
    fn havoc_ptr(&mut self, st: &mut State<'tcx>, p: Tm, t: Ty<'tcx>, uid: u32, depth: u32) {
        let l = self.loc_of_ptr(p);
        let old = self.read(st, &l);
        if self.tys[old as usize].is_none() { self.tys[old as usize] = Some(t); }
        // behind a trait object the place keeps the type it was created with
        let t = if let ty::Dynamic(..) = t.kind() { match self.tys[old as usize] { Some(o) => o, None => t } } else { t };
        let nv = self.havoc_val(st, old, t, uid, depth);
        self.write(st, &l, nv, None);
    }
    /// New value of a place of type `t` that unknown code may have written.
    fn havoc_val(&mut self, st: &mut State<'tcx>, old: Tm, t: Ty<'tcx>, uid: u32, depth: u32) -> Tm {
        match t.kind() {
            // a local struct with private fields: unknown code can only change it through its own API, which never retargets its shared references
            ty::Adt(d, _) if d.did().is_local() && d.is_struct() && depth < 4 && self.has_ref_field(t) => {
                if let Some(e) = self.expand(old, Some(t), None) { if let Term::Agg(k, fs) = self.t(e) {
                    let mut out = vec![];
                    for i in 0..fs.len() {
                        let ft = self.field_ty(Some(t), None, i as u32);
                        out.push(match ft {
                            Some(ft) => match ft.kind() {
                                ty::Ref(_, _, m) if !m.is_mut() => fs[i],
                                ty::Ref(_, it, _) => { self.havoc_ptr(st, fs[i], *it, uid, depth + 1); fs[i] }
                                ty::Adt(fd, _) if fd.did().is_local() && fd.is_struct() && self.has_ref_field(ft) => self.havoc_val(st, fs[i], ft, uid, depth + 1),
                                _ => self.fresh(SymOrigin::Havoc(uid, fs[i]), Some(ft)),
                            },
                            None => fs[i],
                        });
                    }
                    return self.mk(Term::Agg(k, Rc::from(out)), Some(t));
                } }
                self.fresh(SymOrigin::Havoc(uid, old), Some(t))
            }
            ty::Ref(_, it, m) => { if m.is_mut() { self.havoc_ptr(st, old, *it, uid, depth + 1); } old }
            _ => self.fresh(SymOrigin::Havoc(uid, old), Some(t)),
        }
    }
    fn has_ref_field(&self, ty: Ty<'tcx>) -> bool {
        if let ty::Adt(d, a) = ty.kind() { d.all_fields().any(|f| { let t = self.norm(f.ty(self.tcx, a).skip_normalization()); t.is_ref() || matches!(t.kind(), ty::Adt(x, _) if x.did().is_local() && x.is_struct() && self.has_ref_field(t)) }) } else { false }
    }

    // ---------- builtins ----------
    fn builtin(&mut self, st: &mut State<'tcx>, name: &str, _def: DefId, args: GenericArgsRef<'tcx>, av: &[(Tm, Ty<'tcx>)], dty: Ty<'tcx>) -> Option<Tm> {
        let a0 = av.first().copied();
        match name {
            "core::cmp::PartialEq::eq" | "core::cmp::PartialEq::ne" => {
                let (x, tx) = self.peel(st, av[0].0, av[0].1); let (y, ty_) = self.peel(st, av[1].0, av[1].1);
                let r = if self.stringish(tx) && self.stringish(ty_) {
                    let (a, b) = (self.content(st, x, tx)?, self.content(st, y, ty_)?);
                    self.eq_term(a, b)
                } else if self.is_prim(tx) && tx == ty_ { self.binop(BinOp::Eq, x, y, dty) }
                else { return None; };
                if name.ends_with("ne") { return Some(self.not(r)); }
                return Some(r);
            }
            "core::option::Option::as_deref" | "core::option::Option::as_deref_mut" => return None,
            "core::ops::deref::Deref::deref" | "core::convert::AsRef::as_ref" | "core::borrow::Borrow::borrow" => {
                let st0 = args.type_at(0);
                if self.stringish(st0) || matches!(st0.kind(), ty::Ref(_, t, _) if self.stringish(*t)) {
                    let (v, t) = a0?;
                    if !pointee(dty).map_or(false, |t| self.stringish(t)) { return None; }
                    let c = self.content(st, v, t)?; return Some(self.view(c, Some(dty)));
                }
                if let ty::Adt(d, _) = st0.kind() { if self.tcx.item_name(d.did()).as_str() == "Vec" && !d.did().is_local() { let c = self.read_ptr(st, a0?.0); return Some(self.view(c, Some(dty))); } if d.is_box() { let b = self.read_ptr(st, a0?.0); return Some(b); } }
                if name == "core::borrow::Borrow::borrow" || name == "core::convert::AsRef::as_ref" { return None; }
                return None;
            }
            "core::ops::deref::DerefMut::deref_mut" | "core::convert::AsMut::as_mut" => {
                let st0 = args.type_at(0);
                if self.stringish(st0) { return Some(a0?.0); }
                if let ty::Adt(d, _) = st0.kind() { if self.tcx.item_name(d.did()).as_str() == "Vec" { return Some(a0?.0); } if d.is_box() { return Some(self.read_ptr(st, a0?.0)); } }
                return None;
            }
            "alloc::string::String::as_str" | "alloc::string::String::as_bytes" | "str::as_bytes" | "alloc::vec::Vec::as_slice" | "slice::as_ref" | "alloc::string::String::as_ref" | "array::as_slice" => {
                let (v, t) = a0?;
                if self.stringish(t) { let c = self.content(st, v, t)?; return Some(self.view(c, Some(dty))); }
                let c = self.read_ptr(st, v); return Some(self.view(c, Some(dty)));
            }
            "alloc::vec::Vec::as_mut_slice" | "alloc::string::String::as_mut_str" => return Some(a0?.0),
            "alloc::borrow::ToOwned::to_owned" | "alloc::string::ToString::to_string" | "alloc::str::{impl#0}::to_string" | "slice::to_vec" | "str::to_owned" | "str::to_string" => {
                let (v, t) = a0?; if self.stringish(t) && self.stringish(dty) { return self.content(st, v, t); } return None;
            }
            "core::clone::Clone::clone" => {
                let (v, _) = a0?; let t = args.type_at(0);
                if self.is_prim(t) || matches!(t.kind(), ty::Ref(_, _, m) if !m.is_mut()) || matches!(t.kind(), ty::FnDef(..) | ty::FnPtr(..) | ty::RawPtr(..)) { return Some(self.read_ptr(st, v)); }
                if self.stringish(t) { let c = self.read_ptr(st, v); if let ty::Adt(d, a) = t.kind() { if d.is_box() { let c = self.content(st, c, a.type_at(0))?; return Some(self.tmp_ref(st, c, Some(dty))); } } return Some(c); }
                if let ty::Adt(d, _) = t.kind() { if !d.did().is_local() && matches!(self.tcx.item_name(d.did()).as_str(), "Arc" | "Rc") { return Some(self.read_ptr(st, v)); } }
                if self.tcx.type_is_copy_modulo_regions(self.env, t) { return Some(self.read_ptr(st, v)); }
                return None;
            }
            "core::convert::From::from" | "core::convert::Into::into" => {
                let (v, t) = a0?;
                if self.stringish(t) && self.stringish(dty) && !dty.is_ref() { let c = self.content(st, v, t)?; if dty.is_box() { return Some(self.tmp_ref(st, c, Some(dty))); } return Some(c); }
                if t == dty { return Some(v); }
                return None;
            }
            "alloc::string::String::into_bytes" | "alloc::slice::into_vec" | "slice::into_vec" | "str::into_string" | "str::into_boxed_bytes" => { let (v, t) = a0?; if self.stringish(t) { return self.content(st, v, t); } return None; }
            "alloc::vec::Vec::into_boxed_slice" | "alloc::string::String::into_boxed_str" => { let (v, t) = a0?; if self.stringish(t) { let c = self.content(st, v, t)?; return Some(self.tmp_ref(st, c, Some(dty))); } return Some(self.tmp_ref(st, v, Some(dty))); }
            "str::len" | "slice::len" | "alloc::string::String::len" | "alloc::vec::Vec::len" => { let (v, _) = a0?; let c = self.read_ptr(st, v); let c = self.content(st, v, av[0].1).unwrap_or(c); return Some(self.len(c)); }
            "str::is_empty" | "slice::is_empty" | "alloc::string::String::is_empty" | "alloc::vec::Vec::is_empty" => {
                let (v, _) = a0?; let c = self.read_ptr(st, v); let c = self.content(st, v, av[0].1).unwrap_or(c);
                let l = self.len(c); let ut = self.tcx.types.usize; let z = self.int(0, ut); let bt = self.tcx.types.bool; return Some(self.binop(BinOp::Eq, l, z, bt));
            }
            "core::str::converts::from_utf8" | "core::str::from_utf8" | "str::from_utf8" => {
                let (v, t) = a0?; let c = self.content(st, v, t)?;
                let r = self.app("from_utf8", vec![c], Some(dty));
                self.log_pure(st, name, vec![c], r);
                return Some(r);
            }
            "core::str::converts::from_utf8_unchecked" | "str::from_utf8_unchecked" => { let (v, t) = a0?; let c = self.content(st, v, t)?; let r = self.view(c, Some(dty)); self.log_pure(st, name, vec![c], r); return Some(r); }
            "core::mem::replace" | "core::ptr::replace" | "ptr::replace" => { let (v, _) = a0?; let l = self.loc_of_ptr(v); let old = self.read(st, &l); if self.tys[old as usize].is_none() { self.tys[old as usize] = Some(dty); } self.note_store(st, &l, av[1].0); self.write(st, &l, av[1].0, None); return Some(old); }
            "core::mem::swap" | "core::ptr::swap" => { let (l, r) = (self.loc_of_ptr(av[0].0), self.loc_of_ptr(av[1].0)); let (a, b) = (self.read(st, &l), self.read(st, &r)); self.note_store(st, &l, b); self.note_store(st, &r, a); self.write(st, &l, b, None); self.write(st, &r, a, None); return Some(self.unit()); }
            "core::ptr::read" | "ptr::read" | "core::ptr::read_unaligned" => return Some(self.read_ptr(st, a0?.0)),
            "core::ptr::write" | "ptr::write" => { let l = self.loc_of_ptr(a0?.0); self.note_store(st, &l, av[1].0); self.write(st, &l, av[1].0, None); return Some(self.unit()); }
            "alloc::boxed::Box::new" => { let (v, _) = a0?; return Some(self.tmp_ref(st, v, Some(dty))); }
            "alloc::boxed::Box::into_raw" | "alloc::boxed::Box::leak" | "alloc::boxed::Box::from_raw" | "ptr::cast" | "ptr::cast_mut" | "ptr::cast_const" | "core::ptr::non_null::NonNull::as_ptr" | "core::ptr::non_null::NonNull::cast" | "core::ptr::non_null::NonNull::new_unchecked"
                | "core::ptr::unique::Unique::as_ptr" | "core::ptr::non_null::NonNull::as_ref" | "core::ptr::non_null::NonNull::as_mut" => {
                let (v, t) = a0?;
                if name.ends_with("as_ref") || name.ends_with("as_mut") { if t.is_ref() { return Some(self.read_ptr(st, v)); } }
                return Some(v);
            }
            "i8::max_value" | "i16::max_value" | "i32::max_value" | "i64::max_value" | "i128::max_value" | "isize::max_value" => { let b = match dty.kind() { ty::Int(i) => i.bit_width().unwrap_or(64), _ => return None }; return Some(self.int((1u128 << (b - 1)) - 1, dty)); }
            "i8::min_value" | "i16::min_value" | "i32::min_value" | "i64::min_value" | "i128::min_value" | "isize::min_value" => { let b = match dty.kind() { ty::Int(i) => i.bit_width().unwrap_or(64), _ => return None }; return Some(self.int(1u128 << (b - 1), dty)); }
            "u8::max_value" | "u16::max_value" | "u32::max_value" | "u64::max_value" | "u128::max_value" | "usize::max_value" => { return Some(self.trunc(u128::MAX, dty)); }
            "core::mem::needs_drop" => return Some(self.boolean(true)),
            "core::mem::forget" => return Some(self.unit()),
            "core::iter::traits::collect::IntoIterator::into_iter" => {
                // identity for iterators
                let (v, t) = a0?; if t == dty { return Some(v); } return None;
            }
            "core::hint::must_use" | "core::convert::identity" | "core::hint::black_box" => return Some(a0?.0),
            _ => {}
        }
        None
    }
    fn log_pure(&mut self, st: &mut State<'tcx>, name: &str, args: Vec<Tm>, ret: Tm) {
        let infn = self.cur_infn(st);
        let span = { let f = st.frames.last().unwrap(); let s = f.body.body.basic_blocks[f.bb].terminator().source_info.span; self.cur_span(st, s) };
        self.push(st, Item::Call(CallItem { uid: 0, name: Rc::from(name), selfty: String::new(), targs: vec![], args, ret, span, infn, kind: "pure" }));
    }
    fn eq_term(&mut self, a: Tm, b: Tm) -> Tm {
        if let (Term::Lit(x), Term::Lit(y)) = (self.t(a), self.t(b)) { return self.boolean(x == y); }
        if a == b { return self.boolean(true); }
        let (a, b) = if matches!(self.t(a), Term::Lit(_)) { (b, a) } else { (a, b) };
        let bt = self.tcx.types.bool; self.app("EQ", vec![a, b], Some(bt))
    }
    fn not(&mut self, a: Tm) -> Tm {
        if let Term::Int(x, _) = self.t(a) { return self.boolean(x == 0); }
        if let Term::Un(0, b) = self.t(a) { return b; }
        let bt = self.tcx.types.bool; self.mk(Term::Un(0, a), Some(bt))
    }
    fn intrinsic(&mut self, st: &mut State<'tcx>, n: &str, args: GenericArgsRef<'tcx>, av: Vec<(Tm, Ty<'tcx>)>, dest: Loc, dty: Ty<'tcx>, target: Option<BasicBlock>, sp: Span,
                 disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        let v = match n {
            "discriminant_value" => { let x = self.read_ptr(st, av[0].0); if self.tys[x as usize].is_none() { let t = args.type_at(0); self.tys[x as usize] = Some(t); } let d = self.discr(x); if self.tys[d as usize].is_none() { self.tys[d as usize] = Some(dty); } if let Term::Int(k, _) = self.t(d) { if dty.is_integral() { self.trunc(k, dty) } else { d } } else { d } }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => self.read_ptr(st, av[0].0),
            "write_via_move" | "volatile_store" => { let l = self.loc_of_ptr(av[0].0); self.note_store(st, &l, av[1].0); self.write(st, &l, av[1].0, None); self.unit() }
            "typed_swap_nonoverlapping" => { let (l, r) = (self.loc_of_ptr(av[0].0), self.loc_of_ptr(av[1].0)); let (a, b) = (self.read(st, &l), self.read(st, &r)); self.note_store(st, &l, b); self.note_store(st, &r, a); self.write(st, &l, b, None); self.write(st, &r, a, None); self.unit() }
            "likely" | "unlikely" | "black_box" => av[0].0,
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "forget" | "const_eval_select_never" => self.unit(),
            "ub_checks" | "contract_checks" => self.boolean(false),
            "transmute" | "transmute_unchecked" => {
                let from = av[0].1; let pl = |t: Ty<'tcx>| t.is_any_ptr() || self.is_ptr_wrapper(t);
                if from == dty || (pl(from) && pl(dty)) || (self.stringish(from) && self.stringish(dty)) { av[0].0 } else { self.mk(Term::Cast(4, av[0].0, dty), Some(dty)) }
            }
            "assume" => { self.assume(st, av[0].0, V::Int(1), true); self.unit() }
            "unreachable" => return Next::End(EndKind::Diverge("unreachable_unchecked".into())),
            "abort" => return Next::End(EndKind::Panic("abort".into(), vec![])),
            "needs_drop" => self.boolean(true),
            "three_way_compare" => self.binop(BinOp::Cmp, av[0].0, av[1].0, dty),
            "size_of" | "min_align_of" | "align_of" => { let t = args.type_at(0); match self.tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => { let ut = self.tcx.types.usize; let x = if n == "size_of" { l.size.bytes() } else { l.align.abi.bytes() }; self.int(x as u128, ut) } Err(_) => self.app(&format!("{}<{}>", n, tyname(self.tcx, t)), vec![], Some(dty)) } }
            _ => {
                if target.is_none() { return Next::End(EndKind::Panic(n.to_string(), vec![])); }
                let full = format!("core::intrinsics::{}", n);
                return self.pure_call(st, &full, None, args, av, dest, dty, target, sp, disc, backs);
            }
        };
        self.finish(st, v, dest, target, disc, backs)
    }

    // ---------- output ----------
    fn vname(&self, ty: Option<Ty<'tcx>>, v: VariantIdx) -> String {
        if let Some(t) = ty { if let ty::Adt(d, _) = t.kind() { if d.is_enum() && v.as_usize() < d.variants().len() { return d.variant(v).name.to_string(); } } }
        format!("#{}", v.as_u32())
    }
    fn fname(&self, ty: Option<Ty<'tcx>>, var: Option<VariantIdx>, i: u32) -> String {
        if let Some(t) = ty { if let ty::Adt(d, _) = t.kind() { let vi = match var { Some(v) => v, None => VariantIdx::from_u32(0) }; if vi.as_usize() < d.variants().len() { if let Some(f) = d.variant(vi).fields.get(FieldIdx::from_u32(i)) { return f.name.to_string(); } } } }
        format!("{}", i)
    }
    fn v_json(&self, t: Tm, v: &V) -> String {
        match v {
            V::Lit(b) => bytes_lit(b),
            V::Int(x) => {
                if let Term::Discr(inner) = &self.terms[t as usize] {
                    if let Some(ty) = self.ty(*inner) { if let ty::Adt(d, _) = ty.kind() { if d.is_enum() { for vi in d.variants().indices() { if self.variant_discr(*d, vi) == *x { return esc(&d.variant(vi).name.to_string()); } } } } }
                }
                match self.signed(t, *x) { Some(s) => format!("{}", s), None => esc(&format!("{}", x)) }
            }
        }
    }
    fn reach(&self, t: Tm, seen: &mut FxHashSet<Tm>) {
        let mut work = vec![t];
        while let Some(t) = work.pop() {
            if !seen.insert(t) { continue; }
            match &self.terms[t as usize] {
                Term::Field(a, ..) | Term::Deref(a) | Term::CIndex(a, ..) | Term::Sub(a, ..) | Term::Discr(a) | Term::Un(_, a) | Term::Cast(_, a, _) | Term::View(a) => work.push(*a),
                Term::Index(a, b) | Term::Bin(_, a, b) | Term::Snap(a, b) => { work.push(*a); work.push(*b); }
                Term::Agg(_, v) | Term::App(_, v) => work.extend(v.iter().copied()),
                Term::Ref(l) => { if let Root::Heap(p) = l.root { work.push(p); } for p in &l.proj { if let Pj::I(x) = p { work.push(*x); } } }
                Term::Sym(n) => match &self.syms[*n as usize].0 { SymOrigin::Havoc(_, o) | SymOrigin::Loop(_, o) => work.push(*o), _ => {} },
                _ => {}
            }
        }
    }
    fn term_json(&self, t: Tm) -> String {
        match &self.terms[t as usize] {
            Term::Int(x, ty) => { let s = if ty.is_floating_point() { esc(&float_str(*x, ty.to_string() == "f32")) } else { match self.signed(t, *x) { Some(s) => format!("{}", s), None => format!("{}", x) } }; format!("[\"i\",{}]", s) }
            Term::Lit(b) => format!("[\"s\",{}]", bytes_lit(b)),
            Term::Zst(ty) => format!("[\"z\",{}]", esc(&tyname(self.tcx, *ty))),
            Term::Konst(s) => format!("[\"k\",{}]", esc(s)),
            Term::Sym(n) => {
                let o = match &self.syms[*n as usize].0 {
                    SymOrigin::Param(i, n) => format!("\"param\",{},{}", i, esc(n)),
                    SymOrigin::Ret(u) => format!("\"ret\",{}", u),
                    SymOrigin::Havoc(u, t) => format!("\"havoc\",{},{}", u, t),
                    SymOrigin::Loop(s, t) => format!("\"loop\",{},{}", esc(s), t),
                    SymOrigin::Other(s) => format!("\"other\",{}", esc(s)),
                };
                format!("[\"y\",{}]", o)
            }
            Term::Field(a, v, i) => { let ty = self.ty(*a); format!("[\"f\",{},{},{}]", a, match v { Some(v) => esc(&self.vname(ty, *v)), None => "null".into() }, esc(&self.fname(ty, *v, *i))) }
            Term::Deref(a) => format!("[\"d\",{}]", a),
            Term::Index(a, b) => format!("[\"ix\",{},{}]", a, b),
            Term::CIndex(a, o, fe) => format!("[\"ci\",{},{},{}]", a, o, fe),
            Term::Sub(a, x, y, fe) => format!("[\"su\",{},{},{},{}]", a, x, y, fe),
            Term::Discr(a) => {
                let mut vs = String::new();
                if let Some(ty) = self.ty(*a) { if let ty::Adt(d, _) = ty.kind() { if d.is_enum() && d.variants().len() < 64 {
                    for vi in d.variants().indices() { if !vs.is_empty() { vs.push(','); } vs.push_str(&format!("{}:{}", esc(&d.variant(vi).name.to_string()), self.variant_discr(*d, vi) as i128)); }
                } } }
                format!("[\"D\",{},{{{}}}]", a, vs)
            }
            Term::Agg(k, fs) => {
                let (kind, var, names) = match k {
                    AggK::Adt(d, v, ty) => { let adt = self.tcx.adt_def(*d); (adt_path(self.tcx, *d), if adt.is_enum() { self.vname(Some(*ty), *v) } else { String::new() }, (0..fs.len() as u32).map(|i| esc(&self.fname(Some(*ty), Some(*v), i))).collect::<Vec<_>>()) }
                    AggK::Tuple => ("tuple".to_string(), String::new(), vec![]),
                    AggK::Array => ("array".to_string(), String::new(), vec![]),
                    AggK::Closure(d, _) => (format!("closure@{}", span_str(self.tcx, self.tcx.def_span(*d))), String::new(), vec![]),
                };
                format!("[\"A\",{},{},{},{}]", esc(&kind), esc(&var), arr(fs.iter().map(|x| x.to_string())), arr(names))
            }
            Term::Bin(op, a, b) => { let n = match op { 18 => "AddOvf", 19 => "SubOvf", 20 => "MulOvf", o => BINS.get(*o as usize).copied().unwrap_or("?") }; format!("[\"b\",\"{}\",{},{}]", n, a, b) }
            Term::Un(op, a) => format!("[\"u\",\"{}\",{}]", UNS[*op as usize], a),
            Term::Cast(k, a, ty) => format!("[\"c\",\"{}\",{},{}]", CASTS[*k as usize], a, esc(&tyname(self.tcx, *ty))),
            Term::Ref(l) => {
                let r = match l.root { Root::Local(u, n) => format!("\"L\",\"{}_{}\"", u, n), Root::Heap(p) => format!("\"H\",{}", p), Root::Tmp(n) => format!("\"T\",{}", n) };
                let p = arr(l.proj.iter().map(|p| match p { Pj::F(v, i) => format!("[{},{}]", match v { Some(v) => v.as_u32() as i64, None => -1 }, i), Pj::I(x) => format!("[\"i\",{}]", x), Pj::CI(o, fe) => format!("[\"c\",{},{}]", o, fe), Pj::SS(a, b, c) => format!("[\"s\",{},{},{}]", a, b, c) }));
                format!("[\"r\",{},{}]", r, p)
            }
            Term::View(a) => format!("[\"v\",{}]", a),
            Term::App(n, a) => format!("[\"a\",{},{}]", esc(n), arr(a.iter().map(|x| x.to_string()))),
            Term::Snap(a, b) => format!("[\"S\",{},{}]", a, b),
        }
    }
    fn merged_json(&self, m: &Vec<Vec<MItem>>, seen: &mut FxHashSet<Tm>) -> String {
        let v: Vec<String> = m.iter().map(|b| arr(b.iter().map(|i| match i { MItem::Fact(t, v, eq) => { self.reach(*t, seen); format!("[\"fact\",{},{},{}]", t, self.v_json(*t, v), eq) } MItem::Sub(m) => self.merged_json(m, seen) }).collect::<Vec<_>>())).collect();
        format!("[\"merged\",{}]", arr(v))
    }
    fn output(&mut self, name: &str, d: DefId, module: &str, params: &[(Tm, Ty<'tcx>)], ends: Vec<End<'tcx>>) -> String {
        use std::fmt::Write;
        self.count = ends.len();
        let mut seen: FxHashSet<Tm> = Default::default();
        for (p, _) in params { self.reach(*p, &mut seen); }
        let mut nodes: Vec<String> = vec![]; let mut ids: FxHashMap<*const Node, usize> = Default::default();
        let mut paths: Vec<String> = vec![];
        let ends_ref: &Vec<End<'tcx>> = &ends;
        for e in ends_ref {
            // trace nodes
            let mut chain: Vec<&Rc<Node>> = vec![];
            let mut cur = e.st.trace.as_ref(); let mut base: i64 = -1;
            while let Some(n) = cur { if let Some(i) = ids.get(&Rc::as_ptr(n)) { base = *i as i64; break; } chain.push(n); cur = n.prev.as_ref(); }
            for n in chain.into_iter().rev() {
                let it = match &n.item {
                    Item::Call(c) => {
                        for a in &c.args { self.reach(*a, &mut seen); } self.reach(c.ret, &mut seen);
                        format!("[\"call\",{},{},{},{},{},{},{},{},{}]", c.uid, esc(&c.name), esc(&c.selfty), arr(c.targs.iter().map(|x| esc(x))), arr(c.args.iter().map(|x| x.to_string())), c.ret, esc(&c.span), esc(&c.infn), esc(c.kind))
                    }
                    Item::Fact(t, v, eq) => { self.reach(*t, &mut seen); format!("[\"fact\",{},{},{}]", t, self.v_json(*t, v), eq) }
                    Item::Drop(n, t, s) => { self.reach(*t, &mut seen); format!("[\"drop\",{},{},{}]", esc(n), t, esc(s)) }
                    Item::Loop(s) => format!("[\"loop\",{}]", esc(s)),
                    Item::Merged(s) => self.merged_json(s, &mut seen),
                    Item::Enter(n) => format!("[\"enter\",{}]", esc(n)),
                    Item::Store(t, v, s) => { self.reach(*t, &mut seen); self.reach(*v, &mut seen); format!("[\"store\",{},{},{}]", t, v, esc(s)) }
                    Item::Leave(v) => { self.reach(*v, &mut seen); format!("[\"leave\",{}]", v) }
                };
                let id = nodes.len(); ids.insert(Rc::as_ptr(n), id);
                nodes.push(format!("[{},{}]", base, it)); base = id as i64;
            }
            let mut facts = String::from("{"); let mut first = true;
            for (t, dm) in e.st.facts.iter() {
                self.reach(*t, &mut seen);
                if !first { facts.push(','); } first = false;
                let mut parts = vec![];
                if let Some(s) = &dm.is_in { parts.push(format!("\"in\":{}", arr(s.iter().map(|v| self.v_json(*t, v))))); }
                else if !dm.not.is_empty() { parts.push(format!("\"not\":{}", arr(dm.not.iter().map(|v| self.v_json(*t, v))))); }
                if let Some(l) = dm.lo { parts.push(format!("\"lo\":{}", l)); }
                if let Some(h) = dm.hi { parts.push(format!("\"hi\":{}", h)); }
                write!(facts, "\"{}\":{{{}}}", t, parts.join(",")).unwrap();
            }
            facts.push('}');
            let (k, v) = match &e.kind {
                EndKind::Return(t) => { self.reach(*t, &mut seen); ("return", t.to_string()) }
                EndKind::Panic(n, a) => { for x in a { self.reach(*x, &mut seen); } ("panic", format!("[{},{}]", esc(n), arr(a.iter().map(|x| x.to_string())))) }
                EndKind::Back(s, lv) => { for (a, b) in lv { self.reach(*a, &mut seen); self.reach(*b, &mut seen); } ("back", format!("[{},{}]", esc(s), arr(lv.iter().map(|(a, b)| format!("[{},{}]", a, b))))) }
                EndKind::Diverge(s) => ("diverge", esc(s)),
                EndKind::Cut(s) => ("cut", esc(s)),
            };
            for (_, t) in &e.out { self.reach(*t, &mut seen); }
            for (p, t) in &e.heap { self.reach(*p, &mut seen); self.reach(*t, &mut seen); }
            paths.push(format!("{{\"end\":\"{}\",\"val\":{},\"node\":{},\"facts\":{},\"span\":{},\"infn\":{},\"out\":{},\"heap\":{}}}", k, v, base, facts, esc(&e.span), esc(&e.infn), arr(e.out.iter().map(|(i, t)| format!("[{},{}]", i, t))), arr(e.heap.iter().map(|(i, t)| format!("[{},{}]", i, t)))));
        }
        let mut ts: Vec<Tm> = seen.into_iter().collect(); ts.sort();
        let mut tj = String::from("{"); 
        for (i, t) in ts.iter().enumerate() {
            if i > 0 { tj.push(','); }
            let ty = match self.ty(*t) { Some(x) => esc(&tyname(self.tcx, x)), None => "null".into() };
            write!(tj, "\"{}\":[{},{}]", t, self.term_json(*t), ty).unwrap();
        }
        tj.push('}');
        let sig = self.tcx.fn_sig(d).instantiate_identity().skip_normalization().skip_binder();
        let tr = self.tcx.impl_of_assoc(d).filter(|i| self.tcx.impl_is_of_trait(*i)).map(|i| adt_path(self.tcx, self.tcx.impl_trait_ref(i).instantiate_identity().skip_normalization().def_id)).unwrap_or_default();
        format!("{{\"name\":{},\"module\":{},\"trait\":{},\"span\":{},\"infn_ret\":{},\"params\":{},\"paths\":[{}],\"nodes\":[{}],\"terms\":{},\"inlined\":{},\"opaque\":{},\"steps\":{},\"cut\":{}}}",
            esc(name), esc(module), esc(&tr), esc(&span_str(self.tcx, self.tcx.def_span(d))), esc(&tyname(self.tcx, sig.output())),
            arr(params.iter().map(|(p, t)| format!("[{},{}]", p, esc(&tyname(self.tcx, *t))))), paths.join(",\n"), nodes.join(",\n"), tj,
            arr(self.inlined.iter().map(|x| esc(x))), arr(self.opaque_seen.iter().map(|x| esc(x))), self.steps, self.cut)
    }
}
fn float_str(x: u128, f32_: bool) -> String { if f32_ { format!("{:?}", f32::from_bits(x as u32)) } else { format!("{:?}", f64::from_bits(x as u64)) } }
