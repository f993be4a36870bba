// facts, execution, calls, loops, output (included into interp.rs)

fn in_set(names: &[&str], n: &str) -> bool { names.iter().any(|p| n.starts_with(p)) }

impl<'tcx, 'c> An<'tcx, 'c> {
    // ---------- facts ----------
    fn universe(&self, t: Tm) -> Option<Vec<u128>> {
        match &self.terms[t as usize] {
            Term::Discr(v) => {
                let ty = self.ty(*v)?;
                if let ty::Adt(d, _) = ty.kind() { if d.is_enum() { return Some(d.variants().indices().map(|i| self.variant_discr(*d, i)).collect()); } }
                None
            }
            _ => if self.is_boolean(t) { Some(vec![0, 1]) } else { None },
        }
    }
    fn is_boolean(&self, t: Tm) -> bool {
        if let Some(ty) = self.ty(t) { if ty.is_bool() { return true; } }
        match &self.terms[t as usize] { Term::Bin(op, _, _) => (10..=15).contains(op) || *op >= 18, Term::App(n, _) => &**n == "EQ", _ => false }
    }
    fn known(&self, st: &State<'tcx>, t: Tm, v: &V) -> Option<bool> {
        match (&self.terms[t as usize], v) {
            (Term::Int(x, _), V::Int(y)) => return Some(x == y),
            (Term::Lit(x), V::Lit(y)) => return Some(x == y),
            _ => {}
        }
        let d = st.facts.get(&t)?;
        if let Some(s) = &d.is_in { if !s.contains(v) { return Some(false); } if s.len() == 1 { return Some(true); } return None; }
        if d.not.contains(v) { return Some(false); }
        if let V::Int(x) = v { if let Some(x) = self.signed(t, *x) { if d.lo.map_or(false, |l| x < l) || d.hi.map_or(false, |h| x > h) { return Some(false); } } }
        None
    }
    fn eval(&self, st: &State<'tcx>, t: Tm) -> Option<u128> {
        match &self.terms[t as usize] {
            Term::Int(x, _) => return Some(*x),
            Term::Un(0, a) if self.is_boolean(*a) => { if let Some(x) = self.eval(st, *a) { return Some(1 - x); } }
            Term::Cast(0, a, _) => if self.is_boolean(*a) { if let Some(x) = self.eval(st, *a) { return Some(x); } },
            Term::Bin(op, a, b) => {
                let (op, a, b) = (*op, *a, *b);
                if op == 10 || op == 13 {
                    let r = self.equal(st, a, b);
                    if let Some(r) = r { return Some((r == (op == 10)) as u128); }
                } else if (11..=15).contains(&op) {
                    if let Some(r) = self.cmp_range(st, op, a, b) { return Some(r as u128); }
                } else if op == 6 && self.is_boolean(a) {
                    let (x, y) = (self.eval(st, a), self.eval(st, b));
                    if x == Some(0) || y == Some(0) { return Some(0); } if x == Some(1) && y == Some(1) { return Some(1); }
                } else if op == 7 && self.is_boolean(a) {
                    let (x, y) = (self.eval(st, a), self.eval(st, b));
                    if x == Some(1) || y == Some(1) { return Some(1); } if x == Some(0) && y == Some(0) { return Some(0); }
                }
            }
            Term::Discr(x) => { if let Term::App(n, a) = &self.terms[*x as usize] { if n.starts_with("str::strip_prefix") && a.len() == 2 { if let Some(r) = self.prefix_known(st, a[0], a[1]) { return Some(r as u128); } } } }
            Term::App(n, a) if (n.starts_with("str::starts_with") || n.starts_with("slice::starts_with")) && a.len() == 2 => { if let Some(r) = self.prefix_known(st, a[0], a[1]) { return Some(r as u128); } }
            Term::App(n, a) if &**n == "EQ" => {
                if a[0] == a[1] { return Some(1); }
                if let Some(r) = self.equal(st, a[0], a[1]) { return Some(r as u128); }
            }
            Term::App(n, a) if &**n == "len" => {
                if let Some(d) = st.facts.get(&a[0]) { if let Some(s) = &d.is_in { let ls: BTreeSet<usize> = s.iter().filter_map(|v| if let V::Lit(b) = v { Some(b.len()) } else { None }).collect(); if ls.len() == 1 { return Some(*ls.iter().next().unwrap() as u128); } } }
            }
            _ => {}
        }
        if let Some(d) = st.facts.get(&t) { if let Some(s) = &d.is_in { if s.len() == 1 { if let Some(V::Int(x)) = s.iter().next() { return Some(*x); } } } }
        None
    }
    /// The set of prefixes a pattern term stands for.
    fn pattern(&self, p: Tm) -> Option<Vec<Vec<u8>>> {
        match &self.terms[p as usize] {
            Term::Lit(b) => Some(vec![b.to_vec()]),
            Term::Int(x, t) if t.is_char() => char::from_u32(*x as u32).map(|c| vec![c.to_string().into_bytes()]),
            Term::Agg(AggK::Array, fs) => { let mut o = vec![]; for f in fs.iter() { o.extend(self.pattern(*f)?); } Some(o) }
            Term::View(c) => self.pattern(*c),
            _ => None,
        }
    }
    /// Whether text `c` starts with one of the pattern's prefixes, if the facts decide it.
    fn prefix_known(&self, st: &State<'tcx>, c: Tm, p: Tm) -> Option<bool> {
        let pats = self.pattern(p)?;
        let decide = |known: &[u8], whole: bool| -> Option<bool> {
            let mut all_no = true;
            for q in &pats { if known.starts_with(q) { return Some(true); } if !whole && q.starts_with(known) { all_no = false; } }
            if all_no { Some(false) } else { None }
        };
        if let Term::Lit(b) = &self.terms[c as usize] { return decide(b, true); }
        if let Some(d) = st.facts.get(&c) { if let Some(s) = &d.is_in {
            let rs: BTreeSet<Option<bool>> = s.iter().map(|v| if let V::Lit(b) = v { decide(b, true) } else { None }).collect();
            if rs.len() == 1 { if let Some(r) = rs.iter().next().unwrap() { return Some(*r); } }
        } }
        for (t, d) in st.facts.iter() {
            let yes = match &d.is_in { Some(s) if s.len() == 1 => matches!(s.iter().next(), Some(V::Int(1))), _ => false };
            if !yes { continue; }
            let app = match &self.terms[*t as usize] { Term::Discr(x) => *x, Term::App(..) => *t, _ => continue };
            if let Term::App(n, a) = &self.terms[app as usize] {
                if a.len() == 2 && a[0] == c && (n.starts_with("str::strip_prefix") || n.starts_with("str::starts_with") || n.starts_with("slice::starts_with")) {
                    if let Some(ks) = self.pattern(a[1]) {
                        let rs: BTreeSet<Option<bool>> = ks.iter().map(|k| decide(k, false)).collect();
                        if rs.len() == 1 { if let Some(r) = rs.iter().next().unwrap() { return Some(*r); } }
                    }
                }
            }
        }
        None
    }
    fn lit_of(&self, st: &State<'tcx>, t: Tm) -> Option<V> {
        match &self.terms[t as usize] { Term::Int(x, _) => Some(V::Int(*x)), Term::Lit(b) => Some(V::Lit(b.clone())),
            _ => self.eval(st, t).map(V::Int) }
    }
    fn equal(&self, st: &State<'tcx>, a: Tm, b: Tm) -> Option<bool> {
        if a == b && !self.ty(a).map_or(false, |t| t.is_floating_point()) { return Some(true); }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(v) = self.lit_of(st, y) {
                if let Some(r) = self.known(st, x, &v) { return Some(r); }
                if v == V::Int(0) { if let Term::App(n, c) = &self.terms[x as usize] { if &**n == "len" {
                    if let Some(r) = self.known(st, c[0], &V::Lit(Rc::from(vec![]))) { return Some(r); } } } }
                if let V::Int(k) = v { if let Term::App(n, c) = &self.terms[x as usize] { if &**n == "len" {
                    if let Some(d) = st.facts.get(&c[0]) { if let Some(s) = &d.is_in { if s.iter().all(|v| matches!(v, V::Lit(b) if b.len() as u128 != k)) { return Some(false); } } } } } }
            }
        }
        None
    }
    fn signed(&self, t: Tm, x: u128) -> Option<i128> {
        let ty = self.ty(t)?;
        match ty.kind() {
            ty::Int(it) => { let bits = it.bit_width().unwrap_or(64) as u32; Some(((x << (128 - bits)) as i128) >> (128 - bits)) }
            ty::Float(_) => None,
            _ => if x <= i128::MAX as u128 { Some(x as i128) } else { None },
        }
    }
    fn range(&self, st: &State<'tcx>, t: Tm) -> (Option<i128>, Option<i128>) {
        if let Some(x) = self.eval(st, t) { let s = self.signed(t, x); return (s, s); }
        if self.ty(t).map_or(false, |t| t.is_floating_point()) { return (None, None); }
        let (mut lo, mut hi) = (None, None);
        if let Some(ty) = self.ty(t) { if let ty::Uint(u) = ty.kind() { lo = Some(0); hi = match u.bit_width() { Some(128) => None, Some(b) => Some((1i128 << b) - 1), None => Some((1i128 << 64) - 1) }; }
            if let ty::Int(u) = ty.kind() { let b = u.bit_width().unwrap_or(64); if b < 128 { lo = Some(-(1i128 << (b - 1))); hi = Some((1i128 << (b - 1)) - 1); } } }
        if let Some(d) = st.facts.get(&t) { if let Some(l) = d.lo { lo = Some(lo.map_or(l, |x: i128| x.max(l))); } if let Some(h) = d.hi { hi = Some(hi.map_or(h, |x: i128| x.min(h))); } }
        (lo, hi)
    }
    fn cmp_range(&self, st: &State<'tcx>, op: u8, a: Tm, b: Tm) -> Option<bool> {
        if self.ty(a).map_or(false, |t| t.is_floating_point()) { return None; }
        let ((al, ah), (bl, bh)) = (self.range(st, a), self.range(st, b));
        let lt = |x: Option<i128>, y: Option<i128>| matches!((x, y), (Some(x), Some(y)) if x < y);
        let le = |x: Option<i128>, y: Option<i128>| matches!((x, y), (Some(x), Some(y)) if x <= y);
        match op {
            11 => if lt(ah, bl) { Some(true) } else if le(bh, al) { Some(false) } else if a == b { Some(false) } else { None },
            12 => if le(ah, bl) { Some(true) } else if lt(bh, al) { Some(false) } else if a == b { Some(true) } else { None },
            14 => self.cmp_range(st, 12, b, a),
            15 => self.cmp_range(st, 11, b, a),
            _ => None,
        }
    }
    fn assume(&mut self, st: &mut State<'tcx>, t: Tm, v: V, eq: bool) -> bool {
        match self.t(t) {
            Term::Int(x, _) => if let V::Int(y) = v { return (x == y) == eq; },
            Term::Lit(x) => if let V::Lit(y) = v { return (x == y) == eq; },
            Term::Un(0, a) if self.is_boolean(a) => if let V::Int(x) = v { return self.assume(st, a, V::Int(1 - x), eq); },
            Term::Cast(0, a, _) => { let ok = self.is_boolean(a) || self.ty(a).map_or(false, |t| matches!(t.kind(), ty::Char | ty::Uint(_))); if ok { if !self.assume(st, a, v.clone(), eq) { return false; } } }
            Term::Bin(op, a, b) if (10..=15).contains(&op) => if let V::Int(x) = v {
                let truth = (x == 1) == eq;
                if let Some(e) = self.eval(st, t) { if (e == 1) != truth { return false; } }
                if op == 10 || op == 13 {
                    let want = truth == (op == 10);
                    let (la, lb) = (self.lit_of(st, a), self.lit_of(st, b));
                    if let Some(l) = lb { if !self.assume(st, a, l, want) { return false; } }
                    else if let Some(l) = la { if !self.assume(st, b, l, want) { return false; } }
                } else {
                    let (op, a, b) = match op { 14 => (12, b, a), 15 => (11, b, a), o => (o, a, b) };
                    // a < b or a <= b (or negation: b <= a / b < a)
                    let (s, l, r) = match (op, truth) { (11, true) => (true, a, b), (12, true) => (false, a, b), (11, false) => (false, b, a), _ => (true, b, a) };
                    if !self.ty(a).map_or(true, |t| t.is_floating_point()) {
                        let (_, rh) = self.range(st, r); let (ll, _) = self.range(st, l);
                        let k = if s { 1 } else { 0 };
                        if let Some(h) = rh { self.bound(st, l, None, Some(h.saturating_sub(k))); }
                        if let Some(lo) = ll { self.bound(st, r, Some(lo.saturating_add(k)), None); }
                    }
                }
            },
            Term::Bin(6, a, b) if self.is_boolean(a) => if let V::Int(x) = v { if (x == 1) == eq { return self.assume(st, a, V::Int(1), true) && self.assume(st, b, V::Int(1), true); } },
            Term::Bin(7, a, b) if self.is_boolean(a) => if let V::Int(x) = v { if (x == 0) == eq { return self.assume(st, a, V::Int(0), true) && self.assume(st, b, V::Int(0), true); } },
            Term::App(n, a) if &*n == "EQ" => if let V::Int(x) = v {
                let truth = (x == 1) == eq;
                if let Some(l) = self.lit_of(st, a[1]) { if !self.assume(st, a[0], l, truth) { return false; } }
                else if let Some(l) = self.lit_of(st, a[0]) { if !self.assume(st, a[1], l, truth) { return false; } }
            },
            Term::App(n, a) if &*n == "len" => if v == V::Int(0) { if !self.assume(st, a[0], V::Lit(Rc::from(vec![])), eq) { return false; } },
            _ => {}
        }
        // booleans: != x  ==  == 1-x
        if self.is_boolean(t) && !eq { if let V::Int(x) = v { return self.set(st, t, V::Int(1 - (x & 1)), true); } }
        self.set(st, t, v, eq)
    }
    fn bound(&mut self, st: &mut State<'tcx>, t: Tm, lo: Option<i128>, hi: Option<i128>) {
        if let Term::Int(..) = self.t(t) { return; }
        let m = Rc::make_mut(&mut st.facts); let d = m.entry(t).or_default();
        if let Some(l) = lo { d.lo = Some(d.lo.map_or(l, |x| x.max(l))); }
        if let Some(h) = hi { d.hi = Some(d.hi.map_or(h, |x| x.min(h))); }
    }
    fn set(&mut self, st: &mut State<'tcx>, t: Tm, v: V, eq: bool) -> bool {
        if let Some(k) = self.known(st, t, &v) { if k != eq { return false; } }
        let uni = self.universe(t);
        let m = Rc::make_mut(&mut st.facts); let d = m.entry(t).or_default();
        if eq { d.is_in = Some([v].into_iter().collect()); true }
        else {
            if let Some(s) = &mut d.is_in { s.remove(&v); if s.is_empty() { return false; } }
            d.not.insert(v);
            if let Some(u) = uni {
                let left: Vec<u128> = u.into_iter().filter(|x| !d.not.contains(&V::Int(*x))).collect();
                if left.is_empty() { return false; }
                if left.len() == 1 { d.is_in = Some([V::Int(left[0])].into_iter().collect()); }
            }
            true
        }
    }
    fn push(&self, st: &mut State<'tcx>, i: Item) { st.trace = Some(Rc::new(Node { item: i, prev: st.trace.take() })); }

    // ---------- snapshots ----------
    fn snapshot(&mut self, st: &State<'tcx>, t: Tm, depth: u32) -> Tm {
        if depth > 10 { return t; }
        match self.t(t) {
            Term::Ref(l) => { let c = self.read(st, &l); let c2 = self.snapshot(st, c, depth + 1); let ty = self.ty(t); self.mk(Term::Snap(t, c2), ty) }
            Term::Agg(k, fs) => {
                let v: Vec<Tm> = fs.iter().map(|f| self.snapshot(st, *f, depth + 1)).collect();
                if v[..] == fs[..] { return t; }
                let ty = self.ty(t); self.mk(Term::Agg(k, Rc::from(v)), ty)
            }
            _ => {
                if let Some(c) = st.mem.get(&Root::Heap(t)).copied() { let c2 = self.snapshot(st, c, depth + 1); let ty = self.ty(t); return self.mk(Term::Snap(t, c2), ty); }
                t
            }
        }
    }

    // ---------- string-like content ----------
    fn stringish(&self, ty: Ty<'tcx>) -> bool {
        match ty.kind() {
            ty::Str => true,
            ty::Slice(t) | ty::Array(t, _) => *t == self.tcx.types.u8,
            ty::Ref(_, t, _) => self.stringish(*t),
            ty::Adt(d, a) => {
                if d.is_box() { return self.stringish(a.type_at(0)); }
                if d.did().is_local() { return false; }
                let n = self.tcx.item_name(d.did()); let n = n.as_str();
                n == "String" || (n == "Vec" && a.type_at(0) == self.tcx.types.u8)
            }
            _ => false,
        }
    }
    fn content(&mut self, st: &State<'tcx>, v: Tm, ty: Ty<'tcx>) -> Option<Tm> {
        match ty.kind() {
            ty::Str => Some(v),
            ty::Slice(_) | ty::Array(..) => Some(v),
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => { let c = self.read_ptr(st, v); if self.tys[c as usize].is_none() { self.tys[c as usize] = Some(*t); } self.content(st, c, *t) }
            ty::Adt(d, a) => {
                if d.is_box() { let c = self.read_ptr(st, v); return self.content(st, c, a.type_at(0)); }
                if d.did().is_local() { return None; }
                let n = self.tcx.item_name(d.did()); let n = n.as_str();
                if n == "String" || n == "Vec" { Some(v) } else { None }
            }
            _ => None,
        }
    }
    fn len(&mut self, c: Tm) -> Tm {
        let ut = self.tcx.types.usize;
        match self.t(c) {
            Term::Lit(b) => self.int(b.len() as u128, ut),
            Term::Agg(AggK::Array, fs) => self.int(fs.len() as u128, ut),
            _ => { if let Some(t) = self.ty(c) { if let ty::Array(_, n) = t.kind() { if let Some(n) = n.try_to_target_usize(self.tcx) { return self.int(n as u128, ut); } } } self.app("len", vec![c], Some(ut)) }
        }
    }

    // ---------- bodies ----------
    fn body(&mut self, inst: Instance<'tcx>) -> Option<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.get(&inst) { return b.clone(); }
        let r = self.body_uncached(inst);
        self.bodies.insert(inst, r.clone());
        r
    }
    fn body_uncached(&mut self, inst: Instance<'tcx>) -> Option<Rc<BodyInfo<'tcx>>> {
        match inst.def { InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => return None,
            InstanceKind::Item(d) => if !self.tcx.is_mir_available(d) { return None; }, _ => {} }
        let raw = self.tcx.instance_mir(inst.def);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, raw.clone())) { Ok(b) => b, Err(_) => return None };
        // natural loops
        let mut headers: FxHashMap<BasicBlock, FxHashSet<BasicBlock>> = Default::default();
        let doms = body.basic_blocks.dominators().clone();
        let preds = body.basic_blocks.predecessors().clone();
        let reach: FxHashSet<BasicBlock> = body.basic_blocks.reverse_postorder().iter().copied().collect();
        for (bb, data) in body.basic_blocks.iter_enumerated() {
            if !reach.contains(&bb) || data.is_cleanup { continue; }
            for s in data.terminator().successors() {
                if doms.dominates(s, bb) {
                    let set = headers.entry(s).or_default();
                    set.insert(s);
                    let mut work = vec![bb];
                    while let Some(x) = work.pop() { if set.insert(x) { for p in preds[x].iter() { if reach.contains(p) { work.push(*p); } } } }
                }
            }
        }
        let name: Rc<str> = match inst.def { InstanceKind::Item(d) => { let x = self.outer_fn(d); Rc::from(if x.is_local() { short_name(self.tcx, x) } else { fn_path(self.tcx, x).0 }) }, _ => Rc::from("shim") };
        Some(Rc::new(BodyInfo { body, headers, name }))
    }
    fn outer_fn(&self, d: DefId) -> DefId { self.tcx.typeck_root_def_id(d) }
    fn new_frame(&mut self, inst: Instance<'tcx>, b: Rc<BodyInfo<'tcx>>, dest: Option<Loc>, ret_bb: Option<BasicBlock>, after: After<'tcx>) -> Frame<'tcx> {
        let uid = self.next_uid; self.next_uid += 1;
        Frame { uid, body: b, def: inst.def_id(), dest, ret_bb, bb: START_BLOCK, stmt: 0, active: vec![], loops: vec![], after }
    }

    // ---------- entry ----------
    fn entry(&mut self, name: &str, d: DefId, module: &str) -> String {
        let args = ty::GenericArgs::identity_for_item(self.tcx, d);
        let args = self.tcx.erase_and_anonymize_regions(args);
        let inst = Instance { def: InstanceKind::Item(d), args };
        let b = match self.body(inst) { Some(b) => b, None => return format!("{{\"name\":{},\"error\":\"no mir\"}}", esc(name)) };
        let fr = self.new_frame(inst, b.clone(), None, None, After::Assign);
        let uid = fr.uid;
        let mut st = State { frames: vec![fr], mem: Rc::new(Default::default()), facts: Rc::new(Default::default()), trace: None };
        let mut params = vec![];
        for l in b.body.args_iter() {
            let ty = b.body.local_decls[l].ty;
            let nm = b.body.var_debug_info.iter().find_map(|v| match v.value { VarDebugInfoContents::Place(p) if p.local == l && p.projection.is_empty() => Some(v.name.to_string()), _ => None }).unwrap_or_default();
            let t = self.fresh(SymOrigin::Param(l.as_usize() - 1, nm), Some(ty));
            params.push((t, ty));
            Rc::make_mut(&mut st.mem).insert(Root::Local(uid, l.as_u32()), t);
        }
        let mut ends = vec![]; let mut backs = vec![];
        self.explore(st, None, &mut ends, &mut backs, &mut vec![]);
        // final contents behind &mut parameters
        for e in ends.iter_mut() {
            for (i, (p, ty)) in params.iter().enumerate() {
                if let ty::Ref(_, _, m) = ty.kind() { if m.is_mut() {
                    let c = self.read_ptr(&e.st, *p); let c = self.snapshot(&e.st, c, 0); e.out.push((i, c));
                } }
            }
            // memory reached from the parameters through stored pointers
            let mut cells: Vec<(Tm, Tm)> = e.st.mem.iter().filter_map(|(r, c)| if let Root::Heap(p) = r { Some((*p, *c)) } else { None }).collect();
            cells.sort();
            for (p, c) in cells {
                let mut b = p; let mut n = 0;
                loop { match self.t(b) { Term::Field(a, ..) | Term::Deref(a) => { b = a; n += 1; } _ => break } }
                if params.iter().any(|(q, ty)| *q == b && (n > 0 || ty.is_raw_ptr())) { let c = self.snapshot(&e.st, c, 0); e.heap.push((p, c)); }
            }
            if let EndKind::Return(t) = e.kind { let s = self.snapshot(&e.st, t, 0); e.kind = EndKind::Return(s); }
        }
        self.output(name, d, module, &params, ends)
    }

    // ---------- exploration ----------
    fn explore(&mut self, init: State<'tcx>, disc: Option<&Discover>, ends: &mut Vec<End<'tcx>>, backs: &mut Vec<State<'tcx>>, rets: &mut Vec<State<'tcx>>) {
        let mut work = vec![init];
        while let Some(mut st) = work.pop() {
            loop {
                self.steps += 1;
                if self.steps > 6_000_000 || self.nends > self.cfg.max_paths || rets.len() > 20_000 { self.cut = true; self.end(st, EndKind::Cut("limit".into()), ends); break; }
                let nx = self.step(&mut st, disc, backs);
                if disc.is_none() { ends.append(&mut self.pending); }
                match nx {
                    Next::Cont => {}
                    Next::Fork(v) => { work.extend(v); break; }
                    Next::Ret => { rets.push(st); break; }
                    Next::End(k) => { if disc.is_none() { self.end(st, k, ends); } break; }
                }
                if st.frames.is_empty() { break; }
            }
            if self.cut { break; }
        }
    }
    fn end(&mut self, st: State<'tcx>, kind: EndKind, ends: &mut Vec<End<'tcx>>) {
        let (span, infn) = match st.frames.last() { Some(f) => { let data = &f.body.body.basic_blocks[f.bb]; (span_str(self.tcx, data.terminator().source_info.span), f.body.name.clone()) } None => (String::new(), Rc::from("")) };
        self.nends += 1;
        ends.push(End { kind, st, span, infn, out: vec![], heap: vec![] });
    }
    /// Move the top frame to block `bb`, handling loop heads.
    fn goto(&mut self, st: &mut State<'tcx>, bb: BasicBlock, disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        let (uid, body) = { let f = st.frames.last().unwrap(); (f.uid, f.body.clone()) };
        if let Some(d) = disc {
            if d.uid == uid {
                if bb == d.header { let f = st.frames.last_mut().unwrap(); f.bb = bb; f.stmt = 0; backs.push(st.clone()); return Next::End(EndKind::Back(String::new(), vec![])); }
                if !d.blocks.contains(&bb) { return Next::End(EndKind::Cut("left loop".into())); }
            }
        }
        {
            let f = st.frames.last_mut().unwrap();
            let b = f.body.clone();
            f.active.retain(|h| b.headers.get(h).map_or(false, |s| s.contains(&bb)));
        }
        if body.headers.contains_key(&bb) {
            let sp = span_str(self.tcx, body.body.basic_blocks[bb].terminator().source_info.span);
            if st.frames.last().unwrap().active.contains(&bb) {
                let mut vals = vec![];
                if disc.is_none() { if let Some((_, lv)) = st.frames.last().unwrap().loops.iter().rev().find(|x| x.0 == bb).cloned() {
                    for (l, t) in lv.iter() { let v = self.read(st, l); let v = self.snapshot(st, v, 0); if v != *t { vals.push((*t, v)); } }
                } }
                return Next::End(EndKind::Back(sp, vals));
            }
            let (w, lv) = self.widen(st.clone(), bb);
            *st = w;
            self.push(st, Item::Loop(sp));
            let f = st.frames.last_mut().unwrap();
            f.active.push(bb);
            f.loops.retain(|x| x.0 != bb);
            f.loops.push((bb, Rc::new(lv)));
        }
        let f = st.frames.last_mut().unwrap();
        f.bb = bb; f.stmt = 0;
        Next::Cont
    }
    fn widen(&mut self, st: State<'tcx>, h: BasicBlock) -> (State<'tcx>, Vec<(Loc, Tm)>) {
        let mut widened: Vec<(Loc, Tm)> = vec![];
        let mut cur = st;
        let (uid, blocks) = { let f = cur.frames.last().unwrap(); (f.uid, f.body.headers[&h].clone()) };
        let sp = { let f = cur.frames.last().unwrap(); span_str(self.tcx, f.body.body.basic_blocks[h].terminator().source_info.span) };
        for _ in 0..8 {
            let limit = self.terms.len() as Tm;
            let mut s = cur.clone();
            { let f = s.frames.last_mut().unwrap(); f.bb = h; f.stmt = 0; f.active.push(h); }
            let d = Discover { uid, header: h, blocks: blocks.clone() };
            let mut ends = vec![]; let mut backs = vec![];
            self.explore(s, Some(&d), &mut ends, &mut backs, &mut vec![]);
            let mut diffs: BTreeSet<(Root, Vec<Pj>)> = BTreeSet::new();
            let live: FxHashSet<u32> = cur.frames.iter().map(|f| f.uid).collect();
            for b in &backs {
                for (r, nv) in b.mem.iter() {
                    let ok = match r { Root::Local(u, _) => live.contains(u), Root::Tmp(_) => cur.mem.contains_key(r), Root::Heap(t) => *t < limit };
                    if !ok { continue; }
                    let ov = self.read_root(&cur, *r);
                    if let Term::Konst(k) = self.t(ov) { if k.starts_with("uninit") { continue; } }
                    self.diff(ov, *nv, *r, &mut vec![], &mut diffs);
                }
            }
            let diffs: Vec<Loc> = diffs.into_iter().map(|(r, p)| Loc { root: r, proj: p }).filter(|l| !widened.iter().any(|(w, t)| w == l && self.read(&cur, l) == *t)).collect();
            if diffs.is_empty() { break; }
            for l in diffs {
                let old = self.read(&cur, &l);
                let ty = self.ty(old);
                let osn = self.snapshot(&cur, old, 0); let n = self.fresh(SymOrigin::Loop(sp.clone(), osn), ty);
                self.write(&mut cur, &l, n, None);
                widened.retain(|(w, _)| !(w.root == l.root && w.proj.starts_with(&l.proj)));
                widened.push((l, n));
            }
        }
        (cur, widened)
    }
    fn diff(&mut self, a: Tm, b: Tm, r: Root, path: &mut Vec<Pj>, out: &mut BTreeSet<(Root, Vec<Pj>)>) {
        if a == b { return; }
        if let (Term::Agg(k, x), Term::Agg(k2, y)) = (self.t(a), self.t(b)) {
            if k == k2 && x.len() == y.len() && !x.is_empty() {
                for i in 0..x.len() {
                    let p = match k { AggK::Adt(d, v, _) if self.tcx.adt_def(d).is_enum() => Pj::F(Some(v), i as u32), AggK::Array => Pj::CI(i as u64, false), _ => Pj::F(None, i as u32) };
                    path.push(p); self.diff(x[i], y[i], r, path, out); path.pop();
                }
                return;
            }
        }
        out.insert((r, path.clone()));
    }

    /// Records writes through pointers that opaque calls returned: nothing else shows them.
    fn note_store(&mut self, st: &mut State<'tcx>, l: &Loc, v: Tm) {
        let Root::Heap(p) = l.root else { return };
        let mut b = p;
        loop {
            match &self.terms[b as usize] {
                Term::Field(a, ..) | Term::Deref(a) => b = *a,
                Term::Snap(_, a) => b = *a,
                Term::Sym(n) => { if let SymOrigin::Ret(_) = self.syms[*n as usize].0 { break; } return; }
                _ => return,
            }
        }
        let mut t = self.mk(Term::Deref(p), None);
        for q in l.proj.iter() { t = self.project(t, q.clone(), None); }
        let v = self.snapshot(st, v, 0);
        let s = { let f = st.frames.last().unwrap(); let bd = &f.body.body.basic_blocks[f.bb]; let si = if f.stmt < bd.statements.len() { bd.statements[f.stmt].source_info } else { bd.terminator().source_info }; span_str(self.tcx, si.span) };
        self.push(st, Item::Store(t, v, s));
    }
    fn step(&mut self, st: &mut State<'tcx>, disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        let (body, bb, stmt) = { let f = st.frames.last().unwrap(); (f.body.clone(), f.bb, f.stmt) };
        let data = &body.body.basic_blocks[bb];
        if stmt < data.statements.len() {
            let s = &data.statements[stmt];
            match &s.kind {
                StatementKind::Assign(b) => { let (pl, rv) = &**b; let v = self.rvalue(st, rv, *pl); let l = self.place_loc(st, *pl); let rt = body.body.local_decls[pl.local].ty; self.note_store(st, &l, v); self.write(st, &l, v, if pl.projection.first().map_or(true, |e| !matches!(e, ProjectionElem::Deref)) { Some(rt) } else { None }); }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let l = self.place_loc(st, **place); let v = self.read(st, &l); let ty = self.place_ty(st, **place);
                    if let Some(e) = self.expand(v, Some(ty), Some(*variant_index)) { self.write(st, &l, e, None); }
                }
                StatementKind::Intrinsic(i) => { if let NonDivergingIntrinsic::Assume(o) = &**i { let t = self.operand(st, o); self.assume(st, t, V::Int(1), true); } }
                _ => {}
            }
            st.frames.last_mut().unwrap().stmt += 1;
            return Next::Cont;
        }
        let term = data.terminator();
        let sp = term.source_info.span;
        match &term.kind {
            TerminatorKind::Goto { target, .. } => self.goto(st, *target, disc, backs),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => self.goto(st, *real_target, disc, backs),
            TerminatorKind::SwitchInt { discr, targets } => {
                let t = self.operand(st, discr);
                if self.ty(t).is_none() { let ty = self.op_ty(st, discr); self.tys[t as usize] = Some(ty); }
                if let Some(x) = self.eval(st, t) { let b = targets.target_for_value(x); return self.goto(st, b, disc, backs); }
                let mut outs = vec![];
                let other = targets.otherwise();
                let ob = &body.body.basic_blocks[other];
                let other_unreachable = ob.statements.is_empty() && matches!(ob.terminator().kind, TerminatorKind::Unreachable);
                let mut succ: Vec<(State<'tcx>, BasicBlock)> = vec![];
                if !other_unreachable {
                    let mut s = st.clone(); let mut ok = true;
                    for (v, _) in targets.iter() { if !self.assume(&mut s, t, V::Int(v), false) { ok = false; break; } }
                    if ok { for (v, _) in targets.iter() { self.push(&mut s, Item::Fact(t, V::Int(v), false)); } succ.push((s, other)); }
                }
                for (v, b) in targets.iter() {
                    let mut s = st.clone();
                    if self.assume(&mut s, t, V::Int(v), true) { self.push(&mut s, Item::Fact(t, V::Int(v), true)); succ.push((s, b)); }
                }
                if succ.len() == 1 { let (s, b) = succ.pop().unwrap(); *st = s; return self.goto(st, b, disc, backs); }
                for (mut s, b) in succ { match self.goto(&mut s, b, disc, backs) { Next::Cont => outs.push(s), Next::End(k) => { if disc.is_none() { self.pending_end(s, k); } } Next::Fork(v) => outs.extend(v), Next::Ret => {} } }
                Next::Fork(outs)
            }
            TerminatorKind::Return => self.do_return(st, disc, backs),
            TerminatorKind::Unreachable => Next::End(EndKind::Diverge("unreachable".into())),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => Next::End(EndKind::Diverge("unwind".into())),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = self.place_ty(st, *place);
                if let Some(n) = self.local_drop(ty, 0) {
                    let v = self.read_place(st, *place); let v = self.snapshot(st, v, 0);
                    let s = span_str(self.tcx, sp);
                    self.push(st, Item::Drop(n, v, s));
                }
                self.goto(st, *target, disc, backs)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let t = self.operand(st, cond);
                if let Some(x) = self.eval(st, t) {
                    if (x == 1) == *expected { return self.goto(st, *target, disc, backs); }
                    let m = assert_msg(msg); return Next::End(EndKind::Panic(m, vec![]));
                }
                let mut bad = st.clone();
                if self.assume(&mut bad, t, V::Int(!*expected as u128), true) {
                    self.push(&mut bad, Item::Fact(t, V::Int(!*expected as u128), true));
                    if disc.is_none() { let m = assert_msg(msg); self.pending_end(bad, EndKind::Panic(m, vec![])); }
                }
                if !self.assume(st, t, V::Int(*expected as u128), true) { return Next::Fork(vec![]); }
                self.goto(st, *target, disc, backs)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let mut av = vec![];
                for a in args.iter() { let v = self.operand(st, &a.node); let ty = self.op_ty(st, &a.node); if self.tys[v as usize].is_none() { self.tys[v as usize] = Some(ty); } av.push((v, ty)); }
                let f = self.operand(st, func); let fty = self.op_ty(st, func);
                let dest = self.place_loc(st, *destination); let dty = self.place_ty(st, *destination);
                self.call(st, f, fty, av, dest, dty, *target, sp, disc, backs)
            }
            TerminatorKind::TailCall { .. } | TerminatorKind::Yield { .. } | TerminatorKind::CoroutineDrop | TerminatorKind::InlineAsm { .. } => Next::End(EndKind::Cut("unsupported terminator".into())),
        }
    }
    fn pending_end(&mut self, st: State<'tcx>, k: EndKind) { let mut v = vec![]; self.end(st, k, &mut v); self.pending.extend(v); }

    fn local_drop(&self, ty: Ty<'tcx>, depth: u32) -> Option<String> {
        if depth > 4 { return None; }
        match ty.kind() {
            ty::Adt(d, a) => {
                if d.did().is_local() { if d.destructor(self.tcx).is_some() { return Some(tyname(self.tcx, ty)); }
                    for f in d.all_fields() { let ft = self.norm(f.ty(self.tcx, a).skip_normalization()); if let Some(n) = self.local_drop(ft, depth + 1) { return Some(n); } } }
                else { for t in a.types() { if let Some(n) = self.local_drop(t, depth + 1) { return Some(n); } } }
                None
            }
            ty::Tuple(l) => l.iter().find_map(|t| self.local_drop(t, depth + 1)),
            _ => None,
        }
    }

    fn do_return(&mut self, st: &mut State<'tcx>, disc: Option<&Discover>, backs: &mut Vec<State<'tcx>>) -> Next<'tcx> {
        let f = st.frames.last().unwrap().clone();
        let v = self.read(st, &Loc { root: Root::Local(f.uid, 0), proj: vec![] });
        if let Some(d) = disc { if d.uid == f.uid { return Next::End(EndKind::Cut("left loop".into())); } }
        if st.frames.len() == 1 { return Next::End(EndKind::Return(v)); }
        self.push(st, Item::Leave(v));
        st.frames.pop();
        let uid = f.uid;
        let still = { let mut s = false; for r in st.mem.keys() { if let Root::Local(u, _) = r { if *u == uid { s = true; break; } } } s };
        if still { let m = Rc::make_mut(&mut st.mem); m.retain(|r, _| !matches!(r, Root::Local(u, _) if *u == uid)); }
        match &f.after {
            After::Assign => {
                if let Some(d) = &f.dest { self.write(st, d, v, None); }
                if self.stops.contains(&uid) { return Next::Ret; }
                match f.ret_bb { Some(b) => self.goto(st, b, disc, backs), None => Next::End(EndKind::Diverge("returned from never".into())) }
            }
            After::Forget(t) => { let _ = t; match f.ret_bb { Some(b) => self.goto(st, b, disc, backs), None => Next::End(EndKind::Diverge("".into())) } }
            After::Opaque(o) => { let o = o.clone(); self.finish_opaque(st, &o, f.dest.clone().unwrap(), f.ret_bb, disc, backs) }
        }
    }

    // ---------- rvalues ----------
    fn rvalue(&mut self, st: &State<'tcx>, rv: &Rvalue<'tcx>, dest: Place<'tcx>) -> Tm {
        let dty = self.place_ty(st, dest);
        match rv {
            Rvalue::Use(o, _) => self.operand(st, o),
            Rvalue::CopyForDeref(p) => self.read_place(st, *p),
            Rvalue::Reborrow(_, _, p) => self.read_place(st, *p),
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o);
                if let Some(n) = n.try_to_target_usize(self.tcx) { if n <= 16 { return self.mk(Term::Agg(AggK::Array, Rc::from(vec![v; n as usize])), Some(dty)); } }
                self.app("repeat", vec![v], Some(dty))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => { let l = self.place_loc(st, *p); self.mkref(l, Some(dty)) }
            Rvalue::ThreadLocalRef(d) => { let s = format!("tls:{}", adt_path(self.tcx, *d)); self.mk(Term::Konst(Rc::from(s)), Some(dty)) }
            Rvalue::Cast(k, o, ty) => {
                let v = self.operand(st, o); let from = self.op_ty(st, o);
                match k {
                    CastKind::IntToInt => self.int_cast(v, from, *ty),
                    CastKind::FloatToInt => self.mk(Term::Cast(1, v, *ty), Some(*ty)),
                    CastKind::FloatToFloat => self.mk(Term::Cast(2, v, *ty), Some(*ty)),
                    CastKind::IntToFloat => self.mk(Term::Cast(3, v, *ty), Some(*ty)),
                    CastKind::Transmute | CastKind::BoxDerefTransmute => {
                        let pl = |t: Ty<'tcx>| t.is_any_ptr() || self.is_ptr_wrapper(t);
                        if from == *ty || (pl(from) && pl(*ty)) || (self.stringish(from) && self.stringish(*ty)) { return v; }
                        self.mk(Term::Cast(4, v, *ty), Some(*ty))
                    }
                    _ => v,
                }
            }
            Rvalue::BinaryOp(op, b) => { let (x, y) = &**b; let a = self.operand(st, x); let c = self.operand(st, y); self.binop(*op, a, c, dty) }
            Rvalue::UnaryOp(op, o) => {
                let a = self.operand(st, o);
                match op {
                    UnOp::Not => {
                        if let Term::Int(x, t) = self.t(a) { if t.is_bool() { return self.boolean(x == 0); } }
                        if let Term::Un(0, b) = self.t(a) { return b; }
                        self.mk(Term::Un(0, a), Some(dty))
                    }
                    UnOp::Neg => {
                        if let Term::Int(x, t) = self.t(a) { if let Some(s) = self.signed(a, x) { return self.trunc((-s) as u128, t); } }
                        self.mk(Term::Un(1, a), Some(dty))
                    }
                    UnOp::PtrMetadata => {
                        let pt = self.op_ty(st, o);
                        if let Some(p) = pointee(pt) { if matches!(p.kind(), ty::Str | ty::Slice(_)) { let c = self.read_ptr(st, a); return self.len(c); } }
                        self.mk(Term::Un(2, a), Some(dty))
                    }
                }
            }
            Rvalue::Discriminant(p) => { let v = self.read_place(st, *p); let d = self.discr(v); if self.tys[d as usize].is_none() { self.tys[d as usize] = Some(dty); }
                if let Term::Int(x, _) = self.t(d) { return self.trunc(x, dty); } d }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<Tm> = ops.iter().map(|o| { let v = self.operand(st, o); if self.tys[v as usize].is_none() { let t = self.op_ty(st, o); self.tys[v as usize] = Some(t); } v }).collect();
                match &**k {
                    AggregateKind::Array(el) => {
                        if *el == self.tcx.types.u8 { let bs: Option<Vec<u8>> = fs.iter().map(|f| if let Term::Int(x, _) = self.t(*f) { Some(x as u8) } else { None }).collect(); if let Some(b) = bs { return self.lit(&b); } }
                        self.mk(Term::Agg(AggK::Array, Rc::from(fs)), Some(dty))
                    }
                    AggregateKind::Tuple => self.mk(Term::Agg(AggK::Tuple, Rc::from(fs)), Some(dty)),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        if active.is_some() { return self.app("union", fs, Some(dty)); }
                        if self.is_ptr_wrapper(dty) { return fs[0]; }
                        self.mk(Term::Agg(AggK::Adt(*d, *v, dty), Rc::from(fs)), Some(dty))
                    }
                    AggregateKind::Closure(d, a) => self.mk(Term::Agg(AggK::Closure(*d, a), Rc::from(fs)), Some(dty)),
                    AggregateKind::RawPtr(..) => { if matches!(pointee(dty).map(|t| t.is_slice() || t.is_str()), Some(true)) { self.app("rawslice", fs, Some(dty)) } else { fs[0] } }
                    _ => self.app("aggregate", fs, Some(dty)),
                }
            }
            _ => self.fresh(SymOrigin::Other("rvalue".into()), Some(dty)),
        }
    }
    fn trunc(&mut self, x: u128, ty: Ty<'tcx>) -> Tm {
        let bits = match ty.kind() { ty::Int(i) => i.bit_width().unwrap_or(64), ty::Uint(u) => u.bit_width().unwrap_or(64), ty::Bool => 1, ty::Char => 32, _ => 128 };
        let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        self.int(x & m, ty)
    }
    fn int_cast(&mut self, v: Tm, from: Ty<'tcx>, to: Ty<'tcx>) -> Tm {
        if from == to { return v; }
        if let Term::Int(x, t) = self.t(v) { if from.is_integral() || from.is_bool() || from.is_char() { let _ = t; let s = match from.kind() { ty::Int(_) => self.signed(v, x).map(|s| s as u128), _ => Some(x) }; if let Some(s) = s { return self.trunc(s, to); } } 
            if from.is_enum() { return self.trunc(x, to); } }
        if let Term::Discr(_) = self.t(v) { return v; }
        self.mk(Term::Cast(0, v, to), Some(to))
    }
    fn binop(&mut self, op: BinOp, a: Tm, b: Tm, dty: Ty<'tcx>) -> Tm {
        let c = bin_code(op);
        let ovf = matches!(op, BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow);
        if ovf {
            let rt = if let ty::Tuple(l) = dty.kind() { l[0] } else { dty };
            if let (Term::Int(x, _), Term::Int(y, _)) = (self.t(a), self.t(b)) {
                if let (Some(x), Some(y)) = (self.signed(a, x), self.signed(b, y)) {
                    let r = match c { 0 => x.checked_add(y), 1 => x.checked_sub(y), _ => x.checked_mul(y) };
                    if let Some(r) = r { let v = self.trunc(r as u128, rt); if let Term::Int(k, _) = self.t(v) { let back = self.signed(v, k); let o = self.boolean(back != Some(r)); return self.mk(Term::Agg(AggK::Tuple, Rc::from(vec![v, o])), Some(dty)); } }
                }
            }
            let v = self.mk(Term::Bin(c, a, b), Some(rt));
            let bt = self.tcx.types.bool;
            let o = self.mk(Term::Bin(18 + c, a, b), Some(bt));
            return self.mk(Term::Agg(AggK::Tuple, Rc::from(vec![v, o])), Some(dty));
        }
        if let (Term::Int(x, tx), Term::Int(y, _)) = (self.t(a), self.t(b)) {
            if !tx.is_floating_point() {
                if c == 10 { return self.boolean(x == y); } if c == 13 { return self.boolean(x != y); }
                if let (Some(x), Some(y)) = (self.signed(a, x), self.signed(b, y)) {
                    match c { 11 => return self.boolean(x < y), 12 => return self.boolean(x <= y), 14 => return self.boolean(x >= y), 15 => return self.boolean(x > y),
                        0 => return self.trunc((x.wrapping_add(y)) as u128, dty), 1 => return self.trunc(x.wrapping_sub(y) as u128, dty), 2 => return self.trunc(x.wrapping_mul(y) as u128, dty),
                        6 => return self.trunc((x & y) as u128, dty), 7 => return self.trunc((x | y) as u128, dty), 5 => return self.trunc((x ^ y) as u128, dty),
                        3 if y != 0 => return self.trunc((x / y) as u128, dty), 4 if y != 0 => return self.trunc((x % y) as u128, dty), _ => {} }
                }
            }
        }
        if (c == 10 || c == 13) && a == b && !self.ty(a).map_or(true, |t| t.is_floating_point()) { return self.boolean(c == 10); }
        // bool == const
        if c == 10 || c == 13 { if let Term::Int(y, t) = self.t(b) { if t.is_bool() { let pos = (y == 1) == (c == 10); return if pos { a } else { self.mk(Term::Un(0, a), Some(dty)) }; } } }
        self.mk(Term::Bin(c, a, b), Some(dty))
    }
}


fn assert_msg<'tcx>(m: &AssertMessage<'tcx>) -> String {
    match m { AssertKind::BoundsCheck { .. } => "bounds".into(), AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op), AssertKind::OverflowNeg(_) => "overflow:Neg".into(), AssertKind::DivisionByZero(_) => "div0".into(), AssertKind::RemainderByZero(_) => "rem0".into(), _ => "assert".into() }
}
include!("calls.rs");
