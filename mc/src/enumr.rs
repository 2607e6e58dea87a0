//! Type-directed exhaustive enumeration of instruction sequences: a small-step validator over the
//! abstract syntax (the specification's algorithm, including unreachable code) and a depth-first
//! enumeration of every valid sequence of atoms up to a length.
use crate::wasm::*;

#[derive(Clone, Debug)]
pub struct Ctl { pub kind: u8, pub params: Vec<VT>, pub results: Vec<VT>, pub height: usize, pub unreachable: bool }
#[derive(Clone, Debug)]
pub struct TS { pub st: Vec<Option<VT>>, pub ctl: Vec<Ctl> }
pub struct Env<'a> { pub m: &'a Module, pub locals: &'a [VT] }

impl TS {
    pub fn new(results: &[VT]) -> TS { TS { st: vec![], ctl: vec![Ctl { kind: 0, params: vec![], results: results.to_vec(), height: 0, unreachable: false }] } }
    fn pop(&mut self) -> Option<Option<VT>> {
        let c = self.ctl.last()?;
        if self.st.len() == c.height { return if c.unreachable { Some(None) } else { None }; }
        self.st.pop()
    }
    fn pop_t(&mut self, t: VT) -> Option<()> { match self.pop()? { None => Some(()), Some(x) if x == t => Some(()), _ => None } }
    fn pops(&mut self, ts: &[VT]) -> Option<()> { for t in ts.iter().rev() { self.pop_t(*t)? } Some(()) }
    fn pushes(&mut self, ts: &[VT]) { self.st.extend(ts.iter().map(|t| Some(*t))) }
    fn unreach(&mut self) { let c = self.ctl.last_mut().unwrap(); c.unreachable = true; let h = c.height; self.st.truncate(h) }
    fn label(&self, l: u32) -> Option<Vec<VT>> { let n = self.ctl.len(); let c = self.ctl.get(n.checked_sub(1 + l as usize)?)?; Some(if c.kind == 1 { c.params.clone() } else { c.results.clone() }) }
    fn push_ctl(&mut self, kind: u8, params: Vec<VT>, results: Vec<VT>) { self.ctl.push(Ctl { kind, height: self.st.len(), unreachable: false, params: params.clone(), results }); self.pushes(&params) }
    fn pop_ctl(&mut self) -> Option<Ctl> {
        let r = self.ctl.last()?.results.clone();
        self.pops(&r)?;
        if self.st.len() != self.ctl.last()?.height { return None; }
        self.ctl.pop()
    }
    /// Applies one instruction; None if it is not valid here.
    pub fn apply(&mut self, e: &Env, op: &Op) -> Option<()> {
        use VT::*;
        let bt = |b: &BT| match b { BT::Empty => (vec![], vec![]), BT::Val(t) => (vec![], vec![*t]), BT::Type(t) => { let f = &e.m.types[*t as usize]; (f.params.clone(), f.results.clone()) } };
        macro_rules! sig { ($i:expr, $o:expr) => {{ self.pops($i)?; self.pushes($o) }} }
        let addr = |m: u32| e.m.all_mems().get(m as usize).map(|l| if l.is64 { I64 } else { I32 });
        let taddr = |t: u32| e.m.all_tables().get(t as usize).map(|(_, l)| if l.is64 { I64 } else { I32 });
        match op {
            Op::Unreachable => self.unreach(),
            Op::Nop => {}
            Op::Block(b) => { let (p, r) = bt(b); self.pops(&p)?; self.push_ctl(0, p, r) }
            Op::Loop(b) => { let (p, r) = bt(b); self.pops(&p)?; self.push_ctl(1, p, r) }
            Op::If(b) => { let (p, r) = bt(b); self.pop_t(I32)?; self.pops(&p)?; self.push_ctl(2, p, r) }
            Op::Else => { if self.ctl.last()?.kind != 2 { return None; } let c = self.pop_ctl()?; self.push_ctl(3, c.params, c.results) }
            Op::End => {
                if self.ctl.len() < 2 { return None; }
                let c = self.pop_ctl()?;
                if c.kind == 2 && c.params != c.results { return None; }
                self.pushes(&c.results)
            }
            Op::Br(l) => { let t = self.label(*l)?; self.pops(&t)?; self.unreach() }
            Op::BrIf(l) => { self.pop_t(I32)?; let t = self.label(*l)?; self.pops(&t)?; self.pushes(&t) }
            Op::BrTable(ls, d) => {
                self.pop_t(I32)?;
                let t = self.label(*d)?;
                for l in ls.iter() { if self.label(*l)? != t { return None; } }
                self.pops(&t)?;
                self.unreach()
            }
            Op::Return => { let t = self.ctl[0].results.clone(); self.pops(&t)?; self.unreach() }
            Op::Call(f) => { let t = e.m.func_type(*f).clone(); sig!(&t.params, &t.results) }
            Op::CallIndirect { ty, table } => { let t = e.m.types[*ty as usize].clone(); self.pop_t(taddr(*table)?)?; sig!(&t.params, &t.results) }
            Op::ReturnCall(f) => { let t = e.m.func_type(*f).clone(); if t.results != self.ctl[0].results { return None; } self.pops(&t.params)?; self.unreach() }
            Op::ReturnCallIndirect { ty, table } => { let t = e.m.types[*ty as usize].clone(); if t.results != self.ctl[0].results { return None; } self.pop_t(taddr(*table)?)?; self.pops(&t.params)?; self.unreach() }
            Op::Drop => { self.pop()?; }
            Op::Select => {
                self.pop_t(I32)?;
                let (a, b) = (self.pop()?, self.pop()?);
                let t = match (a, b) { (Some(x), Some(y)) if x != y => return None, (Some(x), _) | (_, Some(x)) => Some(x), _ => None };
                if t.is_some_and(|t| t.is_ref()) { return None; }
                self.st.push(t)
            }
            Op::SelectT(t) => sig!(&[*t, *t, I32], &[*t]),
            Op::LGet(i) => self.pushes(&[e.locals[*i as usize]]),
            Op::LSet(i) => self.pop_t(e.locals[*i as usize])?,
            Op::LTee(i) => { let t = e.locals[*i as usize]; sig!(&[t], &[t]) }
            Op::GGet(g) => { let t = e.m.all_globals()[*g as usize].0; self.pushes(&[t]) }
            Op::GSet(g) => { let (t, m) = e.m.all_globals()[*g as usize]; if !m { return None; } self.pop_t(t)? }
            Op::TGet(t) => { let a = taddr(*t)?; let t = e.m.all_tables()[*t as usize].0; sig!(&[a], &[t]) }
            Op::TSet(t) => { let a = taddr(*t)?; let t = e.m.all_tables()[*t as usize].0; sig!(&[a, t], &[]) }
            Op::Mem { op, m } => { let a = addr(m.mem)?; let (t, _, st) = mem_sig(*op); if st { sig!(&[a, t], &[]) } else { sig!(&[a], &[t]) } }
            Op::MemSize(m) => { let a = addr(*m)?; self.pushes(&[a]) }
            Op::MemGrow(m) => { let a = addr(*m)?; sig!(&[a], &[a]) }
            Op::I32C(_) => self.pushes(&[I32]), Op::I64C(_) => self.pushes(&[I64]), Op::F32C(_) => self.pushes(&[F32]), Op::F64C(_) => self.pushes(&[F64]),
            Op::Num(b) => { let (i, o) = num_sig(*b); sig!(i, o) }
            Op::RefNull(t) => self.pushes(&[*t]),
            Op::RefIsNull => { if !self.pop()?.is_none_or(|t| t.is_ref()) { return None; } self.pushes(&[I32]) }
            Op::RefFunc(_) => self.pushes(&[Func]),
            Op::Sat(s) => { let (i, o) = sat_sig(*s); sig!(i, o) }
            Op::Wide(s) => { let (i, o) = sat_sig(*s); sig!(i, o) }
            Op::MemInit { mem, .. } => { let a = addr(*mem)?; sig!(&[a, I32, I32], &[]) }
            Op::DataDrop(_) | Op::ElemDrop(_) => {}
            Op::MemCopy { dst, src } => { let (d, s) = (addr(*dst)?, addr(*src)?); sig!(&[d, s, if d == I64 && s == I64 { I64 } else { I32 }], &[]) }
            Op::MemFill(m) => { let a = addr(*m)?; sig!(&[a, I32, a], &[]) }
            Op::TableInit { table, .. } => { let a = taddr(*table)?; sig!(&[a, I32, I32], &[]) }
            Op::TableCopy { dst, src } => { let (d, s) = (taddr(*dst)?, taddr(*src)?); sig!(&[d, s, if d == I64 && s == I64 { I64 } else { I32 }], &[]) }
            Op::TableGrow(t) => { let a = taddr(*t)?; let t = e.m.all_tables()[*t as usize].0; sig!(&[t, a], &[a]) }
            Op::TableSize(t) => { let a = taddr(*t)?; self.pushes(&[a]) }
            Op::TableFill(t) => { let a = taddr(*t)?; let t = e.m.all_tables()[*t as usize].0; sig!(&[a, t, a], &[]) }
            Op::VConst(_) => self.pushes(&[V128]),
            Op::Shuffle(_) => sig!(&[V128, V128], &[V128]),
            Op::VLane { sub, .. } => { let (i, o) = v_sig(*sub); sig!(i, o) }
            Op::V(sub) => { let (i, o) = v_sig(*sub); sig!(i, o) }
            Op::VMem { sub, m, .. } => { let a = addr(m.mem)?; match sub { 11 | 88..=91 => sig!(&[a, V128], &[]), 84..=87 => sig!(&[a, V128], &[V128]), _ => sig!(&[a], &[V128]) } }
        }
        Some(())
    }
    /// The whole specification of one instruction: immediates in range, then types. `declared` are the functions that
    /// may be referenced. Unlike `apply`, arbitrary instructions may be given.
    pub fn check(&mut self, e: &Env, declared: &[u32], op: &Op) -> Option<()> {
        let nf = e.m.n_imp(EK::Func) as usize + e.m.funcs.len();
        let ty = |t: &u32| ((*t as usize) < e.m.types.len()).then_some(());
        let f = |f: &u32| ((*f as usize) < nf).then_some(());
        let g = |g: &u32| ((*g as usize) < e.m.all_globals().len()).then_some(());
        let tab = |t: &u32| e.m.all_tables().get(*t as usize).copied();
        let ma = |m: &MA, width: u32| { let l = *e.m.all_mems().get(m.mem as usize)?; (1u64.checked_shl(m.align as u32).unwrap_or(0).wrapping_sub(1) < width as u64 && (l.is64 || m.offset <= u32::MAX as u64)).then_some(()) };
        if self.ctl.is_empty() { return None }
        match op {
            Op::Block(BT::Type(t)) | Op::Loop(BT::Type(t)) | Op::If(BT::Type(t)) => ty(t)?,
            Op::Call(x) | Op::ReturnCall(x) => f(x)?,
            Op::CallIndirect { ty: t, table } | Op::ReturnCallIndirect { ty: t, table } => { ty(t)?; if tab(table)?.0 != VT::Func { return None } }
            Op::LGet(i) | Op::LSet(i) | Op::LTee(i) => if *i as usize >= e.locals.len() { return None },
            Op::GGet(i) | Op::GSet(i) => g(i)?,
            Op::TGet(t) | Op::TSet(t) | Op::TableGrow(t) | Op::TableSize(t) | Op::TableFill(t) => { tab(t)?; }
            Op::TableCopy { dst, src } => if tab(dst)?.0 != tab(src)?.0 { return None },
            Op::TableInit { elem, table } => if e.m.elems.get(*elem as usize)?.ty != tab(table)?.0 { return None },
            Op::ElemDrop(x) => { e.m.elems.get(*x as usize)?; }
            Op::MemInit { data, .. } | Op::DataDrop(data) => { e.m.datas.get(*data as usize)?; }
            Op::RefFunc(x) => { f(x)?; if !declared.contains(x) { return None } }
            Op::Mem { op, m } => ma(m, mem_sig(*op).1)?,
            Op::VMem { sub, m, lane } => { let w = vmem_width(*sub); ma(m, w)?; if matches!(sub, 84..=91) && *lane as u32 >= 16 / w { return None } }
            Op::VLane { sub, lane } => { let n = match sub { 21..=23 => 16, 24..=26 => 8, 27 | 28 | 31 | 32 => 4, _ => 2 }; if *lane >= n { return None } }
            Op::Shuffle(s) => if s.iter().any(|x| *x >= 32) { return None },
            Op::BrTable(ls, d) => {
                self.pop_t(VT::I32)?;
                let t = self.label(*d)?;
                for l in ls.iter() {
                    let tl = self.label(*l)?;
                    if tl.len() != t.len() { return None }
                    self.clone().pops(&tl)?;
                }
                self.pops(&t)?;
                self.unreach();
                return Some(());
            }
            // the end of the function
            Op::End if self.ctl.len() == 1 => { self.pop_ctl()?; return Some(()) }
            _ => (),
        }
        self.apply(e, op)
    }
    pub fn finished(&self) -> bool { self.ctl.is_empty() }
    pub fn known(&self) -> Option<Vec<VT>> { self.st.iter().copied().collect() }
}

pub struct Spec<'a> {
    pub env: Env<'a>,
    /// result types of the outermost label; None = the remaining stack is the result
    pub results: Option<Vec<VT>>,
    pub atoms: &'a [Vec<Op>],
    pub max_len: usize,
    pub max_stack: usize,
    pub max_ctl: usize,
    /// instructions allowed after control became unreachable within one frame
    pub max_dead: usize,
    pub min_len: usize,
}
impl Spec<'_> {
    /// Calls `emit(body, result types)` for every complete valid sequence starting with the given atoms.
    pub fn dfs(&self, prefix: &[usize], emit: &mut dyn FnMut(&[Op], &[VT])) {
        let mut ts = TS::new(self.results.as_deref().unwrap_or(&[]));
        let mut body = Vec::new();
        let mut dead = 0;
        for a in prefix { if self.step(&mut ts, &mut body, &mut dead, *a).is_none() { return; } }
        self.rec(&ts, &mut body, prefix.len(), dead, emit)
    }
    /// All valid prefixes of exactly `n` atoms, plus all complete shorter sequences through `emit`.
    pub fn prefixes(&self, n: usize, emit: &mut dyn FnMut(&[Op], &[VT])) -> Vec<Vec<usize>> {
        let mut out = vec![];
        let mut cur: Vec<Vec<usize>> = vec![vec![]];
        for d in 0..=n.min(self.max_len) {
            let mut next = vec![];
            for p in cur {
                let mut ts = TS::new(self.results.as_deref().unwrap_or(&[]));
                let (mut body, mut dead) = (Vec::new(), 0);
                if p.iter().any(|a| self.step(&mut ts, &mut body, &mut dead, *a).is_none()) { continue; }
                if d == n { out.push(p); continue; }
                self.leaf(&ts, &mut body, d, emit);
                for a in 0..self.atoms.len() { let mut q = p.clone(); q.push(a); next.push(q) }
            }
            cur = next;
        }
        out
    }
    fn step(&self, ts: &mut TS, body: &mut Vec<Op>, dead: &mut usize, a: usize) -> Option<()> {
        for op in &self.atoms[a] {
            if self.results.is_none() && matches!(op, Op::Return | Op::ReturnCall(_) | Op::ReturnCallIndirect { .. }) { return None; }
            if ts.ctl.last()?.unreachable && !matches!(op, Op::End | Op::Else) { *dead += 1; if *dead > self.max_dead { return None; } }
            ts.apply(&self.env, op)?;
            if ts.st.len() > self.max_stack || ts.ctl.len() > self.max_ctl + 1 { return None; }
            body.push(op.clone());
        }
        Some(())
    }
    fn leaf(&self, ts: &TS, body: &mut Vec<Op>, len: usize, emit: &mut dyn FnMut(&[Op], &[VT])) {
        if len < self.min_len { return; }
        let n = body.len();
        let mut t = ts.clone();
        // close open frames where the stack already has the right shape (only at the full length, so
        // that every program is produced once)
        if t.ctl.len() > 1 {
            if len < self.max_len { return; }
            while t.ctl.len() > 1 { if t.apply(&self.env, &Op::End).is_none() { body.truncate(n); return; } body.push(Op::End); }
        }
        match &self.results {
            None => if !t.ctl[0].unreachable && let Some(k) = t.known() { emit(body, &k) },
            Some(r) => { if t.pops(r).is_some() && t.st.is_empty() { let r = r.clone(); emit(body, &r) } }
        }
        body.truncate(n);
    }
    fn rec(&self, ts: &TS, body: &mut Vec<Op>, len: usize, dead: usize, emit: &mut dyn FnMut(&[Op], &[VT])) {
        self.leaf(ts, body, len, emit);
        if len == self.max_len { return; }
        for a in 0..self.atoms.len() {
            let n = body.len();
            let mut t = ts.clone();
            let mut d = dead;
            if self.step(&mut t, body, &mut d, a).is_some() { self.rec(&t, body, len + 1, d, emit); }
            body.truncate(n);
        }
    }
}
