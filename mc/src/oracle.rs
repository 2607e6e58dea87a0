//! Reference interpreter over the abstract syntax of `wasm.rs`: one flat operand stack of raw bits,
//! an explicit label stack per frame, and a store of instances, in the style of the specification.
use crate::num::*;
use crate::simd;
use crate::wasm::*;
use std::rc::Rc;

pub const NULL: u128 = u128::MAX;

pub struct Code { pub ops: Vec<Op>, ctl: Vec<(u32, u32)>, ar: Vec<(u32, u32)>, locals: Vec<VT>, lanes: std::cell::OnceCell<Lanes> }
/// Slots in use per lane (32, 64, 128 bits): the locals, and the operands before each instruction.
pub struct Lanes { locals: [u64; 3], at: Vec<Option<[u64; 3]>> }
pub fn lanes<'a>(ts: impl Iterator<Item = &'a VT>) -> [u64; 3] { let mut n = [0; 3]; for t in ts { n[match t { VT::I64 | VT::F64 => 1, VT::V128 => 2, _ => 0 }] += 1 } n }
fn add3(a: [u64; 3], b: [u64; 3]) -> [u64; 3] { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn sub3(a: [u64; 3], b: [u64; 3]) -> [u64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn max3(a: [u64; 3], b: [u64; 3]) -> [u64; 3] { [a[0].max(b[0]), a[1].max(b[1]), a[2].max(b[2])] }
impl Code {
    pub fn new(m: &Module, f: &Func) -> Code {
        let mut ops = f.body.clone();
        ops.push(Op::End);
        let n = ops.len();
        let (mut ctl, mut ar) = (vec![(0, 0); n], vec![(0, 0); n]);
        let mut st: Vec<usize> = Vec::new();
        for (i, op) in ops.iter().enumerate() {
            match op {
                Op::Block(b) | Op::Loop(b) | Op::If(b) => {
                    st.push(i);
                    ar[i] = match b { BT::Empty => (0, 0), BT::Val(_) => (0, 1), BT::Type(t) => (m.types[*t as usize].params.len() as u32, m.types[*t as usize].results.len() as u32) };
                }
                Op::Else => { let s = *st.last().unwrap(); ctl[s].1 = i as u32; }
                Op::End => if let Some(s) = st.pop() {
                    ctl[s].0 = i as u32;
                    if ctl[s].1 != 0 { let e = ctl[s].1 as usize; ctl[e].0 = i as u32; }
                }
                _ => {}
            }
        }
        Code { ops, ctl, ar, locals: f.locals.clone(), lanes: Default::default() }
    }
    fn lanes(&self, m: &Module, ft: &FT) -> &Lanes {
        self.lanes.get_or_init(|| {
            let all: Vec<VT> = ft.params.iter().chain(&self.locals).copied().collect();
            let env = crate::enumr::Env { m, locals: &all };
            let mut ts = crate::enumr::TS::new(&ft.results);
            let mut at = vec![];
            for (i, op) in self.ops.iter().enumerate() {
                at.push(if ts.ctl.last().unwrap().unreachable { None } else { ts.known().map(|k| lanes(k.iter())) });
                if i + 1 < self.ops.len() { ts.apply(&env, op).expect("valid code"); }
            }
            Lanes { locals: lanes(all.iter()), at }
        })
    }
}

pub type HostFn = Rc<dyn Fn(&mut RStore, usize, &[u128]) -> Result<Vec<u128>, Trap>>;
#[derive(Clone)]
pub enum RFuncKind { Wasm { inst: usize, code: Rc<Code> }, Host(HostFn) }
#[derive(Clone)]
pub struct RFunc { pub ty: FT, pub kind: RFuncKind }
#[derive(Clone, PartialEq, Debug)]
pub struct RTable { pub ty: VT, pub lim: Limits, pub elems: Vec<u128> }
#[derive(Clone, PartialEq, Debug)]
pub struct RMem { pub lim: Limits, pub data: Vec<u8>, pub pages: u64 }
impl RMem {
    pub fn page_log2(&self) -> u32 { self.lim.page_log2.unwrap_or(16) }
    pub fn new(lim: Limits) -> RMem { let b = lim.min << lim.page_log2.unwrap_or(16); RMem { lim, data: vec![0; b as usize], pages: lim.min } }
    /// The most pages this memory may ever have.
    pub fn cap(&self) -> u64 {
        let hard = 1u64 << (32 - self.page_log2());
        self.lim.max.unwrap_or(hard).min(hard)
    }
    pub fn grow(&mut self, d: u64) -> Option<u64> {
        let old = self.pages;
        let new = old.checked_add(d)?;
        if new > self.cap() { return None; }
        self.data.resize((new << self.page_log2()) as usize, 0);
        self.pages = new;
        Some(old)
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct RGlobal { pub ty: VT, pub mutable: bool, pub v: u128 }
pub struct RInst { pub module: Rc<Module>, pub funcs: Vec<usize>, pub tables: Vec<usize>, pub mems: Vec<usize>, pub globals: Vec<usize>, pub elems: Vec<usize>, pub datas: Vec<usize> }

#[derive(Default)]
pub struct RStore {
    pub funcs: Vec<RFunc>, pub tables: Vec<RTable>, pub mems: Vec<RMem>, pub globals: Vec<RGlobal>,
    pub elems: Vec<Vec<u128>>, pub datas: Vec<Vec<u8>>, pub insts: Vec<RInst>,
    pub budget: u64, pub max_depth: usize, pub depth: usize, pub peak_depth: usize,
    /// host calls record here
    pub log: Vec<String>,
    /// executed wasm instructions
    pub steps: u64,
    /// when set, `peak` and `floor` are maintained
    pub track: bool,
    lane_base: [u64; 3],
    /// the most slots per lane a stack holding every local and operand uses
    pub peak: [u64; 3],
    /// slots any implementation needs: locals, operands under and arguments of calls, and results
    pub floor: [u64; 3],
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ext { Func(usize), Table(usize), Mem(usize), Global(usize) }
#[derive(Clone, PartialEq, Debug)]
pub enum InstErr { Unknown, Incompatible, Trap(Trap) }

struct Label { cont: u32, arity: u32, height: u32, is_loop: bool }

fn limits_match(size: u64, have: &Limits, want: &Limits) -> bool {
    have.is64 == want.is64 && size >= want.min && match (have.max, want.max) { (_, None) => true, (None, Some(_)) => false, (Some(h), Some(w)) => h <= w }
}

impl RStore {
    pub fn new() -> RStore { RStore { budget: u64::MAX, max_depth: usize::MAX, ..Default::default() } }
    pub fn host(&mut self, params: &[VT], results: &[VT], f: impl Fn(&mut RStore, usize, &[u128]) -> Result<Vec<u128>, Trap> + 'static) -> Ext {
        self.funcs.push(RFunc { ty: FT { params: params.to_vec(), results: results.to_vec() }, kind: RFuncKind::Host(Rc::new(f)) });
        Ext::Func(self.funcs.len() - 1)
    }
    pub fn export(&self, inst: usize, name: &str) -> Option<Ext> {
        let i = &self.insts[inst];
        i.module.exports.iter().find(|e| e.name == name).map(|e| { let k = e.idx as usize; match e.kind { EK::Func => Ext::Func(i.funcs[k]), EK::Table => Ext::Table(i.tables[k]), EK::Mem => Ext::Mem(i.mems[k]), EK::Global => Ext::Global(i.globals[k]) } })
    }
    pub fn func(&self, inst: usize, name: &str) -> usize { match self.export(inst, name) { Some(Ext::Func(f)) => f, e => panic!("{name}: {e:?}") } }

    pub fn import_matches(&self, m: &Module, k: &ImportKind, e: &Ext) -> bool {
        match (k, e) {
            (ImportKind::Func(t), Ext::Func(f)) => self.funcs[*f].ty == m.types[*t as usize],
            (ImportKind::Global(t, mu), Ext::Global(g)) => self.globals[*g].ty == *t && self.globals[*g].mutable == *mu,
            (ImportKind::Table(t, l), Ext::Table(x)) => { let h = &self.tables[*x]; h.ty == *t && limits_match(h.elems.len() as u64, &h.lim, l) }
            (ImportKind::Mem(l), Ext::Mem(x)) => { let h = &self.mems[*x]; h.page_log2() == l.page_log2.unwrap_or(16) && limits_match(h.pages, &h.lim, l) }
            _ => false,
        }
    }

    fn const_expr(&self, inst: &RInst, ops: &[Op]) -> u128 {
        let mut st: Vec<u128> = Vec::new();
        for op in ops {
            match op {
                Op::I32C(v) => st.push(*v as u32 as u128), Op::I64C(v) => st.push(*v as u64 as u128), Op::F32C(v) => st.push(*v as u128), Op::F64C(v) => st.push(*v as u128), Op::VConst(v) => st.push(*v),
                Op::RefNull(_) => st.push(NULL), Op::RefFunc(f) => st.push(inst.funcs[*f as usize] as u128),
                Op::GGet(g) => st.push(self.globals[inst.globals[*g as usize]].v),
                Op::Num(b) => { let y = st.pop().unwrap(); let x = st.pop().unwrap(); st.push(num_op(*b, x, y).unwrap()) }
                o => panic!("const expr {o:?}"),
            }
        }
        st.pop().unwrap()
    }

    pub fn instantiate(&mut self, m: &Rc<Module>, imports: &[Option<Ext>]) -> Result<usize, InstErr> { self.instantiate_opt(m, imports, true) }
    pub fn instantiate_opt(&mut self, m: &Rc<Module>, imports: &[Option<Ext>], start: bool) -> Result<usize, InstErr> {
        let mut i = RInst { module: m.clone(), funcs: vec![], tables: vec![], mems: vec![], globals: vec![], elems: vec![], datas: vec![] };
        for (imp, e) in m.imports.iter().zip(imports) {
            let e = e.ok_or(InstErr::Unknown)?;
            if !self.import_matches(m, &imp.kind, &e) { return Err(InstErr::Incompatible); }
            match e { Ext::Func(x) => i.funcs.push(x), Ext::Table(x) => i.tables.push(x), Ext::Mem(x) => i.mems.push(x), Ext::Global(x) => i.globals.push(x) }
        }
        let id = self.insts.len();
        for f in &m.funcs {
            i.funcs.push(self.funcs.len());
            self.funcs.push(RFunc { ty: m.types[f.ty as usize].clone(), kind: RFuncKind::Wasm { inst: id, code: Rc::new(Code::new(m, f)) } });
        }
        for (t, l) in &m.tables { i.tables.push(self.tables.len()); self.tables.push(RTable { ty: *t, lim: *l, elems: vec![NULL; l.min as usize] }); }
        for l in &m.mems { i.mems.push(self.mems.len()); self.mems.push(RMem::new(*l)); }
        for g in &m.globals { let v = self.const_expr(&i, &g.init); i.globals.push(self.globals.len()); self.globals.push(RGlobal { ty: g.ty, mutable: g.mutable, v }); }
        for e in &m.elems { let v = e.items.iter().map(|x| self.const_expr(&i, x)).collect(); i.elems.push(self.elems.len()); self.elems.push(v); }
        for d in &m.datas { i.datas.push(self.datas.len()); self.datas.push(d.bytes.clone()); }
        self.insts.push(i);
        for (k, e) in m.elems.iter().enumerate() {
            let ea = self.insts[id].elems[k];
            match &e.mode {
                SegMode::Active { idx, offset } => {
                    let off = self.const_expr(&self.insts[id], offset);
                    let t = self.insts[id].tables[*idx as usize];
                    let n = self.elems[ea].len() as u128;
                    if off + n > self.tables[t].elems.len() as u128 { return Err(InstErr::Trap(Trap::TableOob)); }
                    let v = std::mem::take(&mut self.elems[ea]);
                    self.tables[t].elems[off as usize..off as usize + v.len()].copy_from_slice(&v);
                }
                SegMode::Declared => self.elems[ea].clear(),
                SegMode::Passive => {}
            }
        }
        for (k, d) in m.datas.iter().enumerate() {
            if let SegMode::Active { idx, offset } = &d.mode {
                let off = self.const_expr(&self.insts[id], offset);
                let mm = self.insts[id].mems[*idx as usize];
                let da = self.insts[id].datas[k];
                let n = self.datas[da].len() as u128;
                if off + n > self.mems[mm].data.len() as u128 { return Err(InstErr::Trap(Trap::MemOob)); }
                let v = std::mem::take(&mut self.datas[da]);
                self.mems[mm].data[off as usize..off as usize + v.len()].copy_from_slice(&v);
            }
        }
        if start { if let Some(s) = m.start { let f = self.insts[id].funcs[s as usize]; self.invoke(f, &[]).map_err(InstErr::Trap)?; } }
        Ok(id)
    }

    pub fn invoke(&mut self, f: usize, args: &[u128]) -> Result<Vec<u128>, Trap> {
        let (d, lb) = (self.depth, self.lane_base);
        if self.track { let t = self.funcs[f].ty.clone(); let n = add3(lb, lanes(t.params.iter())); self.peak = max3(self.peak, n); self.floor = max3(self.floor, n) }
        let r = self.call(f, args.to_vec(), usize::MAX);
        self.depth = d;
        self.lane_base = lb;
        r
    }

    fn call(&mut self, f: usize, args: Vec<u128>, caller: usize) -> Result<Vec<u128>, Trap> {
        let (mut f, mut args) = (f, args);
        let mut entered = false;
        loop {
            match self.funcs[f].kind.clone() {
                RFuncKind::Host(h) => {
                    if entered { self.depth -= 1; }
                    let mut r = h(self, caller, &args)?;
                    r.truncate(self.funcs[f].ty.results.len());
                    return Ok(r);
                }
                RFuncKind::Wasm { inst, code } => {
                    if !entered {
                        if self.depth >= self.max_depth { return Err(Trap::CallStack); }
                        self.depth += 1;
                        self.peak_depth = self.peak_depth.max(self.depth);
                        entered = true;
                    }
                    args.extend(code.locals.iter().map(|t| if t.is_ref() { NULL } else { 0 }));
                    let nres = self.funcs[f].ty.results.len();
                    let fty = if self.track { self.funcs[f].ty.clone() } else { FT::default() };
                    match self.run(inst, &code, args, nres, &fty)? {
                        Flow::Ret(v) => { self.depth -= 1; return Ok(v); }
                        Flow::Tail(g, a) => { f = g; args = a; }
                    }
                }
            }
        }
    }

    fn table_func(&self, inst: usize, table: u32, ty: u32, i: u128) -> Result<usize, Trap> {
        let t = &self.tables[self.insts[inst].tables[table as usize]];
        if i >= t.elems.len() as u128 { return Err(Trap::UndefinedElem); }
        let r = t.elems[i as usize];
        if r == NULL { return Err(Trap::UninitElem); }
        if self.funcs[r as usize].ty != self.insts[inst].module.types[ty as usize] { return Err(Trap::IndirectMismatch); }
        Ok(r as usize)
    }
    fn ea(&self, mem: usize, base: u128, off: u64, w: u32) -> Result<usize, Trap> {
        let a = base + off as u128;
        if a + w as u128 > self.mems[mem].data.len() as u128 { return Err(Trap::MemOob); }
        Ok(a as usize)
    }
    fn rd(&self, mem: usize, a: usize, w: u32) -> u128 { self.mems[mem].data[a..a + w as usize].iter().rev().fold(0, |v, b| v << 8 | *b as u128) }
    fn wr(&mut self, mem: usize, a: usize, w: u32, v: u128) { for i in 0..w as usize { self.mems[mem].data[a + i] = (v >> (8 * i)) as u8; } }

    fn run(&mut self, inst: usize, code: &Code, mut locals: Vec<u128>, nres: usize, code_ty: &FT) -> Result<Flow, Trap> {
        let mut st: Vec<u128> = Vec::with_capacity(16);
        let mut labels: Vec<Label> = vec![Label { cont: code.ops.len() as u32, arity: nres as u32, height: 0, is_loop: false }];
        let mut pc = 0usize;
        let base = self.lane_base;
        let ln: Option<(&Lanes, [u64; 3])> = if self.track {
            let m = self.insts[inst].module.clone();
            let l = code.lanes(&m, code_ty);
            let b = add3(base, l.locals);
            self.peak = max3(self.peak, b);
            self.floor = max3(self.floor, b);
            Some((l, b))
        } else { None };
        macro_rules! pop { () => { st.pop().expect("operand") } }
        macro_rules! bool_push { ($e:expr) => { st.push($e as u128) } }
        macro_rules! br { ($l:expr) => {{
            let k = labels.len() - 1 - $l as usize;
            let l = &labels[k];
            let (a, h) = (l.arity as usize, l.height as usize);
            let from = st.len() - a;
            st.copy_within(from.., h);
            st.truncate(h + a);
            pc = l.cont as usize;
            if l.is_loop { labels.truncate(k + 1) } else { labels.truncate(k) }
            if labels.is_empty() { return Ok(Flow::Ret(st)); }
        }} }
        loop {
            if self.budget == 0 { return Err(Trap::Budget); }
            self.budget -= 1;
            self.steps += 1;
            let op = &code.ops[pc];
            let at = pc;
            pc += 1;
            if let Some((l, b)) = ln {
                let n = add3(b, l.at[at].expect("reachable code"));
                self.peak = max3(self.peak, n);
                if matches!(op, Op::Call(_) | Op::CallIndirect { .. }) { self.floor = max3(self.floor, n) }
                if pc == code.ops.len() { self.floor = max3(self.floor, add3(base, l.at[at].unwrap())) }
            }
            match op {
                Op::Unreachable => return Err(Trap::Unreachable),
                Op::Nop => {}
                Op::Block(_) => { let (p, r) = code.ar[at]; labels.push(Label { cont: code.ctl[at].0 + 1, arity: r, height: st.len() as u32 - p, is_loop: false }) }
                Op::Loop(_) => { let (p, _) = code.ar[at]; labels.push(Label { cont: at as u32 + 1, arity: p, height: st.len() as u32 - p, is_loop: true }) }
                Op::If(_) => {
                    let c = pop!();
                    let (p, r) = code.ar[at];
                    let (end, els) = code.ctl[at];
                    labels.push(Label { cont: end + 1, arity: r, height: st.len() as u32 - p, is_loop: false });
                    if c == 0 { if els != 0 { pc = els as usize + 1 } else { pc = end as usize } }
                }
                Op::Else => pc = code.ctl[at].0 as usize,
                Op::End => { labels.pop(); if labels.is_empty() { assert_eq!(st.len(), nres, "stack height at function end"); return Ok(Flow::Ret(st)); } }
                Op::Br(l) => br!(*l),
                Op::BrIf(l) => if pop!() != 0 { br!(*l) },
                Op::BrTable(ls, d) => { let i = pop!(); let l = if i < ls.len() as u128 { ls[i as usize] } else { *d }; br!(l) }
                Op::Return => { let k = labels.len() - 1; br!(k) }
                Op::Call(_) | Op::CallIndirect { .. } | Op::ReturnCall(_) | Op::ReturnCallIndirect { .. } => {
                    let (f, tail) = match op {
                        Op::Call(f) => (self.insts[inst].funcs[*f as usize], false), Op::ReturnCall(f) => (self.insts[inst].funcs[*f as usize], true),
                        Op::CallIndirect { ty, table } => { let i = pop!(); (self.table_func(inst, *table, *ty, i)?, false) }
                        Op::ReturnCallIndirect { ty, table } => { let i = pop!(); (self.table_func(inst, *table, *ty, i)?, true) }
                        _ => unreachable!(),
                    };
                    let n = self.funcs[f].ty.params.len();
                    let args = st.split_off(st.len() - n);
                    if let (Some((l, b)), false) = (ln, tail) {
                        let mut h = l.at[at].unwrap();
                        if matches!(op, Op::CallIndirect { .. }) { let i64t = if let Op::CallIndirect { table, .. } = op { self.tables[self.insts[inst].tables[*table as usize]].lim.is64 } else { false }; h[i64t as usize] -= 1 }
                        self.lane_base = sub3(add3(b, h), lanes(self.funcs[f].ty.params.iter()));
                    }
                    if tail {
                        if matches!(self.funcs[f].kind, RFuncKind::Host(_)) {
                            if let Some((l, b)) = ln { self.peak = max3(self.peak, add3(add3(b, l.at[at].unwrap()), lanes(self.funcs[f].ty.results.iter()))) }
                            return Ok(Flow::Ret(self.call(f, args, inst)?));
                        }
                        return Ok(Flow::Tail(f, args));
                    }
                    st.extend(self.call(f, args, inst)?);
                    self.lane_base = base;
                }
                Op::Drop => { pop!(); }
                Op::Select | Op::SelectT(_) => { let c = pop!(); let b = pop!(); if c == 0 { *st.last_mut().unwrap() = b } }
                Op::LGet(i) => st.push(locals[*i as usize]),
                Op::LSet(i) => locals[*i as usize] = pop!(),
                Op::LTee(i) => locals[*i as usize] = *st.last().unwrap(),
                Op::GGet(g) => st.push(self.globals[self.insts[inst].globals[*g as usize]].v),
                Op::GSet(g) => { let a = self.insts[inst].globals[*g as usize]; self.globals[a].v = pop!() }
                Op::TGet(t) => { let i = pop!(); let t = &self.tables[self.insts[inst].tables[*t as usize]]; if i >= t.elems.len() as u128 { return Err(Trap::TableOob); } st.push(t.elems[i as usize]) }
                Op::TSet(t) => { let v = pop!(); let i = pop!(); let t = self.insts[inst].tables[*t as usize]; let t = &mut self.tables[t]; if i >= t.elems.len() as u128 { return Err(Trap::TableOob); } t.elems[i as usize] = v }
                Op::Mem { op, m } => {
                    let (t, w, store) = mem_sig(*op);
                    let mem = self.insts[inst].mems[m.mem as usize];
                    if store {
                        let v = pop!(); let b = pop!();
                        let a = self.ea(mem, b, m.offset, w)?;
                        self.wr(mem, a, w, v);
                    } else {
                        let b = pop!();
                        let a = self.ea(mem, b, m.offset, w)?;
                        let raw = self.rd(mem, a, w);
                        let signed = matches!(op, 0x2c | 0x2e | 0x30 | 0x32 | 0x34);
                        let v = if signed { ((raw as i128) << (128 - 8 * w)) >> (128 - 8 * w) } else { raw as i128 };
                        st.push(if t == VT::I32 || t == VT::F32 { v as u32 as u128 } else { v as u64 as u128 });
                    }
                }
                Op::MemSize(m) => st.push(self.mems[self.insts[inst].mems[*m as usize]].pages as u128),
                Op::MemGrow(m) => { let d = pop!() as u64; let a = self.insts[inst].mems[*m as usize]; let is64 = self.mems[a].lim.is64; let r = self.mems[a].grow(d); st.push(match r { Some(o) => o as u128, None if is64 => u64::MAX as u128, None => u32::MAX as u128 }) }
                Op::I32C(v) => st.push(*v as u32 as u128), Op::I64C(v) => st.push(*v as u64 as u128), Op::F32C(v) => st.push(*v as u128), Op::F64C(v) => st.push(*v as u128),
                Op::Num(b) => if is_binary(*b) { let y = pop!(); let x = pop!(); st.push(num_op(*b, x, y)?) } else { let x = pop!(); st.push(num_op(*b, x, 0)?) },
                Op::RefNull(_) => st.push(NULL),
                Op::RefIsNull => { let v = pop!(); bool_push!(v == NULL) }
                Op::RefFunc(f) => st.push(self.insts[inst].funcs[*f as usize] as u128),
                Op::Sat(s) => { let x = pop!(); st.push(sat_op(*s, x)) }
                Op::Wide(w) => { let n = if *w < 21 { 4 } else { 2 }; let a = st.split_off(st.len() - n); let (lo, hi) = wide_op(*w, &a); st.push(lo); st.push(hi) }
                Op::MemInit { data, mem } => {
                    let n = pop!(); let s = pop!(); let d = pop!();
                    let (m, da) = (self.insts[inst].mems[*mem as usize], self.insts[inst].datas[*data as usize]);
                    if s + n > self.datas[da].len() as u128 || d + n > self.mems[m].data.len() as u128 { return Err(Trap::MemOob); }
                    let (s, d, n) = (s as usize, d as usize, n as usize);
                    let src = self.datas[da][s..s + n].to_vec();
                    self.mems[m].data[d..d + n].copy_from_slice(&src);
                }
                Op::DataDrop(x) => { let a = self.insts[inst].datas[*x as usize]; self.datas[a] = vec![] }
                Op::MemCopy { dst, src } => {
                    let n = pop!(); let s = pop!(); let d = pop!();
                    let (md, ms) = (self.insts[inst].mems[*dst as usize], self.insts[inst].mems[*src as usize]);
                    if s + n > self.mems[ms].data.len() as u128 || d + n > self.mems[md].data.len() as u128 { return Err(Trap::MemOob); }
                    let (s, d, n) = (s as usize, d as usize, n as usize);
                    let buf = self.mems[ms].data[s..s + n].to_vec();
                    self.mems[md].data[d..d + n].copy_from_slice(&buf);
                }
                Op::MemFill(m) => {
                    let n = pop!(); let v = pop!(); let d = pop!();
                    let m = self.insts[inst].mems[*m as usize];
                    if d + n > self.mems[m].data.len() as u128 { return Err(Trap::MemOob); }
                    self.mems[m].data[d as usize..(d + n) as usize].fill(v as u8);
                }
                Op::TableInit { elem, table } => {
                    let n = pop!(); let s = pop!(); let d = pop!();
                    let (t, e) = (self.insts[inst].tables[*table as usize], self.insts[inst].elems[*elem as usize]);
                    if s + n > self.elems[e].len() as u128 || d + n > self.tables[t].elems.len() as u128 { return Err(Trap::TableOob); }
                    let src = self.elems[e][s as usize..(s + n) as usize].to_vec();
                    self.tables[t].elems[d as usize..(d + n) as usize].copy_from_slice(&src);
                }
                Op::ElemDrop(e) => { let a = self.insts[inst].elems[*e as usize]; self.elems[a] = vec![] }
                Op::TableCopy { dst, src } => {
                    let n = pop!(); let s = pop!(); let d = pop!();
                    let (td, ts) = (self.insts[inst].tables[*dst as usize], self.insts[inst].tables[*src as usize]);
                    if s + n > self.tables[ts].elems.len() as u128 || d + n > self.tables[td].elems.len() as u128 { return Err(Trap::TableOob); }
                    let buf = self.tables[ts].elems[s as usize..(s + n) as usize].to_vec();
                    self.tables[td].elems[d as usize..(d + n) as usize].copy_from_slice(&buf);
                }
                Op::TableGrow(t) => {
                    let n = pop!(); let v = pop!();
                    let t = self.insts[inst].tables[*t as usize];
                    let t = &mut self.tables[t];
                    let old = t.elems.len() as u128;
                    if old + n > t.lim.max.unwrap_or(10_000_000).min(10_000_000) as u128 { st.push(if t.lim.is64 { u64::MAX as u128 } else { u32::MAX as u128 }) } else { t.elems.resize((old + n) as usize, v); st.push(old) }
                }
                Op::TableSize(t) => st.push(self.tables[self.insts[inst].tables[*t as usize]].elems.len() as u128),
                Op::TableFill(t) => {
                    let n = pop!(); let v = pop!(); let d = pop!();
                    let t = self.insts[inst].tables[*t as usize];
                    if d + n > self.tables[t].elems.len() as u128 { return Err(Trap::TableOob); }
                    self.tables[t].elems[d as usize..(d + n) as usize].fill(v);
                }
                Op::VConst(v) => st.push(*v),
                Op::Shuffle(l) => { let b = pop!(); let a = pop!(); st.push(simd::shuffle(a, b, l)) }
                Op::VLane { sub, lane } => if matches!(sub, 23 | 26 | 28 | 30 | 32 | 34) { let x = pop!(); let v = pop!(); st.push(simd::lane_op(*sub, *lane, v, x)) } else { let v = pop!(); st.push(simd::lane_op(*sub, *lane, v, 0)) },
                Op::V(sub) => match v_sig(*sub).0.len() {
                    1 => { let a = pop!(); st.push(simd::v_op(*sub, a, 0, 0)[0]) }
                    2 => { let b = pop!(); let a = pop!(); st.push(simd::v_op(*sub, a, b, 0)[0]) }
                    _ => { let c = pop!(); let b = pop!(); let a = pop!(); st.push(simd::v_op(*sub, a, b, c)[0]) }
                },
                Op::VMem { sub, m, lane } => {
                    let w = vmem_width(*sub);
                    let mem = self.insts[inst].mems[m.mem as usize];
                    match sub {
                        11 => { let v = pop!(); let b = pop!(); let a = self.ea(mem, b, m.offset, w)?; self.wr(mem, a, 16, v) }
                        84..=87 => { let v = pop!(); let b = pop!(); let a = self.ea(mem, b, m.offset, w)?; let x = self.rd(mem, a, w); st.push(put_lane(v, w * 8, *lane, x)) }
                        88..=91 => { let v = pop!(); let b = pop!(); let a = self.ea(mem, b, m.offset, w)?; self.wr(mem, a, w, v >> (w * 8 * *lane as u32)) }
                        _ => { let b = pop!(); let a = self.ea(mem, b, m.offset, w)?; let x = self.rd(mem, a, w); st.push(simd::load_ext(*sub, x)) }
                    }
                }
            }
        }
    }
}
fn put_lane(v: u128, bits: u32, lane: u8, x: u128) -> u128 {
    let sh = bits * lane as u32;
    let m = ((1u128 << bits) - 1) << sh;
    v & !m | (x << sh) & m
}
enum Flow { Ret(Vec<u128>), Tail(usize, Vec<u128>) }
