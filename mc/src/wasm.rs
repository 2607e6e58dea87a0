//! A small WebAssembly abstract syntax, with a binary encoder and decoder written from the
//! specification's binary format. It shares no code with the implementation under test.
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum VT { I32, I64, F32, F64, V128, Func, Ext }

impl VT {
    pub fn byte(self) -> u8 {
        match self { VT::I32 => 0x7f, VT::I64 => 0x7e, VT::F32 => 0x7d, VT::F64 => 0x7c, VT::V128 => 0x7b, VT::Func => 0x70, VT::Ext => 0x6f }
    }
    pub fn from_byte(b: u8) -> Option<VT> {
        Some(match b { 0x7f => VT::I32, 0x7e => VT::I64, 0x7d => VT::F32, 0x7c => VT::F64, 0x7b => VT::V128, 0x70 => VT::Func, 0x6f => VT::Ext, _ => return None })
    }
    pub fn is_ref(self) -> bool { matches!(self, VT::Func | VT::Ext) }
    pub const ALL: [VT; 7] = [VT::I32, VT::I64, VT::F32, VT::F64, VT::V128, VT::Func, VT::Ext];
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct FT { pub params: Vec<VT>, pub results: Vec<VT> }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BT { Empty, Val(VT), Type(u32) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct MA { pub align: u8, pub offset: u64, pub mem: u32 }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Unreachable, Nop, Block(BT), Loop(BT), If(BT), Else, End, Br(u32), BrIf(u32), BrTable(Box<[u32]>, u32), Return,
    Call(u32), CallIndirect { ty: u32, table: u32 }, ReturnCall(u32), ReturnCallIndirect { ty: u32, table: u32 },
    Drop, Select, SelectT(VT),
    LGet(u32), LSet(u32), LTee(u32), GGet(u32), GSet(u32), TGet(u32), TSet(u32),
    Mem { op: u8, m: MA }, MemSize(u32), MemGrow(u32),
    I32C(i32), I64C(i64), F32C(u32), F64C(u64), Num(u8),
    RefNull(VT), RefIsNull, RefFunc(u32),
    Sat(u8), MemInit { data: u32, mem: u32 }, DataDrop(u32), MemCopy { dst: u32, src: u32 }, MemFill(u32),
    TableInit { elem: u32, table: u32 }, ElemDrop(u32), TableCopy { dst: u32, src: u32 }, TableGrow(u32), TableSize(u32), TableFill(u32),
    Wide(u8),
    VMem { sub: u32, m: MA, lane: u8 }, VConst(u128), Shuffle([u8; 16]), VLane { sub: u32, lane: u8 }, V(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Limits { pub min: u64, pub max: Option<u64>, pub is64: bool, pub page_log2: Option<u32> }
impl Limits {
    pub fn new(min: u64, max: Option<u64>) -> Self { Limits { min, max, is64: false, page_log2: None } }
    pub fn new64(min: u64, max: Option<u64>) -> Self { Limits { min, max, is64: true, page_log2: None } }
}

#[derive(Clone, PartialEq, Debug)]
pub enum ImportKind { Func(u32), Table(VT, Limits), Mem(Limits), Global(VT, bool) }
#[derive(Clone, PartialEq, Debug)]
pub struct Import { pub module: String, pub name: String, pub kind: ImportKind }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum EK { Func, Table, Mem, Global }
#[derive(Clone, PartialEq, Debug)]
pub struct Export { pub name: String, pub kind: EK, pub idx: u32 }
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Func { pub ty: u32, pub locals: Vec<VT>, pub body: Vec<Op> }
#[derive(Clone, PartialEq, Debug)]
pub struct GlobalDef { pub ty: VT, pub mutable: bool, pub init: Vec<Op> }
#[derive(Clone, PartialEq, Debug)]
pub enum SegMode { Passive, Active { idx: u32, offset: Vec<Op> }, Declared }
#[derive(Clone, PartialEq, Debug)]
pub struct Elem { pub mode: SegMode, pub ty: VT, pub items: Vec<Vec<Op>> }
#[derive(Clone, PartialEq, Debug)]
pub struct Data { pub mode: SegMode, pub bytes: Vec<u8> }

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Module {
    pub types: Vec<FT>,
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>,
    pub tables: Vec<(VT, Limits)>,
    pub mems: Vec<Limits>,
    pub globals: Vec<GlobalDef>,
    pub exports: Vec<Export>,
    pub start: Option<u32>,
    pub elems: Vec<Elem>,
    pub datas: Vec<Data>,
}

impl Module {
    pub fn ty(&mut self, params: &[VT], results: &[VT]) -> u32 {
        let ft = FT { params: params.to_vec(), results: results.to_vec() };
        if let Some(i) = self.types.iter().position(|t| *t == ft) { return i as u32; }
        self.types.push(ft);
        self.types.len() as u32 - 1
    }
    pub fn n_imp(&self, k: EK) -> u32 {
        self.imports.iter().filter(|i| matches!((&i.kind, k), (ImportKind::Func(_), EK::Func) | (ImportKind::Table(..), EK::Table) | (ImportKind::Mem(_), EK::Mem) | (ImportKind::Global(..), EK::Global))).count() as u32
    }
    /// Adds a function and returns its index in the function index space.
    pub fn func(&mut self, params: &[VT], results: &[VT], locals: &[VT], body: Vec<Op>) -> u32 {
        let ty = self.ty(params, results);
        self.funcs.push(Func { ty, locals: locals.to_vec(), body });
        self.n_imp(EK::Func) + self.funcs.len() as u32 - 1
    }
    pub fn export(&mut self, name: &str, kind: EK, idx: u32) { self.exports.push(Export { name: name.into(), kind, idx }); }
    pub fn import_func(&mut self, module: &str, name: &str, params: &[VT], results: &[VT]) -> u32 {
        assert!(self.funcs.is_empty());
        let ty = self.ty(params, results);
        let n = self.n_imp(EK::Func);
        self.imports.push(Import { module: module.into(), name: name.into(), kind: ImportKind::Func(ty) });
        n
    }
    pub fn mem(&mut self, l: Limits) -> u32 { self.mems.push(l); self.n_imp(EK::Mem) + self.mems.len() as u32 - 1 }
    pub fn table(&mut self, t: VT, l: Limits) -> u32 { self.tables.push((t, l)); self.n_imp(EK::Table) + self.tables.len() as u32 - 1 }
    pub fn global(&mut self, ty: VT, mutable: bool, init: Op) -> u32 {
        self.globals.push(GlobalDef { ty, mutable, init: vec![init] });
        self.n_imp(EK::Global) + self.globals.len() as u32 - 1
    }
    pub fn func_type(&self, f: u32) -> &FT {
        let mut n = 0;
        for i in &self.imports {
            if let ImportKind::Func(t) = i.kind { if n == f { return &self.types[t as usize]; } n += 1; }
        }
        &self.types[self.funcs[(f - n) as usize].ty as usize]
    }
    pub fn all_mems(&self) -> Vec<Limits> {
        self.imports.iter().filter_map(|i| if let ImportKind::Mem(l) = i.kind { Some(l) } else { None }).chain(self.mems.iter().copied()).collect()
    }
    pub fn all_tables(&self) -> Vec<(VT, Limits)> {
        self.imports.iter().filter_map(|i| if let ImportKind::Table(t, l) = i.kind { Some((t, l)) } else { None }).chain(self.tables.iter().copied()).collect()
    }
    pub fn all_globals(&self) -> Vec<(VT, bool)> {
        self.imports.iter().filter_map(|i| if let ImportKind::Global(t, m) = i.kind { Some((t, m)) } else { None }).chain(self.globals.iter().map(|g| (g.ty, g.mutable))).collect()
    }
}

// ---------------------------------------------------------------------------------- encoder

pub fn uleb(out: &mut Vec<u8>, mut v: u64) {
    loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 { out.push(b); return; } out.push(b | 0x80); }
}
pub fn sleb(out: &mut Vec<u8>, mut v: i64) {
    loop { let b = (v & 0x7f) as u8; v >>= 7; if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) { out.push(b); return; } out.push(b | 0x80); }
}
fn name(out: &mut Vec<u8>, s: &str) { uleb(out, s.len() as u64); out.extend(s.as_bytes()); }
fn limits(out: &mut Vec<u8>, l: &Limits) {
    out.push(l.max.is_some() as u8 | (l.is64 as u8) << 2 | (l.page_log2.is_some() as u8) << 3);
    uleb(out, l.min);
    if let Some(m) = l.max { uleb(out, m); }
    if let Some(p) = l.page_log2 { uleb(out, p as u64); }
}
fn bt(out: &mut Vec<u8>, b: &BT) {
    match b { BT::Empty => out.push(0x40), BT::Val(v) => out.push(v.byte()), BT::Type(t) => sleb(out, *t as i64) }
}
fn ma(out: &mut Vec<u8>, m: &MA) {
    if m.mem != 0 { out.push(m.align | 0x40); uleb(out, m.mem as u64); } else { out.push(m.align); }
    uleb(out, m.offset);
}
pub fn encode_op(o: &mut Vec<u8>, op: &Op) {
    macro_rules! e { ($b:expr) => { o.push($b) }; ($b:expr, $($x:expr),+) => {{ o.push($b); $(uleb(o, $x as u64);)+ }}; }
    match op {
        Op::Unreachable => e!(0), Op::Nop => e!(1),
        Op::Block(b) => { e!(2); bt(o, b) } Op::Loop(b) => { e!(3); bt(o, b) } Op::If(b) => { e!(4); bt(o, b) }
        Op::Else => e!(5), Op::End => e!(0x0b), Op::Br(l) => e!(0x0c, *l), Op::BrIf(l) => e!(0x0d, *l),
        Op::BrTable(ls, d) => { e!(0x0e, ls.len()); for l in ls.iter() { uleb(o, *l as u64); } uleb(o, *d as u64); }
        Op::Return => e!(0x0f), Op::Call(f) => e!(0x10, *f), Op::CallIndirect { ty, table } => e!(0x11, *ty, *table),
        Op::ReturnCall(f) => e!(0x12, *f), Op::ReturnCallIndirect { ty, table } => e!(0x13, *ty, *table),
        Op::Drop => e!(0x1a), Op::Select => e!(0x1b), Op::SelectT(t) => { e!(0x1c, 1u64); o.push(t.byte()) }
        Op::LGet(i) => e!(0x20, *i), Op::LSet(i) => e!(0x21, *i), Op::LTee(i) => e!(0x22, *i),
        Op::GGet(i) => e!(0x23, *i), Op::GSet(i) => e!(0x24, *i), Op::TGet(i) => e!(0x25, *i), Op::TSet(i) => e!(0x26, *i),
        Op::Mem { op, m } => { e!(*op); ma(o, m) }
        Op::MemSize(m) => e!(0x3f, *m), Op::MemGrow(m) => e!(0x40, *m),
        Op::I32C(v) => { e!(0x41); sleb(o, *v as i64) } Op::I64C(v) => { e!(0x42); sleb(o, *v) }
        Op::F32C(v) => { e!(0x43); o.extend(v.to_le_bytes()) } Op::F64C(v) => { e!(0x44); o.extend(v.to_le_bytes()) }
        Op::Num(b) => e!(*b),
        Op::RefNull(t) => { e!(0xd0); o.push(t.byte()) } Op::RefIsNull => e!(0xd1), Op::RefFunc(f) => e!(0xd2, *f),
        Op::Sat(s) => e!(0xfc, *s), Op::MemInit { data, mem } => e!(0xfc, 8u8, *data, *mem), Op::DataDrop(d) => e!(0xfc, 9u8, *d),
        Op::MemCopy { dst, src } => e!(0xfc, 10u8, *dst, *src), Op::MemFill(m) => e!(0xfc, 11u8, *m),
        Op::TableInit { elem, table } => e!(0xfc, 12u8, *elem, *table), Op::ElemDrop(x) => e!(0xfc, 13u8, *x),
        Op::TableCopy { dst, src } => e!(0xfc, 14u8, *dst, *src), Op::TableGrow(t) => e!(0xfc, 15u8, *t),
        Op::TableSize(t) => e!(0xfc, 16u8, *t), Op::TableFill(t) => e!(0xfc, 17u8, *t), Op::Wide(w) => e!(0xfc, *w),
        Op::VMem { sub, m, lane } => { e!(0xfd, *sub); ma(o, m); if (84..=91).contains(sub) { o.push(*lane) } }
        Op::VConst(v) => { e!(0xfd, 12u8); o.extend(v.to_le_bytes()) }
        Op::Shuffle(l) => { e!(0xfd, 13u8); o.extend(l) }
        Op::VLane { sub, lane } => { e!(0xfd, *sub); o.push(*lane) }
        Op::V(sub) => e!(0xfd, *sub),
    }
}
fn expr(out: &mut Vec<u8>, ops: &[Op]) { for op in ops { encode_op(out, op); } out.push(0x0b); }
fn section(out: &mut Vec<u8>, id: u8, n: usize, f: impl FnOnce(&mut Vec<u8>)) {
    if n == 0 { return; }
    let mut b = Vec::new();
    uleb(&mut b, n as u64);
    f(&mut b);
    out.push(id); uleb(out, b.len() as u64); out.extend(b);
}

pub fn encode_body(f: &Func) -> Vec<u8> {
    let mut b = Vec::new();
    let mut groups: Vec<(u32, VT)> = Vec::new();
    for l in &f.locals { match groups.last_mut() { Some(g) if g.1 == *l => g.0 += 1, _ => groups.push((1, *l)) } }
    uleb(&mut b, groups.len() as u64);
    for (n, t) in groups { uleb(&mut b, n as u64); b.push(t.byte()); }
    expr(&mut b, &f.body);
    b
}

thread_local! {
    /// use the short forms of element and data segments where possible
    pub static COMPACT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn encode(m: &Module) -> Vec<u8> {
    let mut out = b"\0asm\x01\0\0\0".to_vec();
    section(&mut out, 1, m.types.len(), |b| for t in &m.types {
        b.push(0x60); uleb(b, t.params.len() as u64); for p in &t.params { b.push(p.byte()) }
        uleb(b, t.results.len() as u64); for p in &t.results { b.push(p.byte()) }
    });
    section(&mut out, 2, m.imports.len(), |b| for i in &m.imports {
        name(b, &i.module); name(b, &i.name);
        match &i.kind {
            ImportKind::Func(t) => { b.push(0); uleb(b, *t as u64) }
            ImportKind::Table(t, l) => { b.push(1); b.push(t.byte()); limits(b, l) }
            ImportKind::Mem(l) => { b.push(2); limits(b, l) }
            ImportKind::Global(t, mu) => { b.push(3); b.push(t.byte()); b.push(*mu as u8) }
        }
    });
    section(&mut out, 3, m.funcs.len(), |b| for f in &m.funcs { uleb(b, f.ty as u64) });
    section(&mut out, 4, m.tables.len(), |b| for (t, l) in &m.tables { b.push(t.byte()); limits(b, l) });
    section(&mut out, 5, m.mems.len(), |b| for l in &m.mems { limits(b, l) });
    section(&mut out, 6, m.globals.len(), |b| for g in &m.globals { b.push(g.ty.byte()); b.push(g.mutable as u8); expr(b, &g.init) });
    section(&mut out, 7, m.exports.len(), |b| for e in &m.exports {
        name(b, &e.name);
        b.push(match e.kind { EK::Func => 0, EK::Table => 1, EK::Mem => 2, EK::Global => 3 }); uleb(b, e.idx as u64)
    });
    if let Some(s) = m.start { let mut b = Vec::new(); uleb(&mut b, s as u64); out.push(8); uleb(&mut out, b.len() as u64); out.extend(b); }
    section(&mut out, 9, m.elems.len(), |b| for e in &m.elems {
        if COMPACT.get() {
            // the function-index forms 0..=3, or form 4, wherever they can express the segment
            let idxs: Option<Vec<u32>> = e.items.iter().map(|i| match i[..] { [Op::RefFunc(f)] => Some(f), _ => None }).collect();
            if let (VT::Func, Some(v)) = (e.ty, &idxs) {
                match &e.mode {
                    SegMode::Active { idx: 0, offset } => { b.push(0); expr(b, offset) }
                    SegMode::Active { idx, offset } => { uleb(b, 2); uleb(b, *idx as u64); expr(b, offset); b.push(0) }
                    SegMode::Passive => { b.push(1); b.push(0) }
                    SegMode::Declared => { b.push(3); b.push(0) }
                }
                uleb(b, v.len() as u64);
                for i in v { uleb(b, *i as u64) }
                continue;
            }
            if let (VT::Func, SegMode::Active { idx: 0, offset }) = (e.ty, &e.mode) {
                b.push(4); expr(b, offset);
                uleb(b, e.items.len() as u64);
                for i in &e.items { expr(b, i) }
                continue;
            }
        }
        match &e.mode {
            SegMode::Active { idx, offset } => { uleb(b, 6); uleb(b, *idx as u64); expr(b, offset); b.push(e.ty.byte()) }
            SegMode::Passive => { uleb(b, 5); b.push(e.ty.byte()) }
            SegMode::Declared => { uleb(b, 7); b.push(e.ty.byte()) }
        }
        uleb(b, e.items.len() as u64);
        for i in &e.items { expr(b, i) }
    });
    section(&mut out, 12, m.datas.len(), |b| { b.clear(); uleb(b, m.datas.len() as u64) });
    section(&mut out, 10, m.funcs.len(), |b| for f in &m.funcs { let body = encode_body(f); uleb(b, body.len() as u64); b.extend(body) });
    section(&mut out, 11, m.datas.len(), |b| for d in &m.datas {
        match &d.mode {
            SegMode::Active { idx: 0, offset } if COMPACT.get() => { b.push(0); expr(b, offset) }
            SegMode::Active { idx, offset } => { uleb(b, 2); uleb(b, *idx as u64); expr(b, offset) }
            _ => uleb(b, 1),
        }
        uleb(b, d.bytes.len() as u64); b.extend(&d.bytes)
    });
    out
}

// ---------------------------------------------------------------------------------- decoder

pub struct Rd<'a> { pub b: &'a [u8], pub p: usize }
type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn u8(&mut self) -> R<u8> { let v = *self.b.get(self.p).ok_or("eof")?; self.p += 1; Ok(v) }
    pub fn u(&mut self) -> R<u64> {
        let (mut v, mut s) = (0u64, 0);
        loop { let b = self.u8()?; if s < 64 { v |= ((b & 0x7f) as u64) << s; } s += 7; if b & 0x80 == 0 { return Ok(v); } if s > 70 { return Err("leb".into()); } }
    }
    pub fn u32(&mut self) -> R<u32> { u32::try_from(self.u()?).map_err(|_| "leb u32".into()) }
    pub fn s(&mut self) -> R<i64> {
        let (mut v, mut s) = (0i64, 0);
        loop { let b = self.u8()?; if s < 64 { v |= ((b & 0x7f) as i64) << s; } s += 7; if b & 0x80 == 0 { if s < 64 && b & 0x40 != 0 { v |= -1i64 << s; } return Ok(v); } if s > 70 { return Err("leb".into()); } }
    }
    pub fn bytes(&mut self, n: usize) -> R<&'a [u8]> { let r = self.b.get(self.p..self.p.checked_add(n).ok_or("len")?).ok_or("eof")?; self.p += n; Ok(r) }
    pub fn name(&mut self) -> R<String> { let n = self.u()? as usize; String::from_utf8(self.bytes(n)?.to_vec()).map_err(|e| e.to_string()) }
    pub fn vt(&mut self) -> R<VT> {
        let b = self.u8()?;
        if b == 0x63 { return self.vt(); } // (ref null ht)
        VT::from_byte(b).ok_or(format!("valtype {b:#x}"))
    }
    fn limits(&mut self) -> R<Limits> {
        let f = self.u8()?;
        if f & !0b1101 != 0 { return Err("limits flags".into()); }
        let min = self.u()?;
        let max = if f & 1 != 0 { Some(self.u()?) } else { None };
        let page_log2 = if f & 8 != 0 { Some(self.u32()?) } else { None };
        Ok(Limits { min, max, is64: f & 4 != 0, page_log2 })
    }
    fn bt(&mut self) -> R<BT> {
        let b = *self.b.get(self.p).ok_or("eof")?;
        if b == 0x40 { self.p += 1; return Ok(BT::Empty); }
        if b == 0x63 || VT::from_byte(b).is_some() { return Ok(BT::Val(self.vt()?)); }
        Ok(BT::Type(self.s()? as u32))
    }
    fn ma(&mut self) -> R<MA> {
        let f = self.u()?;
        let mem = if f & 0x40 != 0 { self.u32()? } else { 0 };
        Ok(MA { align: (f & 0x3f) as u8, offset: self.u()?, mem })
    }
    pub fn op(&mut self) -> R<Op> {
        let b = self.u8()?;
        Ok(match b {
            0 => Op::Unreachable, 1 => Op::Nop, 2 => Op::Block(self.bt()?), 3 => Op::Loop(self.bt()?), 4 => Op::If(self.bt()?), 5 => Op::Else, 0x0b => Op::End,
            0x0c => Op::Br(self.u32()?), 0x0d => Op::BrIf(self.u32()?),
            0x0e => { let n = self.u()?; let mut v = Vec::new(); for _ in 0..n { v.push(self.u32()?) } Op::BrTable(v.into(), self.u32()?) }
            0x0f => Op::Return, 0x10 => Op::Call(self.u32()?), 0x11 => Op::CallIndirect { ty: self.u32()?, table: self.u32()? },
            0x12 => Op::ReturnCall(self.u32()?), 0x13 => Op::ReturnCallIndirect { ty: self.u32()?, table: self.u32()? },
            0x1a => Op::Drop, 0x1b => Op::Select, 0x1c => { if self.u()? != 1 { return Err("select arity".into()); } Op::SelectT(self.vt()?) }
            0x20 => Op::LGet(self.u32()?), 0x21 => Op::LSet(self.u32()?), 0x22 => Op::LTee(self.u32()?), 0x23 => Op::GGet(self.u32()?), 0x24 => Op::GSet(self.u32()?),
            0x25 => Op::TGet(self.u32()?), 0x26 => Op::TSet(self.u32()?),
            0x28..=0x3e => Op::Mem { op: b, m: self.ma()? }, 0x3f => Op::MemSize(self.u32()?), 0x40 => Op::MemGrow(self.u32()?),
            0x41 => Op::I32C(self.s()? as i32), 0x42 => Op::I64C(self.s()?),
            0x43 => Op::F32C(u32::from_le_bytes(self.bytes(4)?.try_into().unwrap())), 0x44 => Op::F64C(u64::from_le_bytes(self.bytes(8)?.try_into().unwrap())),
            0x45..=0xc4 => Op::Num(b),
            0xd0 => Op::RefNull(match self.s()? { -0x10 => VT::Func, -0x11 => VT::Ext, h => return Err(format!("heaptype {h}")) }),
            0xd1 => Op::RefIsNull, 0xd2 => Op::RefFunc(self.u32()?),
            0xfc => match self.u32()? {
                s @ 0..=7 => Op::Sat(s as u8), 8 => Op::MemInit { data: self.u32()?, mem: self.u32()? }, 9 => Op::DataDrop(self.u32()?),
                10 => Op::MemCopy { dst: self.u32()?, src: self.u32()? }, 11 => Op::MemFill(self.u32()?),
                12 => Op::TableInit { elem: self.u32()?, table: self.u32()? }, 13 => Op::ElemDrop(self.u32()?), 14 => Op::TableCopy { dst: self.u32()?, src: self.u32()? },
                15 => Op::TableGrow(self.u32()?), 16 => Op::TableSize(self.u32()?), 17 => Op::TableFill(self.u32()?), s @ 19..=22 => Op::Wide(s as u8),
                s => return Err(format!("fc {s}")),
            },
            0xfd => match self.u32()? {
                sub @ (0..=11 | 92 | 93) => Op::VMem { sub, m: self.ma()?, lane: 0 },
                sub @ 84..=91 => { let m = self.ma()?; Op::VMem { sub, m, lane: self.u8()? } }
                12 => Op::VConst(u128::from_le_bytes(self.bytes(16)?.try_into().unwrap())), 13 => Op::Shuffle(self.bytes(16)?.try_into().unwrap()),
                sub @ 21..=34 => Op::VLane { sub, lane: self.u8()? },
                sub if sub <= 275 => Op::V(sub),
                s => return Err(format!("fd {s}")),
            },
            b => return Err(format!("opcode {b:#x}")),
        })
    }
    fn expr(&mut self) -> R<Vec<Op>> {
        let mut v = Vec::new();
        loop { match self.op()? { Op::End => return Ok(v), o => v.push(o) } }
    }
}

pub fn decode(bytes: &[u8]) -> R<Module> {
    let mut m = Module::default();
    let mut r = Rd { b: bytes, p: 8 };
    if bytes.get(..8) != Some(b"\0asm\x01\0\0\0") { return Err("magic".into()); }
    let mut func_tys = Vec::new();
    while r.p < bytes.len() {
        let id = r.u8()?;
        let len = r.u()? as usize;
        let body = r.bytes(len)?;
        let mut s = Rd { b: body, p: 0 };
        if id == 0 { continue; }
        if id == 8 { m.start = Some(s.u32()?); continue; }
        let n = s.u()?;
        if id == 12 { continue; }
        for i in 0..n {
            match id {
                1 => {
                    if s.u8()? != 0x60 { return Err("functype".into()); }
                    let mut t = FT::default();
                    for _ in 0..s.u()? { t.params.push(s.vt()?) }
                    for _ in 0..s.u()? { t.results.push(s.vt()?) }
                    m.types.push(t)
                }
                2 => {
                    let (module, name) = (s.name()?, s.name()?);
                    let kind = match s.u8()? { 0 => ImportKind::Func(s.u32()?), 1 => ImportKind::Table(s.vt()?, s.limits()?), 2 => ImportKind::Mem(s.limits()?), 3 => ImportKind::Global(s.vt()?, s.u8()? == 1), k => return Err(format!("import {k}")) };
                    m.imports.push(Import { module, name, kind })
                }
                3 => func_tys.push(s.u32()?),
                4 => { if s.b.get(s.p) == Some(&0x40) { return Err("table init".into()); } m.tables.push((s.vt()?, s.limits()?)) }
                5 => m.mems.push(s.limits()?),
                6 => { let ty = s.vt()?; let mutable = s.u8()? == 1; m.globals.push(GlobalDef { ty, mutable, init: s.expr()? }) }
                7 => { let name = s.name()?; let kind = match s.u8()? { 0 => EK::Func, 1 => EK::Table, 2 => EK::Mem, 3 => EK::Global, k => return Err(format!("export {k}")) }; m.exports.push(Export { name, kind, idx: s.u32()? }) }
                9 => {
                    let f = s.u32()?;
                    let mode = if f & 1 == 0 { let idx = if f & 2 != 0 { s.u32()? } else { 0 }; SegMode::Active { idx, offset: s.expr()? } } else if f & 2 != 0 { SegMode::Declared } else { SegMode::Passive };
                    let mut ty = VT::Func;
                    if f & 3 != 0 { if f & 4 != 0 { ty = s.vt()? } else if s.u8()? != 0 { return Err("elemkind".into()); } }
                    let mut items = Vec::new();
                    for _ in 0..s.u()? { items.push(if f & 4 != 0 { s.expr()? } else { vec![Op::RefFunc(s.u32()?)] }) }
                    m.elems.push(Elem { mode, ty, items })
                }
                10 => {
                    let len = s.u()? as usize;
                    let mut c = Rd { b: s.bytes(len)?, p: 0 };
                    let mut f = Func { ty: *func_tys.get(i as usize).ok_or("func count")?, ..Default::default() };
                    for _ in 0..c.u()? { let n = c.u()?; let t = c.vt()?; if n > 60000 { return Err("locals".into()); } f.locals.extend(std::iter::repeat_n(t, n as usize)) }
                    let mut body = Vec::new();
                    while c.p < c.b.len() { body.push(c.op()?) }
                    if body.pop() != Some(Op::End) { return Err("no end".into()); }
                    f.body = body;
                    m.funcs.push(f)
                }
                11 => {
                    let f = s.u32()?;
                    let mode = match f { 0 => SegMode::Active { idx: 0, offset: s.expr()? }, 1 => SegMode::Passive, 2 => { let idx = s.u32()?; SegMode::Active { idx, offset: s.expr()? } } _ => return Err("data".into()) };
                    let n = s.u()? as usize;
                    m.datas.push(Data { mode, bytes: s.bytes(n)?.to_vec() })
                }
                id => return Err(format!("section {id}")),
            }
        }
    }
    Ok(m)
}

// ---------------------------------------------------------------------------------- operator signatures

/// Operand and result types of the plain numeric operators (0x45..=0xc4).
pub fn num_sig(op: u8) -> (&'static [VT], &'static [VT]) {
    use VT::*;
    match op {
        0x45 => (&[I32], &[I32]), 0x46..=0x4f => (&[I32, I32], &[I32]), 0x50 => (&[I64], &[I32]), 0x51..=0x5a => (&[I64, I64], &[I32]),
        0x5b..=0x60 => (&[F32, F32], &[I32]), 0x61..=0x66 => (&[F64, F64], &[I32]),
        0x67..=0x69 => (&[I32], &[I32]), 0x6a..=0x78 => (&[I32, I32], &[I32]), 0x79..=0x7b => (&[I64], &[I64]), 0x7c..=0x8a => (&[I64, I64], &[I64]),
        0x8b..=0x91 => (&[F32], &[F32]), 0x92..=0x98 => (&[F32, F32], &[F32]), 0x99..=0x9f => (&[F64], &[F64]), 0xa0..=0xa6 => (&[F64, F64], &[F64]),
        0xa7 => (&[I64], &[I32]), 0xa8 | 0xa9 => (&[F32], &[I32]), 0xaa | 0xab => (&[F64], &[I32]), 0xac | 0xad => (&[I32], &[I64]),
        0xae | 0xaf => (&[F32], &[I64]), 0xb0 | 0xb1 => (&[F64], &[I64]), 0xb2 | 0xb3 => (&[I32], &[F32]), 0xb4 | 0xb5 => (&[I64], &[F32]), 0xb6 => (&[F64], &[F32]),
        0xb7 | 0xb8 => (&[I32], &[F64]), 0xb9 | 0xba => (&[I64], &[F64]), 0xbb => (&[F32], &[F64]),
        0xbc => (&[F32], &[I32]), 0xbd => (&[F64], &[I64]), 0xbe => (&[I32], &[F32]), 0xbf => (&[I64], &[F64]),
        0xc0 | 0xc1 => (&[I32], &[I32]), 0xc2..=0xc4 => (&[I64], &[I64]),
        _ => panic!("num_sig {op:#x}"),
    }
}
pub fn sat_sig(s: u8) -> (&'static [VT], &'static [VT]) {
    use VT::*;
    match s { 0 | 1 => (&[F32], &[I32]), 2 | 3 => (&[F64], &[I32]), 4 | 5 => (&[F32], &[I64]), 6 | 7 => (&[F64], &[I64]), 19 | 20 => (&[I64, I64, I64, I64], &[I64, I64]), 21 | 22 => (&[I64, I64], &[I64, I64]), _ => panic!() }
}
/// (value type, access width in bytes, is_store) of 0x28..=0x3e
pub fn mem_sig(op: u8) -> (VT, u32, bool) {
    use VT::*;
    match op {
        0x28 => (I32, 4, false), 0x29 => (I64, 8, false), 0x2a => (F32, 4, false), 0x2b => (F64, 8, false),
        0x2c | 0x2d => (I32, 1, false), 0x2e | 0x2f => (I32, 2, false), 0x30 | 0x31 => (I64, 1, false), 0x32 | 0x33 => (I64, 2, false), 0x34 | 0x35 => (I64, 4, false),
        0x36 => (I32, 4, true), 0x37 => (I64, 8, true), 0x38 => (F32, 4, true), 0x39 => (F64, 8, true), 0x3a => (I32, 1, true), 0x3b => (I32, 2, true), 0x3c => (I64, 1, true), 0x3d => (I64, 2, true), 0x3e => (I64, 4, true),
        _ => panic!(),
    }
}
/// All plain V ops (without immediates) that exist.
pub fn v_exists(sub: u32) -> bool {
    matches!(sub, 14..=20 | 35..=83 | 94..=153 | 155..=161 | 163 | 164 | 167..=174 | 177 | 181..=186 | 188..=193 | 195 | 196 | 199..=206 | 209 | 213..=225 | 227..=237 | 239..=275)
}
pub fn v_sig(sub: u32) -> (&'static [VT], &'static [VT]) {
    use VT::*;
    match sub {
        15..=17 => (&[I32], &[V128]), 18 => (&[I64], &[V128]), 19 => (&[F32], &[V128]), 20 => (&[F64], &[V128]),
        21 | 22 | 24 | 25 | 27 => (&[V128], &[I32]), 29 => (&[V128], &[I64]), 31 => (&[V128], &[F32]), 33 => (&[V128], &[F64]),
        23 | 26 | 28 => (&[V128, I32], &[V128]), 30 => (&[V128, I64], &[V128]), 32 => (&[V128, F32], &[V128]), 34 => (&[V128, F64], &[V128]),
        82 | 261..=268 | 275 => (&[V128, V128, V128], &[V128]),
        83 | 99 | 100 | 131 | 132 | 163 | 164 | 195 | 196 => (&[V128], &[I32]),
        107..=109 | 139..=141 | 171..=173 | 203..=205 => (&[V128, I32], &[V128]),
        77 | 94..=98 | 103..=106 | 116 | 117 | 122 | 124..=129 | 135..=138 | 148 | 160 | 161 | 167..=170 | 192 | 193 | 199..=202 | 224 | 225 | 227 | 236 | 237 | 239 | 248..=255 | 257..=260 => (&[V128], &[V128]),
        _ => (&[V128, V128], &[V128]),
    }
}
pub fn vmem_width(sub: u32) -> u32 {
    match sub { 0 | 11 => 16, 1..=6 => 8, 7 | 84 | 88 => 1, 8 | 85 | 89 => 2, 9 | 86 | 90 | 92 => 4, 10 | 87 | 91 | 93 => 8, _ => panic!() }
}

// ---------------------------------------------------------------------------------- printing

pub fn show_ops(ops: &[Op]) -> String { ops.iter().map(show_op).collect::<Vec<_>>().join(" ; ") }
pub fn show_op(op: &Op) -> String {
    match op {
        Op::Num(b) => num_name(*b).to_string(),
        Op::LGet(i) => format!("local.get {i}"), Op::LSet(i) => format!("local.set {i}"), Op::LTee(i) => format!("local.tee {i}"),
        Op::GGet(i) => format!("global.get {i}"), Op::GSet(i) => format!("global.set {i}"),
        Op::I32C(v) => format!("i32.const {v}"), Op::I64C(v) => format!("i64.const {v}"), Op::F32C(v) => format!("f32.const bits {v:#x}"), Op::F64C(v) => format!("f64.const bits {v:#x}"),
        Op::Mem { op, m } => format!("{} mem={} offset={}", ["i32.load", "i64.load", "f32.load", "f64.load", "i32.load8_s", "i32.load8_u", "i32.load16_s", "i32.load16_u", "i64.load8_s", "i64.load8_u", "i64.load16_s", "i64.load16_u", "i64.load32_s", "i64.load32_u", "i32.store", "i64.store", "f32.store", "f64.store", "i32.store8", "i32.store16", "i64.store8", "i64.store16", "i64.store32"][(*op - 0x28) as usize], m.mem, m.offset),
        o => format!("{o:?}").to_lowercase(),
    }
}
pub fn num_name(b: u8) -> &'static str {
    const N: [&str; 128] = ["i32.eqz","i32.eq","i32.ne","i32.lt_s","i32.lt_u","i32.gt_s","i32.gt_u","i32.le_s","i32.le_u","i32.ge_s","i32.ge_u","i64.eqz","i64.eq","i64.ne","i64.lt_s","i64.lt_u","i64.gt_s","i64.gt_u","i64.le_s","i64.le_u","i64.ge_s","i64.ge_u","f32.eq","f32.ne","f32.lt","f32.gt","f32.le","f32.ge","f64.eq","f64.ne","f64.lt","f64.gt","f64.le","f64.ge","i32.clz","i32.ctz","i32.popcnt","i32.add","i32.sub","i32.mul","i32.div_s","i32.div_u","i32.rem_s","i32.rem_u","i32.and","i32.or","i32.xor","i32.shl","i32.shr_s","i32.shr_u","i32.rotl","i32.rotr","i64.clz","i64.ctz","i64.popcnt","i64.add","i64.sub","i64.mul","i64.div_s","i64.div_u","i64.rem_s","i64.rem_u","i64.and","i64.or","i64.xor","i64.shl","i64.shr_s","i64.shr_u","i64.rotl","i64.rotr","f32.abs","f32.neg","f32.ceil","f32.floor","f32.trunc","f32.nearest","f32.sqrt","f32.add","f32.sub","f32.mul","f32.div","f32.min","f32.max","f32.copysign","f64.abs","f64.neg","f64.ceil","f64.floor","f64.trunc","f64.nearest","f64.sqrt","f64.add","f64.sub","f64.mul","f64.div","f64.min","f64.max","f64.copysign","i32.wrap_i64","i32.trunc_f32_s","i32.trunc_f32_u","i32.trunc_f64_s","i32.trunc_f64_u","i64.extend_i32_s","i64.extend_i32_u","i64.trunc_f32_s","i64.trunc_f32_u","i64.trunc_f64_s","i64.trunc_f64_u","f32.convert_i32_s","f32.convert_i32_u","f32.convert_i64_s","f32.convert_i64_u","f32.demote_f64","f64.convert_i32_s","f64.convert_i32_u","f64.convert_i64_s","f64.convert_i64_u","f64.promote_f32","i32.reinterpret_f32","i64.reinterpret_f64","f32.reinterpret_i32","f64.reinterpret_i64","i32.extend8_s","i32.extend16_s","i64.extend8_s","i64.extend16_s","i64.extend32_s"];
    N[(b - 0x45) as usize]
}
pub fn num(name: &str) -> Op {
    thread_local! { static M: HashMap<&'static str, u8> = (0x45..=0xc4u8).map(|b| (num_name(b), b)).collect(); }
    Op::Num(M.with(|m| *m.get(name).unwrap_or_else(|| panic!("no op {name}"))))
}
pub fn mem(op: u8, offset: u64) -> Op { Op::Mem { op, m: MA { align: 0, offset, mem: 0 } } }
