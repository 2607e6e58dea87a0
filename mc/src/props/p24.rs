//! P24: host access to tables and globals respects types, limits and mutability.
//! (a) every table operation with every boundary index and size and a value of every type, on host-created and
//! guest-declared tables of every element type, index type and limit; (b) every short history of host and guest
//! operations on one table seen through a host handle, two instances' exports and guest reads; (c) the same for
//! globals of every type and mutability; (d) creation with every combination of types and limits.
use crate::oracle::NULL;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use std::cell::RefCell;
use std::rc::Rc;
use tinywasm::types::{FuncType, GlobalType, TableType, WasmValue};
use tinywasm::{ExternItem, FuncContext, Function, Global, HostFunction, Imports, ModuleInstance, Store, Table};
use VT::{F32, F64, I32, I64, V128};
const FUNC: VT = VT::Func;
const EXT: VT = VT::Ext;
const ALL: [VT; 7] = [I32, I64, F32, F64, V128, FUNC, EXT];

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Origin { Host, Guest, Imported }
#[derive(Clone, Copy, Debug, Hash)]
struct TShape { et: VT, is64: bool, min: u64, max: Option<u64>, origin: Origin }

/// Exports the table and guest operations on it; `refs` gives two functions' references.
fn table_module(s: &TShape, imported: bool) -> Module {
    let mut m = Module::default();
    let l = Limits { min: s.min, max: s.max, is64: s.is64, page_log2: None };
    if imported { m.imports.push(Import { module: "e".into(), name: "t".into(), kind: ImportKind::Table(s.et, l) }) } else { m.table(s.et, l); }
    m.export("t", EK::Table, 0);
    let a = if s.is64 { I64 } else { I32 };
    let t = s.et;
    let mut add = |n: &str, p: &[VT], r: &[VT], b: Vec<Op>| { let f = m.func(p, r, &[], b); m.export(n, EK::Func, f); f };
    let f0 = add("f0", &[], &[I32], vec![Op::I32C(100)]);
    let f1 = add("f1", &[], &[I32], vec![Op::I32C(101)]);
    add("refs", &[], &[FUNC, FUNC], vec![Op::RefFunc(f0), Op::RefFunc(f1)]);
    add("get", &[a], &[t], vec![Op::LGet(0), Op::TGet(0)]);
    add("set", &[a, t], &[], vec![Op::LGet(0), Op::LGet(1), Op::TSet(0)]);
    add("size", &[], &[a], vec![Op::TableSize(0)]);
    add("grow", &[t, a], &[a], vec![Op::LGet(0), Op::LGet(1), Op::TableGrow(0)]);
    add("fill", &[a, t, a], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::TableFill(0)]);
    add("copy", &[a, a, a], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::TableCopy { dst: 0, src: 0 }]);
    if t == FUNC {
        let ty = m.ty(&[], &[I32]);
        let f = m.func(&[a], &[I32], &[], vec![Op::LGet(0), Op::CallIndirect { ty, table: 0 }]);
        m.export("call", EK::Func, f);
    }
    m.elems.push(Elem { mode: SegMode::Declared, ty: FUNC, items: vec![vec![Op::RefFunc(f0)], vec![Op::RefFunc(f1)]] });
    m
}
/// One table, its handles, a second instance that imports it, and the vector it must equal.
struct TRig { store: Store, s: TShape, handles: Vec<Table>, insts: Vec<ModuleInstance>, model: Vec<u128>, vals: Vec<u128>, calls: Vec<(u128, u32)> }
#[derive(Clone, Debug)]
enum TOp {
    Get(u32), Load(usize, usize), Set(u32, VT, usize), Copy(usize, usize, usize), Grow(i32, VT, usize), Size,
    GGet(u64), GSet(u64, usize), GGrow(u64, usize), GFill(u64, usize, u64), GCopy(u64, u64, u64), GCall(u64),
}
fn trig(s: TShape) -> Result<TRig, String> {
    let mut store = Store::default();
    let es = |e: tinywasm::Error| e.to_string();
    let imported = s.origin != Origin::Guest;
    let module = parse(&encode(&table_module(&s, imported)), Opts::ON)?;
    let mut handles = vec![];
    let mut im = Imports::new();
    match s.origin {
        Origin::Host => {
            let ty = if s.is64 { TableType::new64(wt(s.et), s.min, s.max) } else { TableType::new(wt(s.et), s.min, s.max) };
            let t = Table::new(&mut store, ty, WasmValue::default_for(wt(s.et))).map_err(es)?;
            handles.push(t);
            im.define("e", "t", t);
        }
        Origin::Imported => {
            let owner = parse(&encode(&table_module(&s, false)), Opts::ON)?;
            let i = ModuleInstance::instantiate(&mut store, &owner, None).map_err(es)?;
            let t = i.table("t").map_err(es)?;
            handles.push(t);
            im.define("e", "t", t);
        }
        Origin::Guest => (),
    }
    let a = ModuleInstance::instantiate(&mut store, &module, Some(im)).map_err(es)?;
    handles.push(a.table("t").map_err(es)?);
    // a second instance of the importing form shares the table
    let second = parse(&encode(&table_module(&s, true)), Opts::ON)?;
    let mut im = Imports::new();
    im.define("e", "t", handles[0]);
    let b = ModuleInstance::instantiate(&mut store, &second, Some(im)).map_err(es)?;
    match b.extern_item("t") { Ok(ExternItem::Table(t)) => handles.push(t), _ => return Err("export t is no table".into()) }
    let (mut vals, mut calls) = (vec![NULL], vec![]);
    for i in [&a, &b] {
        let r = i.func_untyped(&store, "refs").and_then(|f| f.call(&mut store, &[])).map_err(es)?;
        for (k, x) in r.iter().enumerate() { let v = from_wv(x).1; calls.push((v, 100 + k as u32)); if s.et == FUNC { vals.push(v) } }
    }
    if s.et == EXT { vals.extend([0, 1, 7, 0xffff_fffe]) }
    let model = vec![NULL; s.min as usize];
    Ok(TRig { store, s, handles, insts: vec![a, b], model, vals, calls })
}
impl TRig {
    fn a(&self, v: u64) -> WasmValue { if self.s.is64 { WasmValue::I64(v as i64) } else { WasmValue::I32(v as u32 as i32) } }
    fn v(&self, k: usize) -> u128 { self.vals[k % self.vals.len()] }
    /// A value of type `t`; only of the element type is the reference meaningful.
    fn val(&self, t: VT, k: usize) -> WasmValue { if t == self.s.et { to_wv(t, self.v(k)) } else if t.is_ref() && k == 0 { WasmValue::default_for(wt(t)) } else { to_wv(t, k as u128) } }
    fn guest(&mut self, i: usize, f: &str, a: &[WasmValue]) -> Out { match self.insts[i % 2].func_untyped(&self.store, f) { Ok(f) => vals_out(None, f.call(&mut self.store, a)), Err(e) => err_out(e) } }
    fn same(&mut self, at: &str) -> Result<(), String> {
        let n = self.model.len();
        let want: Vec<u128> = self.model.clone();
        for (k, t) in self.handles.clone().into_iter().enumerate() {
            let size = t.size(&self.store).map_err(|e| e.to_string())?;
            if size != n { return Err(format!("after {at}: size through handle {k} is {size}, expected {n}")) }
            let got: Vec<(VT, u128)> = t.load(&self.store, 0, n).map_err(|e| format!("after {at}: load: {e}"))?.map(|v| from_wv(&v)).collect();
            if got.iter().any(|g| g.0 != self.s.et) || got.iter().map(|g| g.1).collect::<Vec<_>>() != want { return Err(format!("after {at}: handle {k} reads {got:x?}, expected {want:x?}")) }
        }
        for i in 0..2 {
            let sz = self.guest(i, "size", &[]);
            if sz != Out::Vals(vec![n as u128]) { return Err(format!("after {at}: table.size in instance {i} is {sz:?}, expected {n}")) }
            for j in 0..n.min(12) {
                let g = self.guest(i, "get", &[self.a(j as u64)]);
                if g != Out::Vals(vec![want[j]]) { return Err(format!("after {at}: table.get {j} in instance {i} gives {g:x?}, expected {:x}", want[j])) }
            }
        }
        Ok(())
    }
    fn range(&self, o: u64, n: u64) -> Option<std::ops::Range<usize>> { let e = o.checked_add(n)?; (e <= self.model.len() as u64).then_some(o as usize..e as usize) }
    /// `who`: which handle or instance performs it.
    fn step(&mut self, op: &TOp, who: usize) -> Result<(), String> {
        let n = self.model.len();
        let t = self.handles[who % self.handles.len()];
        let et = self.s.et;
        let max = self.s.max;
        let err = |e: String| Err(format!("{op:?} (through {who}) on {n} elements of {et:?}, max {max:?}: {e}"));
        match *op {
            TOp::Size => match t.size(&self.store) { Ok(k) if k == n => (), r => return err(format!("{r:?}")) },
            TOp::Get(i) => match (t.get(&self.store, i).map(|v| from_wv(&v)), self.model.get(i as usize)) { (Ok(g), Some(w)) if g == (et, *w) => (), (Err(_), None) => (), (g, w) => return err(format!("{g:x?}, expected {w:x?}")) },
            TOp::Load(o, l) => {
                let got = t.load(&self.store, o, l).map(|i| i.map(|v| from_wv(&v)).collect::<Vec<_>>());
                let want = self.range(o as u64, l as u64).map(|r| self.model[r].iter().map(|v| (et, *v)).collect::<Vec<_>>());
                if got.as_ref().ok() != want.as_ref() { return err(format!("{got:x?}, expected {want:x?}")) }
            }
            TOp::Set(i, ty, k) => {
                let v = self.val(ty, k);
                match (t.set(&mut self.store, i, v), ty == et && (i as usize) < n) { (Ok(()), true) => self.model[i as usize] = from_wv(&v).1, (Err(_), false) => (), (r, w) => return err(format!("{v:?}: {r:?}, allowed {w}")) }
            }
            TOp::Copy(s, d, l) => match (t.copy_within(&mut self.store, s, d, l), self.range(s as u64, l as u64), self.range(d as u64, l as u64)) { (Ok(()), Some(r), Some(_)) => self.model.copy_within(r, d), (Err(_), a, b) if a.is_none() || b.is_none() => (), (r, ..) => return err(format!("{r:?}")) },
            TOp::Grow(d, ty, k) => {
                let v = self.val(ty, k);
                let new = u64::try_from(d).ok().map(|d| d + n as u64).filter(|x| *x <= self.s.max.unwrap_or(10_000_000).min(10_000_000) && ty == et);
                match (t.grow(&mut self.store, d, v), new) { (Ok(o), Some(x)) if o == n => self.model.resize(x as usize, from_wv(&v).1), (Err(_), None) => (), (r, w) => return err(format!("{v:?}: {r:?}, expected a new size of {w:?}")) }
            }
            TOp::GGet(i) => { let g = self.guest(who, "get", &[self.a(i)]); match (g, self.model.get(i as usize)) { (Out::Vals(g), Some(w)) if g == [*w] => (), (Out::Trap(_), None) => (), (g, w) => return err(format!("{g:x?}, expected {w:x?}")) } }
            TOp::GSet(i, k) => { let v = self.v(k); let g = self.guest(who, "set", &[self.a(i), to_wv(et, v)]); match (g, (i as usize) < n) { (Out::Vals(_), true) => self.model[i as usize] = v, (Out::Trap(_), false) => (), (g, w) => return err(format!("{g:x?}, allowed {w}")) } }
            TOp::GGrow(d, k) => {
                let v = self.v(k);
                let new = d.checked_add(n as u64).filter(|x| *x <= self.s.max.unwrap_or(10_000_000).min(10_000_000));
                let g = self.guest(who, "grow", &[to_wv(et, v), self.a(d)]);
                let want = match new { Some(x) => { self.model.resize(x as usize, v); n as u128 } None => if self.s.is64 { u64::MAX as u128 } else { u32::MAX as u128 } };
                if g != Out::Vals(vec![want]) { return Err(format!("{op:?} on {n} elements: {g:x?}, expected {want:x}")) }
            }
            TOp::GFill(i, k, l) => { let v = self.v(k); let g = self.guest(who, "fill", &[self.a(i), to_wv(et, v), self.a(l)]); match (g, self.range(i, l)) { (Out::Vals(_), Some(r)) => self.model[r].fill(v), (Out::Trap(_), None) => (), (g, w) => return err(format!("{g:x?}, {w:?}")) } }
            TOp::GCopy(d, s, l) => { let g = self.guest(who, "copy", &[self.a(d), self.a(s), self.a(l)]); match (g, self.range(d, l), self.range(s, l)) { (Out::Vals(_), Some(_), Some(r)) => self.model.copy_within(r, d as usize), (Out::Trap(_), a, b) if a.is_none() || b.is_none() => (), (g, ..) => return err(format!("{g:x?}")) } }
            TOp::GCall(i) => if et == FUNC {
                let g = self.guest(who, "call", &[self.a(i)]);
                let want = self.model.get(i as usize).and_then(|v| self.calls.iter().find(|c| c.0 == *v)).map(|c| c.1);
                match (g, want) { (Out::Vals(v), Some(w)) if v == [w as u128] => (), (Out::Trap(_), None) => (), (g, w) => return err(format!("{g:x?}, expected {w:?}")) }
            },
        }
        Ok(())
    }
}
fn tshapes(all: bool) -> Vec<TShape> {
    let mut v = vec![];
    for et in [FUNC, EXT] { for is64 in [false, true] { for origin in [Origin::Host, Origin::Guest, Origin::Imported] { for (min, max) in [(0, None), (0, Some(0)), (0, Some(2)), (1, None), (3, Some(3)), (3, Some(5)), (5, None)] { if all || min != 1 { v.push(TShape { et, is64, min, max, origin }) } } } } }
    v
}
fn table_single(c: &Check, l: &mut Local, s: TShape) {
    let n = s.min;
    let ix: Vec<u64> = { let mut v = vec![0, 1, 2, n.saturating_sub(1), n, n + 1, i32::MAX as u64, 1 << 31, u32::MAX as u64]; v.sort_unstable(); v.dedup(); v };
    let big: Vec<u64> = ix.iter().copied().chain([1 << 32, (1 << 32) + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX, u64::MAX - n]).collect();
    let mut ops: Vec<TOp> = vec![TOp::Size];
    for &i in &ix { ops.push(TOp::Get(i as u32)); for t in ALL { for k in 0..3 { ops.push(TOp::Set(i as u32, t, k)) } } ops.extend([TOp::GGet(i), TOp::GSet(i, 2), TOp::GCall(i)]); }
    for &a in &big { for &b in &big { ops.push(TOp::Load(a as usize, b as usize)); for &x in &big { ops.push(TOp::Copy(a as usize, b as usize, x as usize)) } } }
    let ga = if s.is64 { &big } else { &ix };
    for &a in ga { for &b in ga { ops.push(TOp::GFill(a, 1, b)); for &x in ga { ops.push(TOp::GCopy(a, b, x)) } } }
    for d in [0, -1, i32::MIN, i32::MAX, 10_000_001] { for t in ALL { ops.push(TOp::Grow(d, t, 1)) } }
    for d in ga { if *d > 10_000_000 { ops.push(TOp::GGrow(*d, 1)) } }
    for d in [1, 0, 1, 2, 1] { ops.extend([TOp::Grow(d, s.et, 2), TOp::GGrow(d as u64, 3)]) }
    let r = guard(|| -> Result<(), String> {
        let mut r = trig(s)?;
        r.same("creation")?;
        let refill = |r: &mut TRig| { for i in 0..r.model.len() { r.model[i] = r.v(i + 1); let v = to_wv(r.s.et, r.model[i]); r.handles[0].set(&mut r.store, i as u32, v).map_err(|e| e.to_string())? } Ok::<(), String>(()) };
        refill(&mut r)?;
        for (i, op) in ops.iter().enumerate() {
            l.transitions += 1;
            l.traces += 1;
            let before = r.model.clone();
            r.step(op, i)?;
            let changed = r.model != before;
            if changed { l.states.insert(hash(&(s, &r.model))); }
            let copies = matches!(op, TOp::Copy(..) | TOp::GCopy(..) | TOp::Load(..));
            if changed || !copies || i % 8 == 0 { r.same(&format!("{op:?}"))? }
            if changed { refill(&mut r)? }
        }
        Ok(())
    });
    match r { Ok(Ok(())) => (), Ok(Err(e)) => c.violation(format!("table {s:?}"), format!("{s:?}: {e}"), ""), Err(p) => c.violation(format!("table panic {s:?}"), format!("{s:?}: panic {p}"), "") }
}
fn table_history_ops(n: u64, et: VT) -> Vec<TOp> {
    let other = if et == FUNC { EXT } else { FUNC };
    use TOp::*;
    vec![
        Set(0, et, 1), Set(n as u32 - 1, et, 2), Set(n as u32, et, 3), Set(0, et, 0), Set(1, other, 0), Set(1, I32, 1), Copy(0, 1, 2), Copy(1, 0, 2), Copy(0, n as usize - 1, 2), Copy(0, 0, n as usize + 1),
        Grow(0, et, 1), Grow(1, et, 3), Grow(2, et, 0), Grow(1, other, 0), Grow(9, et, 1), Grow(-1, et, 1), Get(n as u32), Load(1, n as usize),
        GSet(0, 4), GSet(n, 2), GGrow(1, 2), GGrow(9, 1), GFill(1, 3, 2), GFill(n - 1, 1, 2), GCopy(1, 0, 2), GCopy(n - 1, 0, 2), GCall(0), GCall(n),
    ]
}
fn table_history(c: &Check, l: &mut Local, s: TShape, first: usize, depth: usize) {
    let ops = table_history_ops(s.min, s.et);
    let mut ix = vec![0usize; depth - 1];
    loop {
        let seq: Vec<usize> = std::iter::once(first).chain(ix.iter().copied()).collect();
        let r = guard(|| -> Result<(), String> {
            let mut r = trig(s)?;
            for (i, o) in seq.iter().enumerate() { l.transitions += 1; r.step(&ops[*o], i + seq[0])?; if i + 1 == seq.len() || seq[i + 1..].iter().all(|x| *x == 0) { r.same(&format!("{:?}", ops[*o]))? } }
            l.states.insert(hash(&(s.et, s.is64, &r.model)));
            Ok(())
        });
        l.traces += 1;
        let show = || seq.iter().map(|o| format!("{:?}", ops[*o])).collect::<Vec<_>>().join("; ");
        match r { Ok(Ok(())) => (), Ok(Err(e)) => c.violation(format!("table history {s:?} {}", show()), format!("{s:?}, {}: {e}", show()), ""), Err(p) => c.violation(format!("table history panic {s:?} {}", show()), format!("{s:?}, {}: panic {p}", show()), "") }
        let Some(k) = (0..depth - 1).rev().find(|k| ix[*k] + 1 < ops.len()) else { return };
        ix[k] += 1;
        ix[k + 1..].fill(0);
        if c.stopped() { return }
    }
}

// ---------------------------------------------------------------- globals
fn patterns(t: VT) -> Vec<u128> {
    match t {
        I32 => vec![0, 1, 0x8000_0000, 0xffff_ffff], I64 => vec![0, 0xffff_ffff, 1 << 32, u64::MAX as u128], F32 => vec![0, 0x8000_0000, 0x7fc0_0000, 0x3f80_0001], F64 => vec![0, 1 << 63, 0x7ff8_0000_0000_0000, 0x3ff0_0000_0000_0001],
        V128 => vec![0, u128::MAX, 0x0f0e_0d0c_0b0a_0908_0706_0504_0302_0100], VT::Func => vec![NULL, 0, 1], VT::Ext => vec![NULL, 0, 7],
    }
}
fn cst(t: VT, v: u128) -> Op { match t { I32 => Op::I32C(v as u32 as i32), I64 => Op::I64C(v as u64 as i64), F32 => Op::F32C(v as u32), F64 => Op::F64C(v as u64), V128 => Op::VConst(v), t => Op::RefNull(t) } }
/// Exports global 0 of the given type and guest accessors; a neighbour on each side shows overwriting.
fn global_module(t: VT, mutable: bool, imported: bool) -> Module {
    let mut m = Module::default();
    if imported { m.imports.push(Import { module: "e".into(), name: "g".into(), kind: ImportKind::Global(t, mutable) }) }
    let g = if imported { 0 } else { m.global(t, mutable, cst(t, patterns(t)[1])) };
    let nb = m.global(I64, true, Op::I64C(0x5a5a));
    m.export("g", EK::Global, g);
    m.export("nb", EK::Global, nb);
    let f = m.func(&[], &[t], &[], vec![Op::GGet(g)]);
    m.export("get", EK::Func, f);
    if mutable { let f = m.func(&[t], &[], &[], vec![Op::LGet(0), Op::GSet(g)]); m.export("set", EK::Func, f); }
    let f2 = m.func(&[], &[I32], &[], vec![Op::I32C(1)]);
    m.elems.push(Elem { mode: SegMode::Declared, ty: FUNC, items: vec![vec![Op::RefFunc(f)], vec![Op::RefFunc(f2)]] });
    // a host function the guest can be re-entered from
    m
}
#[derive(Clone, Copy, Debug)]
enum GOp { Get(usize), Set(usize, VT, usize), GGet(usize), GSet(usize, usize), InCtx(VT, usize), Ty }
struct GRig { store: Store, t: VT, mutable: bool, handles: Vec<Global>, insts: Vec<ModuleInstance>, nbs: Vec<Global>, model: u128, ctx: Function, ctx_val: Rc<RefCell<(WasmValue, Option<Result<(), String>>)>> }
fn grig(t: VT, mutable: bool, origin: Origin) -> Result<GRig, String> {
    let es = |e: tinywasm::Error| e.to_string();
    let mut store = Store::default();
    let init = if t.is_ref() { NULL } else { patterns(t)[1] };
    let gm = parse(&encode(&global_module(t, mutable, false)), Opts::ON)?;
    let im_m = parse(&encode(&global_module(t, mutable, true)), Opts::ON)?;
    let (mut handles, mut insts) = (vec![], vec![]);
    match origin {
        Origin::Host => handles.push(Global::new(&mut store, GlobalType::new(wt(t), mutable), to_wv(t, init)).map_err(es)?),
        _ => { let i = ModuleInstance::instantiate(&mut store, &gm, None).map_err(es)?; handles.push(i.global("g").map_err(es)?); insts.push(i) }
    }
    while insts.len() < 2 {
        let mut im = Imports::new();
        im.define("e", "g", handles[0]);
        let i = ModuleInstance::instantiate(&mut store, &im_m, Some(im)).map_err(es)?;
        match i.extern_item("g") { Ok(ExternItem::Global(g)) => handles.push(g), _ => return Err("export g is no global".into()) }
        insts.push(i);
    }
    let nbs = insts.iter().map(|i| i.global("nb").expect("nb")).collect();
    // FuncContext::global_get / global_set act on the calling module's exports: the caller imports this host function
    let ctx_val = Rc::new(RefCell::new((WasmValue::I32(0), None)));
    let cv = ctx_val.clone();
    let host = HostFunction::from_untyped(&mut store, &FuncType::new(&[], &[]), move |mut c: FuncContext<'_>, _| {
        let v = cv.borrow().0;
        let r = c.global_set("g", v).map_err(|e| e.to_string());
        let back = c.global_get("g")?;
        let direct = c.global("g").and_then(|g| g.get(&c))?;
        if from_wv(&back) != from_wv(&direct) { return Err(tinywasm::Error::Other(format!("global_get gives {back:?}, the handle {direct:?}"))) }
        cv.borrow_mut().1 = Some(r);
        Ok(vec![])
    });
    let mut m = Module::default();
    let h = m.import_func("e", "h", &[], &[]);
    m.imports.push(Import { module: "e".into(), name: "g".into(), kind: ImportKind::Global(t, mutable) });
    m.export("g", EK::Global, 0);
    let f = m.func(&[], &[], &[], vec![Op::Call(h)]);
    m.export("run", EK::Func, f);
    let mut im = Imports::new();
    im.define("e", "h", host);
    im.define("e", "g", handles[0]);
    let cm = parse(&encode(&m), Opts::ON)?;
    let ci = ModuleInstance::instantiate(&mut store, &cm, Some(im)).map_err(es)?;
    let ctx = ci.func_untyped(&store, "run").map_err(es)?;
    Ok(GRig { store, t, mutable, handles, insts, nbs, model: init, ctx, ctx_val })
}
impl GRig {
    fn val(&self, t: VT, k: usize) -> WasmValue { let p = patterns(t); to_wv(t, p[k % p.len()]) }
    fn same(&mut self, at: &str) -> Result<(), String> {
        for (k, g) in self.handles.clone().iter().enumerate() {
            let v = g.get(&self.store).map(|v| from_wv(&v)).map_err(|e| e.to_string())?;
            if v != (self.t, self.model) { return Err(format!("after {at}: handle {k} reads {v:x?}, expected {:x}", self.model)) }
            let ty = g.ty(&self.store).map_err(|e| e.to_string())?;
            if ty.ty != wt(self.t) || ty.mutable != self.mutable { return Err(format!("after {at}: handle {k} has another type")) }
        }
        for i in 0..self.insts.len() {
            let v = self.insts[i].global_get(&self.store, "g").map(|v| from_wv(&v)).map_err(|e| e.to_string())?;
            let f = self.insts[i].func_untyped(&self.store, "get").map_err(|e| e.to_string())?;
            let g = vals_out(Some(&[self.t]), f.call(&mut self.store, &[]));
            if v != (self.t, self.model) || g != Out::Vals(vec![self.model]) { return Err(format!("after {at}: instance {i} reads {v:x?} / {g:x?}, expected {:x}", self.model)) }
        }
        for n in &self.nbs { if n.get(&self.store).map(|v| from_wv(&v).1).ok() != Some(0x5a5a) { return Err(format!("after {at}: another global changed")) } }
        Ok(())
    }
    fn step(&mut self, op: GOp) -> Result<(), String> {
        let err = |s: &Self, e: String| Err(format!("{op:?} on a {} global of type {:?}: {e}", if s.mutable { "mutable" } else { "immutable" }, s.t));
        match op {
            GOp::Ty => (),
            GOp::Get(h) => { let v = self.handles[h % self.handles.len()].get(&self.store); if v.as_ref().ok().map(from_wv) != Some((self.t, self.model)) { return err(self, format!("{v:?}")) } }
            GOp::Set(h, t, k) => {
                let v = self.val(t, k);
                let ok = t == self.t && self.mutable;
                let r = if h < 3 { self.handles[h % self.handles.len()].set(&mut self.store, v) } else { self.insts[h % 2].global_set(&mut self.store, "g", v) };
                if r.is_ok() != ok { return err(self, format!("{v:?}: {:?}", r.map_err(|e| e.to_string()))) }
                if ok { self.model = from_wv(&v).1 }
            }
            GOp::InCtx(t, k) => {
                let v = self.val(t, k);
                let ok = t == self.t && self.mutable;
                *self.ctx_val.borrow_mut() = (v, None);
                let r = self.ctx.call(&mut self.store, &[]).map_err(|e| e.to_string());
                let inner = self.ctx_val.borrow_mut().1.take();
                if r.is_err() || inner.as_ref().is_none_or(|i| i.is_ok() != ok) { return err(self, format!("{v:?} from a host function: {r:?} {inner:?}")) }
                if ok { self.model = from_wv(&v).1 }
            }
            GOp::GGet(i) => { let f = self.insts[i % 2].func_untyped(&self.store, "get").map_err(|e| e.to_string())?; let g = vals_out(Some(&[self.t]), f.call(&mut self.store, &[])); if g != Out::Vals(vec![self.model]) { return err(self, format!("{g:x?}")) } }
            GOp::GSet(i, k) => if self.mutable {
                let v = self.val(self.t, k);
                let f = self.insts[i % 2].func_untyped(&self.store, "set").map_err(|e| e.to_string())?;
                let g = vals_out(Some(&[]), f.call(&mut self.store, &[v]));
                if g != Out::Vals(vec![]) { return err(self, format!("{g:x?}")) }
                self.model = from_wv(&v).1;
            },
        }
        Ok(())
    }
}
fn globals(c: &Check, l: &mut Local, t: VT, mutable: bool, origin: Origin, depth: usize) {
    let other = if t == I32 { F32 } else { I32 };
    // every single operation with every value, then every history
    let mut singles = vec![GOp::Ty, GOp::Get(0), GOp::Get(1), GOp::GGet(0), GOp::GGet(1)];
    for ty in ALL { for k in 0..4 { for h in 0..5 { singles.push(GOp::Set(h, ty, k)) } singles.push(GOp::InCtx(ty, k)) } }
    for k in 0..4 { for i in 0..2 { singles.push(GOp::GSet(i, k)) } }
    let hist = [GOp::Set(0, t, 1), GOp::Set(1, t, 2), GOp::Set(3, t, 3), GOp::Set(4, t, 0), GOp::Set(0, other, 1), GOp::GSet(0, 2), GOp::GSet(1, 1), GOp::InCtx(t, 2), GOp::InCtx(other, 2)];
    let r = guard(|| -> Result<(), String> {
        let mut r = grig(t, mutable, origin)?;
        r.same("creation")?;
        for op in &singles { l.transitions += 1; l.traces += 1; r.step(*op)?; r.same(&format!("{op:?}"))?; l.states.insert(hash(&(t, mutable, r.model))); }
        let mut ix = vec![0usize; depth];
        loop {
            let mut r = grig(t, mutable, origin)?;
            for i in &ix { l.transitions += 1; r.step(hist[*i]).map_err(|e| format!("{:?}: {e}", ix.iter().map(|i| hist[*i]).collect::<Vec<_>>()))? }
            r.same(&format!("{:?}", ix.iter().map(|i| hist[*i]).collect::<Vec<_>>()))?;
            l.traces += 1;
            l.states.insert(hash(&(t, mutable, r.model)));
            let Some(k) = (0..depth).rev().find(|k| ix[*k] + 1 < hist.len()) else { return Ok(()) };
            ix[k] += 1;
            ix[k + 1..].fill(0);
        }
    });
    let n = format!("{} {t:?} mutable={mutable}", match origin { Origin::Host => "host", _ => "guest" });
    match r { Ok(Ok(())) => (), Ok(Err(e)) => c.violation(format!("global {n}"), format!("global {n}: {e}"), ""), Err(p) => c.violation(format!("global panic {n}"), format!("global {n}: panic {p}"), "") }
}
fn creation(c: &Check, l: &mut Local) {
    for t in ALL { for v in ALL { for mutable in [false, true] { for k in 0..4 {
        let val = { let p = patterns(v); to_wv(v, p[k % p.len()]) };
        let r = guard(|| { let mut s = Store::default(); let g = Global::new(&mut s, GlobalType::new(wt(t), mutable), val).map_err(|e| e.to_string())?; let x = g.get(&s).map_err(|e| e.to_string())?; Ok::<_, String>(from_wv(&x)) });
        l.traces += 1;
        l.transitions += 1;
        let ok = match &r { Ok(Ok(x)) => t == v && *x == from_wv(&val), Ok(Err(_)) => t != v, Err(_) => false };
        if !ok { c.violation(format!("new global {t:?} {v:?}"), format!("Global::new of type {t:?} with {val:?}: {r:x?}"), "") }
    } } } }
    for et in ALL { for v in ALL { for is64 in [false, true] { for min in [0u64, 1, 3, 10_000_001, u32::MAX as u64, 1 << 40, u64::MAX] { for max in [None, Some(0), Some(1), Some(2), Some(3), Some(u32::MAX as u64), Some(u64::MAX)] { for k in 0..2 {
        let val = { let p = patterns(v); to_wv(v, p[k % p.len()]) };
        let r = guard(|| {
            let mut s = Store::default();
            let ty = if is64 { TableType::new64(wt(et), min, max) } else { TableType::new(wt(et), min, max) };
            let t = Table::new(&mut s, ty, val).map_err(|e| e.to_string())?;
            let e: Vec<_> = t.load(&s, 0, t.size(&s).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?.map(|x| from_wv(&x)).collect();
            Ok::<_, String>((e, t.ty(&s).map_err(|e| e.to_string())? == ty))
        });
        l.traces += 1;
        l.transitions += 1;
        let fits = et.is_ref() && v == et && max.is_none_or(|m| m >= min);
        let ok = match &r { Ok(Ok((e, same))) => fits && *same && e.len() as u64 == min && e.iter().all(|x| *x == from_wv(&val)), Ok(Err(_)) => !fits || min > 10_000_000, Err(_) => false };
        if !ok { c.violation(format!("new table {et:?} {v:?} {is64} {min} {max:?}"), format!("Table::new of {et:?} (64-bit: {is64}) with {min}..{max:?} elements of {val:?}: {:.200}", format!("{r:x?}")), "") }
        l.states.insert(hash(&(et, v, is64, min, max)));
    } } } } } }
}

pub fn run(c: &Check) {
    let shapes = tshapes(!c.quick());
    c.par(shapes.len(), |j, l| table_single(c, l, shapes[j]));
    c.bound(format!("(a) {} table shapes (element type × index type × limits × host-created, guest-declared, imported) × every operation with every boundary index, length and value type", shapes.len()));
    let depth = c.pick(3, 4);
    let hs: Vec<TShape> = [(FUNC, false, Origin::Host), (FUNC, true, Origin::Guest), (EXT, false, Origin::Imported), (EXT, true, Origin::Host)].into_iter().map(|(et, is64, origin)| TShape { et, is64, min: 3, max: Some(5), origin }).collect();
    let n = table_history_ops(3, FUNC).len();
    c.par(hs.len() * n, |j, l| table_history(c, l, hs[j % hs.len()], j / hs.len(), depth));
    c.bound(format!("(b) every history of length {depth} over {n} host and guest table actions on {} shapes, through rotating handles and instances", hs.len()));
    let gd = c.pick(3, 4);
    let gs: Vec<(VT, bool, Origin)> = ALL.into_iter().flat_map(|t| [false, true].into_iter().flat_map(move |m| [Origin::Host, Origin::Guest].map(move |o| (t, m, o)))).collect();
    c.par(gs.len(), |j, l| globals(c, l, gs[j].0, gs[j].1, gs[j].2, gd));
    c.bound(format!("(c) globals of 7 types × mutability × origin: every operation with every value type, every history of length {gd} over 9 actions"));
    c.par(1, |_, l| creation(c, l));
    c.bound("(d) Table::new and Global::new with every combination of declared type, value type and limits");
    c.assume("function references given by the host are references obtained from the same store; implementation limit of 10000000 table elements as declared in the code");
}
