//! P20: handles used with a store they do not belong to are refused.
//! Every operation that takes a handle and a store, with every handle of one store against another store, for every
//! pair of populations (equal, differently typed, smaller, larger), every creation and destruction order, at top
//! level and from inside a host function; neither store changes. The same operations work on the handles' own store,
//! also after the stores were moved.
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use std::cell::{Cell, RefCell};
use std::io::{Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use tinywasm::types::{GlobalType, MemoryType, TableType, WasmType, WasmValue};
use tinywasm::{ExternItem, FuncContext, Function, FunctionTyped, Global, HostFunction, Imports, Memory, ModuleInstance, Store, Table};
use VT::{F64, I32, I64};
const FUNC: VT = VT::Func;
const EXT: VT = VT::Ext;

/// Two modules that put differently typed items at the same indices.
fn module(kind: usize) -> Module {
    let mut m = Module::default();
    if kind == 0 {
        m.mem(Limits::new(1, Some(3)));
        m.table(FUNC, Limits::new(4, Some(8)));
        m.global(I32, true, Op::I32C(5));
        m.global(I64, false, Op::I64C(6));
        let inc = m.func(&[I32], &[I32], &[], vec![Op::GGet(0), Op::LGet(0), num("i32.add"), Op::LTee(0), Op::GSet(0), Op::LGet(0)]);
        m.func(&[], &[], &[], vec![Op::I32C(3), Op::I32C(0x55), Op::Mem { op: 0x3a, m: MA { align: 0, offset: 0, mem: 0 } }]);
        m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(1)] }, ty: FUNC, items: vec![vec![Op::RefFunc(inc)]] });
    } else {
        m.mem(Limits { min: 9, max: Some(20), is64: true, page_log2: Some(0) });
        m.table(EXT, Limits::new(2, None));
        m.global(F64, true, Op::F64C(0x4000_0000_0000_0000));
        m.global(EXT, true, Op::RefNull(EXT));
        m.func(&[], &[I64], &[], vec![Op::I64C(9)]);
        m.func(&[I64, F64], &[F64], &[], vec![Op::LGet(1)]);
    }
    let s = m.func(&[], &[], &[], if kind == 0 { vec![Op::I32C(1), Op::GSet(0)] } else { vec![Op::F64C(0), Op::GSet(0)] });
    m.start = Some(s);
    crate::world::export_all(&mut m);
    m
}
struct Half { store: Store, insts: Vec<ModuleInstance>, mems: Vec<Memory>, tables: Vec<Table>, globals: Vec<Global>, funcs: Vec<Function>, hits: Rc<Cell<u32>> }
/// What a store holds: one instance of module 0, of module 1, nothing, or several of both.
const POPS: [&str; 4] = ["module 0", "module 1", "empty", "many"];
fn half(pop: usize, mods: &[tinywasm::Module]) -> Half {
    let mut h = Half { store: Store::default(), insts: vec![], mems: vec![], tables: vec![], globals: vec![], funcs: vec![], hits: Default::default() };
    let which: &[usize] = [&[0][..], &[1], &[], &[0, 1, 0]][pop];
    for k in which {
        let i = ModuleInstance::instantiate(&mut h.store, &mods[*k], None).expect("instantiate");
        for (_, e) in i.exports() { match e { ExternItem::Func(f) => h.funcs.push(f), ExternItem::Memory(m) => h.mems.push(m), ExternItem::Table(t) => h.tables.push(t), ExternItem::Global(g) => h.globals.push(g) } }
        h.funcs.push(i.func_untyped(&h.store, "f0").expect("f0"));
        h.insts.push(i);
    }
    if pop != 2 {
        h.mems.push(Memory::new(&mut h.store, MemoryType::default().with_page_count_initial(1)).expect("memory"));
        h.tables.push(Table::new(&mut h.store, TableType::new(WasmType::RefExtern, 3, None), WasmValue::default_for(WasmType::RefExtern)).expect("table"));
        h.globals.push(Global::new(&mut h.store, GlobalType::default().with_ty(WasmType::I64).with_mutable(true), WasmValue::I64(4)).expect("global"));
        let (n, n2) = (h.hits.clone(), h.hits.clone());
        h.funcs.push(HostFunction::from_untyped(&mut h.store, &tinywasm::types::FuncType::new(&[], &[]), move |_, _| { n.set(n.get() + 1); Ok(vec![]) }));
        h.funcs.push(HostFunction::from(&mut h.store, move |_: FuncContext<'_>, a: i32| { n2.set(n2.get() + 1); Ok(a) }));
    }
    h
}
impl Half {
    fn snapshot(&self, own: &Store) -> Result<u64, String> {
        let mut v: Vec<u8> = vec![];
        let e = |e: tinywasm::Error| format!("own handle refused: {e}");
        for m in &self.mems { let n = m.len(own).map_err(e)?; v.extend((n as u64).to_le_bytes()); v.extend(m.read_vec(own, 0, n).map_err(e)?) }
        for t in &self.tables { let n = t.size(own).map_err(e)?; v.extend((n as u64).to_le_bytes()); for x in t.load(own, 0, n).map_err(e)? { v.extend(from_wv(&x).1.to_le_bytes()) } }
        for g in &self.globals { v.extend(from_wv(&g.get(own).map_err(e)?).1.to_le_bytes()) }
        v.extend(self.hits.get().to_le_bytes());
        Ok(v.chunks(8).fold(v.len() as u64, |h, c| { let mut b = [0u8; 8]; b[..c.len()].copy_from_slice(c); (h ^ u64::from_le_bytes(b)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23) }))
    }
}
/// Runs against a store: Ok(description) if the operation reports success, Err if it reports an error.
type OpFn = Box<dyn Fn(&mut Store) -> Result<(), String>>;
struct Oper { name: String, f: OpFn, ctx: Option<Box<dyn Fn(&mut FuncContext<'_>) -> Result<(), String>>>, own_ok: bool }
fn zero(t: WasmType) -> WasmValue { WasmValue::default_for(t) }
/// Every operation with every handle of `h` (created for `own` while it was still at hand).
fn opers(h: &Half) -> Vec<Oper> {
    let mut v: Vec<Oper> = vec![];
    macro_rules! op { ($n:expr, $ok:expr, $f:expr) => { let f = $f; v.push(Oper { name: $n, f: Box::new(move |s: &mut Store| { let r: Result<(), String> = f(s); r }), ctx: None, own_ok: $ok }) } }
    fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<(), String> { r.map(|_| ()).map_err(|e| e.to_string()) }
    for (i, m) in h.mems.iter().enumerate() {
        let m = *m;
        let page = m.ty(&h.store).expect("type").page_size();
        let n = |o: &str| format!("memory {i} {o}");
        op!(n("len"), true, move |s: &mut Store| e(m.len(s)));
        op!(n("ty"), true, move |s: &mut Store| e(m.ty(s)));
        op!(n("page_count"), true, move |s: &mut Store| e(m.page_count(s)));
        for len in [0usize, 1, 4] {
            op!(n(&format!("read {len}")), true, move |s: &mut Store| e(m.read(s, 1, &mut vec![0; len])));
            op!(n(&format!("read_exact {len}")), true, move |s: &mut Store| e(m.read_exact(s, 1, &mut vec![0; len])));
            op!(n(&format!("read_vec {len}")), true, move |s: &mut Store| e(m.read_vec(s, 1, len)));
            op!(n(&format!("write {len}")), true, move |s: &mut Store| e(m.write(s, 1, &vec![0xa5; len])));
            op!(n(&format!("copy_from_slice {len}")), true, move |s: &mut Store| e(m.copy_from_slice(s, 1, &vec![0xa6; len])));
            op!(n(&format!("fill {len}")), true, move |s: &mut Store| e(m.fill(s, 1, len, 0xa7)));
            op!(n(&format!("copy_within {len}")), true, move |s: &mut Store| e(m.copy_within(s, 1, 3, len)));
            op!(n(&format!("read_string {len}")), true, move |s: &mut Store| e(m.fill(s, 0, 8, 0x41)).and_then(|_| e(m.read_string(s, 0, len))));
            op!(n(&format!("read_string alone {len}")), true, move |s: &mut Store| { match m.read_string(s, 5, len) { Err(x) if x.to_string().contains("UTF") || x.to_string().contains("utf") => Ok(()), r => e(r) } });
            op!(n(&format!("read_js_string {len}")), true, move |s: &mut Store| e(m.read_js_string(s, 0, len & !1)));
        }
        op!(n("read beyond"), true, move |s: &mut Store| e(m.read(s, usize::MAX, &mut [0; 4])));
        op!(n("read_vec beyond"), false, move |s: &mut Store| e(m.read_vec(s, usize::MAX, 4)));
        op!(n("grow 0"), true, move |s: &mut Store| e(m.grow(s, 0)));
        op!(n("grow 1"), true, move |s: &mut Store| e(m.grow(s, 1)));
        op!(n("grow too much"), true, move |s: &mut Store| e(m.grow(s, i64::MAX)));
        op!(n("grow negative"), true, move |s: &mut Store| e(m.grow(s, -1)));
        let _ = page;
        op!(n("write_cstring"), true, move |s: &mut Store| e(m.write_cstring(s, 0, &std::ffi::CString::new("ab").unwrap())));
        op!(n("write_cstring_bytes"), true, move |s: &mut Store| e(m.write_cstring_bytes(s, 0, "ab")));
        op!(n("read_cstring"), true, move |s: &mut Store| { match m.read_cstring(s, 0, 3) { Err(x) if !x.to_string().contains("store") => Ok(()), r => e(r) } });
        op!(n("read_cstring_until_null"), true, move |s: &mut Store| { match m.read_cstring_until_null(s, 0, 8) { Err(x) if !x.to_string().contains("store") => Ok(()), r => e(r) } });
        op!(n("cursor read"), true, move |s: &mut Store| { let mut c = m.cursor(s).map_err(|e| e.to_string())?; e(c.read(&mut [0; 2])) });
        op!(n("cursor write"), true, move |s: &mut Store| { let mut c = m.cursor(s).map_err(|e| e.to_string())?; e(c.write(&[0x99; 2])) });
        op!(n("cursor_at write"), true, move |s: &mut Store| { let mut c = m.cursor_at(s, 2).map_err(|e| e.to_string())?; e(c.write(&[0x98; 2])) });
        op!(n("cursor seek"), true, move |s: &mut Store| { let mut c = m.cursor_at(s, 2).map_err(|e| e.to_string())?; e(c.seek(SeekFrom::End(-1))) });
        for as64 in [false, true] {
            op!(n(&format!("import {as64}")), true, move |s: &mut Store| {
                // declared as whatever the handle is when it is right; against a foreign store as every shape
                let shapes = [Limits::new(0, None), Limits::new(0, Some(3)), Limits { min: 0, max: None, is64: true, page_log2: Some(0) }, Limits { min: 0, max: Some(20), is64: true, page_log2: Some(0) }];
                any_import(s, shapes.iter().map(|l| ImportKind::Mem(*l)).collect(), as64, m.into())
            });
        }
    }
    for (i, t) in h.tables.iter().enumerate() {
        let t = *t;
        let et = t.ty(&h.store).expect("type").element_type;
        let n = |o: &str| format!("table {i} {o}");
        op!(n("ty"), true, move |s: &mut Store| e(t.ty(s)));
        op!(n("size"), true, move |s: &mut Store| e(t.size(s)));
        for ix in [0u32, 1] {
            op!(n(&format!("get {ix}")), true, move |s: &mut Store| e(t.get(s, ix)));
            op!(n(&format!("set {ix}")), true, move |s: &mut Store| e(t.set(s, ix, zero(et))));
            op!(n(&format!("load {ix}")), true, move |s: &mut Store| e(t.load(s, 0, ix as usize)));
            op!(n(&format!("copy_within {ix}")), true, move |s: &mut Store| e(t.copy_within(s, 0, 1, ix as usize)));
            op!(n(&format!("grow {ix}")), true, move |s: &mut Store| e(t.grow(s, ix as i32, zero(et))));
        }
        for (k, x) in [FUNC, EXT].into_iter().enumerate() {
            op!(n(&format!("set as {x:?}")), (k == 0) == (et == WasmType::RefFunc), move |s: &mut Store| e(t.set(s, 0, zero(wt(x)))));
            op!(n(&format!("grow as {x:?}")), (k == 0) == (et == WasmType::RefFunc), move |s: &mut Store| e(t.grow(s, 0, zero(wt(x)))));
        }
        op!(n("import"), true, move |s: &mut Store| any_import(s, [FUNC, EXT].into_iter().flat_map(|v| [None, Some(8)].map(|m| ImportKind::Table(v, Limits::new(0, m)))).collect(), false, t.into()));
    }
    for (i, g) in h.globals.iter().enumerate() {
        let g = *g;
        let ty = g.ty(&h.store).expect("type");
        let n = |o: &str| format!("global {i} {o}");
        op!(n("ty"), true, move |s: &mut Store| e(g.ty(s)));
        op!(n("get"), true, move |s: &mut Store| e(g.get(s)));
        for x in [I32, I64, F64, EXT] { op!(n(&format!("set {x:?}")), ty.mutable && wt(x) == ty.ty, move |s: &mut Store| e(g.set(s, if x == I32 { WasmValue::I32(77) } else { zero(wt(x)) }))); }
        op!(n("import"), true, move |s: &mut Store| any_import(s, [I32, I64, F64, EXT].into_iter().flat_map(|v| [false, true].map(|m| ImportKind::Global(v, m))).collect(), false, g.into()));
    }
    for (i, f) in h.funcs.iter().enumerate() {
        // the signature, from what the handle says when imported or called: tried in every shape
        let shapes: [Vec<WasmValue>; 3] = [vec![], vec![WasmValue::I32(3)], vec![WasmValue::I64(1), WasmValue::F64(2.0)]];
        for (k, a) in shapes.into_iter().enumerate() {
            let n = |o: &str| format!("function {i} {o} with arguments {k}");
            let (f1, f2, f3, a1, a2, a3) = (f.clone(), f.clone(), f.clone(), a.clone(), a.clone(), a.clone());
            // exactly one of the three shapes fits; checked below through `any`
            op!(n("call"), false, move |s: &mut Store| e(f1.call(s, &a1)));
            op!(n("call_resumable"), false, move |s: &mut Store| { let mut x = f2.call_resumable(s, &a2).map_err(|e| e.to_string())?; e(x.resume_with_fuel(1000)) });
            v.push(Oper { name: n("call_untyped"), f: Box::new(|_| Err("only from a host function".into())), ctx: Some(Box::new(move |c| e(c.call_untyped(&f3, &a3)))), own_ok: false });
        }
        let f4 = f.clone();
        op!(format!("function {i} import"), true, move |s: &mut Store| {
            let sigs: [(&[VT], &[VT]); 7] = [(&[], &[]), (&[I32], &[I32]), (&[], &[I64]), (&[I64, F64], &[F64]), (&[I32], &[]), (&[], &[I32]), (&[I64], &[])];
            let mut r = Err(String::new());
            for (p, q) in sigs { let mut m = Module::default(); let t = m.ty(p, q); m.imports.push(Import { module: "a".into(), name: "x".into(), kind: ImportKind::Func(t) }); r = import_one(s, &m, f4.clone().into(), None); if r.is_ok() { break } }
            r
        });
    }
    for (i, inst) in h.insts.iter().enumerate() {
        let n = |o: &str| format!("instance {i} {o}");
        macro_rules! iop { ($n:expr, $ok:expr, |$x:ident, $s:ident| $b:expr) => { let $x = inst.clone(); op!($n, $ok, move |$s: &mut Store| $b) } }
        for name in ["f0", "f1", "f2"] { iop!(n(&format!("func_untyped {name}")), true, |x, s| e(x.func_untyped(s, name))); }
        iop!(n("func_untyped missing"), false, |x, s| e(x.func_untyped(s, "nope")));
        let k0 = h.mems.iter().position(|m| *m == inst.memory("m0").expect("m0")).is_some_and(|p| h.mems[p].ty(&h.store).is_ok_and(|t| t.page_size() == 65536));
        iop!(n("func typed"), k0, |x, s| e(x.func::<i32, i32>(s, "f0")));
        iop!(n("func typed other"), !k0, |x, s| e(x.func::<(), i64>(s, "f0")));
        iop!(n("start_func"), true, |x, s| e(x.start_func(s)));
        iop!(n("start"), true, |x, s| e(x.start(s)));
        for g in ["g0", "g1"] {
            iop!(n(&format!("global_get {g}")), true, |x, s| e(x.global_get(s, g)));
            let own = inst.global(g).expect("global").ty(&h.store).expect("type");
            iop!(n(&format!("global_set {g}")), own.mutable, |x, s| e(x.global_set(s, g, zero(own.ty))));
        }
        // items reached through the instance
        iop!(n("memory()"), true, |x, s| e(x.memory("m0").and_then(|m| m.fill(s, 0, 4, 9))));
        iop!(n("table()"), true, |x, s| e(x.table("t0").and_then(|m| m.size(s))));
        iop!(n("global()"), true, |x, s| e(x.global("g0").and_then(|m| m.get(s))));
        iop!(n("extern_item"), true, |x, s| match x.extern_item("f2").map_err(|e| e.to_string())? { ExternItem::Func(f) => e(f.call(s, &[])), _ => panic!() });
        iop!(n("exports"), true, |x, s| { for (name, it) in x.exports() { if name == "f2" { let ExternItem::Func(f) = it else { panic!() }; e(f.call(s, &[]))? } } Ok(()) });
        iop!(n("link memory"), true, |x, s| { let mut m = Module::default(); m.imports.push(Import { module: "a".into(), name: "m0".into(), kind: ImportKind::Mem(if k0 { Limits::new(0, None) } else { Limits { min: 0, max: None, is64: true, page_log2: Some(0) } }) }); import_one(s, &m, None::<tinywasm::Memory>.map_or(Ext0::No, Ext0::M), Some(x.clone())) });
        iop!(n("link function"), true, |x, s| { let mut m = Module::default(); let t = m.ty(&[], &[]); m.imports.push(Import { module: "a".into(), name: "f2".into(), kind: ImportKind::Func(t) }); import_one(s, &m, Ext0::No, Some(x.clone())) });
        // the typed handles of the instance
        if k0 {
            let t: FunctionTyped<i32, i32> = inst.func(&h.store, "f0").expect("typed");
            let t = Rc::new(t);
            let (t1, t2, t3) = (t.clone(), t.clone(), t);
            op!(n("typed call"), true, move |s: &mut Store| e(t1.call(s, 1)));
            op!(n("typed call_resumable"), true, move |s: &mut Store| { let mut x = t2.call_resumable(s, 1).map_err(|e| e.to_string())?; e(x.resume_with_fuel(1000)) });
            v.push(Oper { name: n("typed context call"), f: Box::new(|_| Err("only from a host function".into())), ctx: Some(Box::new(move |c| e(c.call(&t3, 1)))), own_ok: false });
        }
    }
    v
}
/// A value to define, or nothing.
#[derive(Clone)]
enum Ext0 { No, M(Memory), T(Table), G(Global), F(Function) }
impl From<Memory> for Ext0 { fn from(x: Memory) -> Self { Ext0::M(x) } }
impl From<Table> for Ext0 { fn from(x: Table) -> Self { Ext0::T(x) } }
impl From<Global> for Ext0 { fn from(x: Global) -> Self { Ext0::G(x) } }
impl From<Function> for Ext0 { fn from(x: Function) -> Self { Ext0::F(x) } }
fn import_one(s: &mut Store, m: &Module, x: Ext0, link: Option<ModuleInstance>) -> Result<(), String> {
    let t = parse(&encode(m), Opts::ON)?;
    let mut i = Imports::new();
    match x { Ext0::No => {} Ext0::M(v) => { i.define("a", "x", v); } Ext0::T(v) => { i.define("a", "x", v); } Ext0::G(v) => { i.define("a", "x", v); } Ext0::F(v) => { i.define("a", "x", v); } }
    if let Some(l) = link { i.link_module("a", l).map_err(|e| e.to_string())?; }
    ModuleInstance::instantiate(s, &t, Some(i)).map(|_| ()).map_err(|e| e.to_string())
}
/// Imports the value declared in each of the ways; succeeds if one works.
fn any_import(s: &mut Store, kinds: Vec<ImportKind>, active: bool, x: Ext0) -> Result<(), String> {
    let mut r = Err(String::new());
    for k in kinds {
        let mut m = Module::default();
        if active && let ImportKind::Mem(l) = &k { m.datas.push(Data { mode: SegMode::Active { idx: 0, offset: vec![if l.is64 { Op::I64C(0) } else { Op::I32C(0) }] }, bytes: vec![0xee] }) }
        m.imports.push(Import { module: "a".into(), name: "x".into(), kind: k });
        r = import_one(s, &m, x.clone(), None);
        if r.is_ok() { break }
    }
    r
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Order { BFirst, BSecond, ADropped, Swapped, Moved }
const ORDERS: [Order; 5] = [Order::BFirst, Order::BSecond, Order::ADropped, Order::Swapped, Order::Moved];

/// Runs an operation against a store, at top level or from inside a host function of that store.
fn apply(o: &Oper, s: &mut Store, inside: bool, slot: &Rc<RefCell<Option<usize>>>, via: &Option<Function>, table: &Rc<Vec<Oper>>, i: usize, out: &Rc<RefCell<Option<Result<Result<(), String>, String>>>>) -> Result<Result<(), String>, String> {
    let _ = table;
    if !inside { return guard(|| (o.f)(s)); }
    *slot.borrow_mut() = Some(i);
    let f = via.clone().unwrap();
    guard(|| f.call(s, &[]))?.map_err(|e| format!("the host function failed: {e}"))?;
    out.borrow_mut().take().ok_or_else(|| "the host function did not run".to_string())?
}
fn pair(l: &mut Local, c: &Check, mods: &[tinywasm::Module], pa: usize, pb: usize, order: Order, inside: bool, second: Option<usize>) {
    let name = format!("handles of [{}] on [{}], {order:?}{}", POPS[pa], POPS[pb], if inside { ", inside a host function" } else { "" });
    let (mut a, mut b);
    if order == Order::BFirst { b = half(pb, mods); a = half(pa, mods) } else { a = half(pa, mods); b = half(pb, mods) }
    let ops = Rc::new(opers(&a));
    let slot: Rc<RefCell<Option<usize>>> = Default::default();
    let out: Rc<RefCell<Option<Result<Result<(), String>, String>>>> = Default::default();
    let via = |s: &mut Store| {
        let (slot, out, ops) = (slot.clone(), out.clone(), ops.clone());
        HostFunction::from_untyped(s, &tinywasm::types::FuncType::new(&[], &[]), move |mut ctx, _| {
            let Some(i) = slot.borrow_mut().take() else { return Ok(vec![]) };
            let r = guard(|| match &ops[i].ctx { Some(f) => f(&mut ctx), None => (ops[i].f)(ctx.store_mut()) });
            *out.borrow_mut() = Some(r);
            Ok(vec![])
        })
    };
    let vb = Some(via(&mut b.store));
    match order {
        Order::ADropped => { let fresh = Store::default(); drop(std::mem::replace(&mut a.store, fresh)); b = half(pb, mods); }
        // each half keeps its handles; only the places of the stores change
        Order::Swapped => std::mem::swap(&mut a.store, &mut b.store),
        _ => {}
    }
    let vb = if order == Order::ADropped { Some(via(&mut b.store)) } else { vb };
    // the store the handles belong to, and the other one
    let (snap_a, snap_b) = match order {
        Order::Swapped => (a.snapshot(&b.store), b.snapshot(&a.store)), Order::ADropped => (Ok(0), b.snapshot(&b.store)), _ => (a.snapshot(&a.store), b.snapshot(&b.store)),
    };
    let (snap_a, snap_b) = match (snap_a, snap_b) { (Ok(x), Ok(y)) => (x, y), (x, y) => { c.violation(format!("snapshot|{name}"), format!("{x:?} {y:?}"), name); return } };
    for i in 0..ops.len() {
        if c.stopped() { return }
        for j in second.map_or(0..1, |_| 0..ops.len()) {
            for q in [i, j].into_iter().take(if second.is_some() { 2 } else { 1 }) {
                let o = &ops[q];
                if !inside && o.ctx.is_some() { continue }
                l.transitions += 1;
                l.traces += 1;
                let foreign = if order == Order::Swapped { &mut a.store } else { &mut b.store };
                let r = apply(o, foreign, inside, &slot, &vb, &ops, q, &out);
                let bad = match r { Err(p) => Some(format!("panic: {p}")), Ok(Ok(())) => Some("succeeded".into()), Ok(Err(_)) => None };
                let after = match order { Order::Swapped => (a.snapshot(&b.store), b.snapshot(&a.store)), Order::ADropped => (Ok(0), b.snapshot(&b.store)), _ => (a.snapshot(&a.store), b.snapshot(&b.store)) };
                let bad = bad.or_else(|| (after != (Ok(snap_a), Ok(snap_b))).then(|| "changed a store although it was refused".to_string()));
                l.states.insert(hash(&(snap_a, snap_b, &o.name, pa, pb)));
                if let Some(e) = bad { c.violation(format!("{name}: {}", o.name), e, format!("{name}: {}", o.name)); return }
            }
        }
    }
    l.sample(|| format!("{name}: {} operations", ops.len()));
    // nothing of the foreign store was disturbed: its own handles still work
    own(l, c, &name, if order == Order::Swapped { &mut a.store } else { &mut b.store }, b.funcs.clone());
    if order == Order::ADropped { return }
    let st = if order == Order::Swapped { &mut b.store } else { &mut a.store };
    if order == Order::Moved { let moved = Box::new(std::mem::take(st)); *st = *moved; }
    positive(l, c, &name, &ops, st);
    own(l, c, &name, st, a.funcs.clone());
}
/// Each function accepts exactly one of the argument shapes on its own store.
fn own(l: &mut Local, c: &Check, name: &str, s: &mut Store, funcs: Vec<Function>) {
    for (i, f) in funcs.iter().enumerate() {
        let n = [vec![], vec![WasmValue::I32(3)], vec![WasmValue::I64(1), WasmValue::F64(2.0)]].iter().filter(|a| { l.transitions += 1; matches!(guard(|| f.call(s, a)), Ok(Ok(_))) }).count();
        if n != 1 { c.violation(format!("{name}: own function {i}"), format!("{n} of 3 argument lists accepted by the own store"), name.to_string()); return }
    }
}
/// The operations that must work on the handles' own store do.
fn positive(l: &mut Local, c: &Check, name: &str, ops: &[Oper], s: &mut Store) {
    for o in ops.iter().filter(|o| o.own_ok) {
        l.transitions += 1;
        l.add("own operations", 1);
        match guard(|| (o.f)(s)) { Ok(Ok(())) => {} r => { c.violation(format!("{name}: own {}", o.name), format!("on its own store: {r:?}"), name.to_string()); return } }
    }
}
pub fn run(c: &Check) {
    let bytes: Vec<Vec<u8>> = (0..2).map(|k| encode(&module(k))).collect();
    let two = !c.quick();
    let mut jobs = vec![];
    for pa in [0usize, 1, 3] { for pb in 0..4usize { for o in ORDERS { for inside in [false, true] { jobs.push((pa, pb, o, inside)) } } } }
    c.bound(format!("3 × 4 populations of the two stores × {} creation orders × top level or inside a host function; every operation with every handle{}", ORDERS.len(), if two { ", and every ordered pair of such operations for the populations of one module each" } else { "" }));
    c.par(jobs.len(), |j, l| {
        let (pa, pb, o, inside) = jobs[j];
        let mods: Vec<_> = bytes.iter().map(|b| parse(b, Opts::ON).expect("module")).collect();
        pair(l, c, &mods, pa, pb, o, inside, None);
        if two && pa < 2 && pb < 2 && o == Order::BSecond { pair(l, c, &mods, pa, pb, o, inside, Some(0)) }
    });
    c.assume("reference values (the contents of funcref values) carry no store and are not handles; a host function does not replace the store it runs in");
}
