//! P27: a module survives archiving unchanged and damaged archives are refused.
//! (a) every program of the bounds of P01-P05 and (b) every operator with every immediate class; (c) every kind of
//! declaration with values around every boundary of the encoding; (d) modules at the limits and the corpus; (e) loaded
//! and parsed modules linked with each other; (f) truncations, header changes and all other damage.
use crate::archive::*;
use crate::batch::{end_watch, watch, watch_tick};
use crate::corpus::*;
use crate::props::p26;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use tinywasm::types::{ExportType, ImportType, WasmType, WasmValue};
use tinywasm::{ExecProgress, ExternItem, Global, HostFunction, Imports, Memory, Module as TModule, ModuleInstance, Store, Table};
use VT::{F32, F64, I32, I64, V128};
const FUNC: VT = VT::Func;
const EXT: VT = VT::Ext;
const MEMOFF: Opts = Opts { rewrite: true, memopt: false, validate: true, threads: 1 };

/// Imports of exactly the types a module asks for; None if it asks for more than a test should allocate.
fn imports_for(store: &mut Store, m: &TModule) -> Option<Imports> {
    let mut imps = Imports::new();
    for i in m.imports() {
        match i.ty {
            ImportType::Func(t) => { let r: Vec<WasmValue> = t.results().iter().map(|t| WasmValue::default_for(*t)).collect(); let f = HostFunction::from_untyped(store, t, move |_, _| Ok(r.clone())); imps.define(i.module, i.name, f); }
            ImportType::Table(t) => { if t.size_initial > 100_000 { return None } let t = Table::new(store, *t, WasmValue::default_for(t.element_type)).ok()?; imps.define(i.module, i.name, t); }
            ImportType::Memory(t) => { if t.initial_size() > 1 << 24 { return None } let x = Memory::new(store, *t).ok()?; imps.define(i.module, i.name, x); }
            ImportType::Global(t) => { let g = Global::new(store, *t, WasmValue::default_for(t.ty)).ok()?; imps.define(i.module, i.name, g); }
        }
    }
    Some(imps)
}
fn wv(v: &WasmValue) -> String { format!("{:x?}", from_wv(v)) }
/// Everything that can be seen of a module in bounded time: descriptors, instantiation, exports, calls, state.
pub fn behaviour(m: &TModule) -> Vec<String> {
    let mut out = vec![];
    for i in m.imports() { out.push(format!("import {:?} {:?} {}", i.module, i.name, match i.ty { ImportType::Func(t) => format!("{t:?}"), ImportType::Table(t) => format!("{t:?}"), ImportType::Memory(t) => format!("{t:?} {:?}", t.page_count_max_declared()), ImportType::Global(t) => format!("{t:?}") })) }
    let mut sigs: Vec<Option<Vec<WasmType>>> = vec![];
    for e in m.exports() {
        sigs.push(match e.ty { ExportType::Func(t) => Some(t.params().to_vec()), _ => None });
        out.push(format!("export {:?} {}", e.name, match e.ty { ExportType::Func(t) => format!("{t:?}"), ExportType::Table(t) => format!("{t:?}"), ExportType::Memory(t) => format!("{t:?} {:?}", t.page_count_max_declared()), ExportType::Global(t) => format!("{t:?}") }));
    }
    if m.memory_types.iter().any(|t| t.initial_size() > 1 << 24) || m.table_types.iter().any(|t| t.size_initial > 100_000) { return out }
    let r = guard(|| {
        let mut out = vec![];
        let mut s = Store::default();
        let Some(imps) = imports_for(&mut s, m) else { return out };
        let i = match ModuleInstance::instantiate_no_start(&mut s, m, Some(imps)) { Ok(i) => i, Err(e) => { out.push(format!("instantiation: {e:?}")); return out } };
        if let Ok(Some(f)) = i.start_func(&s) && let Ok(mut x) = f.call_resumable(&mut s, &[]) { out.push(format!("start {:?}", x.resume_with_fuel(2000).map(|p| matches!(p, ExecProgress::Suspended)).map_err(|e| e.to_string()))) }
        let items: Vec<(String, ExternItem)> = i.exports().map(|(n, x)| (n.to_string(), x)).collect();
        out.push(format!("{} exports", items.len()));
        let mut fuel = 40;
        for ((n, x), sig) in items.iter().zip(&sigs) {
            if let (ExternItem::Func(f), Some(sig)) = (x, sig) {
                if fuel == 0 { continue }
                fuel -= 1;
                for k in 0..2 {
                    let args: Vec<WasmValue> = sig.iter().enumerate().map(|(j, t)| if k == 0 { WasmValue::default_for(*t) } else { match t { WasmType::I32 => WasmValue::I32(-1 - j as i32), WasmType::I64 => WasmValue::I64(1 << 40), WasmType::F32 => WasmValue::F32(f32::from_bits(0x7fa00001)), WasmType::F64 => WasmValue::F64(-0.0), WasmType::V128 => WasmValue::V128([0xa5; 16]), t => WasmValue::default_for(*t) } }).collect();
                    out.push(match f.call_resumable(&mut s, &args) {
                        Err(e) => format!("{n}: {e:?}"),
                        Ok(mut r) => match r.resume_with_fuel(200_000) { Ok(ExecProgress::Completed(v)) => format!("{n} = {:?}", v.iter().map(wv).collect::<Vec<_>>()), Ok(_) => format!("{n}: suspended"), Err(e) => format!("{n}: {e:?}") },
                    });
                }
            }
        }
        for (n, x) in &items {
            match x {
                ExternItem::Global(g) => out.push(format!("{n}: {:?}", g.get(&s).map(|v| wv(&v)).map_err(|e| e.to_string()))),
                ExternItem::Memory(x) => { let len = x.len(&s).unwrap_or(0); out.push(format!("{n}: {len} {:x}", hash(&x.read_vec(&s, 0, len.min(1 << 20)).ok()))) }
                ExternItem::Table(t) => { let len = t.size(&s).unwrap_or(0); out.push(format!("{n}: {len} {:?}", (0..len.min(300)).map(|k| t.get(&s, k as _).map(|v| wv(&v)).unwrap_or_default()).collect::<Vec<_>>())) }
                ExternItem::Func(_) => (),
            }
        }
        out
    });
    match r { Ok(v) => out.extend(v), Err(p) => out.push(format!("panic {p}")) }
    out
}
fn judge(c: &Check, l: &mut Local, name: &str, bytes: &[u8], opts: &[Opts]) {
    for o in opts {
        let Ok(m) = parse(bytes, *o) else { l.add("not_accepted", 1); continue };
        watch(|| name.to_string());
        l.transitions += 1; l.traces += 2;
        l.add("modules", 1);
        let bad = |e: String| c.violation(format!("module {name}"), format!("{name} with {o:?}: {e}"), if bytes.len() < 20_000 { hex(bytes) } else { String::new() });
        match round_trip(&m) {
            Err(e) => bad(e),
            Ok((n, a)) => {
                l.states.insert(hash(&a));
                let (x, y) = (behaviour(&m), behaviour(&n));
                if x != y { let i = x.iter().zip(&y).take_while(|(a, b)| a == b).count(); bad(format!("behaves differently: {:?} instead of {:?}", y.get(i), x.get(i))) }
                // the same bytes however the module was parsed
                for t in [2, 8] { watch_tick(); if let Ok(k) = parse(bytes, Opts { threads: t, ..*o }) && k.serialize_twasm().ok().as_ref() != Some(&a) { bad(format!("parsing with {t} threads gives another archive")) } }
                if let Ok(k) = o.parser().parse_module_stream(bytes) && k.serialize_twasm().ok().as_ref() != Some(&a) { bad("parsing a stream gives another archive".into()) }
                // reloading is stable, and an archive is a value: nothing depends on where it came from
                match round_trip(&n) { Ok((_, b)) if b == a => (), Ok(_) => bad("the second archive differs".into()), Err(e) => bad(format!("second round: {e}")) }
            }
        }
        end_watch();
    }
}

/// Values around every boundary of a variable-length encoding of 64 bits.
fn edges(bits: u32) -> Vec<u64> {
    let mut v = vec![0u64];
    for k in 0..bits { let b = 1u64 << k; v.extend([b - 1, b, b + 1]) }
    v.push(if bits == 64 { u64::MAX } else { (1 << bits) - 1 });
    v.sort(); v.dedup();
    v
}
fn forms() -> Vec<(String, Module)> {
    let mut v: Vec<(String, Module)> = vec![];
    let one = |params: &[VT], res: &[VT], locals: &[VT], body: Vec<Op>| { let mut m = Module::default(); let f = m.func(params, res, locals, body); m.export("x", EK::Func, f); m };
    let nan32 = [0x7fc00000u32, 0xffc00000, 0x7f800001, 0x7fa5a5a5, 0xffffffff, 0x7f800000, 0xff800000, 0x80000000];
    let nan64 = [0x7ff8000000000000u64, 0xfff8000000000000, 0x7ff0000000000001, 0x7ff5a5a5a5a5a5a5, u64::MAX, 0x7ff0000000000000, 1 << 63];
    let mut consts: Vec<(VT, Op)> = vec![];
    for x in edges(32) { for s in [x as i32, (x as i32).wrapping_neg()] { consts.push((I32, Op::I32C(s))) } consts.push((F32, Op::F32C(x as u32))) }
    for x in edges(64) { for s in [x as i64, (x as i64).wrapping_neg()] { consts.push((I64, Op::I64C(s))) } consts.push((F64, Op::F64C(x))); consts.push((V128, Op::VConst((x as u128) << 64 | x.rotate_left(13) as u128))) }
    for x in nan32 { consts.push((F32, Op::F32C(x))) }
    for x in nan64 { consts.push((F64, Op::F64C(x))) }
    for k in 0..16 { for b in [1u128, 0x80, 0xff] { consts.push((V128, Op::VConst(b << (8 * k)))) } }
    for t in [FUNC, EXT] { consts.push((t, Op::RefNull(t))) }
    // constants in code and as initial values
    for part in consts.chunks(60) {
        let mut m = Module::default();
        for (k, (t, o)) in part.iter().enumerate() {
            let f = m.func(&[], &[*t], &[], vec![o.clone()]); m.export(&format!("c{k}"), EK::Func, f);
            let f = m.func(&[*t], &[*t], &[*t], if t.is_ref() { vec![o.clone(), Op::LTee(1)] } else { vec![o.clone(), Op::LSet(1), Op::LGet(1), Op::Block(BT::Empty), Op::End] }); m.export(&format!("l{k}"), EK::Func, f);
            let g = m.global(*t, k % 2 == 0, o.clone()); m.export(&format!("g{k}"), EK::Global, g);
            if let (I32 | I64, true) = (t, k % 3 == 0) { let (n, w) = if *t == I32 { ("i32.add", I32) } else { ("i64.add", I64) }; let f = m.func(&[w], &[w], &[], vec![Op::LGet(0), o.clone(), num(n)]); m.export(&format!("a{k}"), EK::Func, f); }
        }
        v.push((format!("constants {:?}..", part[0]), m));
    }
    // offsets in every memory instruction class
    for (is64, bits) in [(false, 32), (true, 64)] { for part in edges(bits).chunks(24) {
        let mut m = Module::default();
        m.mem(Limits { min: 1, max: Some(1), is64, page_log2: None }); m.mem(Limits { min: 1, max: Some(1), is64, page_log2: None });
        let z = if is64 { Op::I64C(3) } else { Op::I32C(3) };
        for (k, x) in part.iter().enumerate() { for mi in 0..2 {
            let ma = MA { align: 0, offset: *x, mem: mi };
            for (n, (t, load, store, val)) in [(I32, 0x28u8, 0x36u8, Op::I32C(5)), (I64, 0x29, 0x37, Op::I64C(5)), (F32, 0x2a, 0x38, Op::F32C(5)), (F64, 0x2b, 0x39, Op::F64C(5)), (I32, 0x2d, 0x3a, Op::I32C(5)), (I64, 0x35, 0x3e, Op::I64C(5))].into_iter().enumerate() {
                let f = m.func(&[if is64 { I64 } else { I32 }], &[t], &[], vec![Op::LGet(0), val, Op::Mem { op: store, m: ma }, Op::LGet(0), Op::Mem { op: load, m: ma }]); m.export(&format!("o{k}.{n}.{mi}"), EK::Func, f);
            }
            let f = m.func(&[], &[V128], &[], vec![z.clone(), Op::VMem { sub: 0, m: ma, lane: 0 }]); m.export(&format!("v{k}.{mi}"), EK::Func, f);
            let f = m.func(&[], &[V128], &[], vec![z.clone(), Op::VConst(9), Op::VMem { sub: 87, m: ma, lane: 1 }]); m.export(&format!("vl{k}.{mi}"), EK::Func, f);
        } }
        v.push((format!("offsets {:#x}.., 64-bit {is64}", part[0]), m));
    } }
    // limits of memories and tables, defined, imported and exported
    for is64 in [false, true] { for log in [None, Some(0), Some(16)] {
        let top = match (is64, log) { (false, Some(0)) => u32::MAX as u64, (false, _) => 65536, (true, Some(0)) => u64::MAX, (true, _) => 1 << 48 };
        let mut e: Vec<u64> = edges(if top == u64::MAX { 64 } else { 64 - top.leading_zeros() }).into_iter().filter(|x| *x <= top).collect();
        e.push(top);
        for x in e { for (min, max) in [(x, None), (0, Some(x)), (x, Some(top)), (x, Some(x))] {
            let l = Limits { min, max, is64, page_log2: log };
            let mut m = Module::default(); m.mem(l); m.export("m", EK::Mem, 0); v.push((format!("memory {l:?}"), m));
            let mut m = Module::default(); m.imports.push(Import { module: "a".into(), name: "b".into(), kind: ImportKind::Mem(l) }); m.export("m", EK::Mem, 0); v.push((format!("imported memory {l:?}"), m));
        } }
    } }
    for is64 in [false, true] { for x in edges(if is64 { 64 } else { 32 }) { for t in [FUNC, EXT] { for (min, max) in [(x, None), (0, Some(x)), (x, Some(x))] {
        let l = Limits { min, max, is64, page_log2: None };
        let mut m = Module::default(); m.table(t, l); m.export("t", EK::Table, 0); v.push((format!("table {t:?} {l:?}"), m));
        let mut m = Module::default(); m.imports.push(Import { module: "a".into(), name: "b".into(), kind: ImportKind::Table(t, l) }); m.export("t", EK::Table, 0); v.push((format!("imported table {t:?} {l:?}"), m));
    } } } }
    // memories whose allocation is skipped, deferred or immediate
    for exported in [false, true] { for data in 0..3 { for used in [None, Some(Op::MemSize(0)), Some(Op::MemGrow(0)), Some(mem(0x28, 0))] { for imported in [false, true] {
        let mut m = Module::default();
        if imported { m.imports.push(Import { module: "a".into(), name: "b".into(), kind: ImportKind::Mem(Limits::new(1, None)) }) }
        m.mem(Limits::new(1, Some(3)));
        if exported { m.export("m", EK::Mem, imported as u32) }
        if data > 0 { m.datas.push(Data { mode: if data == 1 { SegMode::Passive } else { SegMode::Active { idx: imported as u32, offset: vec![Op::I32C(4)] } }, bytes: vec![7; 5] }) }
        if let Some(u) = &used { let f = m.func(&[I32], &[I32], &[], if matches!(u, Op::MemSize(_)) { vec![u.clone()] } else { vec![Op::LGet(0), u.clone()] }); m.export("x", EK::Func, f) }
        v.push((format!("memory exported {exported}, data {data}, used by {used:?}, behind an import {imported}"), m));
    } } } }
    // names
    for n in ["", "a", "é", "\u{10ffff}", "\0", "日本語", "name with spaces \"quotes\" \\", &"x".repeat(63), &"x".repeat(64), &"x".repeat(127), &"x".repeat(128), &"y".repeat(16383), &"y".repeat(16384), &"ß".repeat(40000)] {
        let mut m = Module::default();
        m.ty(&[], &[]);
        m.import_func(n, "f", &[], &[]); m.import_func("m", n, &[I32], &[]);
        m.imports.push(Import { module: n.into(), name: n.into(), kind: ImportKind::Global(I64, false) });
        let f = m.func(&[], &[I64], &[], vec![Op::GGet(0)]);
        m.export(n, EK::Func, f); m.export(&format!("{n}2"), EK::Global, 0);
        v.push((format!("names of {} bytes", n.len()), m));
    }
    // exports and imports of every kind, at every index
    for k in 0..6u32 {
        let mut m = Module::default();
        m.ty(&[], &[]);
        for t in [I32, I64, F32, F64, V128, FUNC, EXT] { for mu in [false, true] { m.imports.push(Import { module: "g".into(), name: format!("{t:?}{mu}"), kind: ImportKind::Global(t, mu) }) } }
        for _ in 0..k { m.import_func("f", "f", &[I64], &[F32]); m.imports.push(Import { module: "t".into(), name: "t".into(), kind: ImportKind::Table(EXT, Limits::new(2, Some(3))) }); m.imports.push(Import { module: "m".into(), name: "m".into(), kind: ImportKind::Mem(Limits::new(1, Some(3))) }) }
        m.table(FUNC, Limits::new(3, None)); m.mem(Limits::new(1, None));
        for t in [I32, I64, F32, F64, V128, FUNC, EXT] { for mu in [false, true] { m.global(t, mu, p26::cst(t)); } }
        let fs: Vec<u32> = (0..3).map(|j| m.func(&[], &[I32], &[], vec![Op::I32C(j)])).collect();
        for (j, f) in fs.iter().enumerate() { m.export(&format!("f{j}"), EK::Func, *f) }
        for j in 0..28 { m.export(&format!("g{j}"), EK::Global, j) }
        for j in 0..=k { m.export(&format!("t{j}"), EK::Table, j); m.export(&format!("m{j}"), EK::Mem, j) }
        m.start = Some(m.func(&[], &[], &[], vec![Op::I32C(8), Op::GSet(15)]));
        v.push((format!("every kind of import and export, {k} of each"), m));
    }
    // function types: single types, pairs, and long lists
    let all = [I32, I64, F32, F64, V128, FUNC, EXT];
    for a in all { for b in all {
        let m = one(&[a, b], &[b, a], &[b, a, b], vec![Op::LGet(1), Op::LGet(0)]);
        v.push((format!("type {a:?} {b:?}"), m));
    } }
    for n in [0usize, 1, 62, 63, 64, 65, 126, 127, 128, 129, 300, 1000] { for a in [I32, I64, V128, EXT] { v.push((format!("{n} parameters, results and locals of {a:?}"), one(&vec![a; n], &vec![a; n], &vec![a; n], (0..n as u32).rev().map(Op::LGet).collect()))) } }
    // segments
    for len in [0usize, 1, 63, 64, 127, 128, 255, 256, 16383, 16384, 65536] { for mode in 0..3 { for is64 in [false, true] {
        let mut m = Module::default();
        m.mem(Limits { min: 2, max: None, is64, page_log2: None });
        let z = |x: i64| if is64 { Op::I64C(x) } else { Op::I32C(x as i32) };
        let mode = match mode { 0 => SegMode::Passive, 1 => SegMode::Active { idx: 0, offset: vec![z(17)] }, _ => SegMode::Active { idx: 0, offset: vec![z(3), z(4), num(if is64 { "i64.mul" } else { "i32.mul" }), z(1), num(if is64 { "i64.sub" } else { "i32.sub" })] } };
        m.datas.push(Data { mode, bytes: (0..len).map(|i| (i * 7 + 1) as u8).collect() });
        m.datas.push(Data { mode: SegMode::Passive, bytes: vec![0xff; 3] });
        let f = m.func(&[], &[], &[], vec![z(100), Op::I32C(0), Op::I32C(len as i32), Op::MemInit { data: 0, mem: 0 }, z(0), Op::I32C(0), Op::I32C(3), Op::MemInit { data: 1, mem: 0 }]);
        m.export("x", EK::Func, f); m.export("m", EK::Mem, 0);
        v.push((format!("data of {len} bytes, {is64}"), m));
    } } }
    for len in [0usize, 1, 127, 128, 16384] { for mode in 0..3 { for t in [FUNC, EXT] { for kind in 0..3 {
        let mut m = Module::default();
        m.imports.push(Import { module: "g".into(), name: "r".into(), kind: ImportKind::Global(t, false) });
        m.table(t, Limits::new(20_000, None));
        let f = m.func(&[], &[], &[], vec![Op::I32C(40), Op::I32C(0), Op::I32C(len as i32), Op::TableInit { elem: 0, table: 0 }]);
        m.export("x", EK::Func, f); m.export("t", EK::Table, 0);
        let item = match (kind, t) { (0, _) => vec![Op::RefNull(t)], (1, _) => vec![Op::GGet(0)], (_, FUNC) => vec![Op::RefFunc(f)], _ => vec![Op::RefNull(EXT)] };
        let mode = match mode { 0 => SegMode::Passive, 1 => SegMode::Active { idx: 0, offset: vec![Op::I32C(3)] }, _ => SegMode::Declared };
        m.elems.push(Elem { mode, ty: t, items: vec![item; len] });
        v.push((format!("element segment of {len} {t:?} items, kind {kind}"), m));
    } } } }
    // constant expressions over imported and earlier globals
    for (t, get, ops) in [(I32, Op::I32C(6), ["i32.add", "i32.sub", "i32.mul"]), (I64, Op::I64C(6), ["i64.add", "i64.sub", "i64.mul"])] { for a in ops { for b in ops {
        let mut m = Module::default();
        m.imports.push(Import { module: "g".into(), name: "i".into(), kind: ImportKind::Global(t, false) });
        m.global(t, false, get.clone());
        m.globals.push(GlobalDef { ty: t, mutable: true, init: vec![Op::GGet(1), get.clone(), num(a), Op::GGet(0), get.clone(), num(b), num(a)] });
        m.export("g", EK::Global, 2);
        v.push((format!("global initialised by {a} {b}"), m));
    } } }
    v
}

fn linking(c: &Check) {
    c.bound("(e) a provider and a user of functions, tables, memories, globals and structurally compared types, each parsed or loaded, in one store, in every combination, and re-exported through a third");
    let mut a = Module::default();
    a.mem(Limits::new(1, Some(3))); a.table(FUNC, Limits::new(4, Some(9))); a.global(I64, true, Op::I64C(5)); a.global(FUNC, false, Op::RefFunc(0));
    a.ty(&[I64], &[I64, I32]);
    let f = a.func(&[I64], &[I64, I32], &[], vec![Op::LGet(0), Op::GGet(0), num("i64.add"), Op::GSet(0), Op::GGet(0), Op::I32C(0), mem(0x28, 0)]);
    a.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(1)] }, ty: FUNC, items: vec![vec![Op::RefFunc(f)]] });
    a.datas.push(Data { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, bytes: vec![1, 2, 3, 4] });
    for (n, k) in [("f", EK::Func), ("t", EK::Table), ("m", EK::Mem), ("g", EK::Global)] { a.export(n, k, 0) }
    a.export("r", EK::Global, 1);
    let mut b = Module::default();
    b.ty(&[], &[]);
    let ty = b.ty(&[I64], &[I64, I32]);
    let fi = b.import_func("p", "f", &[I64], &[I64, I32]);
    for (n, kind) in [("t", ImportKind::Table(FUNC, Limits::new(4, Some(9)))), ("m", ImportKind::Mem(Limits::new(1, Some(3)))), ("g", ImportKind::Global(I64, true)), ("r", ImportKind::Global(FUNC, false))] { b.imports.push(Import { module: "p".into(), name: n.into(), kind }) }
    let x = b.func(&[I64], &[I64, I32, I64, I32, I64, I32], &[], vec![Op::LGet(0), Op::Call(fi), Op::I32C(0), Op::I32C(0), mem(0x28, 0), Op::I32C(1), num("i32.add"), mem(0x36, 0), Op::LGet(0), Op::I32C(1), Op::CallIndirect { ty, table: 0 }, Op::I32C(2), Op::GGet(1), Op::TSet(0), Op::GGet(0), Op::I32C(2), Op::CallIndirect { ty, table: 0 }]);
    b.export("x", EK::Func, x); b.export("f", EK::Func, fi);
    for (n, k) in [("t", EK::Table), ("m", EK::Mem), ("g", EK::Global)] { b.export(n, k, 0) }
    b.export("r", EK::Global, 1);
    let (ab, bb) = (encode(&a), encode(&b));
    c.par(16, |j, l| {
        let get = |b: &[u8], loaded: bool| { let m = parse(b, Opts::ON).expect("parse"); if loaded { round_trip(&m).map(|x| x.0) } else { Ok(m) } };
        let run = |k: usize| -> Result<Vec<String>, String> {
            let (pa, pb, pc) = (get(&ab, k & 1 != 0)?, get(&bb, k & 2 != 0)?, get(&bb, k & 4 != 0)?);
            guard(|| {
                let mut s = Store::default();
                let link = |s: &mut Store, i: &ModuleInstance| { let mut im = Imports::new(); for n in ["f", "t", "m", "g", "r"] { match i.extern_item(n).unwrap() { ExternItem::Func(x) => im.define("p", n, x), ExternItem::Table(x) => im.define("p", n, x), ExternItem::Memory(x) => im.define("p", n, x), ExternItem::Global(x) => im.define("p", n, x) }; } let _ = s; im };
                let mut out = vec![];
                let ia = ModuleInstance::instantiate(&mut s, &pa, None).map_err(|e| e.to_string())?;
                let im = link(&mut s, &ia);
                let ib = ModuleInstance::instantiate(&mut s, &pb, Some(im)).map_err(|e| e.to_string())?;
                let im = link(&mut s, if k & 8 != 0 { &ia } else { &ib });
                let ic = ModuleInstance::instantiate(&mut s, &pc, Some(im)).map_err(|e| e.to_string())?;
                for i in [&ib, &ic, &ib] { for a in [1i64, -4] { out.push(format!("{:?}", i.func_untyped(&s, "x").and_then(|f| f.call(&mut s, &[WasmValue::I64(a)])).map(|v| v.iter().map(wv).collect::<Vec<_>>()).map_err(|e| e.to_string()))) } }
                Ok(out)
            }).unwrap_or_else(|p| Err(format!("panic {p}")))
        };
        l.transitions += 1; l.traces += 2;
        let (w, g) = (run(j & 8), run(j));
        l.states.insert(hash(&(j, &g)));
        if w != g || w.is_err() { c.violation(format!("linking {j}"), format!("combination {j} (bits: provider, user, third loaded; third linked to the provider): parsed modules give {w:?}, these {g:?}"), "") }
    });
}

fn damage(c: &Check) {
    let mods: Vec<(String, Vec<u8>)> = small().into_iter().map(|(n, b)| (n.to_string(), parse(&b, MEMOFF).expect(n).serialize_twasm().expect(n))).collect();
    let size: usize = mods.iter().map(|m| m.1.len()).sum();
    c.bound(format!("(f) {} archives of {size} bytes: every truncation, every value of every header byte, every pair of header bytes over 9 values: refused; every other byte replaced by every value, every byte inserted, deletions of 1..=8 bytes, every place as the start of a 2^k-1 count: no crash, at most 32 MiB held; every body of 1 and 2 bytes behind a good header", mods.len()));
    let load = |b: &[u8]| guard(|| TModule::try_from_twasm(b).map_err(|e| e.to_string()));
    for (name, b) in &mods {
        let refused = |l: &mut Local, what: String, d: &[u8]| {
            l.transitions += 1; l.traces += 1;
            l.states.insert(hash(&(name, &what)));
            match load(d) { Ok(Err(_)) => l.add("refused", 1), Ok(Ok(_)) => c.violation(format!("{name} {what}"), format!("the archive of {name} {what} is accepted"), hex(d)), Err(p) => c.violation(format!("{name} {what}"), format!("loading the archive of {name} {what} panics: {p}"), hex(d)) }
        };
        let survives = |l: &mut Local, what: String, d: &[u8]| {
            l.transitions += 1; l.traces += 1;
            watch(|| what.clone());
            let (r, peak) = crate::fault::peak(|| load(d).map(|r| r.is_ok()));
            end_watch();
            match r { Ok(ok) => { l.states.insert(hash(&(name, &what, ok))); l.add(if ok { "damaged_loaded" } else { "damaged_refused" }, 1) } Err(p) => c.violation(format!("{name} {what}"), format!("loading the archive of {name} {what} panics: {p}"), hex(d)) }
            if peak > 32 << 20 { c.violation(format!("{name} {what}"), format!("loading the archive of {name} {what} held {peak} bytes"), hex(d)) }
        };
        c.par(b.len() + 1, |i, l| {
            if i < b.len() { refused(l, format!("cut to {i} bytes"), &b[..i]) }
            if i < 16 {
                for v in 0..=255 { if v != b[i] { let mut d = b.clone(); d[i] = v; refused(l, format!("with header byte {i} = {v:#x}"), &d) } }
                for k in i + 1..16 { for v in [0u8, 1, b'0', b'3', b'4', b'5', b'T', b'W', 0xff] { for w in [0u8, 1, b'0', b'3', b'4', b'5', b'A', b'S', 0xff] { if v != b[i] || w != b[k] { let mut d = b.clone(); d[i] = v; d[k] = w; refused(l, format!("with header bytes {i}, {k} = {v:#x}, {w:#x}"), &d) } } } }
                let mut d = b.clone(); d.remove(i); refused(l, format!("without header byte {i}"), &d);
                return;
            }
            for v in 0..=255 { if i < b.len() && v != b[i] { let mut d = b.clone(); d[i] = v; survives(l, format!("with byte {i} = {v:#x}"), &d) } let mut d = b.clone(); d.insert(i, v); survives(l, format!("with {v:#x} inserted at {i}"), &d) }
            for n in 1..=8 { if i + n <= b.len() { let mut d = b.clone(); d.drain(i..i + n); survives(l, format!("without {n} bytes at {i}"), &d) } }
            for k in [14, 16, 20, 24, 28, 31, 32, 35, 40, 48, 56, 63, 64] { for cut in [false, true] { if i < b.len() {
                let mut n = vec![]; uleb(&mut n, if k == 64 { u64::MAX } else { (1 << k) - 1 });
                let mut d = b[..i].to_vec(); d.extend(n); if !cut { d.extend(&b[i + 1..]) } else { d.extend([0; 64]) }
                survives(l, format!("with 2^{k}-1 as the number at {i}{}", if cut { " and nothing behind" } else { "" }), &d);
            } } }
        });
    }
    let head = mods[0].1[..16].to_vec();
    c.par(256, |a, l| for x in (-1..256i32).chain(1000..1256) {
        let mut d = head.clone();
        d.push(a as u8);
        if x >= 1000 { d.extend(vec![(x - 1000) as u8; 200]) } else if x >= 0 { d.push(x as u8) }
        l.transitions += 1; l.traces += 1;
        watch(|| hex(&d));
        let (r, peak) = crate::fault::peak(|| load(&d).map(|r| r.is_ok()));
        end_watch();
        l.states.insert(hash(&(a, x)));
        if let Err(p) = r { c.violation(format!("body {a} {x}"), format!("loading panics: {p}"), hex(&d)) }
        if peak > 32 << 20 { c.violation(format!("body {a} {x}"), format!("loading held {peak} bytes"), hex(&d)) }
    });
}

pub fn run(c: &Check) {
    let t = std::time::Instant::now();
    let lap = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{s} {:.1}", t.elapsed().as_secs_f64()) };
    // (a)
    c.bound("(a) every program of the bounds of P01 to P05, archived and loaded, the two compared as structures, as bytes and by running every program on two inputs:");
    for p in ["P01", "P02", "P03", "P04", "P05"] { (crate::props::ALL.iter().find(|x| x.0 == p).unwrap().1)(c); lap(p) }
    // (b)
    let ops = p26::all_ops();
    let st = p26::stacks(3);
    let b0 = p26::Bench::new(&[]);
    c.bound(format!("(b) {} operator forms with every immediate class, each with its operands", ops.len()));
    c.par(ops.len(), |j, l| {
        let mut seen = 0;
        for s in &st {
            let body: Vec<Op> = s.iter().map(|t| p26::cst(*t)).chain([ops[j].clone(), Op::Unreachable]).collect();
            if !b0.valid(&body).0 { continue }
            judge(c, l, &format!("{:?} on {s:?}", ops[j]), &b0.bytes(&body), &[Opts::ON, Opts::OFF]);
            seen += 1;
            if seen == 2 { break }
        }
    });
    lap("operators");
    // (c)
    let f = forms();
    c.bound(format!("(c) {} modules declaring every kind of item with values around every power of two: constants, offsets, limits, names, types, segments, initializers", f.len()));
    c.par(f.len(), |j, l| judge(c, l, &f[j].0, &encode(&f[j].1), &[Opts::ON, MEMOFF]));
    lap("forms");
    // (d)
    let b = p26::bigs(c.quick());
    c.bound(format!("(d) {} modules at the format's and the implementation's limits and the corpus", b.len()));
    c.par(b.len(), |j, l| judge(c, l, &b[j].name, &encode(&b[j].m), &[Opts::ON]));
    for (n, b) in small() { c.par(1, |_, l| judge(c, l, n, &b, &[Opts::ON, Opts::OFF, MEMOFF])) }
    lap("limits");
    linking(c);
    damage(c);
    lap("damage");
    c.assume("archives have no checksum: damage behind the header may load as another module, which is not run (a module from a third party is documented as untrusted); bytes after the archive are ignored");
}
