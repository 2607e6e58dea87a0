//! P09: constant expressions in every position, and globals as shared cells.
use crate::oracle::*;
use crate::props::p07::padding;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use VT::{Ext, F32, F64, I32, I64, V128};
const FUNC: VT = VT::Func;

/// Every constant expression of exactly `len` instructions of one integer type, over the given leaves.
fn exprs(ty: VT, leaves: &[Op], len: usize) -> Vec<Vec<Op>> {
    fn go(leaves: &[Op], bin: &[Op], len: usize, h: usize, cur: &mut Vec<Op>, out: &mut Vec<Vec<Op>>) {
        let rest = len - cur.len();
        if rest == 0 { if h == 1 { out.push(cur.clone()) } return; }
        if h > rest + 1 { return; }
        for l in leaves { cur.push(l.clone()); go(leaves, bin, len, h + 1, cur, out); cur.pop(); }
        if h >= 2 { for b in bin { cur.push(b.clone()); go(leaves, bin, len, h - 1, cur, out); cur.pop(); } }
    }
    let p = if ty == I32 { "i32" } else { "i64" };
    let bin: Vec<Op> = ["add", "sub", "mul"].iter().map(|o| num(&format!("{p}.{o}"))).collect();
    let mut out = vec![];
    go(leaves, &bin, len, 0, &mut vec![], &mut out);
    out
}
/// Values of a type, all representable bit patterns of interest.
pub fn values(t: VT) -> Vec<u128> {
    match t {
        I32 => vec![0, 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x1234_5678],
        I64 => vec![0, 1, u64::MAX as u128, 1 << 63, (1 << 63) - 1, 0x1234_5678_9abc_def0, 0xffff_ffff, 0x8000_0000, 1 << 32],
        F32 => vec![0, 0x8000_0000, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7f80_0001, 0x7fa1_2345, 0xffff_ffff, 1, 0x807f_ffff],
        F64 => vec![0, 1 << 63, 0x3ff0 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0xfff8 << 48, 0x7ff0_0000_0000_0001, 0x7ff4_1234_5678_9abc, u64::MAX as u128, 1, 0x800f_ffff_ffff_ffff],
        V128 => vec![0, u128::MAX, 1, 1 << 127, 0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10, u64::MAX as u128, (u64::MAX as u128) << 64, 0x7f80_0001_7fa1_2345_7ff0_0000_0000_0001],
        VT::Func => vec![NULL, 0, 1, 2],
        Ext => vec![NULL, 0, 1, 0xffff_fffe, 0x8000_0000],
    }
}
fn konst(t: VT, v: u128) -> Option<Op> {
    Some(match t { I32 => Op::I32C(v as u32 as i32), I64 => Op::I64C(v as u64 as i64), F32 => Op::F32C(v as u32), F64 => Op::F64C(v as u64), V128 => Op::VConst(v), VT::Func if v != NULL => Op::RefFunc(v as u32), VT::Func | Ext if v == NULL => Op::RefNull(t), _ => return None })
}
/// A world holding padding, and host globals of every type to import (values differing by position).
fn base_world(defs: &Def) -> Result<World, String> {
    let mut w = World::new(tinywasm::engine::Config::default());
    w.instantiate(defs, &[], true)?;
    Ok(w)
}
/// Imported immutable globals available to constant expressions: (type, value)
const IMPS: [(VT, u128); 9] = [(I32, 5), (I64, 0x1_0000_0007), (F32, 0x7fa1_2345), (I32, 0xffff_fffe), (F64, 0xfff4_1234_5678_9abc), (V128, 0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10), (I64, u64::MAX as u128 - 2), (Ext, 77), (Ext, NULL)];
/// Module with the imports above, and functions f0..f2 (imported) f3..f5 (own); function-typed imports come last.
fn subject(mem64: bool, tab64: bool) -> Module {
    let mut m = Module::default();
    for i in [4, 0] { m.import_func("p", &format!("f{i}"), &[], &[I32]); }
    for (i, (t, _)) in IMPS.iter().enumerate() { m.imports.push(Import { module: "g".into(), name: format!("g{i}"), kind: ImportKind::Global(*t, false) }); }
    m.imports.push(Import { module: "g".into(), name: "fg".into(), kind: ImportKind::Global(FUNC, false) });
    m.imports.push(Import { module: "p".into(), name: "m0".into(), kind: ImportKind::Mem(Limits { min: 3, max: Some(3), is64: false, page_log2: Some(0) }) });
    m.imports.push(Import { module: "p".into(), name: "t0".into(), kind: ImportKind::Table(FUNC, Limits::new(2, None)) });
    for i in 0..3 { m.func(&[], &[I32], &[], vec![Op::I32C(10 + i)]); }
    m.mem(Limits { min: 16, max: Some(16), is64: mem64, page_log2: Some(0) });
    m.tables.push((FUNC, Limits { min: 8, max: Some(8), is64: tab64, page_log2: None }));
    m.tables.push((Ext, Limits { min: 8, max: Some(8), is64: tab64, page_log2: None }));
    m
}
fn items(w: &mut World) -> Result<Vec<Option<Item>>, String> {
    // learn the address of the imported functions through a table, then make a function-typed host global
    let mut v = vec![Some(w.item(0, "f4")), Some(w.item(0, "f0"))];
    for (t, x) in IMPS { v.push(Some(w.host_global(t, false, x)?)); }
    w.call_name(0, "tell", &[])?;
    let Item::Func(a, _) = w.item(0, "f5") else { unreachable!() };
    v.push(Some(w.host_global(FUNC, false, a as u128)?));
    v.push(Some(w.item(0, "m0")));
    v.push(Some(w.item(0, "t0")));
    Ok(v)
}
fn pad() -> Module {
    let mut m = padding();
    m.types.clear();
    let mut p = padding();
    p.exports.clear();
    // tell returns the reference of f5
    p.elems.push(Elem { mode: SegMode::Declared, ty: FUNC, items: vec![vec![Op::RefFunc(5)]] });
    let i = p.func(&[], &[FUNC], &[], vec![Op::RefFunc(5)]);
    export_all(&mut p);
    p.export("tell", EK::Func, i);
    p
}

fn const_exprs(c: &Check) {
    let maxlen = 7;
    let mut sets: Vec<(VT, Vec<Vec<Op>>)> = vec![];
    for (ty, gs) in [(I32, [0u32, 3]), (I64, [1, 6])] {
        let mut all = vec![];
        for len in [1, 3, 5, 7] {
            if len > maxlen { break }
            let vals = match len { 1 => values(ty), 3 => values(ty), 5 => values(ty)[..if c.quick() { 6 } else { 6 }].to_vec(), _ => values(ty)[1..4].to_vec() };
            let mut leaves: Vec<Op> = vals.iter().map(|v| konst(ty, *v).unwrap()).collect();
            leaves.extend(gs.map(Op::GGet));
            all.extend(exprs(ty, &leaves, len));
        }
        sets.push((ty, all));
    }
    for t in [F32, F64, V128, FUNC, Ext] {
        let mut all: Vec<Vec<Op>> = values(t).iter().filter_map(|v| konst(t, *v)).map(|o| vec![o]).collect();
        if t == FUNC { all.extend((3..5).map(|i| vec![Op::RefFunc(i)])); all.push(vec![Op::GGet(9)]) }
        for (i, g) in IMPS.iter().enumerate() { if g.0 == t { all.push(vec![Op::GGet(i as u32)]) } }
        sets.push((t, all));
    }
    let mut jobs: Vec<(VT, &[Vec<Op>])> = vec![];
    let mut total = 0;
    for (t, all) in &sets { total += all.len(); for ch in all.chunks(400) { jobs.push((*t, ch)) } }
    c.par(jobs.len(), |j, l| {
        let (t, ch) = jobs[j];
        for mutable in [false, true] {
            let mut m = subject(false, false);
            // globals of other types in between, so that positions by type and by index differ
            for (k, e) in ch.iter().enumerate() {
                if k % 3 == 0 { m.globals.push(GlobalDef { ty: I64, mutable: true, init: vec![Op::I64C(k as i64)] }) }
                m.globals.push(GlobalDef { ty: t, mutable, init: e.clone() });
            }
            m.elems.push(Elem { mode: SegMode::Declared, ty: FUNC, items: (0..5).map(|i| vec![Op::RefFunc(i)]).collect() });
            // a getter for each
            let n = m.all_globals().len() as u32;
            for g in 10..n { let t = m.all_globals()[g as usize].0; let f = m.func(&[], &[t], &[], vec![Op::GGet(g)]); m.export(&format!("get{g}"), EK::Func, f); }
            export_all(&mut m);
            let r: Result<(), String> = (|| {
                let (p, d) = (Def::new(&pad(), Opts::ON)?, Def::new(&m, Opts::ON)?);
                let mut w = base_world(&p)?;
                let it = items(&mut w)?;
                let Some(i) = w.instantiate(&d, &it, true)? else { return Err("instantiation failed".into()) };
                // each getter first: this also learns the addresses of the functions
                for g in 10..n { w.call_name(i, &format!("get{g}"), &[]).map_err(|e| format!("global {g} = {:?}: {e}", m.globals[g as usize - 10].init))?; l.transitions += 1; }
                w.check()?;
                l.traces += 1;
                for g in &w.rs.globals { l.states.insert(hash(&(t, g.v))); }
                Ok(())
            })();
            if let Err(e) = r { c.violation(format!("const|{t:?}|{j}|mut={mutable}"), e, hex(&encode(&m))) }
        }
    });
    c.bound(format!("constant expressions: all {total} expressions of up to {maxlen} instructions (integer constants, add, sub, mul, imported globals; every constant and reference form of the other types) as initialisers of mutable and immutable globals, read by the host and by the guest"));
}

fn offsets(c: &Check) {
    let lv = |ty: VT| -> Vec<Op> {
        let mut v: Vec<Op> = match ty { I32 => [0, 1, 3, 14, 15, 16, -1, i32::MIN, 0x10000].map(Op::I32C).to_vec(), _ => [0, 1, 3, 14, 15, 16, -1, i64::MIN, 1 << 32].map(Op::I64C).to_vec() };
        v.extend(if ty == I32 { [0u32, 3] } else { [1, 6] }.map(Op::GGet));
        v
    };
    let mut jobs = vec![];
    // kind: 0 own memory, 1 imported memory, 2 own function table, 3 imported table, 4 extern table
    for kind in 0..5 { for is64 in [false, true] { if is64 && (kind == 1 || kind == 3) { continue } for compact in [false, true] { jobs.push((kind, is64, compact)) } } }
    let lens: &[usize] = if c.quick() { &[1, 3, 5] } else { &[1, 3, 5] };
    c.par(jobs.len() * 8, |jj, l| {
        let (kind, is64, compact) = jobs[jj / 8];
        let ty = if is64 { I64 } else { I32 };
        let mut es: Vec<Vec<Op>> = vec![];
        for n in lens { es.extend(exprs(ty, &if *n == 5 { lv(ty)[1..].iter().step_by(2).cloned().collect() } else { lv(ty) }, *n)) }
        let p = Def::new(&pad(), Opts::ON).unwrap_or_else(|e| panic!("{e}"));
        for (k, e) in es.iter().enumerate() {
            if k % 8 != jj % 8 { continue }
            if c.stopped() { return }
            let mut m = subject(kind == 0 && is64, kind >= 2 && is64);
            match kind {
                0 | 1 => m.datas.push(Data { mode: SegMode::Active { idx: 1 - kind, offset: e.clone() }, bytes: vec![0xa1, 0xb2] }),
                2 | 3 => m.elems.push(Elem { mode: SegMode::Active { idx: 3 - kind, offset: e.clone() }, ty: FUNC, items: if compact { vec![vec![Op::RefFunc(1)], vec![Op::RefFunc(3)]] } else { vec![vec![Op::RefFunc(3)], vec![Op::RefNull(FUNC)], vec![Op::GGet(9)], vec![Op::RefFunc(1)]][k % 3..][..2].to_vec() } }),
                _ => m.elems.push(Elem { mode: SegMode::Active { idx: 2, offset: e.clone() }, ty: Ext, items: vec![vec![Op::GGet(7)], vec![Op::RefNull(Ext)]] }),
            }
            m.elems.push(Elem { mode: SegMode::Declared, ty: FUNC, items: (0..5).map(|i| vec![Op::RefFunc(i)]).collect() });
            for i in 0..5 { let f = m.func(&[], &[FUNC], &[], vec![Op::RefFunc(i)]); m.export(&format!("ref{i}"), EK::Func, f); }
            export_all(&mut m);
            let r: Result<(), String> = (|| {
                COMPACT.set(compact);
                let d = Def::new(&m, Opts::ON);
                COMPACT.set(false);
                let d = d?;
                let mut w = base_world(&p)?;
                let it = items(&mut w)?;
                let ok = w.instantiate(&d, &it, true)?;
                if let Some(i) = ok { for f in 0..5 { w.call_name(i, &format!("ref{f}"), &[])?; } }
                w.check()?;
                l.traces += 1;
                l.transitions += e.len() as u64;
                l.states.insert(hash(&(w.state_hash(), ok.is_some(), kind, is64)));
                Ok(())
            })();
            if let Err(x) = r { c.violation(format!("offset|{kind}|{is64}|{compact}|{e:?}"), format!("{x}\nactive segment kind {kind} (0/1 data to own/imported memory, 2/3 function elements to own/imported table, 4 extern elements), 64-bit {is64}, offset {e:?}"), hex(&d_bytes(&m, compact))) }
        }
    });
    c.bound(format!("segment offsets: every expression of {lens:?} instructions over boundary constants and imported globals as the offset of an active data or element segment into own and imported 32- and 64-bit memories and tables, in both the short and the long segment encodings"));
}
fn d_bytes(m: &Module, compact: bool) -> Vec<u8> { COMPACT.set(compact); let b = encode(m); COMPACT.set(false); b }

/// Histories of writes to one global shared by three instances and the host.
fn aliasing(c: &Check) {
    let depth = c.pick(4, 5);
    const N: usize = 16;
    let names = ["a.set x", "b.set x", "b.set2 x", "c.set x", "host set x", "host set y", "b.copy own->shared", "c.copy shared->own", "b.own x", "c.own y", "b.swap", "host set immutable", "a.setc", "host set wrong type", "b.imm->shared", "d: instantiate another importer"];
    c.par(7 * N, |j, l| {
        let (t, first) = (VT::ALL[j / N], j % N);
        let other = if t == I32 { F32 } else if t == FUNC { Ext } else { I32 };
        let kdef = konst(t, values(t)[1]).unwrap_or(Op::RefNull(t));
        let mut a = Module::default();
        a.global(I32, true, Op::I32C(3));
        a.global(t, true, kdef.clone());
        a.global(t, false, konst(t, values(t)[0]).unwrap());
        a.func(&[], &[I32], &[], vec![Op::I32C(1)]);
        a.func(&[], &[I32], &[], vec![Op::I32C(2)]);
        a.func(&[], &[I32], &[], vec![Op::I32C(3)]);
        a.elems.push(Elem { mode: SegMode::Declared, ty: FUNC, items: (0..3).map(|i| vec![Op::RefFunc(i)]).collect() });
        let f = a.func(&[t], &[], &[], vec![Op::LGet(0), Op::GSet(1)]);
        a.export("set", EK::Func, f);
        let f = a.func(&[], &[], &[], vec![kdef.clone(), Op::GSet(1)]);
        a.export("setc", EK::Func, f);
        let f = a.func(&[], &[t], &[], vec![Op::GGet(1)]);
        a.export("get", EK::Func, f);
        for i in 0..3 { let f = a.func(&[], &[FUNC], &[], vec![Op::RefFunc(i)]); a.export(&format!("ref{i}"), EK::Func, f); }
        export_all(&mut a);
        // b and c: imports g1 of a twice, g2 (immutable), host global; own global
        let mut b = Module::default();
        for (n, mu) in [("g1", true), ("g1b", true), ("g2", false), ("h", true)] { b.imports.push(Import { module: "a".into(), name: n.into(), kind: ImportKind::Global(t, mu) }) }
        b.global(I64, true, Op::I64C(3));
        b.global(t, true, Op::GGet(2));
        for (n, body) in [("set", vec![Op::LGet(0), Op::GSet(0)]), ("set2", vec![Op::LGet(0), Op::GSet(1)]), ("seth", vec![Op::LGet(0), Op::GSet(3)]), ("own", vec![Op::LGet(0), Op::GSet(5)])] { let f = b.func(&[t], &[], &[], body); b.export(n, EK::Func, f); }
        for (n, body) in [("own_to_shared", vec![Op::GGet(5), Op::GSet(0)]), ("shared_to_own", vec![Op::GGet(1), Op::GSet(5)]), ("imm_to_shared", vec![Op::GGet(2), Op::GSet(1)]), ("swap", vec![Op::GGet(1), Op::GGet(3), Op::GSet(0), Op::GSet(3)])] { let f = b.func(&[], &[], &[], body); b.export(n, EK::Func, f); }
        for g in 0..6 { let ty = if g == 4 { I64 } else { t }; let f = b.func(&[], &[ty], &[], vec![Op::GGet(g)]); b.export(&format!("get{g}"), EK::Func, f); }
        export_all(&mut b);
        let (da, db) = (Def::new(&a, Opts::ON).unwrap_or_else(|e| panic!("{e}")), Def::new(&b, Opts::ON).unwrap_or_else(|e| panic!("{e}")));
        let fns = if t == FUNC { 3 } else { 0 };
        let fresh = || -> World {
            let go = || -> Result<World, String> {
                let mut w = World::new(tinywasm::engine::Config::default());
                w.instantiate(&da, &[], true)?;
                for i in 0..3 { w.call_name(0, &format!("ref{i}"), &[])?; }
                let h = w.host_global(t, true, values(t)[1])?;
                let (g1, g2) = (w.item(0, "g1"), w.item(0, "g2"));
                w.instantiate(&db, &[Some(g1.clone()), Some(g1), Some(g2), Some(h.clone())], true)?;
                // c imports through b's re-exports
                let (r0, r1, r2, r3) = (w.item(1, "g0"), w.item(1, "g1"), w.item(1, "g2"), w.item(1, "g3"));
                w.instantiate(&db, &[Some(r0), Some(r1), Some(r2), Some(r3)], true)?;
                w.check()?;
                Ok(w)
            };
            go().unwrap_or_else(|e| panic!("setup: {e}"))
        };
        let _ = fns;
        let vs = values(t);
        let step = |w: &mut World, a: usize| -> Result<u64, String> {
            let (x, y) = (vs[vs.len() - 1], vs[2 % vs.len()]);
            let hset = |w: &mut World, i: usize, ty: VT, v: u128, ok: bool| -> Result<(), String> {
                let Item::Global(ra, h) = w.item(0, &format!("g{i}")) else { unreachable!() };
                let real = if ty == FUNC { w.fmap.borrow().real(v) } else { v };
                let st = &mut w.store;
                let r = guard(|| h.set(st, to_wv(ty, real))).map_err(|p| format!("panic: {p}"))?;
                if r.is_ok() != ok { return Err(format!("host set of global g{i} gave {r:?}, expected success {ok}")) }
                if ok { w.rs.globals[ra].v = v }
                Ok(())
            };
            match a {
                0 => { w.call_name(0, "set", &[x])?; } 1 => { w.call_name(1, "set", &[y])?; } 2 => { w.call_name(1, "set2", &[x])?; } 3 => { w.call_name(2, "set", &[y])?; }
                4 => hset(w, 1, t, x, true)?, 5 => hset(w, 1, t, y, true)?,
                6 => { w.call_name(1, "own_to_shared", &[])?; } 7 => { w.call_name(2, "shared_to_own", &[])?; }
                8 => { w.call_name(1, "own", &[x])?; } 9 => { w.call_name(2, "own", &[y])?; } 10 => { w.call_name(1, "swap", &[])?; }
                11 => hset(w, 2, t, x, false)?, 12 => { w.call_name(0, "setc", &[])?; } 13 => hset(w, 1, other, values(other)[1], false)?, 14 => { w.call_name(1, "imm_to_shared", &[])?; }
                _ => { let v: Vec<Option<Item>> = (0..4).map(|g| Some(w.item(1, &format!("g{g}")))).collect(); w.instantiate(&db, &v, true)?; }
            }
            w.check()?;
            for i in 1..w.insts.len() { for g in 0..6 { w.call_name(i, &format!("get{g}"), &[])?; } }
            w.call_name(0, "get", &[])?;
            Ok(hash(&(t, w.insts.len(), w.state_hash())))
        };
        histories(c, l, &format!("globals of type {t:?}"), depth, N, Some(first), &fresh, &step, &|a| names[a].to_string());
    });
    c.bound(format!("sharing: for each of the 7 value types, all sequences of {depth} of {N} actions by three importing instances (one importing the cell under two indices, one through re-exports), a late importer and the host; every view compared after each action"));
}

/// Every boundary value of every type through every path in and out of a global, and modules with many globals.
fn round_trip(c: &Check) {
    c.par(7, |j, l| {
        let t = VT::ALL[j];
        for n in [1usize, 3, 130, 300] {
            let mut m = Module::default();
            for i in 0..n { let ty = VT::ALL[(i + j) % 7]; m.globals.push(GlobalDef { ty, mutable: true, init: vec![konst(ty, values(ty)[0]).unwrap()] }) }
            let k = m.globals.len() as u32;
            m.globals.push(GlobalDef { ty: t, mutable: true, init: vec![konst(t, values(t)[0]).unwrap()] });
            m.global(t, false, konst(t, values(t)[0]).unwrap());
            for i in 0..3 { m.func(&[], &[I32], &[], vec![Op::I32C(i)]); }
            m.elems.push(Elem { mode: SegMode::Declared, ty: FUNC, items: (0..3).map(|i| vec![Op::RefFunc(i)]).collect() });
            for i in 0..3 { let f = m.func(&[], &[FUNC], &[], vec![Op::RefFunc(i)]); m.export(&format!("ref{i}"), EK::Func, f); }
            let f = m.func(&[t], &[t, t], &[t], vec![Op::LGet(0), Op::GSet(k), Op::GGet(k), Op::GGet(k), Op::LTee(1), Op::GSet(k), Op::GGet(k)]);
            m.export("trip", EK::Func, f);
            let consts: Vec<Op> = values(t).iter().filter_map(|v| konst(t, *v)).collect();
            for (i, o) in consts.iter().enumerate() { let f = m.func(&[], &[t], &[], vec![o.clone(), Op::GSet(k), Op::GGet(k)]); m.export(&format!("c{i}"), EK::Func, f); }
            export_all(&mut m);
            for o in [Opts::ON, Opts::OFF] {
                let r: Result<(), String> = (|| {
                    let d = Def::new(&m, o)?;
                    let p = Def::new(&pad(), o)?;
                    let mut w = base_world(&p)?;
                    w.instantiate(&d, &[], true)?;
                    for i in 0..3 { w.call_name(1, &format!("ref{i}"), &[])?; }
                    let Item::Func(f0, _) = w.item(1, "f0") else { unreachable!() };
                    let Item::Global(ra, h) = w.item(1, &format!("g{k}")) else { unreachable!() };
                    for v in values(t) {
                        let v = if t == FUNC && v != NULL { v + f0 as u128 } else { v };
                        w.call_name(1, "trip", &[v])?;
                        w.check()?;
                        l.states.insert(hash(&(t, n, v)));
                        let real = if t == FUNC { w.fmap.borrow().real(v) } else { v };
                        h.set(&mut w.store, to_wv(t, real)).map_err(|e| format!("host set: {e}"))?;
                        w.rs.globals[ra].v = v;
                        w.check()?;
                        l.transitions += 8;
                        l.traces += 1;
                    }
                    for i in 0..consts.len() { w.call_name(1, &format!("c{i}"), &[])?; w.check()?; l.traces += 1; }
                    Ok(())
                })();
                if let Err(e) = r { c.violation(format!("roundtrip|{t:?}|{n}|{}", o.rewrite), e, hex(&encode(&m))) }
            }
        }
    });
    c.bound("round trips: every boundary value of every type (NaN payloads included) through guest and host writes and reads, in modules of 3 to 302 globals of mixed types");
}

pub fn run(c: &Check) {
    let times = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  {s}", c.start.elapsed().as_secs_f64()) };
    const_exprs(c);
    times("const");
    offsets(c);
    times("offsets");
    round_trip(c);
    times("round trip");
    aliasing(c);
    times("aliasing");
}
