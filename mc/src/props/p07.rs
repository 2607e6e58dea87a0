//! P07: tables, element segments, indirect calls and reference identity, in instances whose functions,
//! tables and segments do not have the same numbers in the store as in the module.
use crate::oracle::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use VT::{Ext, F32, F64, I32, I64};
const FUNC: VT = VT::Func;

/// (element type, entries, maximum, 64-bit)
const TABLES: [(VT, u64, Option<u64>, bool); 5] = [(FUNC, 5, Some(7), false), (FUNC, 4, Some(6), true), (Ext, 3, Some(6), false), (FUNC, 3, None, false), (Ext, 2, Some(4), true)];
fn at(t: u32) -> VT { if TABLES[t as usize].3 { I64 } else { I32 } }
fn ety(t: u32) -> VT { TABLES[t as usize].0 }
fn ic(t: VT, v: u64) -> Op { if t == I64 { Op::I64C(v as i64) } else { Op::I32C(v as u32 as i32) } }

/// Occupies the low addresses of every index space of the store.
pub fn padding() -> Module {
    let mut m = Module::default();
    for i in 0..6 { m.func(&[], &[I32], &[], vec![Op::I32C(900 + i)]); }
    m.func(&[I64, F64], &[F32], &[], vec![Op::F32C(1)]);
    m.table(FUNC, Limits::new(2, None));
    m.table(Ext, Limits::new(1, None));
    m.mem(Limits { min: 3, max: Some(3), is64: false, page_log2: Some(0) });
    m.global(I32, true, Op::I32C(1));
    m.global(I64, true, Op::I64C(2));
    m.elems.push(Elem { mode: SegMode::Passive, ty: FUNC, items: vec![vec![Op::RefFunc(0)]] });
    m.elems.push(Elem { mode: SegMode::Passive, ty: FUNC, items: vec![vec![Op::RefFunc(1)], vec![Op::RefFunc(2)]] });
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![0xee; 4] });
    export_all(&mut m);
    m
}
/// Function k returns its own number from a call of a type depending on k; all indices go through every table.
struct Fx { m: Module, names: Vec<(String, Vec<VT>, Vec<VT>)> }
impl Fx {
    fn f(&mut self, name: String, p: &[VT], r: &[VT], body: Vec<Op>) { let i = self.m.func(p, r, &[], body); self.m.export(&name, EK::Func, i); self.names.push((name, p.to_vec(), r.to_vec())); }
}
const CALLEES: usize = 10;
fn subject() -> Fx {
    let mut m = Module::default();
    // structurally equal duplicates and near misses: 0 = 1 = 4
    for (p, r) in [(vec![], vec![I32]), (vec![], vec![I32]), (vec![I32], vec![I32]), (vec![], vec![I64]), (vec![], vec![I32]), (vec![], vec![I32, I32]), (vec![I64, I32], vec![I64, I32]), (vec![], vec![])] { m.types.push(FT { params: p, results: r }) }
    m.imports.push(Import { module: "h".into(), name: "host".into(), kind: ImportKind::Func(0) });
    m.imports.push(Import { module: "h".into(), name: "host2".into(), kind: ImportKind::Func(2) });
    m.imports.push(Import { module: "p".into(), name: "f3".into(), kind: ImportKind::Func(1) });
    for (t, n, x, w) in TABLES { m.tables.push((t, Limits { min: n, max: x, is64: w, page_log2: None })) }
    let callee = |m: &mut Module, ty: u32, body: Vec<Op>| { m.funcs.push(Func { ty, locals: vec![], body }) };
    callee(&mut m, 0, vec![Op::I32C(3)]);
    callee(&mut m, 1, vec![Op::I32C(4)]);
    callee(&mut m, 2, vec![Op::LGet(0), Op::I32C(5), num("i32.add")]);
    callee(&mut m, 3, vec![Op::I64C(6)]);
    callee(&mut m, 4, vec![Op::I32C(7)]);
    callee(&mut m, 5, vec![Op::I32C(8), Op::I32C(80)]);
    callee(&mut m, 6, vec![Op::LGet(0), Op::LGet(1)]);
    m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(1)] }, ty: FUNC, items: vec![vec![Op::RefFunc(0)], vec![Op::RefFunc(4)]] });
    m.elems.push(Elem { mode: SegMode::Passive, ty: FUNC, items: vec![vec![Op::RefFunc(3)], vec![Op::RefNull(FUNC)], vec![Op::RefFunc(2)], vec![Op::RefFunc(9)]] });
    m.elems.push(Elem { mode: SegMode::Declared, ty: FUNC, items: (0..CALLEES as u32).map(|i| vec![Op::RefFunc(i)]).collect() });
    m.elems.push(Elem { mode: SegMode::Passive, ty: Ext, items: vec![vec![Op::RefNull(Ext)], vec![Op::RefNull(Ext)]] });
    m.elems.push(Elem { mode: SegMode::Passive, ty: FUNC, items: vec![] });
    m.global(FUNC, true, Op::RefFunc(8));
    let mut x = Fx { m, names: vec![] };
    let g = Op::LGet;
    for t in 0..5u32 {
        let (a, e) = (at(t), ety(t));
        x.f(format!("get{t}"), &[a], &[e], vec![g(0), Op::TGet(t)]);
        x.f(format!("set{t}"), &[a, e], &[], vec![g(0), g(1), Op::TSet(t)]);
        x.f(format!("size{t}"), &[], &[a], vec![Op::TableSize(t)]);
        x.f(format!("grow{t}"), &[e, a], &[a, a], vec![g(0), g(1), Op::TableGrow(t), Op::TableSize(t)]);
        x.f(format!("fill{t}"), &[a, e, a], &[], vec![g(0), g(1), g(2), Op::TableFill(t)]);
        x.f(format!("fillc{t}"), &[a, a], &[], vec![g(0), if e == FUNC { Op::RefFunc(5) } else { Op::RefNull(Ext) }, g(1), Op::TableFill(t)]);
        x.f(format!("isnull{t}"), &[a], &[I32], vec![g(0), Op::TGet(t), Op::RefIsNull]);
        for s in 0..5u32 { if ety(s) == e {
            let lt = if a == I64 && at(s) == I64 { I64 } else { I32 };
            x.f(format!("copy{t}_{s}"), &[a, at(s), lt], &[], vec![g(0), g(1), g(2), Op::TableCopy { dst: t, src: s }]);
        } }
        for el in 0..5u32 { if (el == 3) == (e == Ext) { x.f(format!("init{t}_{el}"), &[a, I32, I32], &[], vec![g(0), g(1), g(2), Op::TableInit { elem: el, table: t }]); } }
        if e == FUNC { for ty in 0..8u32 {
            let ft = x.m.types[ty as usize].clone();
            let args: Vec<Op> = ft.params.iter().map(|t| if *t == I64 { Op::I64C(0x11_0000_0022) } else { Op::I32C(0x33) }).collect();
            let mut b = args.clone(); b.extend([g(0), Op::CallIndirect { ty, table: t }]);
            x.f(format!("ci{t}_{ty}"), &[a], &ft.results, b);
            let mut b = args; b.extend([g(0), Op::ReturnCallIndirect { ty, table: t }]);
            x.f(format!("rci{t}_{ty}"), &[a], &ft.results, b);
        } }
    }
    for el in 0..5u32 { x.f(format!("drop{el}"), &[], &[], vec![Op::ElemDrop(el)]); }
    for i in 0..CALLEES as u32 { x.f(format!("ref{i}"), &[], &[FUNC], vec![Op::RefFunc(i)]); }
    x.f("toglobal0".into(), &[I32], &[], vec![g(0), Op::TGet(0), Op::GSet(0)]);
    x.f("fromglobal1".into(), &[I64], &[], vec![g(0), Op::GGet(0), Op::TSet(1)]);
    let i = x.m.func(&[I32, I32], &[FUNC, I32], &[FUNC, I64, FUNC], vec![g(0), Op::TGet(0), Op::LTee(2), Op::LSet(4), g(1), g(4), Op::TSet(3), g(2), g(2), g(4), Op::I32C(0), Op::SelectT(FUNC), Op::RefIsNull]);
    x.m.export("vialocal", EK::Func, i);
    x.names.push(("vialocal".into(), vec![I32, I32], vec![FUNC, I32]));
    // restores tables 0..4 to a known content of their current size
    let mut reset = vec![];
    for t in 0..5u32 { let e = ety(t); reset.extend([ic(at(t), 0), Op::RefNull(e), Op::TableSize(t), Op::TableFill(t)]) }
    for (t, i, f) in [(0, 0, 0u32), (0, 1, 3), (0, 2, 4), (0, 4, 6), (1, 0, 2), (1, 1, 5), (1, 3, 8), (3, 0, 9), (3, 1, 1), (3, 2, 7)] { reset.extend([ic(at(t), i), Op::RefFunc(f), Op::TSet(t)]) }
    for (t, i) in [(2u32, 0u64), (2, 2), (4, 1)] { reset.extend([ic(at(t), i), g((i % 2) as u32), Op::TSet(t)]) }
    x.f("reset".into(), &[Ext, Ext], &[], reset);
    for i in 0..5u32 { x.m.export(&format!("t{i}"), EK::Table, i) }
    x.m.export("g0", EK::Global, 0);
    x
}
fn fresh(defs: &[Def; 2]) -> Result<World, String> {
    let mut w = World::new(tinywasm::engine::Config::default());
    w.instantiate(&defs[0], &[], true)?.unwrap();
    let h = w.host_log("host", &[], &[I32], Ok(vec![1000]));
    let h2 = w.host_log("host2", &[I32], &[I32], Ok(vec![1001]));
    let p = w.item(0, "f3");
    w.instantiate(&defs[1], &[Some(h), Some(h2), Some(p)], true)?.unwrap();
    // learn the addresses of all callees
    for i in 0..CALLEES { w.call_name(1, &format!("ref{i}"), &[])?; }
    w.call_name(1, "reset", &[70, 71])?;
    w.check()?;
    Ok(w)
}

pub fn run(c: &Check) {
    let q = c.quick();
    let times = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  {s}", c.start.elapsed().as_secs_f64()) };
    let fx = subject();
    for o in [Opts::ON, Opts::OFF] {
        if let Err(e) = Def::new(&fx.m, o) { c.violation("parse", e, ""); return }
    }
    // ---------------------------------------------------------------- one operation on every operand
    let names = &fx.names;
    c.par(names.len() * 2, |j, l| {
        let (name, ps, _) = &names[j / 2];
        let o = if j % 2 == 0 { Opts::ON } else { Opts::OFF };
        if name == "reset" { return }
        let defs = [Def::new(&padding(), o).unwrap(), Def::new(&fx.m, o).unwrap()];
        let mut w = match fresh(&defs) { Ok(w) => w, Err(e) => { c.violation("setup", e, ""); return } };
        let n = 8u128;
        let grid = |t: VT| -> Vec<u128> { match t {
            I32 => (0..=n).chain([0x7fff_ffff, 0x8000_0000, 0xffff_fffb, 0xffff_ffff]).collect(),
            I64 => (0..=n).chain([1 << 32, (1 << 32) + 1, 0xffff_ffff, u64::MAX as u128 - 4, u64::MAX as u128, 1 << 63]).collect(),
            FUNC => vec![NULL, 0, 3, 5, 9], // callee numbers, mapped below
            Ext => vec![NULL, 0, 77, 0xffff_fffe],
            _ => vec![0],
        } };
        let callees: Vec<u128> = (0..CALLEES).map(|i| w.rs.insts[1].funcs[i] as u128).collect();
        let mut tuples: Vec<Vec<u128>> = vec![vec![]];
        for p in ps {
            let g: Vec<u128> = grid(*p).into_iter().map(|v| if *p == FUNC && v != NULL { callees[v as usize] } else { v }).collect();
            tuples = tuples.iter().flat_map(|t| g.iter().map(move |v| { let mut t = t.clone(); t.push(*v); t })).collect();
        }
        let drops = name.starts_with("init") || name.starts_with("drop");
        for dropped in [false, true] {
            if dropped && !drops { continue }
            if dropped { for e in 0..5 { let _ = w.call_name(1, &format!("drop{e}"), &[]); } }
            for t in &tuples {
                if c.stopped() { return }
                if name.starts_with("grow") {
                    // growth is permanent: a new world when anything grew
                    let grown = TABLES.iter().enumerate().any(|(k, x)| w.rs.tables[w.rs.insts[1].tables[k]].elems.len() as u64 != x.1);
                    if grown { w = match fresh(&defs) { Ok(w) => w, Err(e) => { c.violation("setup", e, ""); return } }; }
                    // an unlimited table may be refused by the host only; skip sizes between
                    let k: usize = name[4..].parse().unwrap();
                    let lim = TABLES[k].2;
                    let tot = t[1] + TABLES[k].1 as u128;
                    if lim.is_none() && tot > 1000 && tot < 10_000_000 { continue }
                }
                l.traces += 1; l.transitions += 4;
                let r = w.call_name(1, "reset", &[70, 71]).and_then(|_| w.call_name(1, name, t)).and_then(|_| w.check());
                l.states.insert(w.state_hash());
                if let Err(e) = r {
                    c.violation(format!("op|{name}|{t:x?}|{dropped}"), format!("{e}\n{name} {t:x?} (segments dropped: {dropped}, options {o:?})"), hex(&defs[1].bytes));
                    std::mem::forget(std::mem::replace(&mut w, match fresh(&defs) { Ok(w) => w, Err(_) => return }));
                    if dropped { for e in 0..5 { let _ = w.call_name(1, &format!("drop{e}"), &[]); } }
                }
            }
        }
    });
    c.bound(format!("{} operations on 5 tables (funcref and externref, 32- and 64-bit, bounded and unbounded) with every combination of operands 0..=8 and boundary values, in a second instance with imported host and wasm functions; call_indirect and return_call_indirect of 8 types (with structural duplicates) on every entry", names.len()));
    times("operations");
    histories2(c, if q { 4 } else { 5 });
    times("histories");
    limits(c);
    times("limits");
}

/// Histories over two instances that share a table, a third with a private one, and the host.
fn histories2(c: &Check, depth: usize) {
    let mut a = Module::default();
    a.table(FUNC, Limits::new(3, Some(5)));
    for i in 0..2 { a.func(&[], &[I32], &[], vec![Op::I32C(10 + i)]); }
    a.func(&[], &[I64], &[], vec![Op::I64C(12)]);
    a.elems.push(Elem { mode: SegMode::Passive, ty: FUNC, items: vec![vec![Op::RefFunc(1)], vec![Op::RefFunc(2)]] });
    a.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: FUNC, items: vec![vec![Op::RefFunc(0)]] });
    a.func(&[I32], &[I32], &[], vec![Op::LGet(0), Op::CallIndirect { ty: 0, table: 0 }]);
    a.func(&[I32, I32, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::TableInit { elem: 0, table: 0 }]);
    a.func(&[], &[], &[], vec![Op::ElemDrop(0)]);
    a.func(&[I32], &[I32], &[], vec![Op::RefNull(FUNC), Op::LGet(0), Op::TableGrow(0)]);
    export_all(&mut a);
    let mut b = Module::default();
    // type 0 of this module differs from type 0 of the other
    b.types.push(FT { params: vec![I64], results: vec![] });
    b.imports.push(Import { module: "a".into(), name: "t".into(), kind: ImportKind::Table(FUNC, Limits::new(1, None)) });
    let ty = b.ty(&[], &[I32]);
    b.table(FUNC, Limits::new(2, Some(3)));
    b.func(&[], &[I32], &[], vec![Op::I32C(20)]); // f0
    b.elems.push(Elem { mode: SegMode::Passive, ty: FUNC, items: vec![vec![Op::RefFunc(0)], vec![Op::RefNull(FUNC)]] });
    b.func(&[I32], &[I32], &[], vec![Op::LGet(0), Op::CallIndirect { ty, table: 0 }]); // f1
    b.func(&[I32], &[I32], &[], vec![Op::LGet(0), Op::CallIndirect { ty, table: 1 }]); // f2
    b.func(&[I32, I32, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::TableInit { elem: 0, table: 0 }]); // f3
    b.func(&[I32, I32, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::TableCopy { dst: 1, src: 0 }]); // f4
    b.func(&[I32, I32, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::TableCopy { dst: 0, src: 1 }]); // f5
    b.func(&[I32, I32], &[], &[], vec![Op::LGet(0), Op::RefFunc(0), Op::LGet(1), Op::TableFill(0)]); // f6
    b.func(&[I32, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::TGet(0), Op::TSet(1)]); // f7
    b.func(&[I32], &[I32], &[], vec![Op::RefFunc(0), Op::LGet(0), Op::TableGrow(0)]); // f8
    b.func(&[], &[], &[], vec![Op::ElemDrop(0)]); // f9
    b.func(&[FUNC, I32], &[FUNC], &[], vec![Op::LGet(1), Op::LGet(0), Op::TSet(0), Op::LGet(0)]); // f10
    b.func(&[], &[I32], &[], vec![Op::RefFunc(0), Op::Drop, Op::TableSize(0)]); // f11
    export_all(&mut b);
    for m in [&a, &b] { if let Err(e) = Def::new(m, Opts::ON) { c.violation("hist|parse", e, ""); return } }
    // (instance, function, arguments)
    let mut acts: Vec<(usize, &str, Vec<u128>)> = vec![];
    for i in 0..4u128 { acts.push((0, "f3", vec![i])); acts.push((1, "f1", vec![i])); }
    for i in 0..3u128 { acts.push((1, "f2", vec![i])); }
    acts.extend([(0, "f4", vec![1, 0, 2]), (0, "f4", vec![2, 0, 2]), (0, "f5", vec![]), (0, "f6", vec![1]), (0, "f6", vec![3]),
        (1, "f3", vec![0, 0, 2]), (1, "f4", vec![0, 1, 2]), (1, "f4", vec![0, 2, 2]), (1, "f5", vec![1, 0, 2]), (1, "f6", vec![0, 3]), (1, "f6", vec![2, 2]), (1, "f7", vec![1, 0]), (1, "f8", vec![1]), (1, "f9", vec![]), (2, "f10", vec![1]), (2, "f2", vec![0]), (2, "f7", vec![0, 1]), (2, "f6", vec![1, 1])]);
    let extra = 4; // host actions
    let n = acts.len() + extra;
    c.par(n, |j, l| {
        let defs = [Def::new(&padding(), Opts::ON).unwrap(), Def::new(&a, Opts::ON).unwrap(), Def::new(&b, Opts::ON).unwrap()];
        histories(c, l, "hist", depth, n, Some(j), &|| {
            let mut w = World::new(tinywasm::engine::Config::default());
            (|| -> Result<(), String> {
                w.instantiate(&defs[0], &[], true)?;
                w.instantiate(&defs[1], &[], true)?;
                let t = w.item(1, "t0");
                w.instantiate(&defs[2], &[Some(t.clone())], true)?;
                w.instantiate(&defs[2], &[Some(t)], true)?;
                w.check()
            })().expect("setup");
            w
        }, &|w, k| {
            let t0 = match w.item(1, "t0") { Item::Table(a, h) => (a, h), _ => unreachable!() };
            if k < acts.len() {
                let (i, f, args) = &acts[k];
                if *f == "f10" {
                    // pass back a reference read by the host from the shared table
                    let v = w.rs.tables[t0.0].elems[0];
                    w.call_name(i + 1, f, &[v, args[0]])?;
                } else { w.call_name(i + 1, f, args)?; }
            } else {
                let n = w.rs.tables[t0.0].elems.len();
                match k - acts.len() {
                    0 => { // host copies entry 0 to entry 2
                        let v = t0.1.get(&w.store, 0).map_err(|e| e.to_string())?;
                        t0.1.set(&mut w.store, 2, v).map_err(|e| format!("host set: {e}"))?;
                        let t = &mut w.rs.tables[t0.0]; t.elems[2] = t.elems[0];
                    }
                    1 => { t0.1.set(&mut w.store, 1, to_wv(FUNC, NULL)).map_err(|e| format!("host set: {e}"))?; w.rs.tables[t0.0].elems[1] = NULL; }
                    2 => {
                        let v = t0.1.get(&w.store, 1).map_err(|e| e.to_string())?;
                        let r = t0.1.grow(&mut w.store, 1, v);
                        if n < 5 { let x = w.rs.tables[t0.0].elems[1]; w.rs.tables[t0.0].elems.push(x); if r.as_ref().ok() != Some(&n) { return Err(format!("host grow: {:?}", r.map_err(|e| e.to_string()))) } } else if r.is_ok() { return Err("host grow beyond the maximum".into()) }
                    }
                    _ => { t0.1.copy_within(&mut w.store, 0, 1, 2).map_err(|e| format!("host copy: {e}"))?; w.rs.tables[t0.0].elems.copy_within(0..2, 1); }
                }
            }
            w.check()?;
            Ok(w.state_hash())
        }, &|k| if k < acts.len() { format!("{}.{}{:?}", ["a", "b", "b2"][acts[k].0], acts[k].1, acts[k].2) } else { ["host copies [0] to [2]", "host sets [1] to null", "host grows by [1]", "host copies 0..2 to 1"][k - acts.len()].into() });
    });
    c.bound(format!("all {n}^{depth} histories of indirect calls, init, drop, copy, fill, set, grow and host updates over two instances of one module and a third instance sharing a table"));
}

fn limits(c: &Check) {
    let mut cases = vec![];
    for is64 in [false, true] { for (min, max) in [(0u64, None), (0, Some(0)), (1, Some(1)), (0, Some(2)), (3, Some(1000)), (1, Some(0xffff_ffff))] { for t in [FUNC, Ext] { cases.push((t, Limits { min, max, is64, page_log2: None })) } } }
    for max in [u64::MAX, 1 << 32, 1 << 63] { cases.push((FUNC, Limits { min: 1, max: Some(max), is64: true, page_log2: None })) }
    c.par(cases.len(), |j, l| {
        let (ty, lim) = cases[j];
        let t = if lim.is64 { I64 } else { I32 };
        let mut m = Module::default();
        m.table(ty, lim);
        m.func(&[t], &[t, t], &[], vec![Op::RefNull(ty), Op::LGet(0), Op::TableGrow(0), Op::TableSize(0)]);
        export_all(&mut m);
        let r = (|| -> Result<(), String> {
            let def = Def::new(&m, Opts::ON)?;
            let mut w = World::new(tinywasm::engine::Config::default());
            w.instantiate(&def, &[], true)?.unwrap();
            let max = lim.max.unwrap_or(u64::MAX);
            let mut deltas: Vec<u64> = vec![0, 1, 1, max.wrapping_add(1), max, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64, 0x8000_0000, 0, 2, 1];
            if !lim.is64 { deltas.iter_mut().for_each(|d| *d &= 0xffff_ffff) }
            for d in deltas {
                let now = w.rs.tables[0].elems.len() as u64;
                // an implementation may refuse large tables; only growth that is small or beyond the limit is decided
                if now.checked_add(d).is_some_and(|n| n <= max) && d > 1000 { continue }
                l.traces += 1; l.transitions += 1;
                w.call_name(0, "f0", &[d as u128]).map_err(|e| format!("table.grow {d:#x}: {e}"))?;
                w.check()?;
                l.states.insert(w.state_hash());
            }
            Ok(())
        })();
        if let Err(e) = r { c.violation(format!("limits|{ty:?}|{lim:?}"), format!("{e}; table {lim:?}"), hex(&encode(&m))) }
    });
    c.bound(format!("table.grow by up to 15 deltas for {} limit declarations", cases.len()));
}
