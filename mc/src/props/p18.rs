//! P18: imports are accepted exactly when their types match.
//! (a) the full relation supplied type × declared type for functions, globals, tables (with their current size) and
//!     memories, through every way an item can reach an importer; (b) mixed import lists with a wrong or missing item
//!     at every position; (c) every short sequence of operations on an import set against a name-map model.
use crate::oracle::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use tinywasm::engine::Config;
use tinywasm::types::{TableType, WasmValue};
use tinywasm::{FuncContext, HostFunction, Imports, ModuleInstance, Store, Table};
use VT::{F32, F64, I32, I64, V128};
const FUNC: VT = VT::Func;
const EXT: VT = VT::Ext;
const TYS: [VT; 7] = [I32, I64, F32, F64, V128, FUNC, EXT];

fn zero(t: VT) -> Op { match t { I32 => Op::I32C(0), I64 => Op::I64C(0), F32 => Op::F32C(0), F64 => Op::F64C(0), V128 => Op::VConst(0), t => Op::RefNull(t) } }
fn zval(t: VT) -> u128 { if t.is_ref() { NULL } else { 0 } }
fn kind_of(k: &ImportKind) -> EK { match k { ImportKind::Func(_) => EK::Func, ImportKind::Table(..) => EK::Table, ImportKind::Mem(_) => EK::Mem, ImportKind::Global(..) => EK::Global } }

/// A declared or supplied type.
#[derive(Clone, PartialEq, Debug)]
enum Ty { F(Vec<VT>, Vec<VT>), G(VT, bool), T(VT, Limits), M(Limits) }
impl Ty {
    fn kind(&self, m: &mut Module) -> ImportKind { match self { Ty::F(p, r) => ImportKind::Func(m.ty(p, r)), Ty::G(t, mu) => ImportKind::Global(*t, *mu), Ty::T(t, l) => ImportKind::Table(*t, *l), Ty::M(l) => ImportKind::Mem(*l) } }
    fn show(&self) -> String {
        let l = |l: &Limits| format!("{}{}..{:?}{}", if l.is64 { "i64 " } else { "" }, l.min, l.max, l.page_log2.map_or(String::new(), |p| format!(" page 2^{p}")));
        match self { Ty::F(p, r) => format!("func {p:?}->{r:?}"), Ty::G(t, mu) => format!("global {}{t:?}", if *mu { "mut " } else { "" }), Ty::T(t, x) => format!("table {t:?} {}", l(x)), Ty::M(x) => format!("memory {}", l(x)) }
    }
}
/// A module with one import that it re-exports as "x".
fn importer(t: &Ty) -> Module {
    let mut m = Module::default();
    let kind = t.kind(&mut m);
    let k = kind_of(&kind);
    m.imports.push(Import { module: "a".into(), name: "x".into(), kind });
    m.export("x", k, 0);
    m
}
/// A module that defines an item of the type and exports it as "x".
fn definer(t: &Ty) -> Module {
    let mut m = Module::default();
    match t {
        Ty::F(p, r) => { let f = m.func(p, r, &[], r.iter().map(|t| zero(*t)).collect()); m.export("x", EK::Func, f) }
        Ty::G(t, mu) => { let g = m.global(*t, *mu, zero(*t)); m.export("x", EK::Global, g) }
        Ty::T(t, l) => { let x = m.table(*t, *l); m.export("x", EK::Table, x) }
        Ty::M(l) => { let x = m.mem(*l); m.export("x", EK::Mem, x) }
    }
    m
}
fn host(w: &mut World, t: &Ty) -> Result<Item, String> {
    match t {
        Ty::F(p, r) => { let z: Vec<u128> = r.iter().map(|t| zval(*t)).collect(); let z2 = z.clone(); Ok(w.host_fn(p, r, Rc::new(move |_, _, _| Ok(z.clone())), Rc::new(move |_, _| Ok(z2.clone())))) }
        Ty::G(t, mu) => w.host_global(*t, *mu, zval(*t)),
        Ty::T(t, l) => {
            let ty = if l.is64 { TableType::new64(wt(*t), l.min, l.max) } else { TableType::new(wt(*t), l.min, l.max) };
            let h = Table::new(&mut w.store, ty, to_wv(*t, NULL)).map_err(|e| format!("Table::new: {e}"))?;
            w.rs.tables.push(RTable { ty: *t, lim: *l, elems: vec![NULL; l.min as usize] });
            w.tables.push((w.rs.tables.len() - 1, h));
            Ok(Item::Table(w.rs.tables.len() - 1, h))
        }
        Ty::M(l) => w.host_mem(*l),
    }
}
/// An item ready to be imported: defined as a value, or found through a linked instance.
struct Supply { how: &'static str, item: Item, link: Option<usize> }
/// Every way an item of type `t` can reach an importer; `loose` is what an intermediate module declares.
fn supplies(w: &mut World, t: &Ty, loose: &Ty) -> Result<Vec<Supply>, String> {
    let h = host(w, t)?;
    let d = Def::new(&definer(t), Opts::ON)?;
    let re = Def::new(&importer(loose), Opts::ON)?;
    let g = w.instantiate(&d, &[], true)?.unwrap();
    let gi = w.item(g, "x");
    let rh = w.instantiate(&re, &[Some(h.clone())], true)?.ok_or("re-export of a host item refused")?;
    let rg = w.instantiate(&re, &[Some(gi.clone())], true)?.ok_or("re-export of a guest item refused")?;
    let (hri, rgi) = (w.item(rh, "x"), w.item(rg, "x"));
    Ok(vec![
        Supply { how: "host value", item: h, link: None }, Supply { how: "exported handle", item: gi.clone(), link: None }, Supply { how: "linked instance", item: gi, link: Some(g) },
        Supply { how: "host value through a linked instance", item: hri, link: Some(rh) }, Supply { how: "handle of a re-export", item: rgi.clone(), link: None }, Supply { how: "linked re-export", item: rgi, link: Some(rg) },
    ])
}
fn imports_of(w: &World, d: &Def, s: &Supply) -> Imports {
    let mut i = Imports::new();
    match s.link { Some(x) => { i.link_module("a", w.insts[x].1.clone()).expect("link_module"); } None => { i = World::imports(d, &[Some(s.item.clone())]) } }
    i
}
/// Tries the import; on success checks that what was linked is the supplied item.
fn attempt(w: &mut World, d: &Def, s: &Supply, last: &mut u32) -> Result<bool, String> {
    let imps = imports_of(w, d, s);
    let Some(i) = w.instantiate_with(d, imps, &[Some(s.item.ext())], true)? else { return Ok(false) };
    let id = w.insts[i].1.id();
    if id != *last + 1 { return Err(format!("instance {id} follows instance {last} although none was created in between")); }
    *last = id;
    let it = w.item(i, "x");
    match &it {
        Item::Func(a, _) => { let z: Vec<u128> = w.rs.funcs[*a].ty.params.clone().iter().map(|t| zval(*t)).collect(); w.call(&it, &z)?; }
        Item::Mem(a, h) => { let n = h.len(&w.store).map_err(|e| e.to_string())?; if n != w.rs.mems[*a].data.len() { return Err(format!("the linked memory has {n} bytes")) } }
        Item::Table(a, h) => { let n = h.size(&w.store).map_err(|e| e.to_string())?; if n != w.rs.tables[*a].elems.len() { return Err(format!("the linked table has {n} entries")) } }
        Item::Global(a, h) => { let v = from_wv(&h.get(&w.store).map_err(|e| e.to_string())?); if v != (w.rs.globals[*a].ty, w.rs.globals[*a].v) { return Err(format!("the linked global is {v:?}")) } }
    }
    w.insts.truncate(i);
    Ok(true)
}

/// Every declared type against one supplied type.
fn relation(l: &mut Local, c: &Check, t: &Ty, grow: u64, wanted: &[Ty]) {
    let loose = match t { Ty::T(x, k) => Ty::T(*x, Limits { min: 0, max: None, ..*k }), Ty::M(k) => Ty::M(Limits { min: 0, max: None, ..*k }), t => t.clone() };
    let mut w = World::new(Config::new());
    let name = format!("supplied {} grown by {grow}", t.show());
    let sup = match supplies(&mut w, t, &loose) { Ok(s) => s, Err(e) => { c.violation(format!("supply|{name}"), e, name); return } };
    if grow > 0 {
        // every distinct item grows, through its handle
        for s in &sup[..2] {
            let ok = match &s.item {
                Item::Mem(a, h) => { let want = w.rs.mems[*a].grow(grow).map(|x| x as i64); let got = h.grow(&mut w.store, grow as i64).ok().flatten(); got.map(|x| x as i64) == want }
                Item::Table(a, h) => { let tb = &mut w.rs.tables[*a]; let n = tb.elems.len() as u64 + grow; let fits = tb.lim.max.is_none_or(|m| n <= m); if fits { tb.elems.resize(n as usize, NULL) } h.grow(&mut w.store, grow as i32, WasmValue::default_for(wt(w.rs.tables[*a].ty))).is_ok() == fits }
                _ => true,
            };
            if !ok { c.violation(format!("grow|{name}"), "growth of the supplied item", name); return }
        }
    }
    let mut last = w.insts.last().unwrap().1.id();
    for want in wanted {
        let d = match Def::new(&importer(want), Opts::ON) { Ok(d) => d, Err(e) => { c.violation(format!("def|{}", want.show()), e, ""); return } };
        for s in &sup {
            if c.stopped() { return }
            l.transitions += 1;
            l.traces += 1;
            match attempt(&mut w, &d, s, &mut last) {
                Ok(ok) => { l.states.insert(hash(&(want.show(), t.show(), grow, s.how, ok))); l.add(if ok { "accepted" } else { "refused" }, 1) }
                Err(e) => { let k = format!("{name}, as {}, imported as {}", s.how, want.show()); c.violation(k.clone(), e, k); return }
            }
        }
    }
    l.sample(|| format!("{name}: against {} declared types, 6 routes", wanted.len()));
    if let Err(e) = w.check() { c.violation(format!("{name}|state"), e, name) }
}

fn sigs(n: usize) -> Vec<Ty> {
    let mut lists: Vec<Vec<VT>> = vec![vec![]];
    let mut all = lists.clone();
    for _ in 0..n { lists = lists.iter().flat_map(|l| TYS.iter().map(move |t| { let mut l = l.clone(); l.push(*t); l })).collect(); all.extend(lists.clone()) }
    all.iter().flat_map(|p| all.iter().filter(move |r| p.len() + r.len() <= n).map(move |r| Ty::F(p.clone(), r.clone()))).collect()
}
fn limits(mins: &[u64], maxs: &[Option<u64>], is64: bool, page: Option<u32>) -> Vec<Limits> {
    mins.iter().flat_map(|min| maxs.iter().filter(move |m| m.is_none_or(|m| m >= *min)).map(move |max| Limits { min: *min, max: *max, is64, page_log2: page })).collect()
}

// ---- (b) import lists ----
fn list_types() -> Vec<Ty> {
    vec![Ty::F(vec![I32], vec![I32]), Ty::F(vec![], vec![I64]), Ty::G(I32, false), Ty::G(I64, true), Ty::M(Limits::new(1, Some(2))), Ty::M(Limits { min: 8, max: Some(100), is64: true, page_log2: Some(0) }), Ty::T(FUNC, Limits::new(2, Some(4))), Ty::T(EXT, Limits::new(2, None))]
}
/// Exports two distinguishable items of every type, "x<type><copy>".
fn pool() -> Module {
    let mut m = Module::default();
    for (i, t) in list_types().iter().enumerate() {
        for k in 0..2u32 {
            let tag = (i as u32 * 2 + k + 1) as i32;
            let (kind, idx) = match t {
                Ty::F(p, r) => (EK::Func, m.func(p, r, &[], vec![if r[0] == I32 { Op::I32C(100 + tag) } else { Op::I64C(100 + tag as i64) }])),
                Ty::G(t, mu) => (EK::Global, m.global(*t, *mu, if *t == I32 { Op::I32C(tag) } else { Op::I64C(tag as i64) })),
                Ty::M(l) => { let x = m.mem(*l); m.datas.push(Data { mode: SegMode::Active { idx: x, offset: vec![if l.is64 { Op::I64C(0) } else { Op::I32C(0) }] }, bytes: vec![tag as u8; 4] }); (EK::Mem, x) }
                Ty::T(t, l) => (EK::Table, m.table(*t, Limits { min: l.min + k as u64, ..*l })),
            };
            m.export(&format!("x{i}{k}"), kind, idx);
        }
    }
    // an active segment makes the function tables distinguishable
    let t0 = m.n_imp(EK::Table);
    for k in 0..2u32 { m.elems.push(Elem { mode: SegMode::Active { idx: t0 + k, offset: vec![Op::I32C(1)] }, ty: FUNC, items: vec![vec![Op::RefFunc(k)]] }) }
    m
}
/// A module importing the items, with an accessor "a<n>" for each, segments that change the imported memories and
/// tables, and a start function that changes the imported mutable globals.
fn lister(sel: &[usize]) -> Module {
    let mut m = Module::default();
    let tys = list_types();
    for (n, s) in sel.iter().enumerate() { let kind = tys[s / 2].kind(&mut m); m.imports.push(Import { module: format!("m{n}"), name: format!("x{}{}", s / 2, s % 2), kind }) }
    let (mut f, mut g, mut me, mut ta) = (0, 0, 0, 0);
    let mut start = vec![];
    let mut acc: Vec<(Vec<VT>, Vec<Op>)> = vec![];
    for (n, s) in sel.iter().enumerate() {
        match &tys[s / 2] {
            Ty::F(p, r) => { acc.push((r.clone(), p.iter().map(|t| zero(*t)).chain([Op::Call(f)]).collect())); f += 1 }
            Ty::G(t, mu) => { acc.push((vec![*t], vec![Op::GGet(g)])); if *mu { start.extend([Op::GGet(g), Op::I64C(1000), num("i64.add"), Op::GSet(g)]) } g += 1 }
            Ty::M(l) => {
                let (a, z) = if l.is64 { (I64, Op::I64C(0)) } else { (I32, Op::I32C(0)) };
                acc.push((vec![I32, a], vec![z.clone(), Op::Mem { op: 0x2d, m: MA { align: 0, offset: 0, mem: me } }, Op::MemSize(me)]));
                m.datas.push(Data { mode: SegMode::Active { idx: me, offset: vec![if l.is64 { Op::I64C(2 + n as i64) } else { Op::I32C(2 + n as i32) }] }, bytes: vec![0x50 + n as u8] });
                me += 1;
            }
            Ty::T(t, _) => {
                acc.push((vec![I32, *t], vec![Op::TableSize(ta), Op::I32C(1), Op::TGet(ta)]));
                if *t == FUNC { m.elems.push(Elem { mode: SegMode::Active { idx: ta, offset: vec![Op::I32C(0)] }, ty: FUNC, items: vec![vec![Op::RefNull(FUNC)]] }) }
                ta += 1;
            }
        }
    }
    for (n, (r, b)) in acc.into_iter().enumerate() { let x = m.func(&[], &r, &[], b); m.export(&format!("a{n}"), EK::Func, x) }
    let st = m.func(&[], &[], &[], start);
    m.start = Some(st);
    m
}
fn lists(l: &mut Local, c: &Check, len: usize, first: usize, pools: &Def) {
    let mut sel = vec![0usize; len];
    sel[0] = first;
    let mut w = World::new(Config::new());
    let Ok(Some(pi)) = w.instantiate(pools, &[], true) else { c.violation("pool", "the exporting module does not instantiate", ""); return };
    let mut last = w.insts[pi].1.id();
    loop {
        if c.stopped() { return }
        let d = match Def::new(&lister(&sel), Opts::ON) { Ok(d) => d, Err(e) => { c.violation(format!("lister {sel:?}"), e, ""); return } };
        let items: Vec<Item> = d.rm.imports.iter().map(|i| w.item(pi, &i.name)).collect();
        let fail = |w: &mut World, c: &Check, what: String, e: String| { w.insts.truncate(1); c.violation(format!("list {sel:?}|{what}"), e, format!("{sel:?} {what}")) };
        // a wrong or missing item at every position: nothing happens
        for p in 0..len {
            for bad in 0..4usize {
                let mut v: Vec<Option<Item>> = items.iter().cloned().map(Some).collect();
                v[p] = match bad { 0 => None, b => { let other = (sel[p] / 2 + [1, 2, 4][b - 1]) % 8; Some(w.item(pi, &format!("x{other}0"))) } };
                // through values, or with everything else through a linked instance
                for linked in [false, true] {
                    let exts: Vec<Option<Ext>> = v.iter().map(|x| x.as_ref().map(|i| i.ext())).collect();
                    let mut imps = Imports::new();
                    for (n, (imp, it)) in d.rm.imports.iter().zip(&v).enumerate() {
                        match it { Some(x) if !linked || n == p => { imps.define(&imp.module, &imp.name, x.real()); } Some(_) => { imps.link_module(&imp.module, w.insts[pi].1.clone()).unwrap(); } None => {} }
                    }
                    l.transitions += 1;
                    l.traces += 1;
                    match w.instantiate_with(&d, imps, &exts, true) { Ok(None) => {} Ok(Some(_)) => { fail(&mut w, c, format!("bad {bad} at {p}"), "accepted".into()); return } Err(e) => { fail(&mut w, c, format!("bad {bad} at {p}"), e); return } }
                    // names that exist in the linked instance are found there although other modules are linked too
                }
            }
        }
        for linked in 0..1usize << len {
            let mut imps = Imports::new();
            for (n, (imp, it)) in d.rm.imports.iter().zip(&items).enumerate() { if linked >> n & 1 == 0 { imps.define(&imp.module, &imp.name, it.real()); } else { imps.link_module(&imp.module, w.insts[pi].1.clone()).unwrap(); } }
            let exts: Vec<Option<Ext>> = items.iter().map(|x| Some(x.ext())).collect();
            l.transitions += 1 + len as u64;
            l.traces += 1;
            let r = (|| {
                let Some(i) = w.instantiate_with(&d, imps, &exts, true)? else { return Err("refused".to_string()) };
                let id = w.insts[i].1.id();
                if id != last + 1 { return Err(format!("instance {id} follows instance {last} although none was created in between")); }
                last = id;
                for n in 0..len { w.call_name(i, &format!("a{n}"), &[]).map_err(|e| format!("import {n}: {e}"))?; }
                w.check()?;
                l.states.insert(hash(&(w.state_hash(), &sel)));
                w.insts.truncate(i);
                Ok(())
            })();
            if let Err(e) = r { fail(&mut w, c, format!("linked {linked:b}"), e); return }
        }
        let mut k = len;
        loop {
            if k == 1 { l.sample(|| format!("import lists starting with item {first}, up to {sel:?}")); return }
            k -= 1;
            sel[k] += 1;
            if sel[k] < 16 { break }
            sel[k] = 0;
        }
    }
}

// ---- (c) import sets ----
const MODS: [&str; 3] = ["a", "", "b"];
const NAMES: [&str; 3] = ["x", "", "é\u{0}"];
/// A name-map model of an import set: values by (module, name) come before linked instances.
#[derive(Clone, Default, Hash)]
struct Model { vals: BTreeMap<(usize, usize), usize>, linked: BTreeMap<usize, usize> }
#[derive(Clone, Copy)]
enum Act { Define(usize, usize), Link(usize, usize) }
fn name_acts() -> Vec<(Act, u8)> {
    let base = [Act::Define(0, 0), Act::Define(0, 1), Act::Define(1, 0), Act::Define(2, 2), Act::Link(0, 0), Act::Link(0, 1), Act::Link(1, 0), Act::Link(2, 1)];
    base.iter().flat_map(|a| (0..3).map(move |how| (*a, how))).collect()
}
/// Instance k exports globals for the names in `have` (name, value).
fn exporter(k: usize) -> (Module, Vec<(usize, usize)>) {
    let mut m = Module::default();
    let mut have = vec![];
    for n in 0..3usize { if k == 0 || n != 1 { let v = 1000 + k * 10 + n; let g = m.global(I32, false, Op::I32C(v as i32)); m.export(NAMES[n], EK::Global, g); have.push((n, v)) } }
    (m, have)
}
fn import_sets(l: &mut Local, c: &Check, depth: usize, first: usize) {
    let acts = name_acts();
    let mut store = Store::default();
    let ex: Vec<(ModuleInstance, Vec<(usize, usize)>)> = (0..2).map(|k| { let (m, h) = exporter(k); let t = parse(&encode(&m), Opts::ON).expect("exporter"); (ModuleInstance::instantiate(&mut store, &t, None).expect("exporter"), h) }).collect();
    let gs: Vec<tinywasm::Global> = (0..depth).map(|i| tinywasm::Global::new(&mut store, tinywasm::types::GlobalType::default().with_ty(wt(I32)), to_wv(I32, i as u128 + 1)).expect("global")).collect();
    let imps: Vec<tinywasm::Module> = (0..9).map(|i| { let mut m = Module::default(); m.imports.push(Import { module: MODS[i / 3].into(), name: NAMES[i % 3].into(), kind: ImportKind::Global(I32, false) }); m.export("g", EK::Global, 0); parse(&encode(&m), Opts::ON).expect("importer") }).collect();
    let mut seq = vec![0usize; depth];
    seq[0] = first;
    loop {
        if c.stopped() { return }
        let (mut set, mut mo) = (Imports::new(), Model::default());
        for (i, a) in seq.iter().enumerate() {
            let (act, how) = acts[*a];
            let mut one = Imports::new();
            let t = if how == 0 { &mut set } else { &mut one };
            let mut m1 = Model::default();
            match act { Act::Define(m, n) => { t.define(MODS[m], NAMES[n], gs[i]); m1.vals.insert((m, n), i + 1); } Act::Link(m, k) => { t.link_module(MODS[m], ex[k].0.clone()).expect("link_module"); m1.linked.insert(m, k); } }
            match how {
                0 | 1 => { if how == 1 { set = set.merge(one) } mo.vals.extend(m1.vals); mo.linked.extend(m1.linked) }
                _ => { set = one.merge(set); let Model { mut vals, mut linked } = m1; vals.extend(mo.vals); linked.extend(mo.linked); mo = Model { vals, linked } }
            }
        }
        l.traces += 1;
        for q in 0..9usize {
            l.transitions += 1;
            let key = (q / 3, q % 3);
            let want = mo.vals.get(&key).copied().or_else(|| mo.linked.get(&key.0).and_then(|k| ex[*k].1.iter().find(|h| h.0 == key.1).map(|h| h.1)));
            let got = match guard(|| ModuleInstance::instantiate(&mut store, &imps[q], Some(set.clone()))) {
                Ok(Ok(i)) => i.global_get(&store, "g").map(|v| Some(from_wv(&v).1 as usize)).map_err(|e| e.to_string()),
                Ok(Err(tinywasm::Error::Linker(tinywasm::LinkingError::UnknownImport { .. }))) => Ok(None),
                Ok(Err(e)) => Err(e.to_string()), Err(p) => Err(format!("panic: {p}")),
            };
            if got != Ok(want) {
                let s = seq.iter().map(|a| match acts[*a] { (Act::Define(m, n), h) => format!("define({:?},{:?})/{h}", MODS[m], NAMES[n]), (Act::Link(m, k), h) => format!("link({:?},instance {k})/{h}", MODS[m]) }).collect::<Vec<_>>().join("; ");
                c.violation(format!("names|{s}|{key:?}"), format!("import {:?}.{:?} resolves to {got:?}, expected {want:?}", MODS[key.0], NAMES[key.1]), s);
                return;
            }
        }
        l.states.insert(hash(&mo));
        let mut k = depth;
        loop {
            if k == 1 { return }
            k -= 1;
            seq[k] += 1;
            if seq[k] < acts.len() { break }
            seq[k] = 0;
        }
    }
}

/// Typed host functions have the signature of their Rust type.
fn typed(l: &mut Local, c: &Check, wanted: &[Ty]) {
    let mut store = Store::default();
    let fs: Vec<(tinywasm::Function, Vec<VT>, Vec<VT>)> = vec![
        (HostFunction::from(&mut store, |_: FuncContext<'_>, _: ()| Ok(())), vec![], vec![]),
        (HostFunction::from(&mut store, |_: FuncContext<'_>, a: i32| Ok(a as i64)), vec![I32], vec![I64]),
        (HostFunction::from(&mut store, |_: FuncContext<'_>, a: i64| Ok(a as i32)), vec![I64], vec![I32]),
        (HostFunction::from(&mut store, |_: FuncContext<'_>, (a, b): (f32, f64)| { let _ = (a, b); Ok(()) }), vec![F32, F64], vec![]),
        (HostFunction::from(&mut store, |_: FuncContext<'_>, _: ()| Ok((1.0f64, 2.0f32))), vec![], vec![F64, F32]),
        (HostFunction::from(&mut store, |_: FuncContext<'_>, a: f32| Ok(a)), vec![F32], vec![F32]),
    ];
    for want in wanted {
        let Ty::F(p, r) = want else { continue };
        let tm = match parse(&encode(&importer(want)), Opts::ON) { Ok(m) => m, Err(e) => { c.violation(format!("typed|{}", want.show()), e, ""); return } };
        for (f, fp, fr) in &fs {
            l.transitions += 1;
            l.traces += 1;
            let mut i = Imports::new();
            i.define("a", "x", f.clone());
            let ok = ModuleInstance::instantiate(&mut store, &tm, Some(i)).is_ok();
            l.states.insert(hash(&("typed", want.show(), fp, fr, ok)));
            if ok != (p == fp && r == fr) { let k = format!("typed host function {fp:?}->{fr:?} imported as {}", want.show()); c.violation(k.clone(), if ok { "accepted" } else { "refused" }, k); return }
        }
    }
}

pub fn run(c: &Check) {
    let nsig = c.pick(2, 3);
    let funcs = sigs(nsig);
    let globals: Vec<Ty> = TYS.iter().flat_map(|t| [Ty::G(*t, false), Ty::G(*t, true)]).collect();
    let smax = [None, Some(0), Some(1), Some(2), Some(3), Some(4)];
    let imax = [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(u32::MAX as u64)];
    let tabs = |mins: &[u64], maxs: &[Option<u64>]| -> Vec<Ty> { [FUNC, EXT].iter().flat_map(|t| [false, true].iter().flat_map(|is64| limits(mins, maxs, *is64, None).into_iter().map(|l| Ty::T(*t, l)))).collect() };
    let hi: Vec<Option<u64>> = imax[..6].iter().copied().chain([Some(65535), Some(65536)]).collect();
    let mems = |mins: &[u64], maxs: &[Option<u64>]| -> Vec<Ty> {
        let mut v = vec![];
        for is64 in [false, true] { for page in [None, Some(16), Some(0)] {
            let mut m = maxs.to_vec();
            if is64 || page == Some(0) { m.extend([Some(65537), Some(u32::MAX as u64)]) }
            if is64 { m.push(Some(1 << 32)) }
            v.extend(limits(mins, &m, is64, page).into_iter().map(Ty::M));
        } }
        v
    };
    let stab = tabs(&[0, 1, 2], &smax);
    let itab: Vec<Ty> = tabs(&[0, 1, 2, 3, 4], &imax).into_iter().chain([Ty::T(FUNC, Limits::new64(0, Some(u64::MAX))), Ty::T(FUNC, Limits::new64(1 << 33, None))]).collect();
    let smem = mems(&[0, 1, 2], &hi);
    let imem = mems(&[0, 1, 2, 3, 4, 65536], &hi);
    let grows = c.pick(3u64, 4);
    c.bound(format!("functions: {0} × {0} signatures of at most {nsig} value types; globals: 14 × 14; tables: {1} supplied × {grows} growths × {2} declared; memories: {3} × {grows} × {4}; each through 6 routes", funcs.len(), stab.len(), itab.len(), smem.len(), imem.len()));
    // kinds against each other: two types of each kind with all the others
    let reps: Vec<Ty> = vec![Ty::F(vec![], vec![]), Ty::F(vec![I32], vec![I32]), Ty::G(I32, false), Ty::G(FUNC, true), Ty::T(FUNC, Limits::new(0, None)), Ty::T(EXT, Limits::new64(0, None)), Ty::M(Limits::new(0, None)), Ty::M(Limits::new64(0, None))];
    let jobs: Vec<(Ty, u64, &[Ty])> = funcs.iter().map(|t| (t.clone(), 0, &funcs[..])).chain(globals.iter().map(|t| (t.clone(), 0, &globals[..])))
        .chain(stab.iter().flat_map(|t| (0..grows).map(|g| (t.clone(), g, &itab[..])))).chain(smem.iter().flat_map(|t| (0..grows).map(|g| (t.clone(), g, &imem[..]))))
        .chain(reps.iter().map(|t| (t.clone(), 0, &reps[..]))).collect();
    c.par(jobs.len(), |j, l| { let (t, g, w) = &jobs[j]; relation(l, c, t, *g, w) });
    let mut l = Local::default();
    typed(&mut l, c, &funcs);
    c.merge(l);
    let len = c.pick(3, 4);
    c.bound(format!("import lists: every list of {len} of 16 items of 8 types, the bad item (missing or of 3 other types) at every position through 2 routes, every subset of the good items linked rather than defined"));
    c.par(16, |j, l| { let p = Def::new(&pool(), Opts::ON).expect("pool"); lists(l, c, len, j, &p) });
    let depth = c.pick(3, 4);
    c.bound(format!("import sets: every sequence of {depth} define/link operations directly or by merging in either direction ({} actions), resolved for 9 (module, name) pairs", name_acts().len()));
    c.par(name_acts().len(), |j, l| import_sets(l, c, depth, j));
    c.assume("when several imports are at fault any of the errors may be reported; the check only makes one wrong at a time");
}
