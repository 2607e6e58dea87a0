//! P19: instantiation takes effect in the specified order and fails cleanly.
//! Every sequence of element and data segments up to the bound, each of every kind and fitting or not, followed by
//! every kind of start function, instantiated into a world where memories and tables are shared; afterwards every
//! segment of the (possibly failed) instance is probed through whatever reached the shared table.
use crate::num::Trap;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use tinywasm::engine::Config;
use VT::{I32, I64};
const FUNC: VT = VT::Func;
const EXT: VT = VT::Ext;

fn mlim(is64: bool) -> Limits { Limits { min: 8, max: Some(16), is64, page_log2: Some(0) } }
fn tlim(n: u64, is64: bool) -> Limits { Limits { min: n, max: Some(8), is64, page_log2: None } }
fn k(is64: bool, v: i64) -> Op { if is64 { Op::I64C(v) } else { Op::I32C(v as i32) } }

/// Owns the shared items; "call" calls through the shared table.
fn exporter(is64: bool) -> Module {
    let mut m = Module::default();
    let a = if is64 { I64 } else { I32 };
    m.mem(mlim(is64));
    m.table(FUNC, tlim(4, is64));
    m.table(EXT, tlim(3, is64));
    m.global(a, false, k(is64, 2));
    m.global(I64, true, Op::I64C(100));
    let f = m.func(&[I32], &[I64], &[], vec![Op::LGet(0), Op::I64C(0), Op::Drop, Op::Num(0xac)]);
    m.global(FUNC, false, Op::RefFunc(f));
    let t = m.ty(&[I32], &[I64]);
    m.func(&[a, I32], &[I64], &[], vec![Op::LGet(1), Op::LGet(0), Op::CallIndirect { ty: t, table: 0 }]);
    m.datas.push(Data { mode: SegMode::Active { idx: 0, offset: vec![k(is64, 0)] }, bytes: vec![1, 2, 3, 4, 5, 6, 7, 8] });
    export_all(&mut m);
    m
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Off { Fit, End, Over, Wrap, High, Glob, GlobOver }
const OFFS: [Off; 7] = [Off::Fit, Off::End, Off::Over, Off::Wrap, Off::High, Off::Glob, Off::GlobOver];
impl Off {
    /// The offset for a segment of `n` entries in something of `size` entries; the imported constant global is 2.
    fn ops(self, is64: bool, n: i64, size: i64) -> Vec<Op> {
        match self {
            Off::Fit => vec![k(is64, 1)], Off::End => vec![k(is64, size - n)], Off::Over => vec![k(is64, size - n + 1)], Off::Wrap => vec![k(is64, -1)], Off::High => vec![k(is64, if is64 { 1 << 32 | 1 } else { 0x8000_0001u32 as i32 as i64 })],
            Off::Glob => vec![Op::GGet(0)], Off::GlobOver => vec![Op::GGet(0), k(is64, size - n - 1), num(if is64 { "i64.add" } else { "i32.add" })],
        }
    }
}
/// Segment choices. Element: kind, offset kind, number of items.
#[derive(Clone, Copy, Debug)]
enum Es { Passive(u8), Declared, Shared(Off, u8), Local(Off, u8), Ext(Off, u8), ExtPassive }
#[derive(Clone, Copy, Debug)]
enum Ds { Passive(u8), Shared(Off, u8), Local(Off, u8) }
fn elems(full: bool) -> Vec<Es> {
    let mut v = vec![Es::Passive(0), Es::Passive(2), Es::Declared, Es::ExtPassive];
    for o in OFFS { for n in [0, 2] { if full || n == 2 || matches!(o, Off::End | Off::Over) { v.push(Es::Shared(o, n)); if full || o == Off::Fit || o == Off::Over { v.push(Es::Local(o, n)) } } } }
    for o in [Off::Fit, Off::Over, Off::End] { v.push(Es::Ext(o, 1)) }
    v
}
fn datas(full: bool) -> Vec<Ds> {
    let mut v = vec![Ds::Passive(0), Ds::Passive(3)];
    for o in OFFS { for n in [0, 3] { if full || n == 3 || matches!(o, Off::End | Off::Over) { v.push(Ds::Shared(o, n)); if full || o == Off::Fit || o == Off::Over { v.push(Ds::Local(o, n)) } } } }
    v
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum St { None, Ok, Trap, Host, HostErr, UseElem, UseData, Indirect }
const STARTS: [St; 8] = [St::None, St::Ok, St::Trap, St::Host, St::HostErr, St::UseElem, St::UseData, St::Indirect];

/// Function 0/1 are the imported host functions, 2 is the probe.
fn consumer(is64: bool, es: &[Es], ds: &[Ds], st: St) -> Module {
    let mut m = Module::default();
    let a = if is64 { I64 } else { I32 };
    let im = |m: &mut Module, n: &str, kind| m.imports.push(Import { module: "p".into(), name: n.into(), kind });
    im(&mut m, "m0", ImportKind::Mem(mlim(is64)));
    im(&mut m, "t0", ImportKind::Table(FUNC, tlim(4, is64)));
    im(&mut m, "t1", ImportKind::Table(EXT, tlim(3, is64)));
    im(&mut m, "g0", ImportKind::Global(a, false));
    im(&mut m, "g1", ImportKind::Global(I64, true));
    im(&mut m, "g2", ImportKind::Global(FUNC, false));
    im(&mut m, "gx", ImportKind::Global(EXT, false));
    let h = m.import_func("p", "h", &[], &[]);
    let he = m.import_func("p", "he", &[], &[]);
    m.table(FUNC, tlim(4, is64));
    m.mem(mlim(is64));
    let probe = 2u32;
    // own globals, initialised from imported ones and from functions
    m.global(a, true, Op::GGet(0));
    m.global(FUNC, false, Op::GGet(2));
    m.global(FUNC, false, Op::RefFunc(probe));
    // a block whose last case is outermost
    let mut cases: Vec<Vec<Op>> = vec![];
    for (i, e) in es.iter().enumerate() {
        let table = if matches!(e, Es::Ext(..) | Es::ExtPassive) { 1 } else { 2 };
        cases.push(vec![k(is64, i as i64), Op::I32C(0), Op::I32C(1), Op::TableInit { elem: i as u32, table }, Op::I64C(10 + i as i64)]);
        cases.push(vec![Op::ElemDrop(i as u32), Op::I64C(20 + i as i64)]);
    }
    for i in 0..ds.len() {
        cases.push(vec![k(is64, 5), Op::I32C(1), Op::I32C(2), Op::MemInit { data: i as u32, mem: 1 }, Op::I64C(30 + i as i64)]);
        cases.push(vec![Op::DataDrop(i as u32), Op::I64C(40 + i as i64)]);
    }
    cases.push(vec![k(is64, 0), Op::Mem { op: 0x29, m: MA { align: 0, offset: 0, mem: 1 } }]);
    cases.push((0..4).flat_map(|i| { let mut v = vec![k(is64, i), Op::TGet(2), Op::RefIsNull, Op::Num(0xac)]; if i > 0 { v.extend([Op::I64C(i), num("i64.shl"), num("i64.or")]) } v }).collect());
    cases.push(if is64 { vec![Op::GGet(4)] } else { vec![Op::GGet(4), Op::Num(0xac)] });
    let n = cases.len() as u32;
    let mut body: Vec<Op> = vec![Op::Block(BT::Empty); n as usize];
    body.extend([Op::LGet(0), Op::BrTable((0..n - 1).collect(), n - 1), Op::End]);
    for (i, c) in cases.into_iter().enumerate() { body.extend(c); body.push(Op::Return); if i + 1 < n as usize { body.push(Op::End) } }
    // every case is closed; the last one leaves the outermost block already
    let p = m.func(&[I32], &[I64], &[], body);
    assert_eq!(p, probe);
    let touch = vec![k(is64, 7), Op::I32C(0x77), Op::Mem { op: 0x3a, m: MA { align: 0, offset: 0, mem: 0 } }, Op::GGet(1), Op::I64C(1), num("i64.add"), Op::GSet(1), k(is64, 3), Op::RefFunc(probe), Op::TSet(0)];
    let with = |b: &[Op]| touch.iter().cloned().chain(b.iter().cloned()).collect::<Vec<_>>();
    m.start = match st {
        St::None => None, St::Ok => Some(m.func(&[], &[], &[], touch.clone())), St::Trap => Some(m.func(&[], &[], &[], with(&[Op::Unreachable]))), St::Host => Some(h), St::HostErr => Some(he),
        St::UseElem => Some(m.func(&[], &[], &[], if es.is_empty() { touch.clone() } else { with(&[k(is64, 0), Op::I32C(0), Op::I32C(2), Op::TableInit { elem: 0, table: if matches!(es[0], Es::Ext(..) | Es::ExtPassive) { 1 } else { 0 } }]) })),
        St::UseData => Some(m.func(&[], &[], &[], if ds.is_empty() { touch.clone() } else { with(&[k(is64, 0), Op::I32C(0), Op::I32C(3), Op::MemInit { data: 0, mem: 0 }]) })),
        // calls whatever the segments left in slot 1 of the shared table
        St::Indirect => { let t = m.ty(&[I32], &[I64]); Some(m.func(&[], &[], &[], with(&[Op::I32C(n as i32 - 3), k(is64, 1), Op::CallIndirect { ty: t, table: 0 }, Op::GSet(1)]))) }
    };
    for (i, e) in es.iter().enumerate() {
        let items = |n: u8| (0..n).map(|j| vec![match (i as u8 + j) % 3 { 0 => Op::RefFunc(probe), 1 => Op::GGet(2), _ => Op::RefNull(FUNC) }]).collect::<Vec<_>>();
        let act = |t: u32, o: Off, n: u8, size| SegMode::Active { idx: t, offset: o.ops(is64, n as i64, size) };
        m.elems.push(match *e {
            Es::Passive(n) => Elem { mode: SegMode::Passive, ty: FUNC, items: items(n) }, Es::Declared => Elem { mode: SegMode::Declared, ty: FUNC, items: items(2) },
            Es::Shared(o, n) => Elem { mode: act(0, o, n, 4), ty: FUNC, items: items(n) }, Es::Local(o, n) => Elem { mode: act(2, o, n, 4), ty: FUNC, items: items(n) },
            Es::Ext(o, n) => Elem { mode: act(1, o, n, 3), ty: EXT, items: vec![vec![Op::GGet(3)]; n as usize] }, Es::ExtPassive => Elem { mode: SegMode::Passive, ty: EXT, items: vec![vec![Op::GGet(3)], vec![Op::RefNull(EXT)]] },
        });
    }
    for (i, d) in ds.iter().enumerate() {
        let b = |n: u8| (0..n).map(|j| 0x80 + (i as u8) * 16 + j).collect::<Vec<_>>();
        let act = |mi: u32, o: Off, n: u8| SegMode::Active { idx: mi, offset: o.ops(is64, n as i64, 8) };
        m.datas.push(match *d { Ds::Passive(n) => Data { mode: SegMode::Passive, bytes: b(n) }, Ds::Shared(o, n) => Data { mode: act(0, o, n), bytes: b(n) }, Ds::Local(o, n) => Data { mode: act(1, o, n), bytes: b(n) } });
    }
    m.export("probe", EK::Func, probe);
    m.export("mem", EK::Mem, 1);
    m.export("tab", EK::Table, 2);
    m
}

struct Fx { w: World, items: Vec<Option<Item>>, call: Item }
fn fresh(p: &Def) -> Fx {
    let mut w = World::new(Config::new());
    let i = w.instantiate(p, &[], true).expect("exporter").expect("exporter");
    let mut items: Vec<Option<Item>> = ["m0", "t0", "t1", "g0", "g1", "g2"].iter().map(|n| Some(w.item(i, n))).collect();
    items.push(Some(w.host_global(EXT, false, 5).expect("host global")));
    items.push(Some(w.host_log("h", &[], &[], Ok(vec![]))));
    items.push(Some(w.host_log("he", &[], &[], Err("stop"))));
    let call = w.item(i, "f1");
    // learn the exporter's function
    let Some(Item::Global(a, h)) = &items[5] else { unreachable!() };
    let v = from_wv(&h.get(&w.store).expect("global")).1;
    w.fmap.borrow_mut().canon(v, w.rs.globals[*a].v);
    Fx { w, items, call }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Start, Split, Twice }
fn one(l: &mut Local, c: &Check, p: &Def, is64: bool, es: &[Es], ds: &[Ds], st: St, mode: Mode) {
    let d = match Def::new(&consumer(is64, es, ds, st), Opts::ON) { Ok(d) => d, Err(e) => { c.violation(format!("def|{es:?} {ds:?} {st:?}"), e, ""); return } };
    let name = format!("{}{es:?} {ds:?} start {st:?} {mode:?}", if is64 { "64-bit " } else { "" });
    let mut fx = fresh(p);
    l.traces += 1;
    let r = (|| {
        let w = &mut fx.w;
        for round in 0..if mode == Mode::Twice { 2 } else { 1 } {
            l.transitions += 1;
            let i = w.instantiate(&d, &fx.items, mode != Mode::Split).map_err(|e| format!("round {round}: {e}"))?;
            w.check().map_err(|e| format!("round {round}, after instantiation: {e}"))?;
            if let (Mode::Split, Some(i)) = (mode, i) {
                // the start function runs when it is asked to, every time
                for n in 0..2 {
                    l.transitions += 1;
                    let (ri, inst) = w.insts[i].clone();
                    let want = d.rm.start.map(|s| { let f = w.rs.insts[ri].funcs[s as usize]; w.rs.invoke(f, &[]) });
                    let store = &mut w.store;
                    let got = guard(|| inst.start(store)).map_err(|p| format!("start panicked: {p}"))?;
                    let ok = match (&want, &got) { (None, Ok(None)) | (Some(Ok(_)), Ok(Some(()))) => true, (Some(Err(Trap::Host(m))), Err(e)) => e.to_string().ends_with(m.as_str()), (Some(Err(t)), Err(tinywasm::Error::Trap(g))) => trap_of(g) == *t, _ => false };
                    if !ok { return Err(format!("start call {n}: got {:?}, expected {want:?}", got.map_err(|e| e.to_string()))) }
                    w.check().map_err(|e| format!("after start call {n}: {e}"))?;
                }
            }
            l.add(if i.is_some() { "instances" } else { "failures" }, 1);
            l.states.insert(w.state_hash());
            let np = (es.len() * 2 + ds.len() * 2 + 3) as u128;
            // every case of the probe, first through the shared table (whether or not instantiation worked)
            for slot in 0..4u128 {
                for q in 0..np {
                    l.transitions += 1;
                    let o = w.call(&fx.call, &[slot, q]).map_err(|e| format!("round {round}, slot {slot} probe {q}: {e}"))?;
                    if matches!(o, Out::Trap(Trap::UninitElem)) { break }
                }
                w.check().map_err(|e| format!("round {round}, after probing slot {slot}: {e}"))?;
            }
            if let Some(i) = i { for q in 0..np { l.transitions += 1; w.call_name(i, "probe", &[q]).map_err(|e| format!("round {round}, probe {q}: {e}"))?; } }
            w.check().map_err(|e| format!("round {round}, after probing: {e}"))?;
            l.states.insert(w.state_hash());
        }
        Ok::<(), String>(())
    })();
    l.sample(|| name.clone());
    if let Err(e) = r { c.violation(name.clone(), e, format!("{name}\n{}", hex(&d.bytes))); std::mem::forget(fx) }
}
fn seqs<T: Copy>(v: &[T], n: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n { last = last.iter().flat_map(|s| v.iter().map(move |x| { let mut s = s.clone(); s.push(*x); s })).collect(); all.extend(last.clone()) }
    all
}
pub fn run(c: &Check) {
    let full = !c.quick();
    let (e1, d1) = (elems(true), datas(true));
    let (er, dr) = (elems(full), datas(full));
    // small alphabets for the longer sequences
    let e3 = [Es::Passive(2), Es::Declared, Es::Shared(Off::Fit, 2), Es::Shared(Off::Over, 2), Es::Local(Off::End, 2)];
    let d3 = [Ds::Passive(3), Ds::Shared(Off::Fit, 3), Ds::Shared(Off::Over, 3), Ds::Local(Off::End, 3)];
    let (e2s, d2s) = (seqs(&er, 2), seqs(&dr, 1));
    let (e1s, d2l) = (seqs(&e1, 1), seqs(&d1, 2));
    let (e3s, d3s) = (seqs(&e3, c.pick(3, 4)), seqs(&d3, c.pick(2, 3)));
    let few = [St::None, St::Ok, St::Trap, St::Indirect];
    let mut jobs: Vec<(bool, Vec<Es>, &[Vec<Ds>], &[St], Mode)> = vec![];
    for is64 in [false, true] {
        for e in &e2s { jobs.push((is64, e.clone(), &d2s, if full { &STARTS } else { &few }, Mode::Start)) }
        for e in &e1s { jobs.push((is64, e.clone(), &d2l, if full { &STARTS } else { &few }, Mode::Start)) }
    }
    for e in &e3s { jobs.push((false, e.clone(), &d3s, if full { &STARTS } else { &STARTS[..3] }, Mode::Start)) }
    let (e1q, d1q) = (seqs(&e1, 1), seqs(&d1, 1));
    for is64 in [false, true] { for mode in [Mode::Start, Mode::Split, Mode::Twice] { for e in &e1q { jobs.push((is64, e.clone(), &d1q, &STARTS, mode)) } } }
    c.bound(format!("element segment sequences: {} of at most 2 × {} data sequences of at most 1; {} of at most 1 × {} of at most 2; {} of at most {} × {} of at most {} from small alphabets; start functions: {}; 32- and 64-bit memories and tables; single segments also instantiated twice and with a separate start", e2s.len(), d2s.len(), e1s.len(), d2l.len(), e3s.len(), c.pick(3, 4), d3s.len(), c.pick(2, 3), if full { 8 } else { 4 }));
    let ps: [Module; 2] = [exporter(false), exporter(true)];
    c.par(jobs.len(), |j, l| {
        let (is64, e, dv, sv, mode) = &jobs[j];
        let p = Def::new(&ps[*is64 as usize], Opts::ON).expect("exporter");
        for d in dv.iter() { for s in sv.iter() { if c.stopped() { return } one(l, c, &p, *is64, e, d, *s, *mode) } }
    });
    c.assume("a memory that cannot be allocated is the subject of P16 and P17");
}
