//! P17: skipping or deferring the allocation of a declared memory is unobservable.
//! (a) every instruction that touches a memory, plain and in every fused form, as the only use of one of up to three
//!     memories, in every place code can be reached from;
//! (b) every history of guest and host operations on a memory that its own module only exports, and on the modules
//!     that import it, on several backends.
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use std::io::{Read, Seek, SeekFrom, Write};
use tinywasm::LazyLinearMemory;
use tinywasm::engine::{Config, MemoryBackend};
use VT::{F32, F64, I32, I64, V128};

const OPTS: [Opts; 4] = [
    Opts { memopt: true, rewrite: true, validate: true, threads: 1 }, Opts { memopt: true, rewrite: false, validate: true, threads: 1 },
    Opts { memopt: false, rewrite: true, validate: true, threads: 1 }, Opts { memopt: true, rewrite: true, validate: true, threads: 2 },
];

/// A function body that takes an address and touches memory: (name, extra locals, body, results)
type Body = (String, Vec<VT>, Vec<Op>, Vec<VT>);
fn zero(t: VT) -> Op { match t { I32 => Op::I32C(0), I64 => Op::I64C(0), F32 => Op::F32C(0), F64 => Op::F64C(0), V128 => Op::VConst(0), t => Op::RefNull(t) } }
/// Every body whose only use of memory is an access to `mem` (and for copies, `other`).
fn bodies(mem: u32, is64: &[bool], datas: bool) -> Vec<Body> {
    let a = if is64[mem as usize] { I64 } else { I32 };
    let ma = MA { align: 0, offset: 2, mem };
    let mut v: Vec<Body> = vec![];
    // the address is local 0
    for op in 0x28u8..=0x3e {
        let (t, _, st) = mem_sig(op);
        let o = Op::Mem { op, m: ma };
        if !st {
            v.push((format!("{op:x} plain"), vec![], vec![Op::LGet(0), Op::Nop, o.clone()], vec![t]));
            v.push((format!("{op:x} const"), vec![], vec![zero(a), o.clone()], vec![t]));
            v.push((format!("{op:x} drop"), vec![], vec![Op::LGet(0), o.clone(), Op::Drop], vec![]));
            v.push((format!("{op:x} set"), vec![t], vec![Op::LGet(0), o.clone(), Op::LSet(1), Op::LGet(1)], vec![t]));
            v.push((format!("{op:x} set only"), vec![t], vec![Op::LGet(0), o.clone(), Op::LSet(1)], vec![]));
            v.push((format!("{op:x} tee"), vec![t], vec![Op::LGet(0), o.clone(), Op::LTee(1)], vec![t]));
            v.push((format!("{op:x} tee drop"), vec![t], vec![Op::LGet(0), o.clone(), Op::LTee(1), Op::Drop], vec![]));
            if t == I32 { v.push((format!("{op:x} branch"), vec![], vec![Op::LGet(0), o.clone(), Op::If(BT::Val(I32)), Op::I32C(7), Op::Else, Op::I32C(9), Op::End], vec![I32])) }
        } else {
            v.push((format!("{op:x} plain"), vec![], vec![Op::LGet(0), zero(t), o.clone()], vec![]));
            v.push((format!("{op:x} locals"), vec![t], vec![Op::LGet(0), Op::LGet(1), o.clone()], vec![]));
            match op {
                0x36 => v.push(("inc32".into(), vec![], vec![Op::LGet(0), Op::LGet(0), Op::Mem { op: 0x28, m: ma }, Op::I32C(1), num("i32.add"), o.clone()], vec![])),
                0x37 => v.push(("inc64".into(), vec![], vec![Op::LGet(0), Op::LGet(0), Op::Mem { op: 0x29, m: ma }, Op::I64C(1), num("i64.add"), o.clone()], vec![])),
                0x38 => for (k, x) in [Op::LGet(1), zero(F32)].into_iter().enumerate() { for (i, y) in [Op::LGet(1), zero(F32)].into_iter().enumerate() { v.push((format!("fma32 {k}{i}"), vec![F32], vec![Op::LGet(0), x.clone(), y.clone(), y, num("f32.mul"), num("f32.add"), o.clone()], vec![])) } },
                0x39 => for (k, x) in [Op::LGet(1), zero(F64)].into_iter().enumerate() { for (i, y) in [Op::LGet(1), zero(F64)].into_iter().enumerate() { v.push((format!("fma64 {k}{i}"), vec![F64], vec![Op::LGet(0), x.clone(), y.clone(), y, num("f64.mul"), num("f64.add"), o.clone()], vec![])) } },
                _ => {}
            }
        }
    }
    for sub in (0..=11).chain(84..=93) {
        let o = Op::VMem { sub, m: ma, lane: 0 };
        match sub {
            11 => { v.push(("v store".into(), vec![], vec![Op::LGet(0), Op::VConst(5), o.clone()], vec![])); v.push(("v store locals".into(), vec![V128], vec![Op::LGet(0), Op::LGet(1), o], vec![])) }
            84..=87 => v.push((format!("v{sub}"), vec![V128], vec![Op::LGet(0), Op::LGet(1), o], vec![V128])),
            88..=91 => v.push((format!("v{sub}"), vec![V128], vec![Op::LGet(0), Op::LGet(1), o], vec![])),
            _ => {
                v.push((format!("v{sub}"), vec![], vec![Op::LGet(0), o.clone()], vec![V128]));
                v.push((format!("v{sub} set"), vec![V128], vec![Op::LGet(0), o.clone(), Op::LSet(1)], vec![]));
                v.push((format!("v{sub} tee"), vec![V128], vec![Op::LGet(0), o, Op::LTee(1)], vec![V128]));
            }
        }
    }
    v.push(("size".into(), vec![], vec![Op::MemSize(mem)], vec![a]));
    v.push(("grow".into(), vec![], vec![zero(a), Op::MemGrow(mem)], vec![a]));
    v.push(("grow 1".into(), vec![], vec![if a == I64 { Op::I64C(1) } else { Op::I32C(1) }, Op::MemGrow(mem)], vec![a]));
    v.push(("fill".into(), vec![a], vec![Op::LGet(0), Op::I32C(3), Op::LGet(1), Op::MemFill(mem)], vec![]));
    v.push(("fill imm".into(), vec![], vec![Op::LGet(0), Op::I32C(3), if a == I64 { Op::I64C(2) } else { Op::I32C(2) }, Op::MemFill(mem)], vec![]));
    if datas { v.push(("init".into(), vec![], vec![Op::LGet(0), Op::I32C(0), Op::I32C(2), Op::MemInit { data: 0, mem }], vec![])); v.push(("init none".into(), vec![], vec![Op::LGet(0), Op::I32C(0), Op::I32C(0), Op::MemInit { data: 0, mem }], vec![])) }
    for o in 0..is64.len() as u32 {
        let len = if is64[mem as usize] && is64[o as usize] { Op::I64C(3) } else { Op::I32C(3) };
        let oa = if is64[o as usize] { Op::I64C(1) } else { Op::I32C(1) };
        v.push((format!("copy to {mem} from {o}"), vec![], vec![Op::LGet(0), oa.clone(), len.clone(), Op::MemCopy { dst: mem, src: o }], vec![]));
        if o != mem { v.push((format!("copy from {mem} to {o}"), vec![], vec![oa, Op::LGet(0), len, Op::MemCopy { dst: o, src: mem }], vec![])) }
    }
    v.push(("drop data only".into(), vec![], if datas { vec![Op::DataDrop(0)] } else { vec![] }, vec![]));
    v
}
fn lim(is64: bool, min: u64, max: Option<u64>) -> Limits { Limits { min, max, is64, page_log2: Some(0) } }

#[derive(Clone, Debug)]
struct Shape { imported: usize, is64: Vec<bool>, min: u64, seg: Option<(u32, u64, usize)>, exported: Option<u32> }
/// (imported memories, address widths, smallest size, active segment (memory, offset, length), exported memory)
fn shapes(quick: bool) -> Vec<Shape> {
    let mut v = vec![];
    let widths: &[&[bool]] = &[&[false], &[true], &[false, false], &[true, false], &[false, true], &[true, true], &[false, false, true]];
    for w in widths {
        for imported in 0..=w.len() {
            for min in [0, 40] {
                if quick && w.len() == 3 && min == 0 { continue }
                v.push(Shape { imported, is64: w.to_vec(), min, seg: None, exported: None });
                for m in 0..w.len() as u32 {
                    if !quick || min == 40 { v.push(Shape { imported, is64: w.to_vec(), min, seg: None, exported: Some(m) }) }
                    // segments that fit, that are empty at the end, that are empty beyond the end
                    for s in [(m, min, 0), (m, 0, 2), (m, min + 1, 0)] { if !quick || (min == 0 && w.len() < 3) { v.push(Shape { imported, is64: w.to_vec(), min, seg: Some(s), exported: None }) } }
                }
            }
        }
    }
    v
}

/// 0 exported, 1 start function, 2 helper, 3 through a table, 4 an untaken branch, 5 not called at all
const PLACES: usize = 6;
fn build(s: &Shape, b: &Body, mem: u32, place: usize) -> Module {
    let mut m = Module::default();
    for i in 0..s.imported { m.imports.push(Import { module: "h".into(), name: format!("m{i}"), kind: ImportKind::Mem(lim(s.is64[i], s.min, None)) }) }
    for i in s.imported..s.is64.len() { m.mem(lim(s.is64[i], s.min, Some(s.min + 5))); }
    let a = if s.is64[mem as usize] { I64 } else { I32 };
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![0xd1, 0xd2, 0xd3] });
    if let Some((i, o, n)) = s.seg { m.datas.push(Data { mode: SegMode::Active { idx: i, offset: vec![if s.is64[i as usize] { Op::I64C(o as i64) } else { Op::I32C(o as i32) }] }, bytes: vec![0xac; n] }) }
    let f = if place == 4 {
        let body = std::iter::once(Op::I32C(0)).chain([Op::If(BT::Empty)]).chain(b.2.clone()).chain(b.3.iter().map(|_| Op::Drop)).chain([Op::End]).collect();
        m.func(&[a], &[], &b.1, body)
    } else { m.func(&[a], &b.3, &b.1, b.2.clone()) };
    match place {
        0 | 4 => m.export("f", EK::Func, f),
        1 => { let g = m.func(&[], &[], &[], [zero(a), Op::Call(f)].into_iter().chain(b.3.iter().map(|_| Op::Drop)).collect()); m.start = Some(g) }
        2 => { let g = m.func(&[a], &b.3, &[], vec![Op::LGet(0), Op::Call(f)]); m.export("f", EK::Func, g) }
        3 => {
            let t = m.table(VT::Func, Limits::new(1, None));
            m.elems.push(Elem { mode: SegMode::Active { idx: t, offset: vec![Op::I32C(0)] }, ty: VT::Func, items: vec![vec![Op::RefFunc(f)]] });
            let ty = m.ty(&[a], &b.3);
            let g = m.func(&[a], &b.3, &[], vec![Op::LGet(0), Op::I32C(0), Op::CallIndirect { ty, table: t }]);
            m.export("f", EK::Func, g)
        }
        _ => {}
    }
    if let Some(e) = s.exported { m.export(&format!("m{e}"), EK::Mem, e) }
    m
}
fn one(c: &Check, l: &mut Local, s: &Shape, b: &Body, mem: u32, place: usize) {
    let m = build(s, b, mem, place);
    for o in OPTS {
        let text = || format!("{s:?}, {} on memory {mem}, place {place}, options {o:?}", b.0);
        let fail = |e: String| c.violation(text(), format!("{e}\n{}\nmodule {}", text(), hex(&encode(&m))), hex(&encode(&m)));
        let d = match Def::new(&m, o) { Ok(d) => d, Err(e) => { fail(e); continue } };
        crate::batch::watch(text);
        let mut w = World::new(Config::new());
        let r = guard(|| -> Result<(), String> {
            let items: Vec<_> = (0..s.imported).map(|i| w.host_mem(lim(s.is64[i], s.min, Some(s.min + 5))).map(Some)).collect::<Result<_, _>>()?;
            for i in 0..s.imported { let (ra, h) = w.mems[i]; let data: Vec<u8> = (0..s.min).map(|x| x as u8 + 1).collect(); h.copy_from_slice(&mut w.store, 0, &data).map_err(|e| e.to_string())?; w.rs.mems[ra].data.copy_from_slice(&data); }
            l.traces += 1;
            if let Some(i) = w.instantiate(&d, &items, true)? {
                w.check()?;
                if place != 1 && place != 5 {
                    for a in [0u64, s.min.saturating_sub(3), s.min + 1, u32::MAX as u64, 0] { w.call_name(i, "f", &[a as u128])?; w.check()?; l.transitions += 1; }
                }
            } else { w.check()?; }
            l.states.insert(hash(&(w.state_hash(), mem, s.imported, s.is64.len())));
            Ok(())
        });
        crate::batch::end_watch();
        if let Err(e) = r.unwrap_or_else(|p| Err(format!("panic: {p}"))) { fail(e); std::mem::forget(w) }
    }
    l.sample(|| format!("{s:?} {} place {place}", b.0));
}

// ------------------------------------------------------------------------------------------- histories
/// The exporter: two memories of which code uses neither.
fn exporter(lims: [Limits; 2]) -> Module {
    let mut m = Module::default();
    m.mem(lims[0]);
    m.mem(lims[1]);
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![1, 2, 3] });
    m.export("m0", EK::Mem, 0);
    m.export("again", EK::Mem, 0);
    m.func(&[], &[I32], &[], vec![Op::I32C(3)]);
    m.export("f", EK::Func, 0);
    m
}
/// A user of the exported memory as memory 0 with a memory of its own; `seg` writes at instantiation.
fn user(l: Limits, seg: Option<(i64, usize)>) -> Module {
    let mut m = Module::default();
    m.imports.push(Import { module: "a".into(), name: "m0".into(), kind: ImportKind::Mem(Limits { min: 0, ..l }) });
    m.mem(Limits { min: 40, max: None, is64: false, page_log2: Some(0) });
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![0xd1, 0xd2, 0xd3, 0xd4] });
    let k = |v: i64| if l.is64 { Op::I64C(v) } else { Op::I32C(v as i32) };
    if let Some((o, n)) = seg { m.datas.push(Data { mode: SegMode::Active { idx: 0, offset: vec![k(o)] }, bytes: vec![0xac; n] }) }
    m.datas.push(Data { mode: SegMode::Active { idx: 1, offset: vec![Op::I32C(3)] }, bytes: vec![0x77; 9] });
    let a = if l.is64 { I64 } else { I32 };
    let ma = MA { align: 0, offset: 0, mem: 0 };
    let mut f = |name: &str, ps: &[VT], rs: &[VT], b: Vec<Op>| { let f = m.func(ps, rs, &[], b); m.export(name, EK::Func, f) };
    f("size", &[], &[a], vec![Op::MemSize(0)]);
    f("grow", &[a], &[a], vec![Op::LGet(0), Op::MemGrow(0)]);
    f("load", &[a], &[I64], vec![Op::LGet(0), Op::Mem { op: 0x29, m: ma }]);
    f("load8", &[a], &[I32], vec![Op::LGet(0), Op::Mem { op: 0x2d, m: ma }]);
    f("vload", &[a], &[V128], vec![Op::LGet(0), Op::VMem { sub: 0, m: ma, lane: 0 }]);
    f("store", &[a, I64], &[], vec![Op::LGet(0), Op::LGet(1), Op::Mem { op: 0x37, m: ma }]);
    f("store8", &[a, I32], &[], vec![Op::LGet(0), Op::LGet(1), Op::Mem { op: 0x3a, m: ma }]);
    f("vstore", &[a, V128], &[], vec![Op::LGet(0), Op::LGet(1), Op::VMem { sub: 11, m: ma, lane: 0 }]);
    f("inc", &[a], &[], vec![Op::LGet(0), Op::LGet(0), Op::Mem { op: 0x28, m: ma }, Op::I32C(1), num("i32.add"), Op::Mem { op: 0x36, m: ma }]);
    f("fill", &[a, I32, a], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemFill(0)]);
    f("copy", &[a, a, a], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemCopy { dst: 0, src: 0 }]);
    f("out", &[I32, a, I32], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemCopy { dst: 1, src: 0 }]);
    f("in", &[a, I32, I32], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemCopy { dst: 0, src: 1 }]);
    f("init", &[a, I32, I32], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemInit { data: 0, mem: 0 }]);
    m.export("m0", EK::Mem, 0);
    m.export("m1", EK::Mem, 1);
    m
}
#[derive(Clone, Debug)]
enum A { Call(&'static str, Vec<u128>), User(usize), Own, Read(usize, usize), Write(usize, usize), Fill(usize, usize, u8), Copy(usize, usize, usize), Grow(i64), Io(u64, usize) }
fn acts(n: u64) -> Vec<A> {
    use A::*;
    let n = n as u128;
    let u = n as usize;
    vec![
        Call("size", vec![]), Call("grow", vec![0]), Call("grow", vec![3]), Call("grow", vec![1000]), Call("load", vec![n.saturating_sub(8)]), Call("load", vec![n.saturating_sub(7)]), Call("load8", vec![n]), Call("vload", vec![n.saturating_sub(16)]),
        Call("store", vec![n.saturating_sub(8), 0x0807060504030201]), Call("store", vec![n.saturating_sub(4), 0x0807060504030201]), Call("store8", vec![n, 0x66]), Call("vstore", vec![0, 0x0f0e0d0c0b0a]), Call("inc", vec![1]),
        Call("fill", vec![0, 0x11, n]), Call("fill", vec![n, 0x11, 0]), Call("fill", vec![2, 0, 3]), Call("fill", vec![1, 5, n]),
        Call("copy", vec![3, 0, 5]), Call("copy", vec![n, n, 0]), Call("copy", vec![0, 1, n]), Call("out", vec![1, 0, 9]), Call("out", vec![0, n, 1]), Call("in", vec![1, 2, 9]), Call("in", vec![n, 0, 0]), Call("init", vec![2, 0, 4]), Call("init", vec![n, 0, 1]),
        User(0), User(1), User(2), User(3), Own, Read(0, u), Read(1, u), Write(1, 4), Write(u, 0), Write(u, 1), Fill(0, u, 0x21), Fill(1, u, 1), Copy(0, 2, 4), Copy(1, 0, u), Grow(2), Grow(-1), Grow(1 << 40), Io(1, 5), Io(u as u64, 2),
    ]
}
type Be = (&'static str, fn() -> MemoryBackend);
const BACKENDS: [Be; 4] = [("vec", MemoryBackend::vec), ("paged(16)", || MemoryBackend::paged(16)), ("lazy paged(8)", || MemoryBackend::custom(|t| LazyLinearMemory::try_new(t, MemoryBackend::paged(8)))), ("short", || MemoryBackend::custom(|t| Ok(crate::backends::Short::<3>(vec![0; t.initial_size() as usize]))))];

struct S { w: World, defs: Vec<Def>, own: Def, user: usize }
fn step(x: &mut S, a: &A) -> Result<u64, String> {
    let w = &mut x.w;
    let (ra, h) = w.mems[0];
    let ok = |got: bool, want: bool, what: &str| if got == want { Ok(want) } else { Err(format!("{what} {}", if got { "succeeded, expected an error" } else { "failed" })) };
    let inside = |m: &[u8], p: usize, n: usize| p.checked_add(n).is_some_and(|e| e <= m.len());
    match a {
        A::Call(f, v) => { w.call_name(x.user, f, v)?; }
        A::User(k) => { let it = w.item(0, "m0"); let d = x.defs[*k].clone(); if let Some(i) = w.instantiate(&d, &[Some(it)], true)? { x.user = i } }
        A::Own => { let d = x.own.clone(); w.instantiate(&d, &[], true)?; }
        A::Read(p, n) => {
            let mut b = vec![0xee; *n];
            let got = h.read_exact(&w.store, *p, &mut b).is_ok();
            let m = &w.rs.mems[ra].data;
            if ok(got, inside(m, *p, *n), "read")? && b != m[*p..p + n] { return Err(format!("read {b:x?}")) }
        }
        A::Write(p, n) => { let d: Vec<u8> = (0..*n).map(|i| 0x90 + i as u8).collect(); let got = h.copy_from_slice(&mut w.store, *p, &d).is_ok(); let m = &mut w.rs.mems[ra].data; if ok(got, inside(m, *p, *n), "write")? { m[*p..p + n].copy_from_slice(&d) } }
        A::Fill(p, n, v) => { let got = h.fill(&mut w.store, *p, *n, *v).is_ok(); let m = &mut w.rs.mems[ra].data; if ok(got, inside(m, *p, *n), "fill")? { m[*p..p + n].fill(*v) } }
        A::Copy(s, d, n) => { let got = h.copy_within(&mut w.store, *s, *d, *n).is_ok(); let m = &mut w.rs.mems[ra].data; if ok(got, inside(m, *s, *n) && inside(m, *d, *n), "copy")? { m.copy_within(*s..s + n, *d) } }
        A::Grow(d) => { let got = h.grow(&mut w.store, *d).map_err(|e| e.to_string())?; let want = u64::try_from(*d).ok().and_then(|d| w.rs.mems[ra].grow(d)).map(|v| v as i64); if got != want { return Err(format!("grow gave {got:?}, expected {want:?}")) } }
        A::Io(p, n) => {
            let mut cur = h.cursor(&mut w.store).map_err(|e| e.to_string())?;
            cur.seek(SeekFrom::Start(*p)).map_err(|e| e.to_string())?;
            let k = cur.write(&vec![0x44; *n]).unwrap_or(0);
            let m = &mut w.rs.mems[ra].data;
            let most = m.len().saturating_sub(*p as usize).min(*n);
            if k > most || k == 0 && most > 0 { return Err(format!("cursor wrote {k} of {most} bytes")) }
            if k > 0 { m[*p as usize..*p as usize + k].fill(0x44) }
            cur.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
            let mut b = vec![];
            cur.read_to_end(&mut b).map_err(|e| e.to_string())?;
            if b != *m { return Err("cursor read differs".into()) }
        }
    }
    w.check()?;
    Ok(w.state_hash())
}

pub fn run(c: &Check) {
    let sh = shapes(c.quick());
    c.par(sh.len(), |j, l| {
        let s = &sh[j];
        for mem in 0..s.is64.len() as u32 {
            for b in bodies(mem, &s.is64, true) {
                for place in 0..PLACES {
                    if c.stopped() { return }
                    // the places matter once per kind of access
                    if c.quick() && place > 2 && s.is64.len() == 3 { continue }
                    one(c, l, s, &b, mem, place);
                }
            }
        }
    });
    c.bound(format!("{} module shapes (up to three memories, imported or local, 32 and 64 bit, empty or not, exported or not, with and without segments) times every memory access in every fused form in {PLACES} places, 4 parser settings", sh.len()));

    let lims: Vec<[Limits; 2]> = vec![
        [Limits { min: 24, max: Some(40), is64: false, page_log2: Some(0) }, Limits::new(1, None)],
        [Limits { min: 0, max: None, is64: false, page_log2: Some(0) }, Limits::new(0, None)],
        [Limits { min: 24, max: None, is64: true, page_log2: Some(0) }, Limits::new64(1, Some(1))],
        [Limits { min: 24, max: Some(24), is64: false, page_log2: Some(0) }, Limits::new(1, None)],
    ];
    let depth = c.pick(3, 4);
    let n = acts(0).len();
    let few = BACKENDS.len();
    let jobs: Vec<(usize, usize, bool, usize)> = (0..lims.len()).flat_map(|k| (0..BACKENDS.len()).flat_map(move |b| [(k, b, true), (k, b, false)])).filter(|(k, b, on)| *k == 0 || (*on && *b < few)).flat_map(|(k, b, on)| (0..n).map(move |f| (k, b, on, f))).collect();
    c.par(jobs.len(), |j, l| {
        let (k, b, on, first) = jobs[j];
        let lm = lims[k];
        let al = acts(lm[0].min);
        let o = Opts { memopt: on, ..Opts::ON };
        let n = lm[0].min as i64;
        let own = Def::new(&exporter(lm), o);
        let defs: Result<Vec<Def>, String> = [None, Some((0, 5)), Some((n, 0)), Some((n - 1, 2))].iter().map(|s| Def::new(&user(lm[0], *s), o)).collect();
        let (own, defs) = match (own, defs) { (Ok(a), Ok(b)) => (a, b), (a, b) => { c.violation("parse", format!("{:?} {:?}", a.err(), b.err()), ""); return } };
        let fresh = || {
            let mut w = World::new(Config::new().with_memory_backend(BACKENDS[b].1()));
            w.instantiate(&own, &[], true).expect("exporter").expect("exporter");
            let it = w.item(0, "m0");
            let user = w.instantiate(&defs[0], &[Some(it)], true).expect("user").expect("user");
            S { w, defs: defs.clone(), own: own.clone(), user }
        };
        let depth = if c.quick() && (k > 1 || !on) { 2 } else { depth };
        histories(c, l, &format!("{:?} {} memopt {on}", lm[0], BACKENDS[b].0), depth, n_acts(&al), Some(first), &fresh, &|x, i| step(x, &al[i]).map(|h| hash(&(k, h))), &|i| format!("{:?}", al[i]));
    });
    c.bound(format!("every history of depth {depth} (2 for the secondary limits in the quick tier) of {n} guest and host actions on an exported, otherwise unused memory, {} limits, {} backends", lims.len(), BACKENDS.len()));
    c.assume("allocation succeeds: P16 covers failures; skipping an allocation may let a module be instantiated whose memory could not have been allocated");
}
fn n_acts(a: &[A]) -> usize { a.len() }
