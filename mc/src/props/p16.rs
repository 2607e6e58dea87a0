//! P16: allocation failure. Every history of actions that create or grow memories, tables and stacks or write to
//! sparse memories is run with every single storage request refused in turn (and with every request from it on);
//! each action must either behave as if nothing happened or fail as specified without any effect.
use crate::fault;
use crate::num::Trap;
use crate::oracle::{RMem, RTable};
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use tinywasm::engine::{Config, MemoryBackend, StackConfig};
use tinywasm::types::{TableType, WasmType};
use tinywasm::{Error, LazyLinearMemory, LinearMemory, Memory, ModuleInstance, Table, VecMemory};
use VT::{Ext, I32, I64, V128};
const FUNC: VT = VT::Func;

/// A user backend whose failures are not traps.
struct Own(Vec<u8>);
impl LinearMemory for Own {
    fn len(&self) -> usize { self.0.len() }
    fn grow_to(&mut self, n: usize) -> Result<(), tinywasm::Trap> { self.0.try_reserve_exact(n - self.0.len()).map_err(|_| tinywasm::Trap::Other("no storage"))?; self.0.resize(n, 0); Ok(()) }
    fn read(&self, a: usize, d: &mut [u8]) -> usize { let n = d.len().min(self.0.len().saturating_sub(a)); if n > 0 { d[..n].copy_from_slice(&self.0[a..a + n]) } n }
    fn write(&mut self, a: usize, s: &[u8]) -> usize { let n = s.len().min(self.0.len().saturating_sub(a)); if n > 0 { self.0[a..a + n].copy_from_slice(&s[..n]) } n }
}
fn own(ty: tinywasm::types::MemoryType) -> tinywasm::Result<Own> { let n = ty.initial_size() as usize; let mut v = vec![]; v.try_reserve_exact(n).map_err(|_| Error::Other("no storage".into()))?; v.resize(n, 0); Ok(Own(v)) }

type Be = (&'static str, fn() -> MemoryBackend);
const BACKENDS: [Be; 9] = [
    ("vec", MemoryBackend::vec), ("paged(4096)", || MemoryBackend::paged(4096)), ("paged(1)", || MemoryBackend::paged(1)), ("paged(8192)", || MemoryBackend::paged(8192)),
    ("lazy vec", || MemoryBackend::custom(|t| LazyLinearMemory::try_new(t, MemoryBackend::vec()))),
    ("lazy paged(4096)", || MemoryBackend::custom(|t| LazyLinearMemory::try_new(t, MemoryBackend::paged(4096)))),
    ("user", || MemoryBackend::custom(own)),
    ("lazy user", || MemoryBackend::custom(|t| LazyLinearMemory::try_new(t, MemoryBackend::custom(own)))),
    ("user vec", || MemoryBackend::custom(|t| VecMemory::try_new(t.initial_size() as usize).map_err(Error::Trap))),
];
/// One byte per page, the sizes are multiples of this.
const P: u64 = 4096;

fn module() -> Module {
    let mut m = Module::default();
    m.mem(Limits { min: 3 * P, max: Some(8 * P), is64: false, page_log2: Some(0) });
    m.mem(Limits { min: 2 * P, max: None, is64: true, page_log2: Some(0) });
    m.table(FUNC, Limits::new(600, None));
    m.table(Ext, Limits::new(0, Some(2000)));
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![0xd7; 40] });
    let f = |m: &mut Module, name: &str, ps: &[VT], rs: &[VT], ls: &[VT], b: Vec<Op>| { let f = m.func(ps, rs, ls, b); m.export(name, EK::Func, f); f };
    f(&mut m, "grow0", &[I32], &[I32], &[], vec![Op::LGet(0), Op::MemGrow(0)]);
    f(&mut m, "grow1", &[I64], &[I64], &[], vec![Op::LGet(0), Op::MemGrow(1)]);
    f(&mut m, "size", &[], &[I32, I64, I32, I32], &[], vec![Op::MemSize(0), Op::MemSize(1), Op::TableSize(0), Op::TableSize(1)]);
    f(&mut m, "tgrow0", &[I32], &[I32], &[], vec![Op::RefNull(FUNC), Op::LGet(0), Op::TableGrow(0)]);
    f(&mut m, "tgrow1", &[I32], &[I32], &[], vec![Op::RefNull(Ext), Op::LGet(0), Op::TableGrow(1)]);
    let ma = |mem| MA { align: 0, offset: 0, mem };
    f(&mut m, "store8", &[I32, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::Mem { op: 0x3a, m: ma(0) }]);
    f(&mut m, "store64", &[I32, I64], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::Mem { op: 0x37, m: ma(0) }]);
    f(&mut m, "storev", &[I64, V128], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::VMem { sub: 11, m: ma(1), lane: 0 }]);
    f(&mut m, "load", &[I32], &[I64], &[], vec![Op::LGet(0), Op::Mem { op: 0x29, m: ma(0) }]);
    f(&mut m, "fill", &[I32, I32, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemFill(0)]);
    f(&mut m, "copy", &[I32, I32, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemCopy { dst: 0, src: 0 }]);
    f(&mut m, "copy10", &[I64, I32, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemCopy { dst: 1, src: 0 }]);
    f(&mut m, "init", &[I32, I32, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemInit { data: 0, mem: 0 }]);
    let me = m.n_imp(EK::Func) + m.funcs.len() as u32;
    // recursion that needs every stack
    f(&mut m, "rec", &[I32, I64, V128], &[I64], &[I32, I64, V128, I32, I32], vec![
        Op::LGet(0), num("i32.eqz"), Op::If(BT::Val(I64)), Op::LGet(1), Op::Else,
        Op::LGet(0), Op::I32C(1), num("i32.sub"), Op::LGet(1), Op::I64C(1), num("i64.add"), Op::LGet(2), Op::Call(me), Op::End]);
    export_all(&mut m);
    m
}
/// A second module: its own memory, table and data; imports the first module's memory, into which it writes.
fn second() -> Module {
    let mut m = Module::default();
    m.imports.push(Import { module: "a".into(), name: "m0".into(), kind: ImportKind::Mem(Limits { min: P, max: Some(8 * P), is64: false, page_log2: Some(0) }) });
    m.mem(Limits { min: 2 * P, max: Some(3 * P), is64: false, page_log2: Some(0) });
    m.table(Ext, Limits::new(700, None));
    m.global(I32, true, Op::I32C(5));
    m.datas.push(Data { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(4090)] }, bytes: vec![0xe5; 12] });
    m.func(&[], &[I32], &[], vec![Op::I32C(8000), Op::Mem { op: 0x28, m: MA { align: 0, offset: 0, mem: 1 } }]);
    export_all(&mut m);
    m
}
/// A third: exported but untouched memory, which is allocated late.
fn third() -> Module {
    let mut m = Module::default();
    m.mem(Limits { min: 2 * P, max: Some(3 * P), is64: false, page_log2: Some(0) });
    export_all(&mut m);
    m
}

#[derive(Clone, Debug)]
enum A { Call(&'static str, Vec<u128>), Inst(usize), HMem(u64), HTable(u64), HGrow(usize, i64), HTGrow(usize, i32), HWrite(usize, usize, usize), HShort(usize, usize, usize), HFill(usize, usize, usize, u8), HCopy(usize, usize, usize, usize) }
fn acts() -> Vec<A> {
    use A::*;
    vec![
        Call("grow0", vec![4096]), Call("grow0", vec![5 * 4096]), Call("grow1", vec![4 * 4096]), Call("tgrow0", vec![1]), Call("tgrow1", vec![1500]),
        Call("store8", vec![5000, 0xaa]), Call("store64", vec![4092, 0x1122334455667788]), Call("storev", vec![4088, 0x0102030405060708090a0b0c0d0e0f10]),
        Call("fill", vec![4000, 7, 6000]), Call("fill", vec![100, 0, 9000]), Call("copy", vec![4000, 0, 5000]), Call("copy", vec![10, 4090, 5000]), Call("copy10", vec![0, 4000, 8000]), Call("init", vec![4080, 0, 40]), Call("load", vec![4092]),
        Call("rec", vec![700, 3, 9]), Call("rec", vec![40, 3, 9]),
        Inst(0), Inst(1), HMem(2), HTable(900), HGrow(0, 4096), HTGrow(0, 900), HWrite(0, 4090, 5000), HShort(0, 8190, 10), HFill(0, 4000, 5000, 9), HCopy(0, 0, 4090, 20), HGrow(2, 4096), HWrite(2, 4000, 300),
    ]
}
struct W { w: World, extra: [Def; 2], oom_traps: bool }

/// One action. Ok(true) when storage was refused and the action failed.
fn step(x: &mut W, a: &A) -> Result<bool, String> {
    let before = fault::refused();
    let no_storage = || fault::refused() > before;
    let w = &mut x.w;
    let msg = |e: Error| e.to_string().chars().take(120).collect::<String>();
    // outcome of a host operation that either succeeds or fails without effect
    macro_rules! host { ($real:expr, $apply:block) => {{
        let r = guard(|| fault::during(|| $real)).map_err(|p| format!("panic: {p}"))?;
        match r { Ok(v) => { let _ = &v; ($apply)(v)?; false } Err(e) => { if !no_storage() { return Err(format!("failed although storage was available: {}", msg(e.into()))) } true } }
    }} }
    let failed = match a {
        A::Call(name, args) => {
            let Item::Func(ra, h) = w.item(0, name) else { unreachable!() };
            let ty = w.rs.funcs[ra].ty.clone();
            let av = args_wv(&ty.params, args);
            let store = &mut w.store;
            let got = guard(|| fault::during(|| h.call(store, &av))).map_err(|p| format!("panic: {p}"))?;
            let got = vals_out(Some(&ty.results), got);
            let fail = no_storage() && match (*name, &got) {
                ("grow0", Out::Vals(v)) => !x.oom_traps && *v == [0xffff_ffff],
                ("grow1", Out::Vals(v)) => !x.oom_traps && *v == [u64::MAX as u128],
                ("tgrow0" | "tgrow1", Out::Vals(v)) => *v == [0xffff_ffff],
                ("grow0" | "grow1", Out::Trap(Trap::Oom | Trap::Other(_))) => x.oom_traps,
                ("rec", Out::Trap(Trap::CallStack | Trap::ValueStack | Trap::Oom)) => true,
                ("tgrow0" | "tgrow1" | "grow0" | "grow1" | "rec" | "load", _) => false,
                (_, Out::Trap(Trap::Oom | Trap::MemOob | Trap::Other(_))) => true,
                _ => false,
            };
            if !fail {
                let want = match w.rs.invoke(ra, args) { Ok(v) => Out::Vals(v), Err(t) => Out::Trap(t) };
                if got != want { return Err(format!("got {got:x?}, expected {want:x?} ({} storage requests refused)", fault::refused() - before)); }
            }
            fail
        }
        A::Inst(k) => {
            let items = if *k == 0 { vec![Some(w.item(0, "m0"))] } else { vec![] };
            let d = x.extra[*k].clone();
            let imps = World::imports(&d, &items);
            let store = &mut w.store;
            host!(ModuleInstance::instantiate(store, &d.tm, Some(imps)), { |inst| {
                let exts: Vec<_> = items.iter().map(|i| i.as_ref().map(|i| i.ext())).collect();
                let ri = w.rs.instantiate_opt(&d.rm, &exts, true).map_err(|e| format!("instantiated, expected {e:?}"))?;
                w.insts.push((ri, inst));
                w.track(w.insts.len() - 1);
                Ok::<_, String>(())
            } })
        }
        A::HMem(n) => { let l = Limits { min: *n * P, max: None, is64: false, page_log2: Some(0) }; let t = mem_ty(&l); let store = &mut w.store; host!(Memory::new(store, t), { |h| { w.rs.mems.push(RMem::new(l)); w.mems.push((w.rs.mems.len() - 1, h)); Ok::<_, String>(()) } }) }
        A::HTable(n) => { let t = TableType::new(WasmType::RefExtern, *n, None); let store = &mut w.store; let init = to_wv(Ext, 4); host!(Table::new(store, t, init), { |h| { w.rs.tables.push(RTable { ty: Ext, lim: Limits::new(*n, None), elems: vec![4; *n as usize] }); w.tables.push((w.rs.tables.len() - 1, h)); Ok::<_, String>(()) } }) }
        A::HGrow(i, d) => {
            let Some((ra, h)) = w.mems.get(*i).copied() else { return Ok(false) };
            let store = &mut w.store;
            let r = guard(|| fault::during(|| h.grow(store, *d))).map_err(|p| format!("panic: {p}"))?;
            match r {
                Ok(None) if no_storage() => true,
                Ok(v) => { let want = w.rs.mems[ra].grow(*d as u64).map(|v| v as i64); if v != want { return Err(format!("grow gave {v:?}, expected {want:?}")) } false }
                Err(e) if no_storage() => { let _ = e; true }
                Err(e) => return Err(format!("grow failed although storage was available: {}", msg(e))),
            }
        }
        A::HTGrow(i, d) => { let (ra, h) = w.tables[*i]; let store = &mut w.store; let ty = w.rs.tables[ra].ty; host!(h.grow(store, *d, to_wv(ty, crate::oracle::NULL)), { |v: usize| { let t = &mut w.rs.tables[ra]; if v != t.elems.len() { return Err(format!("grow gave {v}")) } t.elems.resize(v + *d as usize, crate::oracle::NULL); Ok::<_, String>(()) } }) }
        A::HWrite(i, p, n) => { let Some((ra, h)) = w.mems.get(*i).copied() else { return Ok(false) }; let d = vec![0x5a; *n]; let store = &mut w.store; host!(h.copy_from_slice(store, *p, &d), { |()| { w.rs.mems[ra].data[*p..p + n].copy_from_slice(&d); Ok::<_, String>(()) } }) }
        A::HShort(i, p, n) => {
            let (ra, h) = w.mems[*i];
            let d = vec![0x6b; *n];
            let store = &mut w.store;
            let k = guard(|| fault::during(|| h.write(store, *p, &d))).map_err(|p| format!("panic: {p}"))?.map_err(msg)?;
            if k > *n || k == 0 && !no_storage() { return Err(format!("write of {n} bytes wrote {k}")); }
            w.rs.mems[ra].data[*p..p + k].copy_from_slice(&d[..k]);
            k == 0
        }
        A::HFill(i, p, n, v) => { let (ra, h) = w.mems[*i]; let store = &mut w.store; host!(h.fill(store, *p, *n, *v), { |()| { w.rs.mems[ra].data[*p..p + n].fill(*v); Ok::<_, String>(()) } }) }
        A::HCopy(i, s, d, n) => { let (ra, h) = w.mems[*i]; let store = &mut w.store; host!(h.copy_within(store, *s, *d, *n), { |()| { w.rs.mems[ra].data.copy_within(*s..s + n, *d); Ok::<_, String>(()) } }) }
    };
    w.check().map_err(|e| if failed { format!("the failed operation had an effect: {e}") } else { e })?;
    Ok(failed)
}
fn dynamic(i: usize) -> StackConfig { StackConfig::dynamic(i, 100_000) }

pub fn run(c: &Check) {
    fault::install();
    let al = acts();
    // every history of depth 2 for all configurations; deeper ones over the actions that request storage
    let few: Vec<usize> = (0..al.len()).filter(|i| matches!(&al[*i], A::Call("grow0" | "store64" | "fill" | "copy" | "copy10" | "rec" | "tgrow0", _) | A::Inst(_) | A::HWrite(..))).collect();
    let fewer: Vec<usize> = few.iter().copied().filter(|i| !matches!(&al[*i], A::Inst(1) | A::Call("copy" | "tgrow0", _) | A::HWrite(2, ..)) && !matches!(&al[*i], A::Call("rec", v) if v[0] == 40)).collect();
    let all: Vec<usize> = (0..al.len()).collect();
    for (set, depth) in c.pick([(&all, 2), (&fewer, 3)], [(&all, 3), (&few, 4)]) {
        let jobs: Vec<(usize, usize, bool, bool)> = (0..BACKENDS.len()).flat_map(|b| set.iter().flat_map(move |f| [(b, *f, false, false), (b, *f, true, false), (b, *f, false, true)])).collect();
        c.par(jobs.len(), |j, l| {
            let (b, first, oom_traps, rest) = jobs[j];
            let o = Opts { memopt: true, ..if b % 2 == 0 { Opts::ON } else { Opts::OFF } };
            let defs = [module(), second(), third()].map(|m| Def::new(&m, o));
            let defs = match defs { [Ok(a), Ok(b), Ok(c)] => [a, b, c], _ => { c.violation("parse", "a valid module is not accepted", ""); return } };
            let fresh = || -> Result<W, String> {
                let cfg = Config::new().with_memory_backend(BACKENDS[b].1()).with_trap_on_oom(oom_traps).with_value_stack(dynamic(16)).with_call_stack(dynamic(4));
                let mut w = World::new(cfg);
                w.instantiate(&defs[0], &[], true)?.ok_or("instantiation")?;
                Ok(W { w, extra: [defs[1].clone(), defs[2].clone()], oom_traps })
            };
            let mut idx = vec![0usize; depth];
            loop {
                if c.stopped() { return }
                let seq: Vec<usize> = std::iter::once(first).chain(idx[1..].iter().map(|i| set[*i])).collect();
                let text = || format!("{}, trap on OOM {oom_traps}: {:?}", BACKENDS[b].0, seq.iter().map(|a| &al[*a]).collect::<Vec<_>>());
                // k = 0 refuses nothing and counts the requests
                let mut k = 0;
                let mut n = 0;
                while k == 0 || k <= n {
                    let mut x = match fresh() { Ok(x) => x, Err(e) => { c.violation("setup", e, ""); return } };
                    fault::arm(k, rest);
                    crate::batch::watch(text);
                    let mut log = vec![];
                    let mut r = Ok(());
                    for a in &seq {
                        match guard(|| step(&mut x, &al[*a])) { Ok(Ok(f)) => log.push(f), Ok(Err(e)) => { r = Err(e); break } Err(p) => { r = Err(format!("panic: {p}")); break } }
                        l.transitions += 1;
                        l.states.insert(hash(&(b, oom_traps, k == 0 || !f_any(&log), x.w.state_hash())));
                    }
                    // with storage back, the store works as before
                    if r.is_ok() && k > 0 {
                        fault::arm(0, false);
                        for a in [A::Call("size", vec![]), A::Call("store64", vec![4093, 0xa1a2a3a4]), A::Call("rec", vec![700, 3, 9]), A::Inst(1), A::Call("load", vec![4092])] { if let Err(e) = guard(|| step(&mut x, &a)).unwrap_or_else(|p| Err(format!("panic: {p}"))) { r = Err(format!("afterwards, {a:?}: {e}")); break } }
                    }
                    crate::batch::end_watch();
                    l.traces += 1;
                    if k == 0 { n = fault::seen(); l.add("storage_requests", n) } else if rest { l.add("persistent_faults", 1) } else { l.add("single_faults", 1) }
                    if let Err(e) = r {
                        let t = format!("{}; request {k} refused{}", text(), if rest { " and all later ones" } else { "" });
                        c.violation(t.clone(), format!("{e}\n{t}; outcomes so far (failed?) {log:?}"), t);
                        std::mem::forget(x);
                    }
                    k += 1;
                }
                l.sample(|| format!("{}: {n} requests", text()));
                let mut p = depth;
                while p > 1 { p -= 1; idx[p] += 1; if idx[p] < set.len() { break } idx[p] = 0; if p == 1 { p = 0 } }
                if p == 0 || depth == 1 { break }
            }
        });
        c.bound(format!("every history of {depth} of {} actions on {} backends, with trap-on-failure off and on, every storage request refused in turn, alone or with all later ones", set.len(), BACKENDS.len()));
    }
    c.assume("storage means requests of at least 4096 bytes; the scenarios are sized so that memory contents, chunks, chunk tables, tables and stacks are above it and bookkeeping below");
}
fn f_any(l: &[bool]) -> bool { l.iter().any(|x| *x) }
