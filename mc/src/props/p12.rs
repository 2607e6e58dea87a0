//! P12: fuel. A model of the accounting (check interval, extra cost of a call, and the number of machine
//! instructions between the calls of a program as unknowns) predicts every fuel value a host function reads and
//! every suspension; all observations of all programs must have one consistent explanation within the
//! documented limits.
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::{export_all, histories, Def};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::Mutex;
use std::time::Duration;
use tinywasm::engine::{Config, FuelPolicy};
use tinywasm::types::{FuncType, WasmType as W, WasmValue};
use tinywasm::{Engine, ExecProgress, Function, FuncContext, HostFunction, Imports, ModuleInstance, Store};
use VT::{I32, I64, V128};
const FUNC: VT = VT::Func;

/// An event of one iteration: a number of plain instructions (unknown, up to the bound), or a call observed
/// `obs` times by host functions.
#[derive(Clone, Debug)]
enum Ev { Gap(usize), Call(usize) }
struct Prog { name: &'static str, f: u32, pre: usize, iter: Vec<Ev> }

/// Guest under test: exports everything; imports tick, nest.
fn guest() -> (Module, Module, Vec<Prog>) {
    let mut b = Module::default();
    let bt = b.import_func("h", "tick", &[], &[]);
    b.func(&[], &[], &[I64], vec![Op::Call(bt)]);
    export_all(&mut b);
    let mut m = Module::default();
    let tick = m.import_func("h", "tick", &[], &[]);
    let nest = m.import_func("h", "nest", &[], &[]);
    let bf = m.import_func("b", "f1", &[], &[]);
    m.table(FUNC, Limits::new(4, None));
    m.global(I32, true, Op::I32C(1));
    m.global(V128, true, Op::VConst(1));
    let ty = m.ty(&[], &[]);
    let lp = |b: Vec<Op>| { let mut v = vec![Op::Loop(BT::Empty)]; v.extend(b); v.extend([Op::Br(0), Op::End]); v };
    let mut ps: Vec<Prog> = vec![];
    use Ev::{Call as C, Gap as G};
    let gs = |n: usize| (0..n).flat_map(|i| [Op::GGet(i as u32 % 2), Op::GSet(i as u32 % 2)]).collect::<Vec<_>>();
    let mut add = |m: &mut Module, name, body: Vec<Op>, pre, iter: Vec<Ev>| { let f = m.func(&[], &[], &[], body); ps.push(Prog { name, f, pre, iter }); f };
    let wt = m.func(&[], &[], &[I64, V128], vec![Op::Call(tick)]);
    let wth = m.func(&[], &[], &[I32], vec![Op::ReturnCall(tick)]);
    let wleaf = m.func(&[], &[], &[], vec![]);
    add(&mut m, "loop", lp(vec![Op::Call(tick)]), 1, vec![C(1), G(2)]);
    add(&mut m, "loop of 3", lp([vec![Op::Call(tick)], gs(1)].concat()), 1, vec![C(1), G(4)]);
    add(&mut m, "loop of 9", lp([gs(2), vec![Op::Call(tick)], gs(2)].concat()), 1, vec![G(5), C(1), G(6)]);
    add(&mut m, "loop of 33", lp([vec![Op::Call(tick)], gs(16)].concat()), 1, vec![C(1), G(34)]);
    add(&mut m, "loop of 301", lp([vec![Op::Call(tick)], gs(150)].concat()), 1, vec![C(1), G(302)]);
    add(&mut m, "call", lp(vec![Op::Call(wt)]), 1, vec![C(0), G(1), C(1), G(3)]);
    add(&mut m, "two calls", lp(vec![Op::Call(wleaf), Op::Call(tick), Op::Call(tick)]), 1, vec![C(0), G(2), C(1), G(1), C(1), G(2)]);
    add(&mut m, "tail host", lp(vec![Op::Call(wth)]), 1, vec![C(0), G(1), C(1), G(3)]);
    add(&mut m, "call_indirect host", lp(vec![Op::I32C(0), Op::CallIndirect { ty, table: 0 }]), 1, vec![G(2), C(1), G(2)]);
    add(&mut m, "call_indirect", lp(vec![Op::I32C(1), Op::CallIndirect { ty, table: 0 }]), 1, vec![G(2), C(0), G(1), C(1), G(3)]);
    add(&mut m, "other instance", lp(vec![Op::Call(bf)]), 1, vec![C(0), G(1), C(1), G(3)]);
    add(&mut m, "nested", lp(vec![Op::Call(nest)]), 1, vec![C(2), G(2)]);
    add(&mut m, "br_if", vec![Op::Loop(BT::Empty), Op::Call(tick), Op::GGet(0), Op::BrIf(0), Op::End], 1, vec![C(1), G(3)]);
    add(&mut m, "br_table", vec![Op::Loop(BT::Empty), Op::Call(tick), Op::GGet(0), Op::BrTable([0, 0].into(), 0), Op::End], 1, vec![C(1), G(6)]);
    let me = m.n_imp(EK::Func) + m.funcs.len() as u32;
    add(&mut m, "tail self", vec![Op::Call(tick), Op::ReturnCall(me)], 1, vec![C(1), G(1), C(0), G(1)]);
    let me = m.n_imp(EK::Func) + m.funcs.len() as u32;
    add(&mut m, "tail mutual", vec![Op::Call(tick), Op::ReturnCall(me + 1)], 1, vec![C(1), G(1), C(0), G(1), C(0), G(1)]);
    m.func(&[], &[], &[I32], vec![Op::ReturnCall(me)]);
    let me = m.n_imp(EK::Func) + m.funcs.len() as u32;
    add(&mut m, "tail indirect", vec![Op::Call(tick), Op::I32C(2), Op::ReturnCallIndirect { ty, table: 0 }], 1, vec![C(1), G(2), C(0), G(1)]);
    // calls itself every other time
    let me2 = m.n_imp(EK::Func) + m.funcs.len() as u32;
    m.func(&[I32], &[], &[I64], vec![Op::LGet(0), Op::If(BT::Empty), Op::I32C(0), Op::Call(me2), Op::End, Op::Call(tick)]);
    add(&mut m, "self", lp(vec![Op::I32C(1), Op::Call(me2)]), 1, vec![G(2), C(0), G(4), C(0), G(3), C(1), G(3), C(1), G(3)]);
    m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: FUNC, items: [tick, wt, me].iter().map(|f| vec![Op::RefFunc(*f)]).collect() });
    (m, b, ps)
}
/// Endless functions that call no host function.
fn silent() -> (Module, Vec<(&'static str, u32)>) {
    let mut m = Module::default();
    m.mem(Limits::new(1, Some(1)));
    m.table(FUNC, Limits::new(2, None));
    m.global(I32, true, Op::I32C(1));
    let ty = m.ty(&[], &[]);
    let mut v = vec![];
    let mut add = |m: &mut Module, n, b: Vec<Op>| { let f = m.func(&[], &[], &[I32, I64], b); v.push((n, f)); f };
    add(&mut m, "br", vec![Op::Loop(BT::Empty), Op::Br(0), Op::End]);
    add(&mut m, "br_if const", vec![Op::Loop(BT::Empty), Op::I32C(1), Op::BrIf(0), Op::End]);
    add(&mut m, "br_if local", vec![Op::Loop(BT::Empty), Op::LGet(0), num("i32.eqz"), Op::BrIf(0), Op::End]);
    add(&mut m, "br_if compare", vec![Op::Loop(BT::Empty), Op::LGet(0), Op::I32C(5), num("i32.lt_u"), Op::BrIf(0), Op::End]);
    add(&mut m, "br_if compare 64", vec![Op::Loop(BT::Empty), Op::LGet(1), Op::I64C(5), num("i64.lt_u"), Op::BrIf(0), Op::End]);
    add(&mut m, "counting", vec![Op::Loop(BT::Empty), Op::LGet(0), Op::I32C(0), num("i32.add"), Op::LTee(0), num("i32.eqz"), Op::BrIf(0), Op::End]);
    add(&mut m, "br_table", vec![Op::Loop(BT::Empty), Op::LGet(0), Op::BrTable([0].into(), 0), Op::End]);
    add(&mut m, "if", vec![Op::Loop(BT::Empty), Op::GGet(0), Op::If(BT::Empty), Op::Br(1), Op::End, Op::End]);
    add(&mut m, "else", vec![Op::Loop(BT::Empty), Op::LGet(0), Op::If(BT::Empty), Op::Else, Op::Br(1), Op::End, Op::End]);
    add(&mut m, "nested loops", vec![Op::Loop(BT::Empty), Op::Loop(BT::Empty), Op::LGet(0), Op::BrIf(0), Op::End, Op::Br(0), Op::End]);
    add(&mut m, "memory", vec![Op::Loop(BT::Empty), Op::I32C(0), Op::I32C(0), Op::I32C(100), Op::MemFill(0), Op::I32C(4), Op::I32C(0), mem(0x28, 0), mem(0x36, 0), Op::Br(0), Op::End]);
    let me = m.funcs.len() as u32;
    add(&mut m, "tail self", vec![Op::ReturnCall(me)]);
    add(&mut m, "tail mutual", vec![Op::ReturnCall(me + 2)]);
    m.func(&[], &[], &[I64], vec![Op::ReturnCall(me + 1)]);
    add(&mut m, "tail indirect", vec![Op::I32C(0), Op::ReturnCallIndirect { ty, table: 0 }]);
    m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: FUNC, items: vec![vec![Op::RefFunc(me + 3)]] });
    let leaf = m.func(&[], &[], &[V128], vec![]);
    m.func(&[], &[], &[], vec![Op::Loop(BT::Empty), Op::Call(leaf), Op::Br(0), Op::End]);
    v.push(("calling", leaf + 1));
    // the caller of an endless function
    m.func(&[], &[], &[], vec![Op::Call(0)]);
    v.push(("in callee", leaf + 2));
    export_all(&mut m);
    (m, v)
}

#[derive(Default)]
struct Seen { obs: RefCell<Vec<u32>>, n: Cell<usize>, charges: RefCell<Vec<u32>>, bad: RefCell<Option<String>> }
impl Seen {
    fn tick(&self, ctx: &mut FuncContext<'_>) {
        let k = self.n.get();
        self.n.set(k + 1);
        let r = ctx.remaining_fuel();
        self.obs.borrow_mut().push(r);
        let ch = self.charges.borrow();
        if ch.is_empty() { return }
        let n = ch[k % ch.len()];
        ctx.charge_fuel(n);
        let a = ctx.remaining_fuel();
        if a != r.saturating_sub(n) { self.bad.borrow_mut().get_or_insert(format!("a charge of {n} left {a} of {r}")); }
    }
}
fn store(dm: &Def, db: &Def, policy: FuelPolicy, seen: &Rc<Seen>) -> Result<(Store, ModuleInstance), tinywasm::Error> {
    let mut s = Store::new(Engine::new(Config::new().with_fuel_policy(policy)));
    let s1 = seen.clone();
    let tick = HostFunction::from(&mut s, move |mut ctx: FuncContext<'_>, (): ()| { s1.tick(&mut ctx); Ok(()) });
    let s1 = seen.clone();
    let slot: Rc<RefCell<Option<Function>>> = Default::default();
    let s2 = slot.clone();
    let nest = HostFunction::from_untyped(&mut s, &FuncType::new(&[], &[]), move |mut ctx, _| { s1.tick(&mut ctx); let f = s2.borrow().clone().unwrap(); ctx.call_untyped(&f, &[]) });
    let mut im = Imports::new();
    im.define("h", "tick", tick.clone());
    im.define("h", "nest", nest);
    let b = ModuleInstance::instantiate(&mut s, &db.tm, Some(im.clone()))?;
    im.define("b", "f1", b.func_untyped(&s, "f1")?);
    let i = ModuleInstance::instantiate(&mut s, &dm.tm, Some(im))?;
    *slot.borrow_mut() = Some(b.func_untyped(&s, "f1")?);
    Ok((s, i))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Layout { pre: usize, gaps: Vec<usize>, chunk: u32, extra: u32 }
/// The observations of slices of the given fuel by the model; None stands for a slice that is not a prefix match.
struct Sim<'a> { p: &'a Prog, l: &'a Layout, ev: usize, left: usize, tick: usize }
impl<'a> Sim<'a> {
    fn new(p: &'a Prog, l: &'a Layout) -> Sim<'a> { Sim { p, l, ev: usize::MAX, left: l.pre, tick: 0 } }
    /// Runs a slice; false as soon as it differs from the observations.
    fn slice(&mut self, fuel: u32, weighted: bool, charges: &[u32], obs: &[u32], limit: usize) -> bool {
        let mut fuel = fuel;
        let mut at = 0;
        if fuel == 0 { return obs.is_empty(); }
        loop {
            for _ in 0..self.l.chunk {
                // next instruction
                while self.left == 0 {
                    self.ev = self.ev.wrapping_add(1);
                    if self.ev >= self.p.iter.len() { self.ev = 0 }
                    self.left = match &self.p.iter[self.ev] { Ev::Gap(_) => self.l.gaps[self.p.iter[..self.ev].iter().filter(|e| matches!(e, Ev::Gap(_))).count()], Ev::Call(_) => 1 };
                }
                self.left -= 1;
                if self.ev != usize::MAX { if let Ev::Call(n) = self.p.iter[self.ev] {
                    if weighted { fuel = fuel.saturating_sub(self.l.extra) }
                    for _ in 0..n {
                        if at >= obs.len() || obs[at] != fuel { return false; }
                        at += 1;
                        if !charges.is_empty() { fuel = fuel.saturating_sub(charges[self.tick % charges.len()]) }
                        self.tick += 1;
                    }
                } }
            }
            fuel = fuel.saturating_sub(self.l.chunk);
            if fuel == 0 { return at == obs.len(); }
            if at > limit { return false; }
        }
    }
}
fn gaps(p: &Prog) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for e in &p.iter { if let Ev::Gap(n) = e { let r = if *n > 20 { n / 2 - 2..=*n } else { 0..=*n }; out = out.iter().flat_map(|o| r.clone().map(move |x| { let mut v = o.clone(); v.push(x); v })).collect() } }
    out
}
const CHUNKS: [u32; 8] = [128, 64, 32, 16, 8, 4, 2, 1];

fn accounting(c: &Check) {
    let charge_sets: Vec<Vec<u32>> = vec![vec![], vec![1], vec![0, 0, 37], vec![127], vec![128], vec![0, 129, 0, 0, 0], vec![0, 0, 0, 500], vec![u32::MAX], vec![0, 0, 0, 0, 0, 0, 0, u32::MAX]];
    let amounts: Vec<u32> = vec![1, 2, 5, 64, 127, 128, 129, 130, 255, 256, 257, 300, 384, 385, 500, 640, 1000, 1025, 3000];
    let single: Vec<u32> = c.pick((0..=700).collect(), (0..=3000).chain([4096, 10_000, 65_536]).collect());
    let (m, b, ps) = guest();
    let mut m = m;
    export_all(&mut m);
    let n = ps.len();
    // (chunk, extra) pairs with which each program is consistent
    let fits: Mutex<Vec<(String, BTreeSet<(u32, u32)>)>> = Mutex::new(vec![]);
    c.par(n * 2, |j, l| {
        let (p, o) = (&ps[j / 2], [Opts::ON, Opts::OFF][j % 2]);
        let (dm, db) = match (Def::new(&m, o), Def::new(&b, o)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => { c.violation("parse", e, hex(&encode(&m))); return } };
        let mut cands: Vec<Layout> = vec![];
        for g in gaps(p) { for pre in 0..=p.pre { for chunk in CHUNKS { for extra in 1..=9 { cands.push(Layout { pre, gaps: g.clone(), chunk, extra }) } } } }
        // an iteration of zero instructions cannot be
        l.sample(|| format!("{}: {} candidate layouts, {}", p.name, cands.len(), show_ops(&m.funcs[p.f as usize - 3].body)));
        let mut scheds: Vec<(Vec<u32>, Vec<u32>)> = vec![];
        for ch in &charge_sets { scheds.push((vec![1000, 257, 1, 300], ch.clone())) }
        for f in &single { scheds.push((vec![*f], vec![])); scheds.push((vec![*f], vec![0, 0, 37])) }
        for x in &amounts { for y in &amounts { for ch in &charge_sets { scheds.push((vec![*x, *y, 300, 0, *x], ch.clone())) } } }
        if c.tier == Tier::Thorough { for x in &amounts { for y in &amounts { for z in &amounts { scheds.push((vec![*x, *y, *z], vec![])); scheds.push((vec![*x, *y, *z], vec![0, 129, 0, 0, 0])) } } } }
        let seen: Rc<Seen> = Default::default();
        for weighted in [false, true] {
            let policy = if weighted { FuelPolicy::Weighted } else { FuelPolicy::PerInstruction };
            let Ok((mut s, i)) = store(&dm, &db, policy, &seen) else { c.violation(format!("setup {}", p.name), "instantiation failed", hex(&dm.bytes)); return };
            let f = i.func_untyped(&s, &format!("f{}", p.f)).expect("export");
            for (sc, ch) in &scheds {
                if c.stopped() { return }
                l.traces += 1;
                seen.n.set(0);
                *seen.charges.borrow_mut() = ch.clone();
                let what = || format!("{} with slices {sc:?}, host charges {ch:?}, {policy:?}, rewrite={}", p.name, o.rewrite);
                crate::batch::watch(what);
                let mut all: Vec<Vec<u32>> = vec![];
                let r = guard(|| -> Result<(), String> {
                    let mut e = f.call_resumable(&mut s, &[]).map_err(|e| format!("{e}"))?;
                    for fuel in sc {
                        seen.obs.borrow_mut().clear();
                        match e.resume_with_fuel(*fuel) { Ok(ExecProgress::Suspended) => {} Ok(_) => return Err("an endless function completed".into()), Err(x) => return Err(format!("{x}")) }
                        let v = seen.obs.take();
                        if let Some(b) = seen.bad.borrow_mut().take() { return Err(b); }
                        if let Some(x) = v.iter().find(|x| **x > *fuel) { return Err(format!("{x} fuel left in a slice of {fuel}")); }
                        if v.windows(2).any(|w| w[0] < w[1]) { return Err(format!("fuel increases within a slice: {v:?}")); }
                        all.push(v);
                    }
                    Ok(())
                }).unwrap_or_else(Err);
                crate::batch::end_watch();
                l.transitions += all.iter().map(|v| v.len() as u64 + 1).sum::<u64>();
                l.states.insert(hash(&(p.name, weighted, &all)));
                let r = r.and_then(|()| {
                    let before = cands.len();
                    cands.retain(|lay| { let mut sim = Sim::new(p, lay); sc.iter().zip(&all).all(|(f, v)| sim.slice(*f, weighted, ch, v, 1_000_000)) });
                    if cands.is_empty() { return Err(format!("no fuel accounting within the documented limits explains the observations: fuel read by host functions per slice {:?} ({} accountings explained everything before)", all.iter().map(|v| if v.len() > 12 { format!("{:?}.. ({} readings)", &v[..12], v.len()) } else { format!("{v:?}") }).collect::<Vec<_>>(), before)); }
                    Ok(())
                });
                if let Err(e) = r { c.violation(format!("account|{}|{sc:?}|{ch:?}|{weighted}|{}", p.name, o.rewrite), format!("{e}\n{}", what()), hex(&dm.bytes)); return }
            }
        }
        fits.lock().unwrap().push((format!("{} rewrite={}", p.name, o.rewrite), cands.iter().map(|l| (l.chunk, l.extra)).collect()));
    });
    // the interval and the cost of a call must be the same everywhere
    let f = fits.into_inner().unwrap();
    let mut common: Option<BTreeSet<(u32, u32)>> = None;
    let mut f: Vec<_> = f;
    f.sort();
    for (name, s) in &f {
        let n = match &common { None => s.clone(), Some(x) => x.intersection(s).copied().collect() };
        if n.is_empty() && !c.stopped() { c.violation(format!("consistent|{name}"), format!("the check interval and call cost observed in {name} ({s:?}) differ from those of the other programs ({common:?})"), format!("{f:?}")); break }
        common = Some(n);
    }
    c.bound(format!("accounting: {n} endless programs (loops of 2 to 300 instructions, every kind of call) with and without rewriting, both policies; every single fuel amount up to {}, every pair of {} amounts followed by three more slices, {} patterns of host charges; consistent (interval, call cost): {common:?}", single.last().unwrap(), amounts.len(), charge_sets.len()));
}

fn endless(c: &Check) {
    let (m, fs) = silent();
    c.par(4, |j, l| {
        let (o, policy) = ([Opts::ON, Opts::OFF][j % 2], [FuelPolicy::PerInstruction, FuelPolicy::Weighted][j / 2]);
        let d = match Def::new(&m, o) { Ok(d) => d, Err(e) => { c.violation("parse", e, hex(&encode(&m))); return } };
        let mut s = Store::new(Engine::new(Config::new().with_fuel_policy(policy)));
        let i = ModuleInstance::instantiate(&mut s, &d.tm, None).expect("instantiate");
        for (name, f) in &fs {
            let h = i.func_untyped(&s, &format!("f{f}")).expect("export");
            for fuel in [1, 2, 127, 128, 129, 1000, 100_000] {
                l.traces += 1;
                crate::batch::watch(|| format!("endless {name} with slices of {fuel}"));
                let r = guard(|| { let mut e = h.call_resumable(&mut s, &[]).map_err(|e| e.to_string())?; for _ in 0..5 { l.transitions += 1; match e.resume_with_fuel(fuel) { Ok(ExecProgress::Suspended) => {} Ok(_) => return Err("completed".to_string()), Err(e) => return Err(e.to_string()) } match e.resume_with_time_budget(Duration::from_nanos(fuel as u64)) { Ok(ExecProgress::Suspended) => {} Ok(_) => return Err("completed".to_string()), Err(e) => return Err(e.to_string()) } } Ok(()) }).unwrap_or_else(Err);
                crate::batch::end_watch();
                l.states.insert(hash(&(name, fuel, j)));
                if let Err(e) = r { c.violation(format!("endless|{name}|{fuel}|{j}"), format!("{e}: endless function ({name}) in slices of {fuel} fuel"), hex(&d.bytes)) }
            }
        }
    });
    c.bound(format!("endless: {} functions that never return, 7 fuel amounts and time budgets, 10 slices each: control always returns", fs.len()));
}

/// What calls observe after calls of every other kind.
fn leftovers(c: &Check) {
    const ENDS: [&str; 12] = ["completes with fuel left", "traps with fuel left", "host error with fuel left", "suspended and dropped", "completes by time", "suspended by time and dropped", "plain call", "plain call that traps", "host function called directly", "host function called resumably", "started by instantiation", "fuel slice, then time slice"];
    let mut m = Module::default();
    let tick = m.import_func("h", "tick", &[], &[]);
    let err = m.import_func("h", "err", &[], &[]);
    let l3 = |t: Vec<Op>| [vec![Op::Call(tick), Op::Call(tick)], t].concat();
    m.func(&[], &[], &[], l3(vec![]));
    m.func(&[], &[], &[], l3(vec![Op::Unreachable]));
    m.func(&[], &[], &[], l3(vec![Op::Call(err)]));
    m.func(&[], &[], &[], vec![Op::Loop(BT::Empty), Op::Call(tick), Op::Br(0), Op::End]);
    export_all(&mut m);
    let mut st = m.clone();
    st.exports.clear();
    st.start = Some(2);
    let depth = c.pick(4, 5);
    c.par(ENDS.len() * 2, |j, l| {
        let (dm, ds) = match (Def::new(&m, Opts::ON), Def::new(&st, Opts::ON)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => { c.violation("parse", e, ""); return } };
        let policy = [FuelPolicy::PerInstruction, FuelPolicy::Weighted][j % 2];
        struct Wd { s: Store, i: ModuleInstance, seen: Rc<Seen>, tick: Function, im: Imports }
        let fresh = || {
            let seen: Rc<Seen> = Default::default();
            let mut s = Store::new(Engine::new(Config::new().with_fuel_policy(policy)));
            let s1 = seen.clone();
            let tick = HostFunction::from(&mut s, move |mut ctx: FuncContext<'_>, (): ()| { s1.tick(&mut ctx); Ok(()) });
            let err = HostFunction::from_untyped(&mut s, &FuncType::new(&[], &[]), |_, _| Err(tinywasm::Error::Other("e".into())));
            let mut im = Imports::new();
            im.define("h", "tick", tick.clone());
            im.define("h", "err", err);
            let i = ModuleInstance::instantiate(&mut s, &dm.tm, Some(im.clone())).expect("instantiate");
            Wd { s, i, seen, tick, im }
        };
        let step = |w: &mut Wd, a: usize| -> Result<u64, String> {
            w.seen.obs.borrow_mut().clear();
            let f = |n: u32| w.i.func_untyped(&w.s, &format!("f{n}")).expect("export");
            // (fuel the observed readings may show, readings)
            let zero = |w: &Wd, at: usize| { let v = w.seen.obs.borrow(); if let Some(x) = v[at..].iter().find(|x| **x != 0) { Err(format!("{} fuel reported by a call that is not fuel-limited: {v:?}", x)) } else { Ok(()) } };
            let within = |w: &Wd, n: u32| { let v = w.seen.obs.borrow(); if let Some(x) = v.iter().find(|x| **x > n || **x < n.saturating_sub(40 + 128)) { Err(format!("{x} fuel reported in the first instructions of a slice of {n}: {v:?}")) } else { Ok(()) } };
            let r: Result<(), String> = match a {
                0..=2 => { let h = f(2 + a as u32); let r = h.call_resumable(&mut w.s, &[]).and_then(|mut e| e.resume_with_fuel(50_000)); if r.is_ok() != (a == 0) { return Err(format!("unexpected outcome {}", r.err().map(|e| e.to_string()).unwrap_or_default())); } within(w, 50_000) }
                3 => { let h = f(5); let r = h.call_resumable(&mut w.s, &[]).and_then(|mut e| e.resume_with_fuel(1)); if !matches!(r, Ok(ExecProgress::Suspended)) { return Err("not suspended".into()); } within(w, 1) }
                4 => { let h = f(2); let r = h.call_resumable(&mut w.s, &[]).and_then(|mut e| e.resume_with_time_budget(Duration::from_secs(100))); if !matches!(r, Ok(ExecProgress::Completed(_))) { return Err("not completed".into()); } zero(w, 0) }
                5 => { let h = f(5); let r = h.call_resumable(&mut w.s, &[]).and_then(|mut e| e.resume_with_time_budget(Duration::from_nanos(1))); if !matches!(r, Ok(ExecProgress::Suspended)) { return Err("not suspended".into()); } zero(w, 0) }
                6 | 7 => { let h = f(a as u32 - 4); let r = h.call(&mut w.s, &[]); if r.is_ok() != (a == 6) { return Err("unexpected outcome".into()); } zero(w, 0) }
                8 => { let t = w.tick.clone(); t.call(&mut w.s, &[]).map_err(|e| e.to_string())?; zero(w, 0) }
                9 => { let t = w.tick.clone(); let n = t.call_resumable(&mut w.s, &[]).and_then(|mut e| e.resume_with_fuel(77)); if n.is_err() { return Err("failed".into()); } let v = w.seen.obs.borrow(); if v.iter().any(|x| *x > 77) { Err(format!("{v:?} fuel in a slice of 77")) } else { Ok(()) } }
                10 => { ModuleInstance::instantiate(&mut w.s, &ds.tm, Some(w.im.clone())).map_err(|e| e.to_string())?; zero(w, 0) }
                _ => {
                    let h = f(5);
                    let n = Cell::new(0);
                    let r = h.call_resumable(&mut w.s, &[]).and_then(|mut e| { e.resume_with_fuel(300)?; n.set(w.seen.obs.borrow().len()); e.resume_with_time_budget(Duration::from_nanos(1)) });
                    if !matches!(r, Ok(ExecProgress::Suspended)) { return Err("not suspended".into()); }
                    zero(w, n.get())
                }
            };
            r?;
            if a != 3 && a != 5 && a != 11 && w.seen.obs.borrow().len() != if a == 8 || a == 9 { 1 } else { 2 } { return Err(format!("{} host calls", w.seen.obs.borrow().len())); }
            let v = w.seen.obs.borrow();
            Ok(hash(&(a, v.first())))
        };
        if j / 2 < ENDS.len() { histories(c, l, "endings", depth, ENDS.len(), Some(j / 2), &fresh, &step, &|a| ENDS[a].to_string()) }
    });
    c.bound(format!("leftovers: every sequence of up to {depth} calls of {} kinds on one store; the fuel host functions read belongs to the current slice, and is zero in calls that are not fuel-limited", ENDS.len()));
    let _ = (W::I32, WasmValue::I32(0), I32);
}

pub fn run(c: &Check) {
    let times = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  {s}", c.start.elapsed().as_secs_f64()) };
    c.assume("the check interval is a power of two of at most 128 instructions and the extra cost of a call in the weighted policy a constant of 1 to 9; each is inferred and must be the same for all programs, kinds of call and schedules");
    leftovers(c);
    times("leftovers");
    endless(c);
    times("endless");
    accounting(c);
    times("accounting");
}
