//! Runs batches of enumerated functions in lockstep on the reference interpreter and the implementation.
use crate::num::Trap;
use crate::oracle::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use std::collections::BTreeMap;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use tinywasm::{ExternItem, Imports, ModuleInstance, Store};

#[derive(Clone, Debug)]
pub struct Prog { pub params: Vec<VT>, pub results: Vec<VT>, pub locals: Vec<VT>, pub body: Vec<Op> }

/// The fixed surroundings of the enumerated functions. Every memory and mutable global of `module` must be
/// exported under `m<i>` / `g<i>` (use `Base::new`).
#[derive(Clone)]
pub struct Base { pub module: Module, pub mem_init: Vec<Vec<u8>>, pub reset_tables: bool, pub config: fn() -> tinywasm::engine::Config }
impl Base {
    pub fn new(mut module: Module, mem_init: Vec<Vec<u8>>) -> Base {
        for i in 0..module.all_mems().len() { module.export(&format!("m{i}"), EK::Mem, i as u32) }
        for i in 0..module.all_globals().len() { module.export(&format!("g{i}"), EK::Global, i as u32) }
        for i in 0..module.all_tables().len() { module.export(&format!("t{i}"), EK::Table, i as u32) }
        Base { module, mem_init, reset_tables: false, config: tinywasm::engine::Config::default }
    }
}

// ------------------------------------------------------------------ watchdog
pub struct Slot { since: AtomicU64, info: Mutex<String> }
static SLOTS: Mutex<Vec<std::sync::Arc<Slot>>> = Mutex::new(Vec::new());
thread_local! { static SLOT: std::sync::Arc<Slot> = { let s = std::sync::Arc::new(Slot { since: AtomicU64::new(0), info: Mutex::new(String::new()) }); SLOTS.lock().unwrap().push(s.clone()); s }; }
fn now_ms() -> u64 { static T: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new(); T.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1 }
/// Marks the start of a call into the implementation; `end_watch` marks its return.
pub fn watch(info: impl FnOnce() -> String) { SLOT.with(|s| { *s.info.lock().unwrap() = info(); s.since.store(now_ms(), Relaxed) }) }
pub fn watch_tick() { SLOT.with(|s| s.since.store(now_ms(), Relaxed)) }
pub fn end_watch() { SLOT.with(|s| s.since.store(0, Relaxed)) }
pub fn start_watchdog(id: &'static str) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let n = now_ms();
        for s in SLOTS.lock().unwrap().iter() {
            let t = s.since.load(Relaxed);
            if t != 0 && n.saturating_sub(t) > 60_000 {
                let info = s.info.lock().unwrap().clone();
                let rd = verif_dir().join("evidence/replay");
                let _ = std::fs::create_dir_all(&rd);
                let p = rd.join(format!("{id}-hang.txt"));
                let _ = std::fs::write(&p, format!("property {id}\nthe implementation did not return within 60 s although the reference terminates\n{info}\n"));
                println!("VIOLATION property={id} replay={}", p.display());
                println!("  hang: {info}");
                std::process::exit(1);
            }
        }
    });
}

pub fn describe(p: &Prog) -> String { format!("(func params {:?} locals {:?} results {:?})\n  {}", p.params, p.locals, p.results, show_ops(&p.body)) }

pub struct Live { pub store: Store, pub inst: ModuleInstance, pub funcs: Vec<tinywasm::Function>, pub mems: Vec<tinywasm::Memory>, pub globals: Vec<(tinywasm::Global, VT, bool)>, pub tables: Vec<tinywasm::Table> }

pub fn build(base: &Base, progs: &[Prog]) -> Module {
    let mut m = base.module.clone();
    let mut types: std::collections::HashMap<FT, u32> = m.types.iter().cloned().enumerate().map(|(i, t)| (t, i as u32)).collect();
    let n0 = m.n_imp(EK::Func) + m.funcs.len() as u32;
    for (i, p) in progs.iter().enumerate() {
        let ft = FT { params: p.params.clone(), results: p.results.clone() };
        let ty = *types.entry(ft.clone()).or_insert_with(|| { m.types.push(ft); m.types.len() as u32 - 1 });
        m.funcs.push(Func { ty, locals: p.locals.clone(), body: p.body.clone() });
        m.export(&format!("f{i}"), EK::Func, n0 + i as u32);
    }
    m
}

pub fn live(base: &Base, bytes: &[u8], o: Opts, n: usize) -> Result<Live, String> {
    live_of(base, &parse(bytes, o)?, n)
}
pub fn live_of(base: &Base, module: &tinywasm::Module, n: usize) -> Result<Live, String> {
    let r = guard(|| -> Result<Live, String> {
        let mut store = Store::new(tinywasm::Engine::new((base.config)()));
        let inst = ModuleInstance::instantiate(&mut store, module, Some(Imports::new())).map_err(|e| format!("instantiate: {e}"))?;
        let (mut funcs, mut mems, mut globals, mut tables) = (Vec::with_capacity(n), vec![], vec![], vec![]);
        for (name, item) in inst.exports() {
            match item {
                ExternItem::Func(f) if name.starts_with('f') => funcs.push(f),
                ExternItem::Memory(m) => mems.push(m),
                ExternItem::Global(g) => globals.push(g),
                ExternItem::Table(t) => tables.push(t),
                _ => {}
            }
        }
        let gs = base.module.all_globals();
        let globals = globals.into_iter().zip(gs).map(|(g, (t, m))| (g, t, m)).collect();
        Ok(Live { store, inst, funcs, mems, globals, tables })
    });
    match r { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) }
}

fn key_of(kind: &str, p: &Prog, input: &[u128], o: Opts) -> String { format!("{kind}|{:?}|{}|{:x?}|rewrite={}", p.params, show_ops(&p.body), input, o.rewrite) }

/// Runs every program on every input under every option set and compares results, traps, mutable
/// globals, memories (and tables when they are reset).
pub fn run_batch(c: &Check, l: &mut Local, base: &Base, progs: &[Prog], inputs: &[Vec<u128>], opts: &[Opts], budget: u64) {
    if progs.is_empty() || c.stopped() { return; }
    if c.id == "P27" { return crate::archive::batch(c, l, base, progs, inputs, opts, budget) }
    let m = build(base, progs);
    let bytes = encode(&m);
    let rm = Rc::new(m);
    let mut st = RStore::new();
    st.max_depth = 900;
    let ri = match st.instantiate(&rm, &[]) { Ok(i) => i, Err(e) => panic!("reference instantiate {e:?}") };
    let n0 = (base.module.n_imp(EK::Func) as usize) + base.module.funcs.len();
    let g0: Vec<u128> = st.globals.iter().map(|g| g.v).collect();
    let t0: Vec<RTable> = st.tables.clone();
    let mut lives = vec![];
    for o in opts {
        match live(base, &bytes, *o, progs.len()) {
            Ok(x) => lives.push((*o, x)),
            Err(e) => {
                if progs.len() == 1 { c.violation(key_of("reject", &progs[0], &[], *o), format!("valid module not accepted ({e}), options {o:?}\n{}", describe(&progs[0])), format!("module {}", hex(&bytes))); return; }
                // find the culprits one by one
                let h = progs.len() / 2;
                run_batch(c, l, base, &progs[..h], inputs, opts, budget);
                run_batch(c, l, base, &progs[h..], inputs, opts, budget);
                return;
            }
        }
    }
    watch(|| format!("module {}", hex(&bytes)));
    l.add("modules", 1);
    l.add("programs", progs.len() as u64);
    for (pi, p) in progs.iter().enumerate() {
        if c.stopped() { break; }
        for input in inputs {
            let input: Vec<u128> = input.iter().take(p.params.len()).copied().collect();
            for (g, v) in st.globals.iter_mut().zip(&g0) { g.v = *v }
            for (k, b) in base.mem_init.iter().enumerate() { let a = st.insts[ri].mems[k]; st.mems[a].data[..b.len()].copy_from_slice(b); }
            if base.reset_tables { st.tables.clone_from(&t0) }
            st.budget = budget;
            st.steps = 0;
            let f = st.insts[ri].funcs[n0 + pi];
            let want = match st.invoke(f, &input) { Ok(v) => Out::Vals(v), Err(Trap::Budget) => { l.add("skipped_nonterminating", 1); continue } Err(t) => Out::Trap(t) };
            l.transitions += st.steps;
            let mut h = H::default();
            want.hash(&mut h);
            for g in &st.globals { g.v.hash(&mut h) }
            for k in 0..base.mem_init.len() { let a = st.insts[ri].mems[k]; st.mems[a].data[..base.mem_init[k].len()].hash(&mut h) }
            l.states.insert(std::hash::Hasher::finish(&h));
            for (o, x) in lives.iter_mut() {
                watch_tick();
                let r = guard(|| exec_one(base, x, pi, p, &input, &st, ri));
                l.traces += 1;
                let diff = match r {
                    Err(pn) => Some(format!("panic: {pn}")),
                    Ok((got, rest)) => if got != want { Some(format!("result {got:x?}")) } else { rest },
                };
                if let Some(d) = diff {
                    c.violation(key_of("run", p, &input, *o), format!("expected {want:x?}, implementation: {d}; input {input:x?}, options {o:?}\n{}", describe(p)), format!("export f{pi} of module {}", hex(&encode(&build(base, std::slice::from_ref(p))))));
                    end_watch();
                    // the instance may be damaged: continue with fresh ones
                    if pi + 1 < progs.len() { run_batch(c, l, base, &progs[pi + 1..], inputs, opts, budget); }
                    return;
                }
            }
        }
    }
    end_watch();
    l.sample(|| { let p = &progs[progs.len() / 2]; format!("{} on inputs {:x?}", describe(p), inputs) });
}

fn exec_one(base: &Base, x: &mut Live, pi: usize, p: &Prog, input: &[u128], st: &RStore, ri: usize) -> (Out, Option<String>) {
    for (k, b) in base.mem_init.iter().enumerate() { x.mems[k].copy_from_slice(&mut x.store, 0, b).expect("reset memory") }
    for (i, (g, t, m)) in x.globals.iter().enumerate() {
        if *m { let Op2(v) = init_value(&base.module, i); g.set(&mut x.store, to_wv(*t, v)).expect("reset global") }
    }
    if base.reset_tables { for (k, t) in x.tables.iter().enumerate() { for (i, _) in st.tables[st.insts[ri].tables[k]].elems.iter().enumerate() { let _ = (t, i); } } }
    let f = x.funcs[pi].clone();
    let got = vals_out(Some(&p.results), f.call(&mut x.store, &args_wv(&p.params, input)));
    for (i, (g, _, m)) in x.globals.iter().enumerate() {
        if !*m { continue }
        let v = from_wv(&g.get(&x.store).expect("global")).1;
        let w = st.globals[st.insts[ri].globals[i]].v;
        if v != w { return (got, Some(format!("global {i} is {v:#x}, expected {w:#x}"))); }
    }
    for k in 0..base.mem_init.len() {
        let want = &st.mems[st.insts[ri].mems[k]].data;
        let n = base.mem_init[k].len();
        let b = x.mems[k].read_vec(&x.store, 0, n).expect("read memory");
        if b != want[..n] { let i = (0..n).find(|i| b[*i] != want[*i]).unwrap(); return (got, Some(format!("memory {k} byte {i} is {:#x}, expected {:#x}", b[i], want[i]))); }
    }
    (got, None)
}
struct Op2(u128);
fn init_value(m: &Module, i: usize) -> Op2 {
    let n = m.n_imp(EK::Global) as usize;
    Op2(match m.globals[i - n].init[0] { Op::I32C(v) => v as u32 as u128, Op::I64C(v) => v as u64 as u128, Op::F32C(v) => v as u128, Op::F64C(v) => v as u128, Op::VConst(v) => v, Op::RefNull(_) => NULL, _ => panic!("global init") })
}

/// One themed enumeration: everything in `spec`, partitioned over all cores.
pub struct Theme<'a> {
    pub name: &'static str, pub base: &'a Base, pub params: Vec<VT>, pub locals: Vec<VT>, pub atoms: Vec<Vec<Op>>, pub max_len: usize, pub max_stack: usize,
    pub results: Option<Vec<VT>>, pub max_ctl: usize, pub max_dead: usize, pub inputs: Vec<Vec<u128>>, pub opts: Vec<Opts>, pub budget: u64,
    /// wraps the enumerated body: (body, its result types) -> (final body, final results)
    pub wrap: fn(&[Op], &[VT], &[VT]) -> (Vec<Op>, Vec<VT>),
}
/// Appends `local.get` of every local so that all final locals are results.
pub fn wrap_locals(body: &[Op], res: &[VT], locals: &[VT]) -> (Vec<Op>, Vec<VT>) {
    let mut b = body.to_vec();
    b.extend((0..locals.len() as u32).map(Op::LGet));
    (b, res.iter().chain(locals).copied().collect())
}
/// Puts the body into a block with those results, then reads all locals.
pub fn wrap_block(body: &[Op], res: &[VT], locals: &[VT]) -> (Vec<Op>, Vec<VT>) {
    let bt = match res { [] => BT::Empty, [t] => BT::Val(*t), _ => panic!("wrap_block arity") };
    let mut b = vec![Op::Block(bt)];
    b.extend_from_slice(body);
    b.push(Op::End);
    wrap_locals(&b, res, locals)
}
pub fn wrap_none(body: &[Op], res: &[VT], _: &[VT]) -> (Vec<Op>, Vec<VT>) { (body.to_vec(), res.to_vec()) }

pub fn run_theme(c: &Check, t: &Theme) {
    use crate::enumr::*;
    let all_locals: Vec<VT> = t.params.iter().chain(&t.locals).copied().collect();
    let spec = Spec { env: Env { m: &t.base.module, locals: &all_locals }, results: t.results.clone(), atoms: &t.atoms, max_len: t.max_len, max_stack: t.max_stack, max_ctl: t.max_ctl, max_dead: t.max_dead, min_len: 0 };
    let mk = |body: &[Op], res: &[VT]| { let (body, results) = (t.wrap)(body, res, &all_locals); Prog { params: t.params.clone(), results, locals: t.locals.clone(), body } };
    let mut short = vec![];
    let jobs = spec.prefixes(2.min(t.max_len), &mut |b, r| short.push(mk(b, r)));
    let short = &short;
    let counts: Mutex<BTreeMap<usize, u64>> = Mutex::new(BTreeMap::new());
    c.par(jobs.len() + 1, |j, l| {
        if j == jobs.len() { run_batch(c, l, t.base, short, &t.inputs, &t.opts, t.budget); return; }
        let mut buf: Vec<Prog> = vec![];
        let mut n = 0;
        // Atom 2 of a job's prefix varies fastest, so the work is spread evenly enough.
        spec.dfs(&jobs[j], &mut |b, r| {
            if c.stopped() { return; }
            n += 1;
            buf.push(mk(b, r));
            if buf.len() == 800 { run_batch(c, l, t.base, &buf, &t.inputs, &t.opts, t.budget); buf.clear(); }
        });
        run_batch(c, l, t.base, &buf, &t.inputs, &t.opts, t.budget);
        *counts.lock().unwrap().entry(0).or_default() += n;
    });
    let n = counts.lock().unwrap().get(&0).copied().unwrap_or(0) + short.len() as u64;
    c.bound(format!("{}: all {} valid sequences of at most {} steps over {} atoms, {} inputs, options {:?}", t.name, n, t.max_len, t.atoms.len(), t.inputs.len(), t.opts.iter().map(|o| if o.rewrite { "rewrite" } else { "no-rewrite" }).collect::<Vec<_>>()));
    if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  {}: {n} programs", c.start.elapsed().as_secs_f64(), t.name); }
}
