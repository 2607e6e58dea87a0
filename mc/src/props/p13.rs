//! P13: the life of execution handles. Every short history of calls, each started and ended in a different way
//! (completed, trapped, failed in a host, dropped at any point, resumed after its end), on one store with
//! small stacks; what follows must be what the reference store, which knows only the committed effects, does.
use crate::num::Trap;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;
use tinywasm::engine::{Config, StackConfig};
use tinywasm::types::WasmValue;
use tinywasm::{ExecProgress, FuncContext, FuncExecution, Function, ModuleInstance};
use VT::{F32, F64, I32, I64, V128};
const FUNC: VT = VT::Func;
const FRAMES: usize = 12;

/// How a call is run.
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Plain,
    /// resumed with this until it ends, then resumed again in every way
    Resumed(u32), Timed,
    /// dropped (or forgotten) after so many slices of so much fuel (0: time)
    Dropped(u32, u32), Forgotten,
}
/// (name, function, argument)
const FUNCS: [(&str, &str, i32); 12] = [
    ("returns", "id", 5), ("loops and returns", "count", 100), ("traps", "trap", 0), ("loops and traps", "count_trap", 100), ("fails in a host", "herr", 3), ("traps under operands", "deep_trap", 7), ("exhausts the call stack", "rec", 99),
    ("recurses and returns", "rec", 6), ("host function", "tick", 8), ("failing host function", "fail", 2), ("nested", "nest", 4), ("nested trap", "nest_trap", 4),
];
const ENDLESS: [(&str, &str, i32); 5] = [("endless", "endless", 0), ("endless under frames and operands", "rec_endless", 8), ("endless in the other instance", "other_endless", 0), ("long loop", "count", 1_000_000), ("endless tail calls", "tail_endless", 1)];
/// Uses that must be refused without effect.
const REFUSED: [&str; 6] = ["too few arguments", "wrong type of argument", "resumable with wrong argument", "context outside a call", "call from inside a call", "handle of another store"];

#[derive(Clone, Debug)]
enum Act { Run(usize, How), Cut(usize, How), Refused(usize) }
fn acts() -> Vec<Act> {
    let mut v = vec![];
    for f in 0..FUNCS.len() { for h in [How::Plain, How::Resumed(1), How::Resumed(1_000_000), How::Timed] { v.push(Act::Run(f, h)) } }
    for f in 0..ENDLESS.len() { for h in [How::Dropped(0, 1), How::Dropped(1, 1), How::Dropped(2, 200), How::Dropped(1, 0), How::Forgotten] { v.push(Act::Cut(f, h)) } }
    for r in 0..REFUSED.len() { v.push(Act::Refused(r)) }
    v
}
fn show(a: &Act) -> String { match a { Act::Run(f, h) => format!("{} ({h:?})", FUNCS[*f].0), Act::Cut(f, h) => format!("{} ({h:?})", ENDLESS[*f].0), Act::Refused(r) => REFUSED[*r].to_string() } }

const OPERANDS: [Op; 5] = [Op::I32C(1), Op::I64C(2), Op::VConst(3), Op::F32C(4), Op::F64C(5)];
fn inc(g: u32) -> Vec<Op> { vec![Op::GGet(g), Op::I64C(1), num("i64.add"), Op::GSet(g)] }
fn modules() -> (Module, Module) {
    let mut b = Module::default();
    b.imports.push(Import { module: "a".into(), name: "g".into(), kind: ImportKind::Global(I64, true) });
    b.func(&[I32], &[I32], &[V128], [vec![Op::Loop(BT::Empty)], inc(0), vec![Op::Br(0), Op::End, Op::Unreachable]].concat());
    export_all(&mut b);
    let mut m = Module::default();
    let tick = m.import_func("h", "tick", &[I32], &[I32]);
    let fail = m.import_func("h", "fail", &[I32], &[I32]);
    let nest = m.import_func("h", "nest", &[I32], &[I32]);
    let nest_trap = m.import_func("h", "nest_trap", &[I32], &[I32]);
    let other = m.import_func("b", "f0", &[I32], &[I32]);
    m.imports.push(Import { module: "a".into(), name: "g".into(), kind: ImportKind::Global(I64, true) });
    m.global(I32, true, Op::I32C(0));
    let def = |m: &mut Module, name: &str, locals: &[VT], body: Vec<Op>| { let f = m.func(&[I32], &[I32], locals, body); m.export(name, EK::Func, f); f };
    def(&mut m, "id", &[], vec![Op::LGet(0)]);
    let dec = [Op::LGet(0), Op::I32C(1), num("i32.sub")];
    let count = |end: Vec<Op>| [vec![Op::Loop(BT::Empty)], inc(0), dec.to_vec(), vec![Op::LTee(0), Op::BrIf(0), Op::End], end].concat();
    def(&mut m, "count", &[], count(vec![Op::I32C(77), Op::Call(tick)]));
    def(&mut m, "count_trap", &[], count(vec![Op::I32C(78), Op::Call(tick), Op::Drop, Op::Unreachable]));
    def(&mut m, "trap", &[I64], vec![Op::I32C(1), Op::LGet(0), num("i32.div_u")]);
    def(&mut m, "herr", &[], vec![Op::I32C(5), Op::GSet(1), Op::LGet(0), Op::Call(fail)]);
    def(&mut m, "deep_trap", &[], [OPERANDS.to_vec(), OPERANDS.to_vec(), vec![Op::Unreachable]].concat());
    let me = m.n_imp(EK::Func) + m.funcs.len() as u32;
    def(&mut m, "rec", &[I64, V128, F32], [vec![Op::LGet(0), Op::If(BT::Val(I32)), Op::LGet(0), Op::GSet(1)], dec.to_vec(), vec![Op::Call(me), Op::I32C(1), num("i32.add"), Op::Else, Op::LGet(0), Op::Call(tick), Op::End]].concat());
    let endless = def(&mut m, "endless", &[F64], [vec![Op::Loop(BT::Empty)], inc(0), vec![Op::Br(0), Op::End, Op::Unreachable]].concat());
    let me = m.n_imp(EK::Func) + m.funcs.len() as u32;
    def(&mut m, "rec_endless", &[I64, V128], [vec![Op::LGet(0), Op::If(BT::Val(I32))], OPERANDS.to_vec(), dec.to_vec(), vec![Op::Call(me), Op::Return, Op::Else, Op::LGet(0), Op::Call(endless), Op::End]].concat());
    def(&mut m, "other_endless", &[], vec![Op::VConst(3), Op::LGet(0), Op::Call(other), Op::Return]);
    let me = m.n_imp(EK::Func) + m.funcs.len() as u32;
    def(&mut m, "tail_endless", &[], [inc(0), vec![Op::LGet(0), Op::ReturnCall(me)]].concat());
    // probes: exactly the frames and operands there is room for, each after the other
    let me = m.n_imp(EK::Func) + m.funcs.len() as u32;
    def(&mut m, "probe", &[I64, F64, V128], [vec![Op::LGet(0), Op::If(BT::Val(I32))], dec.to_vec(), vec![Op::Call(me), Op::Else, Op::LGet(0), Op::Call(tick), Op::End, Op::GGet(1), num("i32.add"), Op::LGet(1), num("i32.wrap_i64"), num("i32.add")]].concat());
    for (n, f) in [("tick", tick), ("fail", fail), ("nest", nest), ("nest_trap", nest_trap)] { m.export(n, EK::Func, f) }
    m.export("g", EK::Global, 0);
    m.export("g1", EK::Global, 1);
    m.table(FUNC, Limits::new(1, None));
    (m, b)
}
struct W { w: World, i: usize, other: Function, bad: Rc<RefCell<Option<String>>>, try_inner: Rc<Cell<bool>> }
fn setup(dm: &Def, db: &Def) -> W {
    let small = |n| StackConfig::fixed(n);
    let mut w = World::new(Config::new().with_value_stack_32(small(40)).with_value_stack_64(small(40)).with_value_stack_128(small(20)).with_call_stack(small(FRAMES)));
    w.rs.max_depth = FRAMES + 1;
    let bad: Rc<RefCell<Option<String>>> = Default::default();
    let try_inner: Rc<Cell<bool>> = Default::default();
    let log = w.log.clone();
    let (ti, bd) = (try_inner.clone(), bad.clone());
    let slot: Rc<RefCell<Option<(Function, Function)>>> = Default::default();
    let rslot: Rc<Cell<(usize, usize)>> = Default::default();
    let s1 = slot.clone();
    let tick = w.host_fn(&[I32], &[I32], Rc::new(|s, _, a| { s.log.push(format!("tick{a:x?}")); Ok(vec![a[0] + 1]) }), Rc::new(move |mut ctx, a| {
        log.borrow_mut().push(format!("tick{a:x?}"));
        if ti.get() {
            // plain and resumable calls on the store of a running call are refused and change nothing
            let f = s1.borrow().clone().unwrap().0;
            if f.call(ctx.store_mut(), &[WasmValue::I32(1)]).is_ok() { *bd.borrow_mut() = Some("a plain call inside a running call succeeded".into()) }
            if f.call_resumable(ctx.store_mut(), &[WasmValue::I32(1)]).is_ok() { *bd.borrow_mut() = Some("a resumable call inside a running call succeeded".into()) }
        }
        Ok(vec![a[0] + 1])
    }));
    let fail = w.host_log("fail", &[I32], &[I32], Err("failed"));
    let (s1, r1) = (slot.clone(), rslot.clone());
    let nest = w.host_fn(&[I32], &[I32], Rc::new(move |s, _, a| s.invoke(r1.get().0, a)), Rc::new(move |mut ctx, a| { let f = s1.borrow().clone().unwrap().0; Ok(vec![from_wv(&ctx.call_untyped(&f, &[WasmValue::I32(a[0] as i32)])?[0]).1]) }));
    let (s1, r1) = (slot.clone(), rslot.clone());
    // the trap of the nested call is replaced by an error of the host
    let nest_trap = w.host_fn(&[I32], &[I32], Rc::new(move |s, _, a| { let l = s.log.len(); match s.invoke(r1.get().1, a) { Ok(v) => Ok(v), Err(_) => { let _ = l; Err(Trap::Host("nested".into())) } } }), Rc::new(move |mut ctx, a| { let f = s1.borrow().clone().unwrap().1; match ctx.call_untyped(&f, &[WasmValue::I32(a[0] as i32)]) { Ok(v) => Ok(vec![from_wv(&v[0]).1]), Err(_) => Err(tinywasm::Error::Other("nested".into())) } }));
    let g = w.host_global(I64, true, 0).expect("global");
    let ib = w.instantiate(db, &[Some(g.clone())], true).expect("b").expect("b");
    let b0 = w.item(ib, "f0");
    let i = w.instantiate(dm, &[Some(tick), Some(fail), Some(nest), Some(nest_trap), Some(b0), Some(g)], true).expect("a").expect("a");
    let (Item::Func(ra, fa), Item::Func(rb, fb)) = (w.item(i, "rec"), w.item(i, "deep_trap")) else { unreachable!() };
    *slot.borrow_mut() = Some((fa, fb));
    rslot.set((ra, rb));
    let mut s = tinywasm::Store::default();
    let other = ModuleInstance::instantiate(&mut s, &Def::new(&{ let mut m = Module::default(); for _ in 0..12 { m.func(&[I32], &[I32], &[], vec![Op::LGet(0)]); } m.export("f", EK::Func, 11); m }, Opts::ON).expect("module").tm, None).expect("other").func_untyped(&s, "f").expect("f");
    W { w, i, other, bad, try_inner }
}
/// Resumes a handle whose call has ended: every way must give an error.
fn after(e: &mut FuncExecution<'_>, bad: &RefCell<Option<String>>) {
    for k in 0..5 {
        let r = match k { 0 => e.resume_with_fuel(1000), 1 => e.resume_with_time_budget(Duration::from_secs(1)), 2 => e.resume_with_fuel(0), 3 => e.resume_with_time_budget(Duration::ZERO), _ => e.resume_with_fuel(u32::MAX) };
        match r { Err(_) => {} Ok(ExecProgress::Completed(v)) => { bad.borrow_mut().get_or_insert(format!("resuming an ended call completed with {v:?}")); } Ok(ExecProgress::Suspended) => { bad.borrow_mut().get_or_insert("resuming an ended call suspended".into()); } }
    }
}
fn step(x: &mut W, a: &Act) -> Result<u64, String> {
    let bad = x.bad.clone();
    let mut out = None;
    match a {
        Act::Run(f, how) => {
            let (_, name, arg) = FUNCS[*f];
            let item = x.w.item(x.i, name);
            out = Some(x.w.call_via(&item, &[arg as u32 as u128], |h, s, args| {
                if *how == How::Plain { return h.call(s, args); }
                let mut e = h.call_resumable(s, args)?;
                loop {
                    let r = match how { How::Resumed(n) => e.resume_with_fuel(*n), _ => e.resume_with_time_budget(Duration::from_nanos(1)) };
                    match r { Ok(ExecProgress::Suspended) => {} Ok(ExecProgress::Completed(v)) => { after(&mut e, &bad); return Ok(v) } Err(t) => { after(&mut e, &bad); return Err(t) } }
                }
            })?);
        }
        Act::Cut(f, how) => {
            let (_, name, arg) = ENDLESS[*f];
            let Item::Func(_, h) = x.w.item(x.i, name) else { unreachable!() };
            let store = &mut x.w.store;
            let r = guard(|| -> Result<(), String> {
                let mut e = h.call_resumable(store, &[WasmValue::I32(arg)]).map_err(|e| e.to_string())?;
                let (n, fuel) = match how { How::Dropped(n, f) => (*n, *f), _ => (1, 50) };
                for _ in 0..n { match if fuel == 0 { e.resume_with_time_budget(Duration::from_nanos(1)) } else { e.resume_with_fuel(fuel) } { Ok(ExecProgress::Suspended) => {} Ok(_) => return Err("completed".into()), Err(e) => return Err(e.to_string()) } }
                if *how == How::Forgotten { std::mem::forget(e) }
                Ok(())
            });
            r.map_err(|p| format!("panic: {p}"))??;
            // its only effect is the counter
            let g = from_wv(&x.w.globals[0].1.get(&x.w.store).map_err(|e| e.to_string())?).1;
            let a = x.w.globals[0].0;
            let old = x.w.rs.globals[a].v;
            let (most, least) = match how { How::Dropped(0, _) => (0, 0), How::Dropped(_, 0) => (1 << 40, 0), How::Dropped(n, f) => (*n as u128 * (*f as u128 + 128), 0), _ => (200, 0) };
            if g < old + least || g > old + most { return Err(format!("the counter went from {old} to {g}; at most {most} instructions were allowed")); }
            x.w.rs.globals[a].v = g;
        }
        Act::Refused(k) => {
            let Item::Func(_, id) = x.w.item(x.i, "id") else { unreachable!() };
            let (other, inst) = (x.other.clone(), x.w.insts[x.i].1.clone());
            let store = &mut x.w.store;
            let r = guard(|| -> Result<(), String> {
                let no = |ok: bool, what: &str| if ok { Err(format!("{what} was accepted")) } else { Ok(()) };
                match k {
                    0 => no(id.call(store, &[]).is_ok() || id.call(store, &[WasmValue::I32(1), WasmValue::I32(1)]).is_ok(), "a wrong number of arguments"),
                    1 => no(id.call(store, &[WasmValue::I64(1)]).is_ok(), "a wrong type"),
                    2 => no(id.call_resumable(store, &[WasmValue::F32(1.0)]).is_ok() || id.call_resumable(store, &[]).is_ok(), "a wrong argument"),
                    3 => no(FuncContext::new(store, inst.id()).call_untyped(&id, &[WasmValue::I32(1)]).is_ok(), "a nested call outside a call"),
                    4 => Ok(()),
                    _ => no(other.call(store, &[WasmValue::I32(1)]).is_ok() || other.call_resumable(store, &[WasmValue::I32(1)]).is_ok(), "a handle of another store"),
                }
            });
            r.map_err(|p| format!("panic: {p}"))??;
            if *k == 4 { x.try_inner.set(true); let f = x.w.item(x.i, "tick"); out = Some(x.w.call(&f, &[3])?); let f = x.w.item(x.i, "count"); x.w.call(&f, &[3])?; x.try_inner.set(false) }
        }
    }
    if let Some(b) = bad.borrow_mut().take() { return Err(b); }
    x.w.check()?;
    // the store is as good as new: recursion to exactly the limit succeeds, one more is exhaustion, directly and from a host
    for (name, n) in [("nest", FRAMES as u128 - 2), ("probe", FRAMES as u128), ("probe", FRAMES as u128 + 1), ("probe", 0)] {
        let f = x.w.item(x.i, name);
        x.w.call(&f, &[n]).map_err(|e| format!("afterwards, {name}({n}): {e}"))?;
    }
    x.w.check()?;
    let len = x.w.rs.log.len();
    if len > 64 { x.w.rs.log.clear(); x.w.log.borrow_mut().clear() }
    Ok(hash(&(format!("{out:?}"), x.w.rs.globals[x.w.globals[1].0].v, &x.w.rs.log, format!("{a:?}"))))
}

pub fn run(c: &Check) {
    let acts = acts();
    let n = acts.len();
    let depth = 3;
    if c.tier == Tier::Thorough {
        let few: Vec<Act> = acts.iter().filter(|a| !matches!(a, Act::Run(_, How::Resumed(1_000_000) | How::Timed) | Act::Cut(_, How::Dropped(1, 1) | How::Dropped(1, 0)))).cloned().collect();
        c.par(few.len(), |j, l| {
            let (m, b) = modules();
            let (dm, db) = match (Def::new(&m, Opts::ON), Def::new(&b, Opts::ON)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => { c.violation("parse", e, hex(&encode(&m))); return } };
            histories(c, l, "deep", 4, few.len(), Some(j), &|| setup(&dm, &db), &|w, a| step(w, &few[a]), &|a| show(&few[a]));
        });
        c.bound(format!("deep histories: every sequence of up to 4 of {} of the actions", few.len()));
    }
    c.par(n * 2, |j, l| {
        let (m, b) = modules();
        let o = [Opts::ON, Opts::OFF][j % 2];
        let (dm, db) = match (Def::new(&m, o), Def::new(&b, o)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => { c.violation("parse", e, hex(&encode(&m))); return } };
        histories(c, l, if o.rewrite { "optimized" } else { "plain" }, depth, n, Some(j / 2), &|| setup(&dm, &db), &|w, a| step(w, &acts[a]), &|a| show(&acts[a]));
    });
    c.bound(format!("histories: every sequence of up to {depth} of {n} actions ({} functions run plainly, resumed in small, large and timed slices, and resumed again in 5 ways after their end; {} endless ones dropped or forgotten at 5 points; {} refused uses), stacks of {FRAMES} frames and 20 to 40 slots, followed each time by calls that need exactly the whole call stack", FUNCS.len(), ENDLESS.len(), REFUSED.len()));
    c.assume("a dropped call may have executed any number of instructions its slices allowed; its effect is read back");
}
