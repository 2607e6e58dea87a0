//! P14: re-entrancy. Every call tree up to a size, alternating host and guest, where every node chooses how the
//! guest reaches the host, how it ends, and whether the host above it swallows its failure.
use crate::num::Trap;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use tinywasm::engine::{Config, StackConfig};
use tinywasm::types::WasmValue;
use tinywasm::{Error, FuncContext, Function, FunctionTyped, ModuleInstance};
use VT::{F32, F64, I32, I64, V128};
const FUNC: VT = VT::Func;

const KINDS: [&str; 7] = ["call", "call_indirect", "tail call", "other instance", "in a block", "host to host", "typed"];
const ENDS: [&str; 6] = ["returns", "traps after the host call", "traps before", "host error", "exhausts the stack before", "wrong host result"];
#[derive(Clone, Debug, Default)]
struct Node { kind: usize, end: usize, swallow: bool, kids: Vec<usize> }

fn guest(other: bool) -> Module {
    let mut m = Module::default();
    let h = m.import_func("h", "h", &[I32], &[I64]);
    if other { m.import_func("x", "pad", &[I32], &[I64]); }
    m.mem(Limits { min: 4, max: None, is64: other, page_log2: Some(0) });
    m.table(FUNC, Limits::new(3, None));
    m.global(I32, true, Op::I32C(if other { 200 } else { 100 }));
    let ty = m.ty(&[I32], &[I64]);
    let inf = m.n_imp(EK::Func);
    m.func(&[], &[], &[I64, V128], vec![Op::I32C(3), Op::F64C(1), Op::VConst(2), Op::Call(inf), Op::Drop, Op::Drop, Op::Drop]);
    // params node, end; locals i64 a, v128 b, f64 c, i32 d, f32 e, i64 r
    let pre = vec![
        Op::LGet(0), num("i64.extend_i32_u"), Op::I64C(0x10001), num("i64.mul"), Op::LSet(2), Op::LGet(0), Op::V(17), Op::LSet(3), Op::LGet(0), num("f64.convert_i32_u"), Op::LSet(4), Op::LGet(0), Op::I32C(7), num("i32.add"), Op::LSet(5), Op::LGet(0), num("f32.convert_i32_u"), Op::LSet(6),
        Op::LGet(1), Op::I32C(2), num("i32.eq"), Op::If(BT::Empty), Op::Unreachable, Op::End, Op::LGet(1), Op::I32C(4), num("i32.eq"), Op::If(BT::Empty), Op::Call(inf), Op::End,
    ];
    let operands = vec![Op::LGet(5), Op::LGet(2), Op::LGet(3), Op::LGet(4), Op::LGet(6)];
    // consumes operands and the host's result
    let addr = |n: i32| if other { Op::I64C(n as i64) } else { Op::I32C(n) };
    let post = [
        vec![Op::LSet(7), Op::LGet(1), Op::I32C(1), num("i32.eq"), Op::If(BT::Empty), Op::I32C(1), Op::I32C(0), num("i32.div_s"), Op::Drop, Op::End],
        vec![num("i32.reinterpret_f32"), num("i64.extend_i32_u"), Op::LGet(7), num("i64.add"), Op::LSet(7), num("i64.reinterpret_f64"), Op::LGet(7), num("i64.xor"), Op::LSet(7), Op::VLane { sub: 29, lane: 1 }, Op::LGet(7), num("i64.add"), Op::LSet(7), Op::LGet(7), Op::I64C(3), num("i64.mul"), num("i64.add"), Op::LSet(7), num("i64.extend_i32_u"), Op::LGet(7), num("i64.add"), Op::LSet(7)],
        // the locals again, the node's own global and memory
        vec![Op::LGet(2), Op::LGet(7), num("i64.add"), Op::LGet(3), Op::VLane { sub: 29, lane: 0 }, num("i64.xor"), Op::LGet(4), num("i64.reinterpret_f64"), num("i64.add"), Op::LGet(5), num("i64.extend_i32_u"), num("i64.add"), Op::LGet(0), num("i64.extend_i32_u"), Op::I64C(13), num("i64.mul"), num("i64.add"), Op::LGet(6), num("i32.reinterpret_f32"), num("i64.extend_i32_u"), num("i64.xor")],
        vec![Op::MemSize(0), if other { Op::Nop } else { num("i64.extend_i32_u") }, num("i64.add"), Op::MemSize(0), addr(1), if other { num("i64.sub") } else { num("i32.sub") }, Op::Mem { op: 0x31, m: MA { align: 0, offset: 0, mem: 0 } }, num("i64.add"), Op::GGet(0), num("i64.extend_i32_u"), num("i64.add"), Op::GGet(0), Op::I32C(1), num("i32.add"), Op::GSet(0)],
    ].concat();
    let locals = [I64, V128, F64, I32, F32, I64];
    let def = |m: &mut Module, name: &str, mid: Vec<Op>, tail: bool| {
        let mut b = pre.clone();
        b.extend(operands.clone());
        b.extend(mid);
        if !tail { b.extend(post.clone()) }
        let f = m.func(&[I32, I32], &[I64], &locals, b);
        m.export(name, EK::Func, f);
        f
    };
    def(&mut m, "k0", vec![Op::LGet(0), Op::Call(h)], false);
    def(&mut m, "k1", vec![Op::LGet(0), Op::I32C(1), Op::CallIndirect { ty, table: 0 }], false);
    def(&mut m, "k2", vec![Op::LGet(0), Op::ReturnCall(h)], true);
    let bt = m.ty(&[I32], &[I64]);
    def(&mut m, "k4", vec![Op::LGet(0), Op::Block(BT::Type(bt)), Op::Loop(BT::Type(bt)), Op::VConst(9), Op::LSet(3), Op::Call(h), Op::I64C(5), Op::LGet(0), Op::BrIf(1), Op::Drop, Op::End, Op::End, Op::LGet(0), Op::V(17), Op::LSet(3)], false);
    m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: FUNC, items: vec![vec![Op::RefFunc(inf)], vec![Op::RefFunc(h)], vec![Op::RefFunc(inf)]] });
    m.export("g0", EK::Global, 0);
    m.export("m0", EK::Mem, 0);
    m
}
fn export_of(kind: usize) -> &'static str { match kind { 1 => "k1", 2 => "k2", 4 => "k4", _ => "k0" } }

/// The innermost cause.
fn root(e: Error) -> Error {
    match e {
        Error::Trap(tinywasm::Trap::HostFunction(b)) => match b.downcast::<Error>() { Ok(e) => root(*e), Err(b) => Error::Other(b.to_string()) },
        Error::InvalidHostFnReturn { .. } => Error::Other("wrong result".into()),
        e => e,
    }
}
fn cause(e: Error) -> String { match root(e) { Error::Trap(t) => format!("{:?}", trap_of(&t)), Error::Other(m) => format!("Host({m:?})"), e => e.to_string() } }

struct W { w: World, a: usize, plan: Rc<RefCell<Vec<Node>>>, bad: Rc<RefCell<Option<String>>>, count: Rc<Cell<u64>> }
const FRAMES: usize = 24;
fn setup(da: &Def, db: &Def) -> Result<W, String> {
    let small = |n| StackConfig::fixed(n);
    let mut w = World::new(Config::new().with_value_stack_32(small(400)).with_value_stack_64(small(400)).with_value_stack_128(small(200)).with_call_stack(small(FRAMES)));
    w.rs.max_depth = FRAMES + 1;
    let plan: Rc<RefCell<Vec<Node>>> = Default::default();
    let bad: Rc<RefCell<Option<String>>> = Default::default();
    let count: Rc<Cell<u64>> = Default::default();
    // reference addresses and real handles by kind; the last is the host function itself
    let raddr: Rc<RefCell<Vec<usize>>> = Default::default();
    let tfun: Rc<RefCell<Vec<Function>>> = Default::default();
    let ttyped: Rc<RefCell<Vec<FunctionTyped<(i32, i32), i64>>>> = Default::default();
    let (p1, ra, cn) = (plan.clone(), raddr.clone(), count.clone());
    let rh: RHost = Rc::new(move |s, inst, a| {
        let id = a[0] as usize;
        let n = p1.borrow()[id].clone();
        cn.set(cn.get() + 1);
        // the module the host sees is its caller's
        let g = if inst == usize::MAX { 0 } else { s.globals[s.insts[inst].globals[0]].v };
        s.log.push(format!("enter {id} from {g}"));
        let mut acc = id as u64;
        for k in &n.kids {
            let kid = p1.borrow()[*k].clone();
            let f = ra.borrow()[kid.kind];
            let args: Vec<u128> = if kid.kind == 5 { vec![*k as u128] } else { vec![*k as u128, kid.end as u128] };
            match s.invoke(f, &args) {
                Ok(v) => acc = acc.wrapping_mul(7).wrapping_add(v[0] as u64),
                Err(t) => { s.log.push(format!("{id}: {k} failed with {t:?}")); if kid.swallow { acc = acc.wrapping_mul(5) } else { return Err(t) } }
            }
        }
        if id % 2 == 1 && inst != usize::MAX { let m = s.insts[inst].mems[0]; s.mems[m].grow(1); let l = s.mems[m].data.len(); s.mems[m].data[l - 1] = acc as u8 | 1 }
        match n.end { 3 => Err(Trap::Host("host".into())), 5 => Err(Trap::Host("wrong result".into())), _ => Ok(vec![acc as u128]) }
    });
    let (p1, tf, tt, log, bd) = (plan.clone(), tfun.clone(), ttyped.clone(), w.log.clone(), bad.clone());
    let ty = tinywasm::types::FuncType::new(&[wt(I32)], &[wt(I64)]);
    let h = tinywasm::HostFunction::from_untyped(&mut w.store, &ty, move |mut ctx: FuncContext<'_>, a| {
        let WasmValue::I32(id) = a[0] else { panic!("argument type") };
        let id = id as usize;
        let n = p1.borrow()[id].clone();
        // a host function called by a host function has no calling module
        let host_called = n.kind == 5;
        let g = if host_called { 0 } else { let WasmValue::I32(g) = ctx.global_get("g0")? else { panic!("global type") }; g };
        log.borrow_mut().push(format!("enter {id} from {g}"));
        let mut acc = id as u64;
        for k in &n.kids {
            let kid = p1.borrow()[*k].clone();
            // a direct call must be refused without effect
            { let f = tf.borrow()[0].clone(); if f.call(ctx.store_mut(), &[WasmValue::I32(0), WasmValue::I32(2)]).is_ok() || f.call_resumable(ctx.store_mut(), &[WasmValue::I32(0), WasmValue::I32(2)]).is_ok() { bd.borrow_mut().get_or_insert("a direct call inside a host function was accepted".into()); } }
            let r = if kid.kind == 6 { let b = tt.borrow(); ctx.call(&b[0], (*k as i32, kid.end as i32)).map(|v| v as u64) } else {
                let f = tf.borrow()[kid.kind].clone();
                let args: Vec<WasmValue> = if kid.kind == 5 { vec![WasmValue::I32(*k as i32)] } else { vec![WasmValue::I32(*k as i32), WasmValue::I32(kid.end as i32)] };
                ctx.call_untyped(&f, &args).map(|v| { if v.len() != 1 { bd.borrow_mut().get_or_insert(format!("{} results", v.len())); } from_wv(&v[0]).1 as u64 })
            };
            match r {
                Ok(v) => acc = acc.wrapping_mul(7).wrapping_add(v),
                Err(e) => { let e = root(e); let s = match &e { Error::Trap(t) => format!("{:?}", trap_of(t)), Error::Other(m) => format!("Host({m:?})"), e => e.to_string() }; log.borrow_mut().push(format!("{id}: {k} failed with {s}")); if kid.swallow { acc = acc.wrapping_mul(5) } else { return Err(e) } }
            }
        }
        if id % 2 == 1 && !host_called { let m = ctx.memory("m0")?; m.grow(ctx.store_mut(), 1)?; let l = m.len(&ctx)?; m.copy_from_slice(ctx.store_mut(), l - 1, &[acc as u8 | 1])?; }
        match n.end { 3 => Err(Error::Other("host".into())), 5 => Ok(vec![WasmValue::I32(1)]), _ => Ok(vec![WasmValue::I64(acc as i64)]) }
    });
    let crate::oracle::Ext::Func(hr) = w.rs.host(&[I32], &[I64], move |s, c, v| rh(s, c, v)) else { unreachable!() };
    w.funcs.insert(hr, h.clone());
    let hi = Item::Func(hr, h.clone());
    let a = w.instantiate(da, &[Some(hi.clone())], true)?.ok_or("a")?;
    let b = w.instantiate(db, &[Some(hi.clone()), Some(hi.clone())], true)?.ok_or("b")?;
    let mut rv = vec![];
    let mut tv = vec![];
    for k in 0..KINDS.len() {
        if k == 5 { rv.push(hr); tv.push(h.clone()); continue }
        let Item::Func(r, t) = w.item(if k == 3 { b } else { a }, export_of(k)) else { unreachable!() };
        rv.push(r);
        tv.push(t);
    }
    ttyped.borrow_mut().push(w.insts[a].1.func::<(i32, i32), i64>(&w.store, "k0").map_err(|e| e.to_string())?);
    *raddr.borrow_mut() = rv;
    *tfun.borrow_mut() = tv;
    Ok(W { w, a, plan, bad, count })
}
/// All ordered trees of n nodes in depth-first numbering, as child lists.
fn shapes(n: usize) -> Vec<Vec<Vec<usize>>> {
    // parent of each node: any node on the rightmost path
    fn go(n: usize, par: &mut Vec<usize>, out: &mut Vec<Vec<Vec<usize>>>) {
        if par.len() == n { let mut v = vec![vec![]; n]; for (i, p) in par.iter().enumerate().skip(1) { v[*p].push(i) } out.push(v); return }
        let mut p = par.len() - 1;
        loop { par.push(p); go(n, par, out); par.pop(); if p == 0 { break } p = par[p] }
    }
    let mut out = vec![];
    go(n, &mut vec![usize::MAX], &mut out);
    out
}
fn show(p: &[Node]) -> String { p.iter().enumerate().map(|(i, n)| format!("{i}: {}, {}{}{}", KINDS[n.kind], ENDS[n.end], if n.swallow && i > 0 { ", swallowed" } else { "" }, if n.kids.is_empty() { String::new() } else { format!(", calls {:?}", n.kids) })).collect::<Vec<_>>().join("; ") }

fn step(x: &mut W, plan: &[Node], mode: usize) -> Result<u64, String> {
    *x.plan.borrow_mut() = plan.to_vec();
    let top = &plan[0];
    let args: Vec<u128> = vec![0, top.end as u128];
    let item = if top.kind == 3 { x.w.item(1, "k0") } else { x.w.item(x.a, export_of(top.kind)) };
    x.w.rs.log.clear();
    x.w.log.borrow_mut().clear();
    let Item::Func(ra, h) = &item else { unreachable!() };
    let want = match x.w.rs.invoke(*ra, &args) { Ok(v) => format!("{v:x?}"), Err(t) => format!("{t:?}") };
    let (h, store) = (h.clone(), &mut x.w.store);
    let a = args_wv(&[I32, I32], &args);
    let n = Cell::new(0);
    let got = guard(|| match mode { 0 => h.call(store, &a), 1 => crate::props::p11::sliced(&h, store, &a, &[crate::props::p11::Slice::Fuel(1)], 10_000, &n), _ => crate::props::p11::sliced(&h, store, &a, &[crate::props::p11::Slice::Time(1)], 10_000, &n) }).map_err(|p| format!("panic: {p}"))?;
    let got = match got { Ok(v) => format!("{:x?}", v.iter().map(|v| from_wv(v).1).collect::<Vec<_>>()), Err(e) => cause(e) };
    if let Some(b) = x.bad.borrow_mut().take() { return Err(b); }
    if got != want { return Err(format!("got {got}, expected {want}; host log {:?}, expected {:?}", x.w.log.borrow(), x.w.rs.log)); }
    x.w.check()?;
    Ok(hash(&(want, &x.w.rs.log)))
}

pub fn run(c: &Check) {
    // choices per node by tree size: (kinds, ends, swallow choices)
    let all_k: Vec<usize> = (0..KINDS.len()).collect();
    let all_e: Vec<usize> = (0..ENDS.len()).collect();
    let sets: Vec<(usize, Vec<usize>, Vec<usize>)> = c.pick(
        vec![(1, all_k.clone(), all_e.clone()), (2, all_k.clone(), all_e.clone()), (3, all_k.clone(), vec![0, 1, 3, 4]), (4, vec![0, 2, 5], vec![0, 1, 4]), (5, vec![0, 3], vec![0, 1])],
        vec![(1, all_k.clone(), all_e.clone()), (2, all_k.clone(), all_e.clone()), (3, all_k.clone(), all_e.clone()), (4, vec![0, 2, 3, 5], vec![0, 1, 3, 4]), (5, vec![0, 2, 3], vec![0, 1]), (6, vec![0, 2], vec![0, 1])]);
    for (n, ks, es) in &sets {
        let sh = shapes(*n);
        let per = ks.len() * es.len() * 2;
        let digits = if *n == 1 { 1 } else { *n };
        let first = ks.len() * es.len();
        c.par(sh.len() * first * 2, |j, l| {
            let o = [Opts::ON, Opts::OFF][j % 2];
            let (shape, d0) = (&sh[j / 2 / first], j / 2 % first);
            if !ks.is_empty() && ks[d0 % ks.len()] >= 5 { return }
            let (da, db) = match (Def::new(&guest(false), o), Def::new(&guest(true), o)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => { c.violation("parse", e, hex(&encode(&guest(false)))); return } };
            let mk = || setup(&da, &db);
            let mut x = match mk() { Ok(x) => x, Err(e) => { c.violation("setup", e, hex(&da.bytes)); return } };
            let mut idx = vec![0usize; digits];
            let mut runs = 0;
            loop {
                if c.stopped() { return }
                let plan: Vec<Node> = (0..*n).map(|i| { let d = if i == 0 { d0 } else { idx[i] }; let (k, r) = (d % ks.len(), d / ks.len()); let (e, s) = (r % es.len(), r / es.len()); Node { kind: ks[k], end: es[e], swallow: s == 1, kids: shape[i].clone() } }).collect();
                // a host function called by the host ends by itself only
                let ok = plan.iter().all(|p| p.kind != 5 || matches!(p.end, 0 | 3 | 5));
                if ok {
                    for mode in 0..3 {
                        l.traces += 1;
                        let before = x.count.get();
                        crate::batch::watch(|| show(&plan));
                        let r = step(&mut x, &plan, mode);
                        crate::batch::end_watch();
                        l.transitions += x.count.get() - before + 1;
                        match r {
                            Ok(h) => { l.states.insert(h); }
                            Err(e) => { c.violation(format!("{}|{mode}|{}", show(&plan), o.rewrite), format!("{e}\ncall tree {}, {}, rewrite={}", show(&plan), ["plain call", "slices of 1 fuel", "time slices"][mode], o.rewrite), hex(&da.bytes)); match mk() { Ok(y) => std::mem::forget(std::mem::replace(&mut x, y)), Err(_) => return } }
                        }
                    }
                    runs += 1;
                    l.sample(|| show(&plan));
                    // the reference grows with every tree only in its memories; start over now and then
                    if runs % 500 == 0 { match mk() { Ok(y) => x = y, Err(e) => { c.violation("setup", e, ""); return } } }
                }
                let mut i = 1;
                loop { if i >= digits { break } idx[i] += 1; if idx[i] < per { break } idx[i] = 0; i += 1 }
                if i >= digits { break }
            }
        });
    }
    c.bound(format!("call trees: all ordered trees of {} nodes; per node a way into the host (of {KINDS:?}), an ending (of {ENDS:?}) and whether the caller swallows a failure: {}", sets.iter().map(|s| s.0.to_string()).collect::<Vec<_>>().join(", "), sets.iter().map(|(n, k, e)| format!("{n} nodes {} x {} x 2", k.len(), e.len())).collect::<Vec<_>>().join(", ")));
    c.bound(format!("each tree plainly, in slices of 1 fuel and in time slices, many in a row on one store with {FRAMES} frames; operands and locals of every width live across every host call, memory grown by the host in between"));
    tight(c);
}

/// Nested calls that fail while their arguments and locals are being pushed: every stack limit, every width.
fn tight(c: &Check) {
    let mut m = Module::default();
    let h = m.import_func("h", "h", &[I32], &[I64]);
    let sigs: [&[VT]; 6] = [&[I32; 6], &[I64; 6], &[V128; 6], &[I32, I64, V128, I64, I32, V128], &[V128, V128, I64, I64, I32, I32], &[]];
    for (i, s) in sigs.iter().enumerate() {
        let mut b = vec![Op::I64C(100)];
        for (j, t) in s.iter().enumerate() { b.push(Op::LGet(j as u32)); match t { I32 => b.push(num("i64.extend_i32_u")), I64 => {} _ => b.push(Op::VLane { sub: 29, lane: 0 }) } b.push(num("i64.add")) }
        for (l, locals) in [&[][..], &[I32, I64, V128], &[I64, I64, V128, V128, I32, I32, I32]].iter().enumerate() { let f = m.func(s, &[I64], locals, b.clone()); m.export(&format!("c{i}.{l}"), EK::Func, f) }
    }
    // operands of every width under the host call, two host calls
    let mut b = vec![];
    for i in 0..3 { b.extend([Op::I64C(1 << (8 * i)), Op::I32C(3 + i as i32), Op::VConst(5 + i as u128), Op::LGet(0)]) }
    // the caller's own peak comes before its first host call
    for _ in 0..4 { b.extend([Op::I64C(1), Op::I32C(1), Op::VConst(1)]) }
    let sink = m.func(&[I64, I32, V128].repeat(4), &[], &[], vec![]);
    b.push(Op::Call(sink));
    b.extend([Op::Call(h), Op::LSet(1), Op::LGet(0), Op::Call(h), Op::LGet(1), num("i64.add"), Op::LSet(1)]);
    for i in 0..3 { if i > 0 { b.push(Op::Drop) } b.extend([Op::VLane { sub: 29, lane: 0 }, Op::LGet(1), num("i64.add"), Op::LSet(1), num("i64.extend_i32_u"), Op::LGet(1), num("i64.add"), Op::LSet(1), Op::LGet(1), num("i64.add"), Op::LSet(1)]) }
    b.push(Op::LGet(1));
    let f = m.func(&[I32], &[I64], &[I64], b);
    m.export("main", EK::Func, f);
    let bytes = encode(&m);
    let top = c.pick(64, 96);
    c.par(4 * top, |j, l| {
        let (lane, n) = (j % 4, j / 4);
        for o in [Opts::ON, Opts::OFF] {
            let tm = match parse(&bytes, o) { Ok(t) => t, Err(e) => { c.violation("tight-parse", e, hex(&bytes)); return } };
            for dynamic in [false, true] {
                let k = if dynamic { let mut s = StackConfig::dynamic(0, n); s.max_size = n; s } else { StackConfig::fixed(n) };
                let cfg = match lane { 0 => Config::new().with_value_stack_32(k), 1 => Config::new().with_value_stack_64(k), 2 => Config::new().with_value_stack_128(k), _ => Config::new().with_call_stack(k) };
                let mut st = tinywasm::Store::new(tinywasm::Engine::new(cfg));
                let target: Rc<RefCell<Option<(Function, Vec<WasmValue>)>>> = Default::default();
                let calls: Rc<RefCell<Vec<u64>>> = Default::default();
                let bad: Rc<RefCell<Option<String>>> = Default::default();
                let (tg, cl, bd) = (target.clone(), calls.clone(), bad.clone());
                let hf = tinywasm::HostFunction::from_untyped(&mut st, &tinywasm::types::FuncType::new(&[wt(I32)], &[wt(I64)]), move |mut ctx, _| {
                    let (f, a) = tg.borrow().clone().unwrap();
                    let want = 100 + a.iter().map(|v| from_wv(v).1 as u64).sum::<u64>();
                    let r = match ctx.call_untyped(&f, &a) {
                        Ok(v) => { let v = from_wv(&v[0]).1 as u64; if v != want { bd.borrow_mut().get_or_insert(format!("nested call gave {v}, expected {want}")); } v }
                        Err(e) => { if !cause(e).contains("Stack") { bd.borrow_mut().get_or_insert("nested call failed, but not by exhaustion".into()); } 0x1_0000_0001 }
                    };
                    cl.borrow_mut().push(r);
                    Ok(vec![WasmValue::I64(r as i64)])
                });
                let mut im = tinywasm::Imports::new();
                im.define("h", "h", hf);
                let Ok(i) = ModuleInstance::instantiate(&mut st, &tm, Some(im)) else { c.violation("tight-inst", "instantiation fails", hex(&bytes)); return };
                let main = i.func_untyped(&st, "main").expect("main");
                for (s, sig) in sigs.iter().enumerate() { for lc in 0..3 { for mode in 0..2 {
                    let f = i.func_untyped(&st, &format!("c{s}.{lc}")).expect("callee");
                    let vals: Vec<u128> = (0..sig.len()).map(|x| 1 << x).collect();
                    *target.borrow_mut() = Some((f, args_wv(sig, &vals)));
                    calls.borrow_mut().clear();
                    l.traces += 1;
                    let cnt = Cell::new(0);
                    let a = [WasmValue::I32(1)];
                    let got = guard(|| if mode == 0 { main.call(&mut st, &a) } else { crate::props::p11::sliced(&main, &mut st, &a, &[crate::props::p11::Slice::Fuel(1)], 10_000, &cnt) });
                    let cs = calls.borrow().clone();
                    l.transitions += cs.len() as u64 + 1;
                    let ok = match (&got, cs.len()) {
                        (Err(p), _) => Err(format!("panic: {p}")),
                        (Ok(Ok(v)), 2) => { let got = from_wv(&v[0]).1 as u64; let want = cs.iter().fold(0u64, |a, b| a.wrapping_add(*b)).wrapping_add(0x10101 + 3 + 4 + 5 + 5 + 6 + 7); if got == want { Ok(()) } else { Err(format!("the caller computed {got:#x}, expected {want:#x} from host results {cs:x?}")) } }
                        (Ok(Ok(_)), k) => Err(format!("success after {k} host calls")),
                        (Ok(Err(Error::Trap(t))), 0) if format!("{:?}", trap_of(t)).contains("Stack") => Ok(()),
                        (Ok(Err(e)), k) => Err(format!("the caller failed after {k} host calls: {}", e.to_string().chars().take(200).collect::<String>())),
                    };
                    let ok = ok.and_then(|()| match bad.borrow_mut().take() { Some(b) => Err(b), None => Ok(()) });
                    l.states.insert(hash(&("tight", lane, n, s, lc, &cs)));
                    if let Err(e) = ok { let w = format!("limit {n} on {}, dynamic {dynamic}, callee {s} with locals set {lc}, mode {mode}, rewrite={}", ["the 32-bit stack", "the 64-bit stack", "the 128-bit stack", "frames"][lane], o.rewrite); c.violation(format!("tight|{w}"), format!("{e}\n{w}"), hex(&bytes)); return }
                } } }
            }
        }
    });
    c.bound(format!("stack limits: every limit 0..{top} of each value stack and of frames, fixed and growing, against 18 nested callees whose parameters and locals fill the stacks, the failure swallowed by the host twice within one call, whole and in slices of 1 fuel"));
}
