//! P08: every signature of up to three parameters and two results (and long ones) through every way of
//! calling, and every small system of mutually recursive functions over every choice of call shapes.
use super::p07::padding;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use VT::{Ext, F32, F64, I32, I64, V128};

const T: [VT; 6] = [I32, I64, F32, F64, V128, Ext];
/// A value of the type; `Ext` values cannot be constants, so they come from global 0.
fn k(t: VT, n: u64) -> Op { match t { I32 => Op::I32C(n as i32 * 77 + 1), I64 => Op::I64C((n as i64 + 1) << 34 | 5), F32 => Op::F32C(0x3f80_0000 + n as u32), F64 => Op::F64C(0x4010_0000_0000_0000 + n), V128 => Op::VConst((n as u128 + 3) << 66 | 9), _ => Op::GGet(0) } }
fn kv(t: VT, n: u64) -> u128 { match k(t, n) { Op::I32C(v) => v as u32 as u128, Op::I64C(v) => v as u64 as u128, Op::F32C(v) => v as u128, Op::F64C(v) => v as u128, Op::VConst(v) => v, _ => 4242 } }
fn ti(t: VT) -> u32 { T.iter().position(|x| *x == t).unwrap() as u32 }
fn tuples(max: usize) -> Vec<Vec<VT>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<VT>> = vec![vec![]];
    for _ in 0..max { last = last.iter().flat_map(|v| T.iter().map(move |t| { let mut v = v.clone(); v.push(*t); v })).collect(); all.extend(last.clone()); }
    all
}
const POS: usize = 3; // parameter positions recorded individually; later ones share the last
/// Global 0: an externref; then `POS` per type for arguments, one per type for fresh locals.
fn globals(m: &mut Module) {
    m.global(Ext, true, Op::RefNull(Ext));
    for t in T { for _ in 0..=POS { m.global(t, true, if t == Ext { Op::RefNull(Ext) } else { k(t, 99) }); } }
    m.func(&[Ext], &[], &[], vec![Op::LGet(0), Op::GSet(0)]);
    let f = m.n_imp(EK::Func) + m.funcs.len() as u32 - 1;
    m.export("setext", EK::Func, f);
}
fn gp(t: VT, i: usize) -> u32 { 1 + ti(t) * (POS as u32 + 1) + i.min(POS - 1) as u32 }
fn gz(t: VT) -> u32 { 1 + ti(t) * (POS as u32 + 1) + POS as u32 }
fn result_of(p: &[VT], r: &[VT], j: usize) -> Option<u32> {
    let same: Vec<u32> = p.iter().enumerate().filter(|(_, t)| **t == r[j]).map(|(i, _)| i as u32).collect();
    (!same.is_empty()).then(|| same[(j + 1) % same.len()])
}
/// Records its arguments and its fresh locals, dirties everything, returns arguments and constants.
fn callee_body(p: &[VT], r: &[VT], first_local: u32, id: u64) -> Vec<Op> {
    let mut b = vec![];
    for (i, t) in p.iter().enumerate() { b.extend([Op::LGet(i as u32), Op::GSet(gp(*t, i))]) }
    for t in T { b.extend([Op::LGet(first_local + ti(t)), Op::GSet(gz(t)), k(t, 50), Op::LSet(first_local + ti(t))]) }
    // operands left below the results
    if id % 2 == 1 { b.extend([Op::I64C(-1), Op::I32C(-1), Op::VConst(u128::MAX - 1)]) }
    for j in 0..r.len() { b.push(match result_of(p, r, j) { Some(i) => Op::LGet(i), None => k(r[j], 200 + j as u64) }) }
    if id % 2 == 1 { b.push(Op::Return) }
    b
}
const KINDS: [&str; 14] = ["call", "call other instance", "call host", "call_indirect", "call_indirect other instance", "call_indirect host", "return_call", "return_call other instance", "return_call host", "return_call_indirect", "return_call_indirect other instance", "return_call_indirect host", "call self", "return_call self"];

fn signatures(c: &Check, ps: &[Vec<VT>], rs: &[Vec<VT>], label: &str) {
    let chunk = 24;
    let nc = rs.len().div_ceil(chunk);
    c.par(ps.len() * nc, |j, l| {
        let p = &ps[j / nc];
        let rs = &rs[j % nc * chunk..rs.len().min((j % nc + 1) * chunk)];
        for o in [Opts::ON, Opts::OFF] {
            let mut h = Module::default();
            globals(&mut h);
            for (id, r) in rs.iter().enumerate() { let f = h.func(p, r, &T, callee_body(p, r, p.len() as u32, id as u64)); h.export(&format!("c{id}"), EK::Func, f) }
            for i in 0..h.globals.len() { h.export(&format!("g{i}"), EK::Global, i as u32) }
            let n = rs.len() as u32;
            let mut m = Module::default();
            for (id, r) in rs.iter().enumerate() { m.import_func("o", &format!("c{id}"), p, r); }
            for (id, r) in rs.iter().enumerate() { m.import_func("h", &format!("h{id}"), p, r); }
            m.table(VT::Func, Limits::new(3 * n as u64, None));
            globals(&mut m);
            let base = 2 * n + 1; // own callees
            for (id, r) in rs.iter().enumerate() { assert_eq!(m.func(p, r, &T, callee_body(p, r, p.len() as u32, id as u64)), base + id as u32); }
            m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: VT::Func, items: (0..n).map(|i| vec![Op::RefFunc(base + i)]).chain((0..2 * n).map(|i| vec![Op::RefFunc(i)])).collect() });
            let cp = [I32, I64, V128, Ext, F32];
            let junk = [I64, V128, I32];
            for (id, r) in rs.iter().enumerate() {
                let id = id as u32;
                let ty = m.ty(p, r);
                for kind in 0..14 {
                    let tail = (6..12).contains(&kind) || kind == 13;
                    let mut b: Vec<Op> = vec![];
                    // nested in a block so that code follows the tail call
                    let args: Vec<Op> = p.iter().enumerate().map(|(i, t)| k(*t, 10 + i as u64)).collect();
                    for t in &junk { b.push(k(*t, 70)) }
                    let inner = if kind >= 12 {
                        // a self-recursive function: parameters P and a flag; the inner activation is the callee proper
                        let selfidx = m.n_imp(EK::Func) + m.funcs.len() as u32;
                        let mut sp = p.clone(); sp.push(I32);
                        let nl = sp.len() as u32;
                        let mut s = vec![Op::LGet(nl - 1), Op::If(BT::Type(m.ty(&[], r)))];
                        for (t, q) in T.iter().zip(0..) { s.extend([k(*t, 33), Op::LSet(nl + q)]) }
                        s.extend([Op::F64C(3), Op::I32C(4)]);
                        s.extend(args.clone());
                        s.push(Op::I32C(0));
                        s.push(if kind == 12 { Op::Call(selfidx) } else { Op::ReturnCall(selfidx) });
                        s.push(Op::Return);
                        s.push(Op::Else);
                        s.extend(callee_body(p, r, nl, id as u64));
                        s.push(Op::End);
                        m.func(&sp, r, &T, s);
                        let mut i: Vec<Op> = p.iter().map(|t| k(*t, 60)).collect();
                        i.extend([Op::I32C(1), Op::Call(selfidx)]);
                        i
                    } else {
                        let mut i = args.clone();
                        let f = [base + id, id, n + id][kind % 3];
                        match kind { 0..=2 => i.push(Op::Call(f)), 6..=8 => i.push(Op::ReturnCall(f)),
                            _ => { i.push(Op::I32C([id, n + id, 2 * n + id][kind % 3] as i32)); i.push(if kind < 6 { Op::CallIndirect { ty, table: 0 } } else { Op::ReturnCallIndirect { ty, table: 0 } }) } }
                        i
                    };
                    let mut full = junk.to_vec();
                    full.extend(r);
                    let caller = if tail && kind < 12 {
                        // the tail call sits in a block; executing what follows it is visible
                        b.push(Op::Block(BT::Empty));
                        b.push(Op::I64C(8));
                        b.extend(inner);
                        b.push(Op::End);
                        b.push(Op::Unreachable);
                        let mut bb = vec![k(I32, 5), Op::LSet(cp.len() as u32)];
                        bb.extend(b.clone());
                        m.func(&cp, r, &T, bb)
                    } else {
                        b.extend(inner);
                        for i in 0..cp.len() { b.push(Op::LGet(i as u32)) }
                        let mut res = full.clone(); res.extend(cp);
                        m.func(&cp, &res, &[F64], b)
                    };
                    // the outermost caller keeps operands and locals of its own
                    let mut ob: Vec<Op> = vec![];
                    for t in &junk { ob.push(k(*t, 71)) }
                    for (q, t) in cp.iter().enumerate() { ob.push(k(*t, 80 + q as u64)) }
                    ob.push(Op::Call(caller));
                    for (q, t) in cp.iter().enumerate() { ob.extend([Op::LGet(q as u32)]); let _ = t; }
                    let mut ores = junk.to_vec();
                    ores.extend(m.func_type(caller).results.clone());
                    ores.extend(cp);
                    let f = m.func(&cp, &ores, &[], ob);
                    m.export(&format!("x{id}_{kind}"), EK::Func, f);
                }
            }
            // fills the whole operand stack with junk
            let mut dirt = vec![];
            for q in 0..40 { for t in T { dirt.push(k(t, q)) } }
            for _ in 0..240 { dirt.push(Op::Drop) }
            let f = m.func(&[], &[], &[I32, I64, V128, F32, F64], dirt);
            m.export("dirt", EK::Func, f);
            for i in 0..m.globals.len() { m.export(&format!("g{i}"), EK::Global, i as u32) }
            let r: Result<(), (String, String)> = (|| {
                let e = |s: String| ("setup".to_string(), s);
                let defs = [Def::new(&padding(), o).map_err(e)?, Def::new(&h, o).map_err(e)?, Def::new(&m, o).map_err(e)?];
                let mut w = World::new(tinywasm::engine::Config::default());
                w.instantiate(&defs[0], &[], true).map_err(e)?;
                w.instantiate(&defs[1], &[], true).map_err(e)?;
                let mut items: Vec<Option<Item>> = (0..n).map(|i| Some(w.item(1, &format!("c{i}")))).collect();
                for r in rs.iter() {
                    let out: Vec<u128> = r.iter().enumerate().map(|(j, t)| kv(*t, 300 + j as u64)).collect();
                    items.push(Some(w.host_log("host", p, r, Ok(out))));
                }
                w.instantiate(&defs[2], &items, true).map_err(e)?;
                w.call_name(1, "setext", &[4243]).map_err(e)?;
                w.call_name(2, "setext", &[4244]).map_err(e)?;
                w.check().map_err(e)?;
                let args: Vec<u128> = cp.iter().enumerate().map(|(q, t)| kv(*t, 90 + q as u64)).collect();
                for (id, r) in rs.iter().enumerate() { for kind in 0..14 {
                    if c.stopped() { return Ok(()) }
                    l.traces += 1;
                    let s0 = w.rs.steps;
                    let name = format!("x{id}_{kind}");
                    let key = || (format!("{label}|{p:?}->{r:?}|{}|rewrite={}", KINDS[kind], o.rewrite), String::new());
                    w.call_name(2, "dirt", &[]).map_err(|x| (key().0, x))?;
                    let out = w.call_name(2, &name, &args).and_then(|o| w.check().map(|()| o)).map_err(|x| (key().0, format!("{x}\n{} with parameters {p:?} results {r:?}, export {name}", KINDS[kind])))?;
                    l.transitions += w.rs.steps - s0;
                    l.states.insert(hash(&(w.state_hash(), out)));
                    w.rs.log.clear();
                    w.log.borrow_mut().clear();
                } }
                Ok(())
            })();
            if let Err((key, e)) = r { c.violation(key, e, hex(&encode(&m))) }
        }
    });
    c.bound(format!("{label}: {} parameter lists x {} result lists over {{i32,i64,f32,f64,v128,externref}} x {} call forms x rewriting on and off; arguments, fresh locals, results, the caller's and its caller's operands and locals all compared", ps.len(), rs.len(), KINDS.len()));
}

/// Three functions (two in one instance, one in another, sharing a table), each with every call shape to every target.
fn recursion(c: &Check) {
    // shapes: 0 leaf-combining call, 1 call twice, 2 tail, 3 indirect call, 4 indirect tail, 5 tail through a host call before, 6 call in a loop
    const S: usize = 7;
    let total = (S * 3).pow(3);
    c.par(S * 3, |j, l| {
        let show = |x: usize| format!("{} f{}", ["call", "call twice", "return_call", "call_indirect", "return_call_indirect", "host, return_call", "loop of calls"][x % S], x / S);
        for rest in 0..total / (S * 3) {
            if c.stopped() { return }
            let sel = [j, rest % (S * 3), rest / (S * 3)];
            // f(n: i32, acc: i64, v: v128) -> (i64, i32)
            let body = |me: usize, sel: usize, direct: &dyn Fn(usize) -> Option<u32>, host: u32, ty: u32| -> Vec<Op> {
                let (shape, to) = (sel % S, sel / S);
                let mut b = vec![
                    Op::LGet(0), Op::If(BT::Empty), Op::Else, Op::LGet(1), Op::LGet(2), Op::VLane { sub: 27, lane: 1 }, Op::LGet(3), num("i32.add"), Op::Return, Op::End,
                    // a local of the frame that must survive nested calls
                    Op::LGet(0), Op::I32C(7), num("i32.mul"), Op::LSet(3),
                ];
                let arg = |mul: i64| vec![Op::LGet(0), Op::I32C(1), num("i32.sub"), Op::LGet(1), Op::I64C(mul), num("i64.mul"), Op::I64C(me as i64 + 1), num("i64.add"), Op::LGet(2)];
                let call = |tail: bool, ind: bool| match (direct(to), ind) {
                    (Some(f), false) => vec![if tail { Op::ReturnCall(f) } else { Op::Call(f) }],
                    _ => vec![Op::I32C(to as i32), if tail { Op::ReturnCallIndirect { ty, table: 0 } } else { Op::CallIndirect { ty, table: 0 } }],
                };
                let combine = vec![Op::LGet(3), num("i32.add"), Op::LSet(3), Op::LGet(0), num("i64.extend_i32_s"), num("i64.add"), Op::LGet(3)];
                match shape {
                    0 | 3 => { b.push(Op::F64C(1)); b.extend(arg(3)); b.extend(call(false, shape == 3)); b.extend(combine); b.extend([Op::LSet(3), Op::LSet(1), Op::Drop, Op::LGet(1), Op::LGet(3)]) }
                    1 => { b.extend(arg(3)); b.extend(call(false, false)); b.extend([Op::LSet(3), Op::LSet(1)]); b.extend(arg(5)); b.extend(call(false, true)); b.extend(combine) }
                    2 | 4 => { b.push(Op::I32C(9)); b.extend(arg(3)); b.extend(call(true, shape == 4)) }
                    5 => { b.extend([Op::LGet(0), Op::Call(host), Op::LSet(3)]); b.extend(arg(7)); b.extend(call(true, false)) }
                    _ => { b.extend([Op::Loop(BT::Empty)]); b.extend(arg(3)); b.extend(call(false, false)); b.extend([Op::LGet(3), num("i32.xor"), Op::LSet(3), Op::LSet(1), Op::LGet(4), Op::I32C(1), num("i32.add"), Op::LTee(4), Op::I32C(2), num("i32.lt_u"), Op::BrIf(0), Op::End, Op::LGet(1), Op::LGet(3)]) }
                }
                b
            };
            let (pp, rr) = ([I32, I64, V128], [I64, I32]);
            let mut a = Module::default();
            let ty = a.ty(&pp, &rr);
            let host = a.import_func("h", "h", &[I32], &[I32]);
            a.table(VT::Func, Limits::new(3, None));
            for me in 0..2 { let b = body(me, sel[me], &|t| (t < 2).then_some(1 + t as u32), host, ty); a.func(&pp, &rr, &[I32, I32], b); }
            a.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: VT::Func, items: vec![vec![Op::RefFunc(1)], vec![Op::RefFunc(2)]] });
            a.export("t0", EK::Table, 0);
            for i in 1..3 { a.export(&format!("f{i}"), EK::Func, i) }
            let mut b = Module::default();
            b.ty(&[F64], &[]);
            let ty = b.ty(&pp, &rr);
            let host = b.import_func("h", "h", &[I32], &[I32]);
            b.import_func("a", "f1", &pp, &rr);
            b.import_func("a", "f2", &pp, &rr);
            b.imports.push(Import { module: "a".into(), name: "t0".into(), kind: ImportKind::Table(VT::Func, Limits::new(3, None)) });
            let body2 = body(2, sel[2], &|t| Some(1 + t as u32), host, ty);
            b.func(&pp, &rr, &[I32, I32], body2);
            b.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(2)] }, ty: VT::Func, items: vec![vec![Op::RefFunc(3)]] });
            b.export("f3", EK::Func, 3);
            for o in [Opts::ON, Opts::OFF] {
                if !o.rewrite && rest % 4 != 0 && c.quick() { continue }
                let mut at = String::new();
                let r: Result<(), String> = (|| {
                    let (da, db) = (Def::new(&a, o)?, Def::new(&b, o)?);
                    let mut w = World::new(tinywasm::engine::Config::default());
                    let h = w.host_log("h", &[I32], &[I32], Ok(vec![11]));
                    w.instantiate(&da, &[Some(h.clone())], true)?;
                    let (f1, f2, t) = (w.item(0, "f1"), w.item(0, "f2"), w.item(0, "t0"));
                    w.instantiate(&db, &[Some(h), Some(f1.clone()), Some(f2), Some(t)], true)?;
                    let tail_only = sel.iter().all(|s| matches!(s % S, 2 | 4 | 5));
                    let ns: &[u128] = if tail_only { &[0, 1, 2, 5, 1100, 2500] } else { &[0, 1, 2, 3, 5] };
                    for n in ns { for (i, f) in [(0, "f1"), (1, "f3")] {
                        at = format!("{f}({n})");
                        w.rs.peak_depth = 0;
                        let s0 = w.rs.steps;
                        w.call_name(i, f, &[*n, 1, 0x77 << 32])?;
                        if tail_only { assert!(w.rs.peak_depth <= 1) }
                        l.traces += 1;
                        l.transitions += w.rs.steps - s0;
                        w.check()?;
                        l.states.insert(w.state_hash());
                        w.rs.log.clear();
                        w.log.borrow_mut().clear();
                    } }
                    Ok(())
                })();
                if let Err(e) = r { c.violation(format!("recursion|{}|{}|{}|{at}|rewrite={}", show(sel[0]), show(sel[1]), show(sel[2]), o.rewrite), format!("{e}\nf0: {}; f1: {}; f2 (other instance): {}; {at}", show(sel[0]), show(sel[1]), show(sel[2])), format!("{} {}", hex(&encode(&a)), hex(&encode(&b)))) }
            }
        }
    });
    c.bound(format!("recursion: all {total} systems of 3 functions over {S} call shapes x 3 targets across two instances, recursion depth 0..5, pure tail-call systems to 2500 calls (more than the call stack holds)"));
}

pub fn run(c: &Check) {
    let times = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  {s}", c.start.elapsed().as_secs_f64()) };
    let (p, r) = if c.quick() { (tuples(3), tuples(2)) } else { (tuples(3), tuples(3)) };
    signatures(c, &p, &r, "signatures");
    times("signatures");
    let r3: Vec<Vec<VT>> = tuples(3).into_iter().filter(|v| v.len() == 3).collect();
    signatures(c, &[vec![], vec![I32], vec![V128, I64]], &r3, "three results");
    // long lists
    let long = |n: usize, step: usize| -> Vec<VT> { (0..n).map(|i| T[i * step % 6]).collect() };
    let ls: Vec<Vec<VT>> = [(4, 1), (7, 1), (12, 5), (13, 1), (16, 3), (17, 1), (33, 1), (64, 5), (130, 1), (260, 5), (300, 6)].iter().map(|(n, s)| long(*n, *s)).collect();
    signatures(c, &ls, &ls, "long lists");
    times("long lists");
    recursion(c);
    times("recursion");
}
