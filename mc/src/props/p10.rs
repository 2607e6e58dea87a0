//! P10: every value-stack and call-stack limit. The reference interpreter counts the slots of each width
//! that locals and operands occupy (`peak`), the slots no implementation can do without (`floor`: locals,
//! operands under and arguments of calls, results) and the frames; a limit of at least `peak` must not be
//! noticed, one below `floor` must end in a stack-exhaustion error.
use crate::num::Trap;
use crate::oracle::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::Def;
use std::cell::RefCell;
use std::rc::Rc;
use tinywasm::engine::{Config, StackConfig};
use tinywasm::{ExecProgress, Function, FuncContext, HostFunction, Imports, ModuleInstance, Store};
use VT::{Ext, F32, F64, I32, I64, V128};
const FUNC: VT = VT::Func;

/// What one call needs, by the reference.
#[derive(Clone, Debug)]
struct Need { want: Vec<u128>, peak: [u64; 3], floor: [u64; 3], frames: usize }
fn need(st: &mut RStore, f: usize, args: &[u128], l: &mut Local) -> Need {
    st.track = true;
    st.peak = [0; 3];
    st.floor = [0; 3];
    st.peak_depth = 0;
    st.steps = 0;
    let want = st.invoke(f, args).expect("programs of this check do not trap");
    l.transitions += st.steps;
    Need { want, peak: st.peak, floor: st.floor, frames: st.peak_depth - 1 }
}
/// A stack-exhaustion error, possibly wrapped by host functions that passed it on.
fn exhausted(e: &tinywasm::Error) -> bool {
    match e {
        tinywasm::Error::Trap(tinywasm::Trap::HostFunction(e)) => e.downcast_ref::<tinywasm::Error>().is_some_and(exhausted),
        tinywasm::Error::Trap(t) => matches!(trap_of(t), Trap::CallStack | Trap::ValueStack | Trap::Oom),
        _ => false,
    }
}
#[derive(Clone, Copy, Debug)]
struct Cfg { v: [StackConfigD; 3], call: StackConfigD }
#[derive(Clone, Copy, Debug, PartialEq)]
struct StackConfigD { init: usize, max: usize, dynamic: bool }
impl StackConfigD {
    fn real(&self) -> StackConfig { let mut s = StackConfig::fixed(0); s.initial_size = self.init; s.max_size = self.max; s.dynamic = self.dynamic; s }
    /// the most elements this configuration may hold
    fn cap(&self) -> u64 { if self.dynamic { self.max as u64 } else { self.init.min(self.max) as u64 } }
}
fn fixed(n: usize) -> StackConfigD { StackConfigD { init: n, max: n, dynamic: false } }
fn dynamic(i: usize, n: usize) -> StackConfigD { StackConfigD { init: i, max: n, dynamic: true } }
const AMPLE: StackConfigD = StackConfigD { init: 0, max: 4096, dynamic: true };
fn real(c: &Cfg) -> Config { Config::new().with_value_stack_32(c.v[0].real()).with_value_stack_64(c.v[1].real()).with_value_stack_128(c.v[2].real()).with_call_stack(c.call.real()) }
/// All ways to express the limit `n`.
fn modes(n: usize) -> Vec<StackConfigD> {
    let mut v = vec![fixed(n), dynamic(0, n)];
    if n >= 2 { v.push(dynamic(n / 2, n)); v.push(dynamic(1, n)); v.push(dynamic(n - 1, n)) }
    v.push(dynamic(n, n));
    v
}
fn judge(n: &Need, c: &Cfg, tys: &[VT], got: Result<Vec<tinywasm::types::WasmValue>, tinywasm::Error>) -> Result<bool, String> {
    let caps = [c.v[0].cap(), c.v[1].cap(), c.v[2].cap()];
    let fits = (0..3).all(|i| n.peak[i] <= caps[i]) && n.frames as u64 <= c.call.cap();
    let exceeds = (0..3).any(|i| n.floor[i] > caps[i]) || n.frames as u64 > c.call.cap();
    match got {
        Ok(v) => {
            if exceeds { return Err(format!("succeeded although the limits are exceeded: limits {caps:?} slots and {} frames, needed at least {:?} slots and {} frames", c.call.cap(), n.floor, n.frames)) }
            let o = vals_out(Some(tys), Ok(v));
            if o != Out::Vals(n.want.clone()) { return Err(format!("got {o:x?}, expected {:x?}", n.want)) }
            Ok(true)
        }
        Err(e) if exhausted(&e) => if fits { Err(format!("stack exhaustion although everything fits: limits {caps:?} slots and {} frames, needed {:?} slots and {} frames", c.call.cap(), n.peak, n.frames)) } else { Ok(false) },
        Err(e) => Err(format!("unexpected error {e}")),
    }
}

fn base() -> Module {
    let mut m = Module::default();
    m.import_func("h", "h", &[I32], &[I64, I32]);
    m.import_func("h", "hv", &[V128, I64], &[V128, V128, F32]);
    m.mem(Limits::new(0, Some(1)));
    m.table(FUNC, Limits::new(2, None));
    m.global(I32, true, Op::I32C(7));
    m.global(I64, true, Op::I64C(8));
    m.global(V128, true, Op::VConst(9));
    m.global(Ext, true, Op::RefNull(Ext));
    m.func(&[I32, I64], &[I64, I32], &[V128, I32, F64], vec![Op::LGet(1), Op::LGet(0), Op::I32C(1), num("i32.add")]);
    m.func(&[V128], &[V128, I32], &[], vec![Op::LGet(0), Op::I32C(3)]);
    m.func(&[], &[], &[I64, I64, F32], vec![]);
    m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: FUNC, items: vec![vec![Op::RefFunc(2)], vec![Op::RefFunc(3)]] });
    m
}
/// The host functions on both sides.
fn host_ref(st: &mut RStore) -> [Option<crate::oracle::Ext>; 2] {
    let a = st.host(&[I32], &[I64, I32], |_, _, a| Ok(vec![a[0] + 5, a[0]]));
    let b = st.host(&[V128, I64], &[V128, V128, F32], |_, _, a| Ok(vec![a[1], a[0], 1]));
    [Some(a), Some(b)]
}
fn host_real(s: &mut Store) -> Imports {
    use tinywasm::types::{FuncType, WasmType as W, WasmValue as V};
    let mut i = Imports::new();
    let h = HostFunction::from(s, |_: FuncContext<'_>, x: i32| Ok((x as i64 + 5, x)));
    i.define("h", "h", h);
    let hv = HostFunction::from_untyped(s, &FuncType::new(&[W::V128, W::I64], &[W::V128, W::V128, W::F32]), |_, a| { let (V::V128(v), V::I64(n)) = (&a[0], &a[1]) else { panic!() }; Ok(vec![V::V128((*n as u64 as u128).to_le_bytes()), V::V128(*v), V::F32(f32::from_bits(1))]) });
    i.define("h", "hv", hv);
    i
}

/// Every short program over instructions that push, with every limit around what it needs.
fn programs(c: &Check) {
    let m0 = base();
    let (pp, ll) = ([I32, I64, V128], [I32, V128]);
    let locals: Vec<VT> = pp.iter().chain(&ll).copied().collect();
    let atoms: Vec<Vec<Op>> = vec![
        vec![Op::I32C(1)], vec![Op::F64C(2)], vec![Op::VConst(3)], vec![Op::LGet(0)], vec![Op::LGet(1)], vec![Op::LGet(2)], vec![Op::LGet(0), Op::LGet(3)], vec![Op::GGet(0)], vec![Op::GGet(1)], vec![Op::GGet(2)], vec![Op::RefNull(Ext)], vec![Op::RefFunc(2), Op::RefIsNull],
        vec![Op::MemSize(0)], vec![Op::TableSize(0)], vec![Op::Drop], vec![Op::LTee(3)], vec![Op::LSet(4)], vec![num("i32.add")], vec![Op::Select], vec![Op::Call(0)], vec![Op::Call(1)], vec![Op::Call(2)], vec![Op::Call(3)], vec![Op::Call(4)],
        vec![Op::I32C(0), Op::CallIndirect { ty: 2, table: 0 }], vec![Op::F32C(1)], vec![Op::I64C(1), Op::I64C(2)], vec![Op::V(17)], vec![Op::V(14)],
        vec![Op::Block(BT::Val(I32)), Op::I32C(1), Op::I64C(9), Op::I32C(2), Op::LGet(0), Op::BrIf(0), Op::Drop, Op::Drop, Op::End],
    ];
    let max_len = c.pick(4, 5);
    let mut m1 = m0.clone();
    let ty2 = m1.ty(&[I32, I64], &[I64, I32]);
    let atoms: Vec<Vec<Op>> = atoms.into_iter().map(|a| a.into_iter().map(|o| match o { Op::CallIndirect { table, .. } => Op::CallIndirect { ty: ty2, table }, o => o }).collect()).collect();
    let spec = crate::enumr::Spec { env: crate::enumr::Env { m: &m0, locals: &locals }, results: None, atoms: &atoms, max_len, max_stack: 8, max_ctl: 0, max_dead: 0, min_len: 0 };
    // control inside an atom needs a label
    let spec = crate::enumr::Spec { max_ctl: 1, ..spec };
    let mut short = vec![];
    let jobs = spec.prefixes(2, &mut |b, r| short.push((b.to_vec(), r.to_vec())));
    let total = std::sync::atomic::AtomicU64::new(0);
    let run = |l: &mut Local, progs: &[(Vec<Op>, Vec<VT>)]| {
        if progs.is_empty() { return }
        total.fetch_add(progs.len() as u64, std::sync::atomic::Ordering::Relaxed);
        let mut m = m0.clone();
        let n0 = 5;
        let mut types: std::collections::HashMap<FT, u32> = m.types.iter().cloned().enumerate().map(|(i, t)| (t, i as u32)).collect();
        for (i, (b, r)) in progs.iter().enumerate() {
            let ft = FT { params: pp.to_vec(), results: r.clone() };
            let ty = *types.entry(ft.clone()).or_insert_with(|| { m.types.push(ft); m.types.len() as u32 - 1 });
            m.funcs.push(Func { ty, locals: ll.to_vec(), body: b.clone() });
            m.export(&format!("p{i}"), EK::Func, n0 + i as u32);
        }
        let args = [3u128, 4, 5 << 70];
        let mut st = RStore::new();
        let im = host_ref(&mut st);
        let ri = st.instantiate(&Rc::new(m.clone()), &im).expect("instantiate");
        let needs: Vec<Need> = (0..progs.len()).map(|i| { let f = st.func(ri, &format!("p{i}")); need(&mut st, f, &args, l) }).collect();
        let (lo, hi) = needs.iter().fold(([99u64; 3], [0u64; 3]), |(mut a, mut b), n| { for i in 0..3 { a[i] = a[i].min(n.floor[i]); b[i] = b[i].max(n.peak[i]) } (a, b) });
        for o in [Opts::ON, Opts::OFF] {
            let d = match Def::new(&m, o) { Ok(d) => d, Err(e) => { c.violation("parse", e, hex(&encode(&m))); return } };
            let mut cfgs = vec![];
            for lane in 0..3 { for n in lo[lane].saturating_sub(1)..=hi[lane] { for md in modes(n as usize) { let mut v = [AMPLE; 3]; v[lane] = md; cfgs.push(Cfg { v, call: AMPLE }) } } }
            for k in 0..=1 { for md in modes(k) { cfgs.push(Cfg { v: [AMPLE; 3], call: md }) } }
            for cfg in cfgs {
                if c.stopped() { return }
                let mut s = Store::new(tinywasm::Engine::new(real(&cfg)));
                let im = host_real(&mut s);
                let inst = ModuleInstance::instantiate(&mut s, &d.tm, Some(im)).expect("instantiate");
                let wargs = args_wv(&pp, &args);
                for (i, f) in inst.exports().filter_map(|(_, e)| if let tinywasm::ExternItem::Func(f) = e { Some(f) } else { None }).enumerate() {
                    l.traces += 1;
                    let r = guard(|| f.call(&mut s, &wargs)).map_err(|p| format!("panic: {p}")).and_then(|r| judge(&needs[i], &cfg, &progs[i].1, r));
                    match r {
                        Ok(ok) => { l.states.insert(hash(&(ok, format!("{:?}", needs[i]), cfg.v[0].max, cfg.v[1].max, cfg.v[2].max, cfg.call.max))); }
                        Err(e) => { c.violation(format!("prog|{}|{cfg:?}|{}", show_ops(&progs[i].0), o.rewrite), format!("{e}\n{} with {cfg:?}, rewrite={}", show_ops(&progs[i].0), o.rewrite), hex(&encode(&m))); if e.starts_with("panic") { break } }
                    }
                }
            }
        }
    };
    c.par(jobs.len() + 1, |j, l| {
        if j == jobs.len() { run(l, &short); return }
        let mut buf = vec![];
        spec.dfs(&jobs[j], &mut |b, r| { if c.stopped() { return } buf.push((b.to_vec(), r.to_vec())); if buf.len() == 2000 { run(l, &buf); buf.clear() } });
        run(l, &buf);
    });
    c.bound(format!("programs: all {} valid sequences of up to {max_len} of {} pushing, popping and calling steps; every limit from below the minimum need to the full need of each of the three value stacks and the call stack, as fixed and dynamic configurations with 6 initial sizes; all programs of a batch run one after another in one store per configuration, so that each also follows exhausted ones", total.into_inner(), atoms.len()));
}

/// Recursion of several kinds to every depth around every limit, with recovery calls in between.
fn recursion(c: &Check) {
    const SHAPES: [&str; 9] = ["self", "mutual", "other instance", "indirect", "self with locals of all widths", "operands under the call", "through a host function", "tail", "many arguments and results"];
    let depths: Vec<usize> = c.pick(vec![0, 1, 2, 5, 9], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33]);
    c.par(SHAPES.len() * 2, |j, l| {
        let (shape, o) = (j / 2, [Opts::ON, Opts::OFF][j % 2]);
        // two modules; a exports f, b exports g
        let nargs = if shape == 8 { 6 } else { 1 };
        let pt: Vec<VT> = [I32, I64, V128, I32, F64, V128][..nargs].to_vec();
        let rt: Vec<VT> = if shape == 8 { vec![I64, I32, V128, I64] } else { vec![I32] };
        let dec = vec![Op::LGet(0), Op::I32C(1), num("i32.sub")];
        let rest: Vec<Op> = (1..nargs as u32).map(Op::LGet).collect();
        let mut a = Module::default();
        let h = a.import_func("h", "h", &[I32], &[I32]);
        a.table(FUNC, Limits::new(2, None));
        let ty = a.ty(&pt, &rt);
        let bt = match &rt[..] { [t] => BT::Val(*t), _ => BT::Type(a.ty(&[], &rt)) };
        let leaf = if shape == 8 { vec![Op::LGet(1), Op::LGet(3), Op::LGet(2), Op::LGet(1)] } else { vec![Op::I32C(100)] };
        let body = |call: Op, shape: usize| -> Vec<Op> {
            let mut b = vec![Op::LGet(0), Op::If(bt)];
            if shape == 5 { b.extend([Op::I64C(1), Op::VConst(2), Op::F32C(3), Op::I32C(4), Op::F64C(5)]) }
            b.extend(dec.clone());
            b.extend(rest.clone());
            if matches!(call, Op::CallIndirect { .. } | Op::ReturnCallIndirect { .. }) { b.push(Op::I32C(1)) }
            b.push(call);
            match shape {
                5 => b.extend([Op::LSet(0), Op::Drop, Op::LGet(0), num("i32.add"), Op::LSet(0), Op::Drop, Op::Drop, Op::Drop, Op::LGet(0)]),
                8 => {}
                7 => {}
                _ => b.extend([Op::I32C(1), num("i32.add")]),
            }
            b.push(Op::Else);
            b.extend(leaf.clone());
            b.push(Op::End);
            b
        };
        let locals: Vec<VT> = if shape == 4 { vec![I64, V128, I32, F64, I64, F32, Ext] } else { vec![] };
        match shape {
            1 => { a.func(&pt, &rt, &[], body(Op::Call(2), 1)); a.func(&pt, &rt, &[I64], body(Op::Call(1), 1)); }
            3 => { a.func(&pt, &rt, &[], body(Op::CallIndirect { ty, table: 0 }, 3)); }
            6 => { a.func(&pt, &rt, &[F64], body(Op::Call(h), 6)); }
            7 => { a.func(&pt, &rt, &[], body(Op::ReturnCallIndirect { ty, table: 0 }, 7)); }
            2 => { a.func(&pt, &rt, &[], body(Op::CallIndirect { ty, table: 0 }, 2)); }
            s => { a.func(&pt, &rt, &locals, body(Op::Call(1), s)); }
        }
        a.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: FUNC, items: vec![vec![Op::RefFunc(1)], vec![Op::RefFunc(1)]] });
        a.export("f", EK::Func, 1);
        a.export("t", EK::Table, 0);
        let mut b = Module::default();
        b.import_func("a", "f", &pt, &rt);
        b.imports.push(Import { module: "a".into(), name: "t".into(), kind: ImportKind::Table(FUNC, Limits::new(0, None)) });
        let bty = b.ty(&[], &rt);
        let save = bt;
        let _ = (bty, save);
        if shape == 2 {
            b.func(&pt, &rt, &[F32], body(Op::Call(0), 2));
            b.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(1)] }, ty: FUNC, items: vec![vec![Op::RefFunc(1)]] });
        }
        // a start function that recurses as deep as the host's memory of it says
        let mut s = Module::default();
        s.import_func("a", "f", &pt, &rt);
        let mut sb: Vec<Op> = vec![Op::I32C(6)];
        for t in &pt[1..] { sb.push(match t { I64 => Op::I64C(0), V128 => Op::VConst(0), F64 => Op::F64C(0), _ => Op::I32C(0) }) }
        sb.push(Op::Call(0));
        for _ in &rt { sb.push(Op::Drop) }
        let sf = s.func(&[], &[], &[], sb);
        s.start = Some(sf);
        let mut rs = RStore::new();
        rs.max_depth = 100_000;
        let slot = Rc::new(std::cell::Cell::new(usize::MAX));
        let s2 = slot.clone();
        let rh = rs.host(&[I32], &[I32], move |s, _, a| s.invoke(s2.get(), a));
        let (ra, rb, rsm) = (Rc::new(a.clone()), Rc::new(b.clone()), Rc::new(s.clone()));
        let ia = rs.instantiate(&ra, &[Some(rh)]).expect("a");
        let fa = rs.func(ia, "f");
        slot.set(fa);
        let exts = [rs.export(ia, "f"), rs.export(ia, "t")];
        rs.instantiate(&rb, &exts).expect("b");
        let mk_args = |n: usize| -> Vec<u128> { let mut v = vec![n as u128]; for (i, _) in pt[1..].iter().enumerate() { v.push(7 + i as u128) } v };
        let needs: Vec<Need> = depths.iter().map(|n| need(&mut rs, fa, &mk_args(*n), l)).collect();
        rs.peak = [0; 3]; rs.floor = [0; 3]; rs.peak_depth = 0;
        rs.instantiate(&rsm, &exts[..1]).expect("start");
        let start_need = Need { want: vec![], peak: rs.peak, floor: rs.floor, frames: rs.peak_depth - 1 };
        let defs: Vec<Def> = match [&a, &b, &s].iter().map(|m| Def::new(m, o)).collect::<Result<_, _>>() { Ok(d) => d, Err(e) => { c.violation(format!("parse {shape}"), e, hex(&encode(&a))); return } };
        let top = needs.last().unwrap().clone();
        let mut cfgs = vec![];
        for lane in 0..3 {
            let lo = needs[0].floor[lane].saturating_sub(1);
            for n in lo..=top.peak[lane] + 1 { for md in modes(n as usize) { let mut v = [AMPLE; 3]; v[lane] = md; cfgs.push(Cfg { v, call: AMPLE }) } }
        }
        for k in 0..=top.frames + 1 { for md in modes(k) { cfgs.push(Cfg { v: [AMPLE; 3], call: md }) } }
        // initial sizes beyond the maximum, and fixed stacks smaller than their maximum
        for (i, x) in [(4, 2, true), (4, 2, false), (2, 6, false), (0, 3, false)].map(|(i, m, d)| (0, StackConfigD { init: i, max: m, dynamic: d })) { let _ = i; cfgs.push(Cfg { v: [AMPLE; 3], call: x }) ; cfgs.push(Cfg { v: [x, AMPLE, AMPLE], call: AMPLE }) }
        for cfg in cfgs {
            if c.stopped() { return }
            let mut st = Store::new(tinywasm::Engine::new(real(&cfg)));
            let cell: Rc<RefCell<Option<Function>>> = Default::default();
            let cc = cell.clone();
            let h = HostFunction::from_untyped(&mut st, &tinywasm::types::FuncType::new(&[tinywasm::types::WasmType::I32], &[tinywasm::types::WasmType::I32]), move |mut ctx, a| { let f = cc.borrow().clone().unwrap(); ctx.call_untyped(&f, a) });
            let mut im = Imports::new();
            im.define("h", "h", h);
            let i = ModuleInstance::instantiate(&mut st, &defs[0].tm, Some(im)).expect("a");
            let f = i.func_untyped(&st, "f").expect("f");
            *cell.borrow_mut() = Some(f.clone());
            let imports = |i: &ModuleInstance, f: &Function| { let mut im = Imports::new(); im.define("a", "f", f.clone()); im.define("a", "t", i.table("t").expect("t")); im };
            ModuleInstance::instantiate(&mut st, &defs[1].tm, Some(imports(&i, &f))).expect("b");
            // every ordered pair of depths, so that every call follows every ending
            let mut order = vec![];
            for x in 0..depths.len() { for y in 0..depths.len() { order.push(x); order.push(y) } }
            order.push(usize::MAX);
            for (k, x) in order.into_iter().enumerate() {
                l.traces += 1;
                let r = guard(|| {
                    if x == usize::MAX { return judge(&start_need, &cfg, &[], ModuleInstance::instantiate(&mut st, &defs[2].tm, Some(imports(&i, &f))).map(|_| vec![])); }
                    let args = args_wv(&pt, &mk_args(depths[x]));
                    let r = if k % 3 == 2 { f.call_resumable(&mut st, &args).and_then(|mut e| loop { match e.resume_with_fuel(100) { Ok(ExecProgress::Completed(v)) => break Ok(v), Ok(_) => {} Err(e) => break Err(e) } }) } else { f.call(&mut st, &args) };
                    judge(&needs[x], &cfg, &rt, r)
                }).unwrap_or_else(|p| Err(format!("panic: {p}")));
                match r {
                    Ok(ok) => { l.states.insert(hash(&(shape, x, ok, cfg.v[0].max, cfg.v[1].max, cfg.v[2].max, cfg.call.max))); }
                    Err(e) => {
                        let d = if x == usize::MAX { "the start function".to_string() } else { format!("depth {}", depths[x]) };
                        c.violation(format!("rec|{}|{d}|{cfg:?}|{}", SHAPES[shape], o.rewrite), format!("{e}\nrecursion {}, {d}, {cfg:?}, rewrite={}, call {k} of the store", SHAPES[shape], o.rewrite), hex(&encode(&a)));
                        break;
                    }
                }
            }
        }
        l.sample(|| format!("recursion {}: depths {depths:?} need {:?}", SHAPES[shape], needs.iter().map(|n| (n.peak, n.floor, n.frames)).collect::<Vec<_>>()));
    });
    c.bound(format!("recursion: {} kinds to depths {depths:?}, under every limit of each stack from below the need of the shallowest to above that of the deepest call in 6 configuration forms; every ordered pair of depths on one store, by plain and by resumed calls, and in a start function", SHAPES.len()));
}

/// The default limits and large dynamic ones.
fn large(c: &Check) {
    let cfgs: Vec<(&str, Config, [u64; 3], u64)> = vec![
        ("default", Config::new(), [36 * 1024, 32 * 1024, 4 * 1024], 1024),
        ("dynamic", Config::new().with_value_stack(StackConfig::dynamic(1, 100_000)).with_call_stack(StackConfig::dynamic(0, 30_000)), [100_000; 3], 30_000),
        ("fixed", Config::new().with_value_stack(StackConfig::fixed(50_000)).with_call_stack(StackConfig::fixed(20_000)), [50_000; 3], 20_000),
    ];
    // locals per frame of each width
    let frames = [(0, 0, 0), (40, 0, 0), (0, 36, 0), (0, 0, 5), (3, 3, 3), (400, 1, 0), (0, 0, 60)];
    c.par(cfgs.len() * frames.len() * 2, |j, l| {
        let cfgs: Vec<(&str, Config, [u64; 3], u64)> = vec![
            ("default", Config::new(), [36 * 1024, 32 * 1024, 4 * 1024], 1024),
            ("dynamic", Config::new().with_value_stack(StackConfig::dynamic(1, 100_000)).with_call_stack(StackConfig::dynamic(0, 30_000)), [100_000; 3], 30_000),
            ("fixed", Config::new().with_value_stack(StackConfig::fixed(50_000)).with_call_stack(StackConfig::fixed(20_000)), [50_000; 3], 20_000),
        ];
        let (name, cfg, caps, calls) = &cfgs[j % 3];
        let (n32, n64, n128) = frames[j / 3 % frames.len()];
        let o = [Opts::ON, Opts::OFF][j / 3 / frames.len()];
        let mut m = Module::default();
        let mut locals = vec![];
        for _ in 0..n32 { locals.push(I32) }
        for _ in 0..n64 { locals.push(F64) }
        for _ in 0..n128 { locals.push(V128) }
        m.func(&[I32], &[I32], &locals, vec![Op::LGet(0), Op::If(BT::Val(I32)), Op::LGet(0), Op::I32C(1), num("i32.sub"), Op::Call(0), Op::I32C(1), num("i32.add"), Op::Else, Op::I32C(5), Op::End]);
        m.export("f", EK::Func, 0);
        let mut rs = RStore::new();
        let ri = rs.instantiate(&Rc::new(m.clone()), &[]).expect("instantiate");
        let f = rs.func(ri, "f");
        // the depth at which each limit is met, from two small runs (the need is linear in the depth)
        let (a, b) = (need(&mut rs, f, &[10], l), need(&mut rs, f, &[11], l));
        let mut edges = vec![*calls as i64];
        for i in 0..3 { for (p, q) in [(a.peak[i], b.peak[i]), (a.floor[i], b.floor[i])] { if q > p { edges.push((caps[i] as i64 - p as i64) / (q - p) as i64 + 10) } } }
        let e = *edges.iter().min().unwrap();
        let d = match Def::new(&m, o) { Ok(d) => d, Err(x) => { c.violation("parse", x, hex(&encode(&m))); return } };
        let mut st = Store::new(tinywasm::Engine::new(cfg.clone()));
        let inst = ModuleInstance::instantiate(&mut st, &d.tm, None).expect("instantiate");
        let h = inst.func_untyped(&st, "f").expect("f");
        for n in [e - 2, e - 1, e, e + 1, e + 2, e + 3, 1_000_000, 3, e - 2] {
            let n = n as u64;
            let nd = Need { want: vec![5 + n as u128], peak: [0, 1, 2].map(|i| a.peak[i] + (b.peak[i] - a.peak[i]) * (n.max(10) - 10)), floor: [0, 1, 2].map(|i| a.floor[i] + (b.floor[i] - a.floor[i]) * (n.max(10) - 10)), frames: n as usize };
            let cd = Cfg { v: [0, 1, 2].map(|i| fixed(caps[i] as usize)), call: fixed(*calls as usize) };
            l.traces += 1;
            crate::batch::watch(|| format!("{name} depth {n}"));
            let r = guard(|| judge(&nd, &cd, &[I32], h.call(&mut st, &[tinywasm::types::WasmValue::I32(n as i32)]))).unwrap_or_else(|p| Err(format!("panic: {p}")));
            crate::batch::end_watch();
            match r { Ok(ok) => { l.states.insert(hash(&(j, n, ok))); } Err(x) => { c.violation(format!("large|{name}|{n32},{n64},{n128}|{n}"), format!("{x}\nrecursion to depth {n} with {n32}/{n64}/{n128} locals per frame, {name} configuration"), hex(&encode(&m))); break } }
        }
    });
    c.bound("large limits: the default configuration and stacks of 20000 to 100000 elements, frames with 7 mixes of locals, depths at and around the first limit reached, one million, and shallow calls afterwards");
}

pub fn run(c: &Check) {
    let times = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  {s}", c.start.elapsed().as_secs_f64()) };
    c.assume("a limit between the slots that locals, call operands and results occupy and the slots that all operands occupy may or may not be noticed, because instruction fusion may keep operands off the stack");
    large(c);
    times("large");
    recursion(c);
    times("recursion");
    programs(c);
    times("programs");
}
