//! P22: typed values cross the host boundary only with matching types.
//! Every signature up to the bound × every argument list up to the bound (each through a direct, a resumable and a
//! re-entrant call, to a guest and to a host callee), every declared × returned host result list through every way a
//! host function can be reached, every Rust shape × every signature for typed handles and typed host functions.
//! Refused calls have run nothing (effect counters), accepted ones carry every boundary bit pattern unchanged.
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use tinywasm::types::{ExternRef, FuncRef, FuncType, WasmType, WasmValue};
use tinywasm::{ExecProgress, FuncContext, Function, HostFunction, Imports, ModuleInstance, Store, WasmTupleChain};
use VT::{F32, F64, I32, I64, V128};
const FUNC: VT = VT::Func;
const EXT: VT = VT::Ext;
const ALL: [VT; 7] = [I32, I64, F32, F64, V128, FUNC, EXT];

/// Every list of types of length at most `n`.
fn lists(n: usize) -> Vec<Vec<VT>> {
    let mut v: Vec<Vec<VT>> = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|l| ALL.map(|t| { let mut l = l.clone(); l.push(t); l })).collect();
        v.extend(last.iter().cloned());
    }
    v
}
/// Bit patterns whose mangling (sign, width, NaN payload, lane order, null) would show.
fn patterns(t: VT) -> Vec<u128> {
    match t {
        I32 => vec![0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1234_5678],
        I64 => vec![0, 0xffff_ffff, 0x1_0000_0000, 0x8000_0000_0000_0000, u64::MAX as u128, 0x0123_4567_89ab_cdef],
        F32 => vec![0, 0x8000_0000, 0x7f80_0000, 0x7fc0_0000, 0x0000_0001, 0x3f80_0001],
        F64 => vec![0, 0x8000_0000_0000_0000, 0x7ff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 1, 0x3ff0_0000_0000_0001],
        V128 => vec![0, u128::MAX, 0x0f0e_0d0c_0b0a_0908_0706_0504_0302_0100, 0x8000_0000_0000_0000_0000_0000_0000_0001],
        VT::Func => vec![crate::oracle::NULL, 0, 1],
        VT::Ext => vec![crate::oracle::NULL, 0, 1, 7, 0x7fff_ffff],
    }
}
fn tag(t: VT, i: usize) -> u128 { let p = patterns(t); p[(i + 1) % p.len()] }
fn ft(p: &[VT], r: &[VT]) -> FuncType { FuncType::new(&p.iter().map(|t| wt(*t)).collect::<Vec<_>>(), &r.iter().map(|t| wt(*t)).collect::<Vec<_>>()) }

/// A host function that counts its runs and hands the call on to `target`.
struct Relay { f: Function, target: Rc<RefCell<Option<Function>>>, args: Rc<RefCell<Vec<WasmValue>>>, got: Rc<RefCell<Option<tinywasm::Result<Vec<WasmValue>>>>> }
fn relay(store: &mut Store) -> Relay {
    let (target, args, got): (Rc<RefCell<Option<Function>>>, Rc<RefCell<Vec<WasmValue>>>, Rc<RefCell<Option<_>>>) = Default::default();
    let (t, a, g) = (target.clone(), args.clone(), got.clone());
    let f = HostFunction::from_untyped(store, &FuncType::new(&[], &[]), move |mut c: FuncContext<'_>, _| {
        let f = t.borrow().clone().expect("target");
        let a = a.borrow().clone();
        *g.borrow_mut() = Some(c.call_untyped(&f, &a));
        Ok(vec![])
    });
    Relay { f, target, args, got }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Way { Call, Resumable, Fuel1, Reenter }
const WAYS: [Way; 4] = [Way::Call, Way::Resumable, Way::Fuel1, Way::Reenter];
fn call(store: &mut Store, r: &Relay, f: &Function, way: Way, args: &[WasmValue]) -> tinywasm::Result<Vec<WasmValue>> {
    match way {
        Way::Call => f.call(store, args),
        Way::Resumable | Way::Fuel1 => {
            let mut x = f.call_resumable(store, args)?;
            for _ in 0..100_000 { if let ExecProgress::Completed(v) = x.resume_with_fuel(if way == Way::Fuel1 { 1 } else { 1000 })? { return Ok(v) } }
            Err(tinywasm::Error::Other("never completed".into()))
        }
        Way::Reenter => {
            *r.target.borrow_mut() = Some(f.clone());
            *r.args.borrow_mut() = args.to_vec();
            r.got.borrow_mut().take();
            r.f.call(store, &[])?;
            r.got.borrow_mut().take().expect("the relay ran")
        }
    }
}

// ---------------------------------------------------------------- (a) arguments

/// f(P) -> reverse(P): counts, then returns its parameters reversed; "n" reads the counter, "z" is a two-result probe.
fn callee(p: &[VT]) -> Module {
    let mut m = Module::default();
    m.global(I32, true, Op::I32C(0));
    let rev: Vec<VT> = p.iter().rev().copied().collect();
    let mut b = vec![Op::GGet(0), Op::I32C(1), num("i32.add"), Op::GSet(0)];
    b.extend((0..p.len() as u32).rev().map(Op::LGet));
    let f = m.func(p, &rev, &[I64, I32], b);
    m.export("f", EK::Func, f);
    m.export("n", EK::Global, 0);
    let z = m.func(&[I64], &[I64, I32], &[], vec![Op::LGet(0), Op::I32C(5)]);
    m.export("z", EK::Func, z);
    m.elems.push(Elem { mode: SegMode::Declared, ty: FUNC, items: vec![vec![Op::RefFunc(f)]] });
    m
}
fn args_case(c: &Check, l: &mut Local, p: &[VT], lens: usize) {
    let mods = callee(p);
    let bytes = encode(&mods);
    let module = match parse(&bytes, Opts::ON) { Ok(m) => m, Err(e) => { c.violation(format!("args parse {p:?}"), e, hex(&bytes)); return } };
    let r = guard(|| -> Result<(), (String, String)> {
        let mut store = Store::default();
        let rl = relay(&mut store);
        let inst = ModuleInstance::instantiate(&mut store, &module, None).map_err(|e| ("instantiate".into(), e.to_string()))?;
        let guest = inst.func_untyped(&store, "f").expect("f");
        let z = inst.func_untyped(&store, "z").expect("z");
        let n = inst.global("n").expect("n");
        let hits = Rc::new(Cell::new(0u32));
        let h2 = hits.clone();
        let rev: Vec<VT> = p.iter().rev().copied().collect();
        let host = HostFunction::from_untyped(&mut store, &ft(p, &rev), move |_, a| { h2.set(h2.get() + 1); Ok(a.iter().rev().copied().collect()) });
        let mut runs = 0u32;
        for (ki, f) in [&guest, &host].into_iter().enumerate() {
            let kind = ["guest", "host"][ki];
            let count = |store: &Store| if ki == 0 { from_wv(&n.get(store).expect("n")).1 as u32 } else { hits.get() };
            let mut seen = 0u32;
            for q in lists(lens) {
                for way in WAYS {
                    let fits = q == p;
                    // all boundary patterns when it fits; one tagged list when it does not
                    let sets: Vec<Vec<u128>> = if fits { combos(&q) } else { vec![q.iter().enumerate().map(|(i, t)| tag(*t, i)).collect()] };
                    for vals in sets {
                        let a = args_wv(&q, &vals);
                        let out = vals_out(Some(&rev), call(&mut store, &rl, f, way, &a));
                        l.traces += 1;
                        l.transitions += 1;
                        let at = || format!("{kind} callee {p:?} called through {way:?} with {a:?}");
                        if fits {
                            let want: Vec<u128> = vals.iter().rev().copied().collect();
                            l.states.insert(hash(&(ki, &p, &vals)));
                            seen += 1;
                            if out != Out::Vals(want.clone()) { return Err((format!("args value {kind} {p:?} {way:?}"), format!("{}: got {out:?}, expected {want:x?}", at()))) }
                        } else {
                            l.add("refused_calls", 1);
                            if !matches!(out, Out::Err(_) | Out::Trap(_) | Out::Link(_)) { return Err((format!("args accepted {kind} {p:?} {q:?} {way:?}"), format!("{}: got {out:?}, expected an error", at()))) }
                        }
                        let c1 = count(&store);
                        if c1 != seen { return Err((format!("args ran {kind} {p:?} {q:?} {way:?}"), format!("{}: the callee has run {c1} times, expected {seen}", at()))) }
                        runs += 1;
                        if !fits || runs % 4 == 0 {
                            let o = vals_out(Some(&[I64, I32]), z.call(&mut store, &[WasmValue::I64(runs as i64)]));
                            if o != Out::Vals(vec![runs as u128, 5]) { return Err((format!("args after {kind} {p:?} {q:?} {way:?}"), format!("after {}: the next call gives {o:?}", at()))) }
                        }
                    }
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => (),
        Ok(Err((k, w))) => c.violation(k, w, hex(&bytes)),
        Err(e) => c.violation(format!("args panic {p:?}"), e, hex(&bytes)),
    }
}
/// Boundary patterns: every pattern at every position, the other positions tagged (all pairs for two positions).
fn combos(q: &[VT]) -> Vec<Vec<u128>> {
    if q.len() == 2 { return patterns(q[0]).into_iter().flat_map(|a| patterns(q[1]).into_iter().map(move |b| vec![a, b])).collect() }
    let base: Vec<u128> = q.iter().enumerate().map(|(i, t)| tag(*t, i)).collect();
    let mut v = vec![base.clone()];
    for (i, t) in q.iter().enumerate() { for x in patterns(*t) { let mut b = base.clone(); b[i] = x; if !v.contains(&b) { v.push(b) } } }
    v
}

// ---------------------------------------------------------------- (b) host results

/// Ways of reaching a host function of type () -> R from a guest; the continuation sets global 0.
const ROUTES: [&str; 8] = ["call", "indirect", "rcall", "rindirect", "via rcall", "via rindirect", "block", "loop"];
fn caller(r: &[VT]) -> Module {
    let mut m = Module::default();
    let h = m.import_func("e", "h", &[], r);
    let hty = m.ty(&[], r);
    m.global(I32, true, Op::I32C(0));
    m.table(FUNC, Limits::new(1, None));
    m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: FUNC, items: vec![vec![Op::RefFunc(h)]] });
    let done = || vec![Op::I32C(1), Op::GSet(0)];
    let with = |mut a: Vec<Op>| { a.extend(done()); a };
    let bodies: Vec<(&str, Vec<Op>)> = vec![
        ("call", with(vec![Op::Call(h)])),
        ("indirect", with(vec![Op::I32C(0), Op::CallIndirect { ty: hty, table: 0 }])),
        ("rcall", vec![Op::ReturnCall(h)]),
        ("rindirect", vec![Op::I32C(0), Op::ReturnCallIndirect { ty: hty, table: 0 }]),
    ];
    for (n, b) in bodies { let f = m.func(&[], r, &[I64], b); m.export(n, EK::Func, f); }
    // functions 1..=4 in index order (0 is the import)
    for (n, k) in [("via rcall", 3), ("via rindirect", 4)] { let f = m.func(&[], r, &[], with(vec![Op::Call(k)])); m.export(n, EK::Func, f); }
    let bt = m.ty(&[], r);
    let f = m.func(&[], r, &[V128], with(vec![Op::Block(BT::Type(bt)), Op::Call(h), Op::End]));
    m.export("block", EK::Func, f);
    let f = m.func(&[], r, &[], with(vec![Op::Loop(BT::Type(bt)), Op::Call(h), Op::End]));
    m.export("loop", EK::Func, f);
    m.export("g", EK::Global, 0);
    m.export("h", EK::Func, h);
    let z = m.func(&[I64], &[I64, I32], &[], vec![Op::LGet(0), Op::I32C(5)]);
    m.export("z", EK::Func, z);
    m
}
/// Start function () -> () that calls h and drops its results; global 0 shows the continuation ran.
fn starter(r: &[VT]) -> Module {
    let mut m = Module::default();
    let h = m.import_func("e", "h", &[], r);
    let gi = m.imports.len() as u32 - 1;
    m.imports.push(Import { module: "e".into(), name: "g".into(), kind: ImportKind::Global(I32, true) });
    let _ = gi;
    let mut b = vec![Op::Call(h)];
    b.extend(r.iter().map(|_| Op::Drop));
    b.extend([Op::I32C(1), Op::GSet(0)]);
    let s = m.func(&[], &[], &[], b);
    m.start = Some(s);
    m
}
fn results_case(c: &Check, l: &mut Local, r: &[VT], qs: &[Vec<VT>]) {
    let bytes = encode(&caller(r));
    let sbytes = encode(&starter(r));
    let (module, smod) = match (parse(&bytes, Opts::ON), parse(&sbytes, Opts::ON)) { (Ok(a), Ok(b)) => (a, b), (a, b) => { c.violation(format!("results parse {r:?}"), format!("{:?} {:?}", a.err(), b.err()), hex(&bytes)); return } };
    let res = guard(|| -> Result<(), (String, String)> {
        let mut store = Store::default();
        let rl = relay(&mut store);
        let give: Rc<RefCell<Vec<WasmValue>>> = Default::default();
        let g2 = give.clone();
        let hf = HostFunction::from_untyped(&mut store, &ft(&[], r), move |_, a| { assert!(a.is_empty()); Ok(g2.borrow().clone()) });
        let mut im = Imports::new();
        im.define("e", "h", hf.clone());
        let inst = ModuleInstance::instantiate(&mut store, &module, Some(im)).map_err(|e| ("instantiate".into(), e.to_string()))?;
        let z = inst.func_untyped(&store, "z").expect("z");
        let g = inst.global("g").expect("g");
        let mut fs: Vec<(String, Function, bool)> = ROUTES.iter().map(|n| (n.to_string(), inst.func_untyped(&store, n).expect("route"), !n.starts_with('r'))).collect();
        fs.push(("handle".into(), hf.clone(), false));
        fs.push(("export".into(), inst.func_untyped(&store, "h").expect("h"), false));
        let mut k = 0i64;
        for q in qs {
            let fits = q == r;
            let sets: Vec<Vec<u128>> = if fits { combos(q) } else { vec![q.iter().enumerate().map(|(i, t)| tag(*t, i)).collect()] };
            for vals in sets {
                *give.borrow_mut() = args_wv(q, &vals);
                l.states.insert(hash(&(r, q, &vals)));
                for (name, f, cont) in &fs {
                    for way in WAYS {
                        let at = || format!("host function declared () -> {r:?} returned {q:?} ({vals:x?}), reached through {name} by {way:?}");
                        g.set(&mut store, WasmValue::I32(0)).expect("reset");
                        let out = vals_out(Some(r), call(&mut store, &rl, f, way, &[]));
                        l.traces += 1;
                        l.transitions += 1;
                        let ran = from_wv(&g.get(&store).expect("g")).1 != 0;
                        if fits {
                            if out != Out::Vals(vals.clone()) { return Err((format!("results value {r:?} {name} {way:?}"), format!("{}: got {out:x?}", at()))) }
                            if *cont && !ran { return Err((format!("results cont {r:?} {name} {way:?}"), format!("{}: the continuation did not run", at()))) }
                        } else {
                            l.add("refused_results", 1);
                            if !matches!(out, Out::Err(_) | Out::Trap(_)) { return Err((format!("results accepted {r:?} {q:?} {name} {way:?}"), format!("{}: got {out:x?}, expected an error", at()))) }
                            if ran { return Err((format!("results continued {r:?} {q:?} {name} {way:?}"), format!("{}: the guest continued", at()))) }
                        }
                        k += 1;
                        let o = vals_out(Some(&[I64, I32]), z.call(&mut store, &[WasmValue::I64(k)]));
                        if o != Out::Vals(vec![k as u128, 5]) { return Err((format!("results after {r:?} {q:?} {name} {way:?}"), format!("after {}: the next call gives {o:?}", at()))) }
                    }
                }
                // start function
                g.set(&mut store, WasmValue::I32(0)).expect("reset");
                let mut im = Imports::new();
                im.define("e", "h", hf.clone());
                im.define("e", "g", g);
                let o = ModuleInstance::instantiate(&mut store, &smod, Some(im)).map(|_| ()).map_err(|e| e.to_string());
                let ran = from_wv(&g.get(&store).expect("g")).1 != 0;
                l.traces += 1;
                l.transitions += 1;
                if o.is_ok() != fits || ran != fits { return Err((format!("results start {r:?} {q:?}"), format!("start function calling a host function declared () -> {r:?} that returned {q:?}: {o:?}, continued: {ran}"))) }
            }
        }
        Ok(())
    });
    match res {
        Ok(Ok(())) => (),
        Ok(Err((k, w))) => c.violation(k, w, hex(&bytes)),
        Err(e) => c.violation(format!("results panic {r:?}"), e, hex(&bytes)),
    }
}

// ---------------------------------------------------------------- (c) typed handles

/// A Rust type used as a typed parameter or result list.
trait Shape: Sized { fn tys() -> Vec<VT>; fn make(v: &[u128]) -> Self; fn un(self) -> Vec<u128>; }
fn fref(v: u128) -> Option<u32> { (v != crate::oracle::NULL).then_some(v as u32) }
fn unref(v: Option<u32>) -> u128 { v.map_or(crate::oracle::NULL, |x| x as u128) }
macro_rules! scalar { ($($t:ty: $vt:expr, $mk:expr, $un:expr;)+) => { $(impl Shape for $t { fn tys() -> Vec<VT> { vec![$vt] } fn make(v: &[u128]) -> Self { let f: fn(u128) -> $t = $mk; f(v[0]) } fn un(self) -> Vec<u128> { let f: fn($t) -> u128 = $un; vec![f(self)] } })+ } }
scalar! {
    i32: I32, |v| v as u32 as i32, |x| x as u32 as u128;
    i64: I64, |v| v as u64 as i64, |x| x as u64 as u128;
    f32: F32, |v| f32::from_bits(v as u32), |x| x.to_bits() as u128;
    f64: F64, |v| f64::from_bits(v as u64), |x| x.to_bits() as u128;
    FuncRef: FUNC, |v| FuncRef::new(fref(v)), |x| unref(x.addr());
    ExternRef: EXT, |v| ExternRef::new(fref(v)), |x| unref(x.addr());
}
impl Shape for () { fn tys() -> Vec<VT> { vec![] } fn make(_: &[u128]) -> Self {} fn un(self) -> Vec<u128> { vec![] } }
macro_rules! tup { ($($($T:ident)+;)+) => { $(impl<$($T: Shape),+> Shape for ($($T,)+) {
    fn tys() -> Vec<VT> { let mut v = vec![]; $(v.extend($T::tys());)+ v }
    #[allow(unused_assignments)] fn make(v: &[u128]) -> Self { let mut i = 0; ($({ let n = $T::tys().len(); let x = $T::make(&v[i..i + n]); i += n; x },)+) }
    #[allow(non_snake_case)] fn un(self) -> Vec<u128> { let ($($T,)+) = self; let mut v = vec![]; $(v.extend($T.un());)+ v }
})+ } }
tup! { XA; XA XB; XA XB XC; XA XB XC XD; XA XB XC XD XE; XA XB XC XD XE XF; XA XB XC XD XE XF XG; XA XB XC XD XE XF XG XH; XA XB XC XD XE XF XG XH XI; XA XB XC XD XE XF XG XH XI XJ; XA XB XC XD XE XF XG XH XI XJ XK; XA XB XC XD XE XF XG XH XI XJ XK XL; }
impl<A: Shape, B: Shape> Shape for WasmTupleChain<A, B> {
    fn tys() -> Vec<VT> { let mut v = A::tys(); v.extend(B::tys()); v }
    fn make(v: &[u128]) -> Self { let n = A::tys().len(); WasmTupleChain::new(A::make(&v[..n]), B::make(&v[n..])) }
    fn un(self) -> Vec<u128> { let (a, b) = self.into_inner(); let mut v = a.un(); v.extend(b.un()); v }
}
type T12 = (i32, i64, f32, f64, i32, i64, f32, f64, i32, i64, f32, f64);

/// Exports one function per signature pair; function k stores its parameters into globals p0.. and returns r0..
fn sig_module(p: &[VT], r: &[VT]) -> Module {
    let mut m = Module::default();
    let zero = |t: VT| match t { I32 => Op::I32C(0), I64 => Op::I64C(0), F32 => Op::F32C(0), F64 => Op::F64C(0), V128 => Op::VConst(0), t => Op::RefNull(t) };
    let h = m.import_func("e", "h", p, r);
    for (i, t) in p.iter().enumerate() { let g = m.global(*t, true, zero(*t)); m.export(&format!("p{i}"), EK::Global, g); }
    for (i, t) in r.iter().enumerate() { let g = m.global(*t, true, zero(*t)); m.export(&format!("r{i}"), EK::Global, g); }
    let n = m.global(I32, true, Op::I32C(0));
    m.export("n", EK::Global, n);
    let k = p.len() as u32;
    let mut b = vec![Op::GGet(n), Op::I32C(1), num("i32.add"), Op::GSet(n)];
    for i in 0..k { b.extend([Op::LGet(i), Op::GSet(i)]) }
    for i in 0..r.len() as u32 { b.push(Op::GGet(k + i)) }
    let f = m.func(p, r, &[], b);
    m.export("f", EK::Func, f);
    // calls the host function with p0.. and stores its results to r0..
    let mut b: Vec<Op> = (0..k).map(Op::GGet).collect();
    b.push(Op::Call(h));
    for i in (0..r.len() as u32).rev() { b.push(Op::GSet(k + i)) }
    b.extend([Op::GGet(n), Op::I32C(1), num("i32.add"), Op::GSet(n)]);
    let x = m.func(&[], &[], &[], b);
    m.export("x", EK::Func, x);
    m.export("h", EK::Func, h);
    m
}
struct Sig { store: Store, inst: ModuleInstance, p: Vec<VT>, r: Vec<VT>, n: u32, relay: Relay }
impl Sig {
    fn set(&mut self, side: &str, tys: &[VT], v: &[u128]) { for (i, (t, x)) in tys.iter().zip(v).enumerate() { self.inst.global(&format!("{side}{i}")).expect("g").set(&mut self.store, to_wv(*t, *x)).expect("set") } }
    fn get(&self, side: &str, n: usize) -> Vec<u128> { (0..n).map(|i| from_wv(&self.inst.global(&format!("{side}{i}")).expect("g").get(&self.store).expect("get")).1).collect() }
    fn ran(&self) -> u32 { from_wv(&self.inst.global("n").expect("n").get(&self.store).expect("n")).1 as u32 }
}
fn sig(p: &[VT], r: &[VT], host: impl FnOnce(&mut Store) -> Function) -> Result<Sig, String> {
    let module = parse(&encode(&sig_module(p, r)), Opts::ON)?;
    let mut store = Store::default();
    let relay = relay(&mut store);
    let f = host(&mut store);
    let mut im = Imports::new();
    im.define("e", "h", f);
    let inst = ModuleInstance::instantiate(&mut store, &module, Some(im)).map_err(|e| e.to_string())?;
    Ok(Sig { store, inst, p: p.to_vec(), r: r.to_vec(), n: 0, relay })
}
fn default_host(p: Vec<VT>, r: Vec<VT>) -> impl FnOnce(&mut Store) -> Function {
    move |s| HostFunction::from_untyped(s, &ft(&p, &r), move |_, _| Ok(r.iter().map(|t| WasmValue::default_for(wt(*t))).collect()))
}
/// Expands `$go!(P, R)` for every pair of shapes.
macro_rules! pairs {
    ($go:ident; $($P:ty),+; $Rs:tt) => { $(pairs!(@ $go; $P; $Rs);)+ };
    (@ $go:ident; $P:ty; ($($R:ty),+)) => { $($go!($P, $R);)+ };
}
macro_rules! shapes { ($go:ident; $($X:ty),+ $(,)?) => { pairs!($go; $($X),+; ($($X),+)) } }
macro_rules! every { ($go:ident) => { shapes!($go; (), i32, i64, f32, f64, FuncRef, ExternRef, (i32,), (i32, i32), (i32, i64), (i64, i32), (f32, f64), (f64, i64, i32), (FuncRef, ExternRef), (ExternRef, FuncRef), (i32, FuncRef, f32, ExternRef, i64), WasmTupleChain<(), i32>, WasmTupleChain<i32, i64>, WasmTupleChain<(i32, i64), f32>, WasmTupleChain<(f64, i64), WasmTupleChain<i32, ()>>, T12, WasmTupleChain<T12, (i64, f64)>) } }
/// Tries the typed handle (P, R) on an instance of some signature.
type Try = fn(&Check, &mut Local, &mut Sig);
macro_rules! one_try { ($v:ident, $P:ty, $R:ty) => { $v.push((<$P as Shape>::tys(), <$R as Shape>::tys(), {
    fn t(c: &Check, l: &mut Local, s: &mut Sig) {
        let fits = s.p == <$P as Shape>::tys() && s.r == <$R as Shape>::tys();
        let name = concat!(stringify!($P), " -> ", stringify!($R));
        let key = format!("typed {name} on {:?} -> {:?}", s.p, s.r);
        l.traces += 1;
        l.transitions += 1;
        let got = guard(|| [s.inst.func::<$P, $R>(&s.store, "f"), s.inst.func::<$P, $R>(&s.store, "h")]);
        let handles = match got { Ok(h) => h, Err(e) => { c.violation(key, format!("panic: {e}"), ""); return } };
        for (i, h) in handles.iter().enumerate() { if h.is_ok() != fits { c.violation(format!("{key} {i}"), format!("typed handle {name} of a {} function of type {:?} -> {:?}: {:?}", ["guest", "host"][i], s.p, s.r, h.as_ref().map(|_| "accepted").map_err(|e| e.to_string())), ""); return } }
        let [Ok(f), _] = handles else { l.add("refused_handles", 1); return };
        let (ps, rs) = (combos(&s.p), combos(&s.r));
        for k in 0..ps.len().max(rs.len()) {
            let (pv, rv) = (&ps[k % ps.len()], &rs[k % rs.len()]);
            l.states.insert(hash(&(&s.p, &s.r, pv, rv)));
            let r = s.r.clone();
            s.set("r", &r, rv);
            for way in 0..3 {
                l.traces += 1;
                l.transitions += 1;
                let arg = <$P as Shape>::make(pv);
                let got = guard(|| match way {
                    0 => f.call(&mut s.store, arg).map(|x| <$R as Shape>::un(x)),
                    1 => f.call_resumable(&mut s.store, arg).and_then(|mut e| loop { if let ExecProgress::Completed(x) = e.resume_with_fuel(1)? { break Ok(<$R as Shape>::un(x)) } }),
                    _ => {
                        // typed re-entrant call from inside a typed host function
                        let (arg, f, out) = (RefCell::new(Some(arg)), f.func.clone(), Rc::new(RefCell::new(None)));
                        let o2 = out.clone();
                        let inst = s.inst.clone();
                        let _ = f;
                        let h = HostFunction::from(&mut s.store, move |mut c: FuncContext<'_>, (): ()| {
                            let f = inst.func::<$P, $R>(&c, "f")?;
                            let a = arg.borrow_mut().take().expect("one run");
                            *o2.borrow_mut() = Some(c.call(&f, a).map(|x| <$R as Shape>::un(x)));
                            Ok(())
                        });
                        h.call(&mut s.store, &[]).and_then(|_| out.borrow_mut().take().expect("ran"))
                    }
                }).map_err(|p| format!("panic {p}")).and_then(|r| r.map_err(|e| e.to_string()));
                s.n += 1;
                let (seen, n) = (s.get("p", s.p.len()), s.ran());
                if got != Ok(rv.clone()) || seen != *pv || n != s.n { c.violation(format!("{key} {way}"), format!("typed call {way} of {name} with {pv:x?} and results {rv:x?}: got {got:x?}, the guest saw {seen:x?}, ran {n} times of {}", s.n), ""); return }
            }
        }
    }
    t as Try
})) } }
macro_rules! one_host { ($v:ident, $P:ty, $R:ty) => { $v.push({
    fn t(c: &Check, l: &mut Local, sigs: &[(Vec<VT>, Vec<VT>)]) {
        let (p, r) = (<$P as Shape>::tys(), <$R as Shape>::tys());
        let name = concat!(stringify!($P), " -> ", stringify!($R));
        let (seen, give): (Rc<RefCell<Vec<u128>>>, Rc<RefCell<Vec<u128>>>) = Default::default();
        let mk = |s: &mut Store| { let (seen, give) = (seen.clone(), give.clone()); HostFunction::from(s, move |_: FuncContext<'_>, a: $P| { *seen.borrow_mut() = a.un(); Ok(<$R as Shape>::make(&give.borrow())) }) };
        // links exactly with its own signature
        for (p2, r2) in sigs {
            let fits = (&p, &r) == (p2, r2);
            l.traces += 1;
            l.transitions += 1;
            let ok = sig(p2, r2, mk);
            if ok.is_ok() != fits { c.violation(format!("typed host {name} as {p2:?} {r2:?}"), format!("typed host function {name} imported as {p2:?} -> {r2:?}: {:?}", ok.map(|_| ())), ""); return }
        }
        let mut s = match sig(&p, &r, mk) { Ok(s) => s, Err(e) => { c.violation(format!("typed host {name}"), e, ""); return } };
        let (ps, rs) = (combos(&p), combos(&r));
        let (x, h) = (s.inst.func_untyped(&s.store, "x").expect("x"), s.inst.func_untyped(&s.store, "h").expect("h"));
        for k in 0..ps.len().max(rs.len()) {
            let (pv, rv) = (&ps[k % ps.len()], &rs[k % rs.len()]);
            l.states.insert(hash(&(&p, &r, pv, rv)));
            *give.borrow_mut() = rv.clone();
            s.set("p", &p, pv);
            let z = vec![0u128; r.len()];
            let z: Vec<u128> = r.iter().zip(z).map(|(t, _)| from_wv(&WasmValue::default_for(wt(*t))).1).collect();
            for way in WAYS {
                for direct in [false, true] {
                    seen.borrow_mut().clear();
                    s.set("r", &r, &z);
                    l.traces += 1;
                    l.transitions += 1;
                    let got = guard(|| if direct { vals_out(Some(&r), call(&mut s.store, &s.relay, &h, way, &args_wv(&p, pv))) } else { vals_out(Some(&[]), call(&mut s.store, &s.relay, &x, way, &[])) });
                    let rr = if direct { match &got { Ok(Out::Vals(v)) => v.clone(), _ => vec![] } } else { s.get("r", r.len()) };
                    if !matches!(got, Ok(Out::Vals(_))) || rr != *rv || *seen.borrow() != *pv { c.violation(format!("typed host value {name} {way:?} {direct}"), format!("typed host function {name} called through {way:?} (direct: {direct}) with {pv:x?} to return {rv:x?}: {got:x?}, it saw {:x?}, the caller got {rr:x?}", seen.borrow()), ""); return }
                }
            }
        }
    }
    t as fn(&Check, &mut Local, &[(Vec<VT>, Vec<VT>)])
}) } }

// ---------------------------------------------------------------- (d) value conversions
fn conversions(c: &Check, l: &mut Local) {
    for t in ALL {
        for bits in patterns(t) {
            let v = to_wv(t, bits);
            l.transitions += 1;
            l.states.insert(hash(&("value", t, bits)));
            let as_: Vec<(VT, Option<u128>, Option<u128>)> = vec![
                (I32, v.as_i32().map(|x| x as u32 as u128), i32::try_from(v).ok().map(|x| x as u32 as u128)),
                (I64, v.as_i64().map(|x| x as u64 as u128), i64::try_from(v).ok().map(|x| x as u64 as u128)),
                (F32, v.as_f32().map(|x| x.to_bits() as u128), f32::try_from(v).ok().map(|x| x.to_bits() as u128)),
                (F64, v.as_f64().map(|x| x.to_bits() as u128), f64::try_from(v).ok().map(|x| x.to_bits() as u128)),
                (V128, v.as_v128().map(u128::from_le_bytes), <[u8; 16]>::try_from(v).ok().map(u128::from_le_bytes)),
                (FUNC, v.as_ref_func().map(|x| unref(x.addr())), FuncRef::try_from(v).ok().map(|x| unref(x.addr()))),
                (EXT, v.as_ref_extern().map(|x| unref(x.addr())), ExternRef::try_from(v).ok().map(|x| unref(x.addr()))),
            ];
            for (u, a, b) in as_ {
                l.traces += 1;
                let want = (u == t).then_some(bits);
                if a != want || b != want { c.violation(format!("convert {t:?} {bits:x} to {u:?}"), format!("{v:?} as {u:?}: {a:x?} / {b:x?}, expected {want:x?}"), "") }
            }
            if WasmType::from(&v) != wt(t) || WasmType::from(v) != wt(t) { c.violation(format!("type of {t:?}"), format!("{v:?} has type {:?}", WasmType::from(&v)), "") }
        }
    }
}

pub fn run(c: &Check) {
    // (a)
    let mut sigs = lists(c.pick(2, 3));
    if c.quick() { sigs.extend(ALL.iter().enumerate().map(|(i, t)| vec![*t, ALL[(i + 3) % 7], *t])) }
    sigs.push(vec![I32, I64, F32, F64, V128, FUNC, EXT, I32, V128, I64, EXT, F64, I32]);
    c.par(sigs.len(), |i, l| args_case(c, l, &sigs[i], 3));
    c.bound(format!("(a) {} parameter lists (all of length ≤ {}, some longer) × all 400 argument lists of length ≤ 3 × guest and host callee × direct, resumable (2 fuel sizes) and re-entrant calls; all boundary bit patterns when they fit", sigs.len(), c.pick(2, 3)));
    // (b)
    let rs = { let mut v = lists(2); v.extend(ALL.iter().map(|t| vec![*t, I32, *t])); v };
    let qs = lists(c.pick(2, 3));
    c.par(rs.len(), |i, l| { let mut q = qs.clone(); if !q.contains(&rs[i]) { q.push(rs[i].clone()) } if rs[i].len() == 2 { let mut x = rs[i].clone(); x.push(I32); q.push(x); let mut x = rs[i].clone(); x.insert(0, I32); if !q.contains(&x) { q.push(x) } } results_case(c, l, &rs[i], &q) });
    c.bound(format!("(b) {} declared × {} returned result lists × {} guest routes, the handle and the export, each × 4 kinds of call, and start functions", rs.len(), qs.len(), ROUTES.len()));
    // (c)
    let mut tries: Vec<(Vec<VT>, Vec<VT>, Try)> = vec![];
    macro_rules! go { ($P:ty, $R:ty) => { one_try!(tries, $P, $R) } }
    every!(go);
    let mut names: Vec<(Vec<VT>, Vec<VT>)> = tries.iter().map(|t| (t.0.clone(), t.1.clone())).collect();
    names.sort();
    names.dedup();
    // signatures no Rust shape has
    for v in [vec![V128], vec![I32, V128], vec![I64, I64], vec![EXT, EXT]] { names.push((v.clone(), vec![])); names.push((vec![], v.clone())); names.push((v.clone(), vec![I32])); }
    c.par(names.len(), |i, l| {
        let (p, r) = &names[i];
        let mut s = match sig(p, r, default_host(p.clone(), r.clone())) { Ok(s) => s, Err(e) => { c.violation(format!("typed {p:?} {r:?}"), e, ""); return } };
        for t in &tries { (t.2)(c, l, &mut s) }
        if i == 9 { l.sample(|| format!("signature {p:?} -> {r:?}: {} typed handles tried", tries.len())) }
    });
    c.bound(format!("(c) {} typed handle types (Rust scalars, tuples up to 12, chains) × {} signatures × guest and host functions, and direct, resumable and re-entrant typed calls", tries.len(), names.len()));
    let mut hosts: Vec<fn(&Check, &mut Local, &[(Vec<VT>, Vec<VT>)])> = vec![];
    macro_rules! go2 { ($P:ty, $R:ty) => { one_host!(hosts, $P, $R) } }
    every!(go2);
    let few: Vec<_> = names.iter().filter(|(p, r)| !c.quick() || p.len() + r.len() <= 3).step_by(c.pick(3, 1)).cloned().collect();
    c.par(hosts.len(), |i, l| hosts[i](c, l, &few));
    c.bound(format!("(c) {} typed host function types × {} import signatures; calls through guest, handle, resumable and re-entrant", hosts.len(), few.len()));
    // (d)
    c.par(1, |_, l| conversions(c, l));
    c.assume("values are compared bit for bit; NaN bit patterns used are the canonical ones");
}
