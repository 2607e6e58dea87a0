//! P11: every suspension point. Execution is checked every 128 instructions, so a loop (or recursion) whose
//! length is coprime to that is suspended at each of its instructions in turn; programs are enumerated as
//! sequences of steps inside such drivers and run under every slice schedule, against the reference run
//! without interruption.
use crate::num::Trap;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;
use tinywasm::engine::{Config, FuelPolicy};
use tinywasm::types::WasmValue;
use tinywasm::{ExecProgress, FuncExecution, Function, Store};
use VT::{Ext, F32, F64, I32, I64, V128};
const FUNC: VT = VT::Func;

/// One resumption.
#[derive(Clone, Copy, Debug)]
pub enum Slice { Fuel(u32), Time(u64) }
use Slice::*;
impl Slice {
    fn go(self, e: &mut FuncExecution<'_>) -> tinywasm::Result<ExecProgress<Vec<WasmValue>>> { match self { Fuel(n) => e.resume_with_fuel(n), Time(n) => e.resume_with_time_budget(Duration::from_nanos(n)) } }
}
const HOUR: u64 = 3_600_000_000_000;
pub fn schedules() -> Vec<Vec<Slice>> {
    vec![
        vec![Fuel(1)], vec![Time(1)], vec![Fuel(129)], vec![Fuel(1), Time(0), Time(1)], vec![Fuel(0), Fuel(200), Fuel(0), Fuel(1)], vec![Fuel(1000)], vec![Fuel(u32::MAX)], vec![Time(HOUR)], vec![Fuel(1), Fuel(700), Time(1), Time(1)],
        vec![Fuel(128), Time(HOUR)], vec![Time(1), Fuel(u32::MAX)], vec![Fuel(1), Fuel(1), Fuel(1), Time(HOUR)],
    ]
}
/// Runs a call in slices; counts the suspensions.
pub fn sliced(h: &Function, s: &mut Store, a: &[WasmValue], sched: &[Slice], cap: u64, n: &Cell<u64>) -> tinywasm::Result<Vec<WasmValue>> {
    let mut e = h.call_resumable(s, a)?;
    for k in 0.. {
        if k > cap { return Err(tinywasm::Error::Other(format!("still running after {k} slices"))); }
        match sched[k as usize % sched.len()].go(&mut e)? { ExecProgress::Completed(v) => return Ok(v), ExecProgress::Suspended => n.set(n.get() + 1) }
    }
    unreachable!()
}
fn sliced_typed(f: &tinywasm::FunctionTyped<i32, (i64, i32)>, s: &mut Store, a: i32, sched: &[Slice], cap: u64, n: &Cell<u64>) -> tinywasm::Result<(i64, i32)> {
    let mut e = f.call_resumable(s, a)?;
    for k in 0.. {
        if k > cap { return Err(tinywasm::Error::Other(format!("still running after {k} slices"))); }
        let r = match sched[k as usize % sched.len()] { Fuel(n) => e.resume_with_fuel(n), Time(n) => e.resume_with_time_budget(Duration::from_nanos(n)) };
        match r? { ExecProgress::Completed(v) => return Ok(v), ExecProgress::Suspended => n.set(n.get() + 1) }
    }
    unreachable!()
}

// globals of the subject module
const ACC: u32 = 0;
const VACC: u32 = 1;
const FACC: u32 = 2;
const IACC: u32 = 3;
/// acc = acc * 31 + (i64 on the stack)
fn mix() -> Vec<Op> { vec![Op::GGet(ACC), Op::I64C(31), num("i64.mul"), num("i64.add"), Op::GSet(ACC)] }
fn mix32() -> Vec<Op> { let mut v = vec![num("i64.extend_i32_u")]; v.extend(mix()); v }
fn cat(x: &[&[Op]]) -> Vec<Op> { x.concat() }

struct Lib { m: Module, wide: u32, h1: u32, hn: u32, hm: u32, he: u32, hx: u32, b: u32, ti: u32, ty_ii: u32, rec: u32, tl: u32, even: u32, tind: u32, thost: u32, fin: u32, tailh: u32, ttrap: u32, tb: u32, bt2: u32, leaf: u32, results: u32 }
/// The other instance.
fn other() -> Module {
    let mut m = Module::default();
    m.global(I64, true, Op::I64C(5));
    m.mem(Limits { min: 16, max: Some(64), is64: true, page_log2: Some(0) });
    m.func(&[I32, I64], &[I64, I32], &[I64], vec![Op::GGet(0), Op::LGet(1), num("i64.add"), Op::GSet(0), Op::I64C(3), Op::LGet(0), Op::Mem { op: 0x3a, m: MA { align: 0, offset: 1, mem: 0 } }, Op::I64C(0), mem(0x29, 0), Op::GGet(0), num("i64.xor"), Op::LSet(2), Op::LGet(2), Op::LGet(0), Op::I32C(7), num("i32.rotl")]);
    m.func(&[I32], &[I32], &[], vec![Op::GGet(0), num("i32.wrap_i64"), Op::LGet(0), num("i32.add")]);
    export_all(&mut m);
    m
}
fn lib() -> Lib {
    let mut m = Module::default();
    let h1 = m.import_func("h", "h1", &[I32], &[I32]);
    let hn = m.import_func("h", "hn", &[I32], &[I64]);
    let hm = m.import_func("h", "hm", &[I32], &[]);
    let he = m.import_func("h", "he", &[I32], &[]);
    let hx = m.import_func("h", "hx", &[V128, I64, F32], &[I64, V128, I32]);
    let b = m.import_func("b", "f0", &[I32, I64], &[I64, I32]);
    let b1 = m.import_func("b", "f1", &[I32], &[I32]);
    m.mem(Limits { min: 64, max: Some(70), is64: false, page_log2: Some(0) });
    m.table(FUNC, Limits::new(6, Some(6)));
    m.table(Ext, Limits::new(2, Some(4)));
    m.global(I64, true, Op::I64C(1));
    m.global(V128, true, Op::VConst(0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10));
    m.global(F64, true, Op::F64C(0x3ff0 << 48));
    m.global(I32, true, Op::I32C(3));
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![9, 8, 7, 6, 5] });
    let wide = m.func(&[I32, I64, F32, F64, V128], &[V128, F64, I32, I64, F32], &[I64, V128, I32], vec![Op::LGet(1), Op::LSet(5), Op::LGet(0), Op::LSet(7), Op::LGet(4), Op::LTee(6), Op::LGet(3), Op::LGet(7), Op::I32C(1), num("i32.add"), Op::LGet(5), Op::LGet(2)]);
    let leaf = m.func(&[I32], &[I32], &[I32], vec![Op::Loop(BT::Empty), Op::LGet(1), Op::LGet(0), num("i32.add"), Op::I32C(1), num("i32.rotl"), Op::LSet(1), Op::LGet(0), Op::I32C(1), num("i32.sub"), Op::LTee(0), Op::BrIf(0), Op::End, Op::LGet(1)]);
    let inc = m.func(&[I32], &[I32], &[], vec![Op::LGet(0), Op::I32C(1), num("i32.add")]);
    let dbl = m.func(&[I32], &[I32], &[V128], vec![Op::LGet(0), Op::I32C(1), num("i32.shl"), Op::GGet(IACC), num("i32.add")]);
    let me = dbl + 1;
    let rec = m.func(&[I32], &[I32], &[I64, V128], vec![Op::LGet(0), Op::If(BT::Val(I32)), Op::LGet(0), Op::I64C(7), Op::LSet(1), Op::LGet(0), Op::I32C(1), num("i32.sub"), Op::Call(me), num("i32.add"), Op::LGet(1), num("i32.wrap_i64"), num("i32.xor"), Op::Else, Op::I32C(11), Op::End]);
    let me = rec + 1;
    let tl = m.func(&[I32, I64], &[I64], &[I32], vec![Op::LGet(0), num("i32.eqz"), Op::If(BT::Empty), Op::LGet(1), Op::Return, Op::End, Op::LGet(0), Op::I32C(1), num("i32.sub"), Op::LGet(1), Op::I64C(3), num("i64.mul"), Op::LGet(2), num("i64.extend_i32_s"), num("i64.add"), Op::I32C(9), Op::LSet(2), Op::ReturnCall(me)]);
    let even = tl + 1;
    let odd = even + 1;
    m.func(&[I32, I64], &[I64], &[], vec![Op::LGet(0), num("i32.eqz"), Op::If(BT::Empty), Op::LGet(1), Op::Return, Op::End, Op::VConst(5), Op::LGet(0), Op::I32C(1), num("i32.sub"), Op::LGet(1), Op::I64C(2), num("i64.add"), Op::ReturnCall(odd)]);
    m.func(&[I32, I64], &[I64], &[V128, I64], vec![Op::LGet(1), Op::LSet(3), Op::LGet(0), num("i32.eqz"), Op::If(BT::Empty), Op::I64C(-1), Op::LGet(3), num("i64.sub"), Op::Return, Op::End, Op::LGet(0), Op::I32C(1), num("i32.sub"), Op::LGet(3), Op::I64C(5), num("i64.mul"), Op::ReturnCall(even)]);
    let ty_ii = m.ty(&[I32], &[I32]);
    let tind = m.func(&[I32], &[I32], &[F64], vec![Op::I32C(99), Op::LGet(0), Op::LGet(0), Op::I32C(3), num("i32.and"), Op::ReturnCallIndirect { ty: ty_ii, table: 0 }]);
    let thost = m.func(&[I32], &[I32], &[I64], vec![Op::I64C(4), Op::LGet(0), Op::ReturnCall(h1)]);
    let results = m.ty(&[], &[I64, I32]);
    let fin = m.func(&[I32], &[I64, I32], &[], vec![Op::GGet(ACC), Op::I64C(1000), num("i64.add"), Op::LGet(0)]);
    let ttrap = m.func(&[I32], &[I32], &[I64], vec![Op::I64C(5), Op::I32C(100), Op::LGet(0), num("i32.div_u"), Op::LSet(0), Op::Drop, Op::LGet(0)]);
    let tailh = m.func(&[I32], &[I64, I32], &[V128], vec![Op::I32C(1), Op::LGet(0), Op::Call(h1), Op::Drop, Op::Drop, Op::VConst(1), Op::LGet(0), Op::ReturnCall(fin)]);
    let tb = m.func(&[I32], &[I32], &[], vec![Op::LGet(0), Op::ReturnCall(b1)]);
    let bt2 = m.ty(&[], &[I32, I64]);
    m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: FUNC, items: [inc, b1, h1, dbl, tind, rec].iter().map(|f| vec![Op::RefFunc(*f)]).collect() });
    Lib { m, wide, h1, hn, hm, he, hx, b, ti: 0, ty_ii, rec, tl, even, tind, thost, fin, tailh, ttrap, tb, bt2, leaf, results }
}
const END_AT: i32 = 77;
/// The steps; local 0 is the counter, 1.. are i32, i64, v128, f64, f32, externref. The flag marks steps that end
/// the call when the counter reaches `END_AT`.
fn steps(x: &Lib) -> Vec<(&'static str, Vec<Op>, bool)> {
    let c = Op::LGet(0);
    let at_end = [Op::LGet(0), Op::I32C(END_AT), num("i32.eq"), Op::If(BT::Empty)];
    let and = |n: i32| vec![Op::LGet(0), Op::I32C(n), num("i32.and")];
    let ld = |op: u8, o: u64| mem(op, o);
    vec![
        ("mix", cat(&[&[Op::LGet(0), num("i64.extend_i32_s")], &mix()]), false),
        ("wide", cat(&[&[c.clone(), Op::GGet(ACC), c.clone(), num("f32.convert_i32_s"), Op::GGet(FACC), Op::GGet(VACC), Op::Call(x.wide), Op::LSet(5), Op::LSet(2), Op::LSet(1), Op::GSet(FACC), Op::GSet(VACC), Op::LGet(1), Op::GSet(IACC), Op::LGet(2)], &mix()]), false),
        ("host", cat(&[&[c.clone(), Op::Call(x.h1)], &mix32()]), false),
        ("host nested", cat(&[&[c.clone(), Op::Call(x.hn)], &mix()]), false),
        ("host memory", cat(&[&[c.clone(), Op::Call(x.hm), Op::I32C(0), ld(0x28, 0)], &mix32()]), false),
        ("host wide", cat(&[&[Op::GGet(VACC), Op::GGet(ACC), c.clone(), num("f32.convert_i32_u"), Op::Call(x.hx), Op::GSet(IACC), Op::GSet(VACC)], &mix()]), false),
        ("other instance", cat(&[&[c.clone(), Op::GGet(ACC), Op::Call(x.b), Op::LSet(1)], &mix(), &[Op::LGet(1)], &mix32()]), false),
        ("indirect", cat(&[&[c.clone()], &and(3), &[Op::CallIndirect { ty: x.ty_ii, table: x.ti }], &mix32()]), false),
        ("recursion", cat(&[&and(7), &[Op::Call(x.rec)], &mix32()]), false),
        ("tail self", cat(&[&and(7), &[Op::GGet(ACC), Op::Call(x.tl)], &mix()]), false),
        ("tail mutual", cat(&[&and(7), &[Op::GGet(ACC), Op::Call(x.even)], &mix()]), false),
        ("tail indirect", cat(&[&[c.clone(), Op::Call(x.tind)], &mix32()]), false),
        ("tail host", cat(&[&[c.clone(), Op::Call(x.thost)], &mix32()]), false),
        ("tail other", cat(&[&[c.clone(), Op::Call(x.tb)], &mix32()]), false),
        ("memory", cat(&[&and(31), &[Op::GGet(ACC), ld(0x37, 3), c.clone(), Op::I32C(31), num("i32.and"), ld(0x2d, 5)], &mix32()]), false),
        ("vector", vec![Op::GGet(VACC), c.clone(), Op::V(17), Op::V(174), Op::LTee(3), Op::LGet(3), Op::V(0x50), Op::LGet(3), Op::V(0x51), Op::GSet(VACC)], false),
        ("branch values", cat(&[&[Op::Block(BT::Type(x.bt2)), c.clone(), Op::GGet(ACC), Op::LGet(0), Op::I32C(1), num("i32.and"), Op::BrIf(0), Op::Drop, Op::I64C(77), Op::End], &mix(), &[Op::GSet(IACC)]]), false),
        ("br_table", cat(&[&[Op::Block(BT::Val(I32)), Op::Block(BT::Val(I32)), Op::Block(BT::Val(I32)), Op::GGet(IACC)], &and(3), &[Op::BrTable(vec![0, 1, 2].into(), 1), Op::End, Op::I32C(3), num("i32.add"), Op::End, Op::I32C(5), num("i32.mul"), Op::End], &mix32()]), false),
        ("inner loop", cat(&[&[Op::I32C(3), Op::LSet(1), Op::Loop(BT::Empty), Op::LGet(1)], &mix32(), &[Op::LGet(1), Op::I32C(1), num("i32.sub"), Op::LTee(1), Op::BrIf(0), Op::End]]), false),
        ("bulk", cat(&[&and(7), &[Op::I32C(0), Op::I32C(5), Op::MemInit { data: 0, mem: 0 }, Op::I32C(20), Op::I32C(2), Op::I32C(9), Op::MemCopy { dst: 0, src: 0 }, Op::I32C(40), c.clone(), Op::I32C(3), Op::MemFill(0), Op::I32C(0), Op::MemGrow(0), Op::GSet(IACC), Op::I32C(22), ld(0x29, 0)], &mix()]), false),
        ("tables", cat(&[&[Op::I32C(5), Op::I32C(0), Op::TGet(0), Op::TSet(0), Op::I32C(0), Op::I32C(1), Op::I32C(3), Op::TableCopy { dst: 0, src: 0 }, Op::I32C(3), Op::I32C(5), Op::TGet(0), Op::TSet(0), Op::RefNull(Ext), Op::LSet(6), Op::LGet(6), Op::RefIsNull, Op::TableSize(0), num("i32.add")], &mix32()]), false),
        ("select", vec![c.clone(), Op::GGet(IACC), Op::LGet(0), Op::I32C(2), num("i32.and"), Op::Select, Op::GSet(IACC), Op::GGet(FACC), Op::F64C(0x3ff8 << 48), num("f64.mul"), Op::F64C(0x4024 << 48), Op::LGet(0), Op::Select, Op::GSet(FACC), Op::GGet(FACC), num("i64.reinterpret_f64"), Op::GGet(ACC), num("i64.xor"), Op::GSet(ACC)], false),
        ("trap", vec![Op::I32C(1), Op::LGet(0), Op::I32C(END_AT), num("i32.sub"), num("i32.div_u"), Op::Drop], true),
        ("host error", vec![c.clone(), Op::Call(x.he)], true),
        ("trap in callee", cat(&[&[Op::LGet(0), Op::I32C(END_AT), num("i32.sub"), Op::Call(x.ttrap)], &mix32()]), true),
        ("return", cat(&[&at_end, &[Op::VConst(4), Op::GGet(ACC), Op::LGet(0), Op::Return, Op::End]]), true),
        ("tail out", cat(&[&at_end, &[Op::I64C(4), Op::LGet(0), Op::ReturnCall(x.fin), Op::End]]), true),
        ("tail out twice", cat(&[&at_end, &[Op::LGet(0), Op::ReturnCall(x.tailh), Op::End]]), true),
        ("unreachable", cat(&[&at_end, &[Op::Unreachable, Op::End]]), true),
        ("memory trap", vec![Op::LGet(0), Op::I32C(END_AT - 60), num("i32.sub"), Op::I32C(0), num("i32.sub"), Op::I32C(63), num("i32.and"), Op::LGet(0), Op::I32C(END_AT), num("i32.eq"), Op::I32C(6), num("i32.shl"), num("i32.or"), Op::I32C(1), ld(0x36, 0)], true),
    ]
}
/// Wraps the steps: 0 loop, 1 recursion (the steps run on the way in, half of them again on the way out), 2 tail call of itself.
fn driver(x: &Lib, kind: usize, me: u32, body: &[Op], pad: usize, deep: bool) -> Vec<Op> {
    let mut b = vec![];
    let inner = if deep {
        // operands of every width stay below the steps
        cat(&[&[Op::LGet(0), Op::GGet(ACC), Op::GGet(VACC), Op::GGet(FACC), Op::I32C(5)], body, &[Op::GGet(IACC), num("i32.add"), Op::GSet(IACC), Op::GSet(FACC), Op::GSet(VACC)], &mix(), &[Op::GGet(IACC), num("i32.xor"), Op::GSet(IACC)]])
    } else { body.to_vec() };
    let pads: Vec<Op> = (0..pad).flat_map(|_| [Op::GGet(IACC), Op::GSet(IACC)]).collect();
    let dec = [Op::LGet(0), Op::I32C(1), num("i32.sub")];
    match kind {
        0 => { b.push(Op::Loop(BT::Empty)); b.extend(inner); b.extend(pads); b.extend(dec); b.extend([Op::LTee(0), Op::BrIf(0), Op::End, Op::GGet(ACC), Op::GGet(IACC)]) }
        1 => {
            b.extend([Op::LGet(0), Op::If(BT::Type(x.results))]);
            b.extend(inner);
            b.extend(pads);
            b.extend([Op::GGet(ACC), Op::GGet(VACC)]);
            b.extend(dec);
            b.extend([Op::Call(me), Op::GSet(IACC), Op::LSet(2), Op::GSet(VACC), Op::LGet(2), num("i64.add"), Op::GGet(IACC), Op::LGet(0), num("i32.add"), Op::Else, Op::GGet(ACC), Op::GGet(IACC), Op::End]);
        }
        _ => { b.extend(inner); b.extend(pads); b.extend([Op::LGet(0), num("i32.eqz"), Op::If(BT::Empty), Op::GGet(ACC), Op::GGet(IACC), Op::Return, Op::End]); b.extend(dec); b.push(Op::ReturnCall(me)) }
    }
    b
}
const DRIVERS: [&str; 3] = ["loop", "recursion", "tail recursion"];

/// What host functions saw, on each side.
#[derive(Default)]
struct Seen { r: Cell<u64>, t: Cell<u64> }
fn note(c: &Cell<u64>, tag: u64, v: &[u128]) { c.set(hash(&(c.get(), tag, v))) }

struct Env { w: World, i: usize, seen: Rc<Seen> }
fn setup(dm: &Def, db: &Def, cfg: Config, leaf: u32) -> Result<Env, String> {
    let mut w = World::new(cfg);
    w.rs.budget = u64::MAX;
    let seen: Rc<Seen> = Default::default();
    let ib = w.instantiate(db, &[], true)?.ok_or("instantiation of the other module failed")?;
    let raddr = Rc::new(Cell::new(0usize));
    let tfun: Rc<RefCell<Option<Function>>> = Default::default();
    let other = Trap::Host("stop".into());
    let mk = |s: &Rc<Seen>| (s.clone(), s.clone());
    let (s1, s2) = mk(&seen);
    let h1 = w.host_fn(&[I32], &[I32], Rc::new(move |_, _, a| { note(&s1.r, 1, a); Ok(vec![(a[0] as u32).wrapping_mul(3) as u128]) }), Rc::new(move |_, a| { note(&s2.t, 1, a); Ok(vec![(a[0] as u32).wrapping_mul(3) as u128]) }));
    let (s1, s2) = mk(&seen);
    let (ra, tf) = (raddr.clone(), tfun.clone());
    // calls back into the instance, for longer than a slice
    let hn = w.host_fn(&[I32], &[I64],
        Rc::new(move |s, _, a| { note(&s1.r, 2, a); let n = (a[0] & 3) * 20 + 1; let v = s.invoke(ra.get(), &[n])?; Ok(vec![v[0] | a[0] << 40]) }),
        Rc::new(move |mut ctx, a| {
            note(&s2.t, 2, a);
            if a[0] & 1 == 1 { ctx.charge_fuel(37) }
            let f = tf.borrow().clone().unwrap();
            let v = ctx.call_untyped(&f, &[WasmValue::I32(((a[0] & 3) * 20 + 1) as i32)])?;
            Ok(vec![from_wv(&v[0]).1 | a[0] << 40])
        }));
    let (s1, s2) = mk(&seen);
    let hm = w.host_fn(&[I32], &[],
        Rc::new(move |s, i, a| { note(&s1.r, 3, a); let (m, g) = (s.insts[i].mems[0], s.insts[i].globals[IACC as usize]); s.mems[m].data[1] = a[0] as u8; s.globals[g].v ^= a[0]; Ok(vec![]) }),
        Rc::new(move |mut ctx, a| {
            note(&s2.t, 3, a);
            let m = ctx.memory("m0")?;
            m.copy_from_slice(ctx.store_mut(), 1, &[a[0] as u8])?;
            let WasmValue::I32(g) = ctx.global_get("g3")? else { panic!("type of g3") };
            ctx.global_set("g3", WasmValue::I32(g ^ a[0] as i32))?;
            Ok(vec![])
        }));
    let (s1, s2) = mk(&seen);
    let he = w.host_fn(&[I32], &[], Rc::new(move |_, _, a| { note(&s1.r, 4, a); if a[0] == END_AT as u128 { Err(other.clone()) } else { Ok(vec![]) } }), Rc::new(move |_, a| { note(&s2.t, 4, a); if a[0] == END_AT as u128 { Err(tinywasm::Error::Other("stop".into())) } else { Ok(vec![]) } }));
    let (s1, s2) = mk(&seen);
    let f = |a: &[u128]| vec![a[1] ^ a[2], a[0].rotate_left(3), a[0] & 0xffff_ffff];
    let hx = w.host_fn(&[V128, I64, F32], &[I64, V128, I32], Rc::new(move |_, _, a| { note(&s1.r, 5, a); Ok(f(a)) }), Rc::new(move |_, a| { note(&s2.t, 5, a); Ok(f(a)) }));
    let (b0, b1) = (w.item(ib, "f0"), w.item(ib, "f1"));
    let i = w.instantiate(dm, &[Some(h1), Some(hn), Some(hm), Some(he), Some(hx), Some(b0), Some(b1)], true)?.ok_or("instantiation failed")?;
    let Item::Func(a, h) = w.item(i, &format!("f{leaf}")) else { unreachable!() };
    raddr.set(a);
    *tfun.borrow_mut() = Some(h);
    Ok(Env { w, i, seen })
}
struct Prog { name: String, body: Vec<Op>, ends: bool }

fn run_programs(c: &Check, l: &mut Local, progs: &[Prog], o: Opts, policy: FuelPolicy, backend: usize) {
    let x = lib();
    let mut m = x.m;
    let first = m.n_imp(EK::Func) + m.funcs.len() as u32;
    for p in progs { m.func(&[I32], &[I64, I32], &[I32, I64, V128, F64, F32, Ext], p.body.clone()); }
    export_all(&mut m);
    let (dm, db) = match (Def::new(&m, o), Def::new(&other(), o)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => { c.violation("parse", e, hex(&encode(&m))); return } };
    let bes = crate::backends::all();
    let cfg = || (bes[backend].1)().with_fuel_policy(policy);
    let mut env = match setup(&dm, &db, cfg(), x.leaf) { Ok(e) => e, Err(e) => { c.violation(format!("setup {}", progs[0].name), e, hex(&dm.bytes)); return } };
    let scheds = schedules();
    let susp = Cell::new(0u64);
    for (k, p) in progs.iter().enumerate() {
        let name = format!("f{}", first + k as u32);
        let starts: Vec<u32> = if p.ends { (0..128).map(|i| END_AT as u32 + i).collect() } else { vec![131] };
        for (q, n) in starts.iter().enumerate() {
            for (si, sched) in scheds.iter().enumerate() {
                // programs that end early: all schedules for some starts, the finest ones for all
                if p.ends && q % 16 != 0 && si > 1 { continue }
                if c.stopped() { return }
                l.traces += 1;
                env.w.rs.steps = 0;
                let what = || format!("{} from {n}, slices {sched:?}, {:?} rewrite={} {policy:?} {}", p.name, o.memopt, o.rewrite, bes[backend].0);
                crate::batch::watch(what);
                let cap = 200_000;
                let f = env.w.item(env.i, &name);
                let r = if si % 3 == 1 {
                    let inst = env.w.insts[env.i].1.clone();
                    env.w.call_via(&f, &[*n as u128], |_, s, _| { let h = inst.func::<i32, (i64, i32)>(s, &name)?; sliced_typed(&h, s, *n as i32, sched, cap, &susp).map(|(a, b)| vec![a.into(), b.into()]) })
                } else { env.w.call_via(&f, &[*n as u128], |h, s, a| sliced(h, s, a, sched, cap, &susp)) };
                crate::batch::end_watch();
                l.transitions += env.w.rs.steps;
                let r = r.and_then(|o| { if env.seen.r.get() != env.seen.t.get() { return Err("the host calls differ".into()) } env.w.check().map(|()| o) });
                match r {
                    Ok(out) => { l.states.insert(hash(&(env.w.state_hash(), format!("{out:?}")))); }
                    Err(e) => {
                        c.violation(format!("{}|{sched:?}|{}", p.name, o.rewrite), format!("{e}\n{}\n{}", what(), show_ops(&p.body)), hex(&dm.bytes));
                        match setup(&dm, &db, cfg(), x.leaf) { Ok(e) => std::mem::forget(std::mem::replace(&mut env, e)), Err(_) => return }
                    }
                }
            }
        }
    }
    l.add("suspensions", susp.get());
}

pub fn run(c: &Check) {
    let x = lib();
    let st = steps(&x);
    let n = st.len();
    let first = x.m.n_imp(EK::Func) + x.m.funcs.len() as u32;
    let max = c.pick(2, 3);
    // (steps, driver, pad, deep)
    let mut seqs: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    let mut last = seqs.clone();
    for _ in 1..max { last = last.iter().flat_map(|s| (0..n).map(move |i| { let mut v = s.clone(); v.push(i); v })).collect(); seqs.extend(last.clone()) }
    let cfgs: Vec<(Opts, FuelPolicy, usize)> = vec![(Opts::ON, FuelPolicy::PerInstruction, 0), (Opts::OFF, FuelPolicy::Weighted, 4), (Opts::ON, FuelPolicy::Weighted, 8), (Opts::OFF, FuelPolicy::PerInstruction, 12)];
    // every sequence in every driver, with either parity of length, and with operands below
    let forms: Vec<(usize, usize, bool)> = (0..3).flat_map(|d| [(d, 0, false), (d, 1, true)]).chain((0..3).flat_map(|d| [(d, 1, false), (d, 0, true)])).collect();
    const B: usize = 24;
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(B).collect();
    let total = chunks.len() * forms.len();
    c.par(total, |j, l| {
        let x = lib();
        let st = steps(&x);
        let (ch, (d, pad, deep)) = (chunks[j / forms.len()], forms[j % forms.len()]);
        let progs: Vec<Prog> = ch.iter().enumerate().map(|(k, s)| {
            let body: Vec<Op> = s.iter().flat_map(|i| st[*i].1.clone()).collect();
            Prog { name: format!("{}{}{} of [{}]", DRIVERS[d], if pad > 0 { " +1" } else { "" }, if deep { " over operands" } else { "" }, s.iter().map(|i| st[*i].0).collect::<Vec<_>>().join(", ")), body: driver(&x, d, first + k as u32, &body, pad, deep), ends: s.iter().any(|i| st[*i].2) }
        }).collect();
        l.sample(|| format!("{}: {}", progs[0].name, show_ops(&progs[0].body)));
        for (k, (o, p, b)) in cfgs.iter().enumerate() { if ch[0].len() == 1 || c.tier == Tier::Thorough || k == (j / forms.len() + j) % 4 { run_programs(c, l, &progs, *o, *p, *b) } }
    });
    let _ = (x.h1, x.tb);
    c.bound(format!("programs: every sequence of 1 to {max} of {n} steps (arithmetic, calls of every kind, host calls that call back, write memory or charge fuel, memory, table, vector and branch instructions, and 8 ways to end the call early) in 3 drivers (loop, recursion, tail recursion) with 131 iterations, in lengths of both parities and with operands of every width below; {} slice schedules of fuel and time", schedules().len()));
    c.bound("early endings: the ending iteration is placed at 128 successive distances from the start, so that it meets every position in a slice");
    c.assume("suspension points lie every 128 instructions of a slice; if that interval changes the drivers still suspend at every point as long as their length is coprime to it");
}
