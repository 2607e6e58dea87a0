//! P21: instances interact only through what they import and export.
//! Every history of instantiations (every subset of memory, table and global shared with an earlier instance, from its
//! first or its own item) and of reads and writes by the instances; after every step every instance reports all it can
//! see and every exported item is compared with the reference store.
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use tinywasm::engine::Config;
use VT::{I32, I64};
const FUNC: VT = VT::Func;

fn ml() -> Limits { Limits { min: 8, max: Some(12), is64: false, page_log2: Some(0) } }
fn tl() -> Limits { Limits::new(3, Some(5)) }
const OPS: [&str; 10] = ["write own memory", "write first memory", "set own global", "set first global", "put own function into own table", "put own function into first table", "grow first memory", "fill own memory from segment and drop it", "fill first table from segment and drop it", "call through first table"];

/// `mask`: which of memory, table, global it imports; it always has one of each of its own as well.
fn module(mask: usize) -> Module {
    let mut m = Module::default();
    let im = |m: &mut Module, n: &str, kind| m.imports.push(Import { module: "p".into(), name: n.into(), kind });
    let (hm, ht, hg) = (mask & 1, mask >> 1 & 1, mask >> 2 & 1);
    if hm == 1 { im(&mut m, "m", ImportKind::Mem(ml())) }
    if ht == 1 { im(&mut m, "t", ImportKind::Table(FUNC, tl())) }
    if hg == 1 { im(&mut m, "g", ImportKind::Global(I64, true)) }
    let (om, ot, og) = (m.mem(ml()), m.table(FUNC, tl()), m.global(I64, true, Op::I64C(mask as i64 + 1)));
    let bt = m.ty(&[I64], &[I64]);
    // bump: changes the instance it belongs to, returns what it sees
    let st8 = |mem: u32, off: u64| Op::Mem { op: 0x3a, m: MA { align: 0, offset: off, mem } };
    let ld8 = |mem: u32, off: u64| Op::Mem { op: 0x31, m: MA { align: 0, offset: off, mem } };
    let bump = m.func(&[I64], &[I64], &[], vec![Op::GGet(og), Op::LGet(0), num("i64.add"), Op::GSet(og), Op::I32C(7), Op::GGet(og), Op::Num(0xa7), st8(om, 0), Op::GGet(og), Op::I32C(0), ld8(om, 0), num("i64.add")]);
    let ops: Vec<Vec<Op>> = vec![
        vec![Op::I32C(0), Op::LGet(1), st8(om, 1)], vec![Op::I32C(0), Op::LGet(1), st8(0, 2)],
        vec![Op::LGet(1), Op::Num(0xac), Op::GSet(og)], vec![Op::GGet(0), Op::LGet(1), Op::Num(0xac), num("i64.mul"), Op::GSet(0)],
        vec![Op::I32C(1), Op::RefFunc(bump), Op::TSet(ot)], vec![Op::I32C(1), Op::RefFunc(bump), Op::TSet(0)],
        vec![Op::I32C(1), Op::MemGrow(0), Op::Drop],
        vec![Op::I32C(3), Op::I32C(0), Op::I32C(2), Op::MemInit { data: 1, mem: om }, Op::DataDrop(1)],
        vec![Op::I32C(1), Op::I32C(0), Op::I32C(2), Op::TableInit { elem: 1, table: 0 }, Op::ElemDrop(1)],
        vec![Op::LGet(1), Op::Num(0xac), Op::I32C(1), Op::CallIndirect { ty: bt, table: 0 }, Op::Drop],
    ];
    let n = ops.len() as u32;
    let mut b: Vec<Op> = vec![Op::Block(BT::Empty); n as usize + 1];
    b.extend([Op::LGet(0), Op::BrTable((0..n).collect(), n), Op::End]);
    for o in ops { b.extend(o); b.push(Op::Return); b.push(Op::End) }
    m.func(&[I32, I32], &[], &[], b);
    // everything the instance can see
    let mut s = vec![];
    let mut r = vec![];
    for x in 0..=om { s.extend([Op::I32C(0), Op::Mem { op: 0x29, m: MA { align: 0, offset: 0, mem: x } }, Op::MemSize(x)]); r.extend([I64, I32]) }
    for x in 0..=og { s.push(Op::GGet(x)); r.push(I64) }
    for x in 0..=ot { s.push(Op::TableSize(x)); r.push(I32); for i in 0..3 { s.extend([Op::I32C(i), Op::TGet(x), Op::RefIsNull]); r.push(I32) } }
    m.func(&[], &r, &[], s);
    m.datas.push(Data { mode: SegMode::Active { idx: om, offset: vec![Op::I32C(0)] }, bytes: vec![0x10 + mask as u8, 0x20] });
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![0xa0 + mask as u8, 0xb0, 0xc0] });
    m.elems.push(Elem { mode: SegMode::Active { idx: ot, offset: vec![Op::I32C(0)] }, ty: FUNC, items: vec![vec![Op::RefFunc(bump)]] });
    m.elems.push(Elem { mode: SegMode::Passive, ty: FUNC, items: vec![vec![Op::RefFunc(bump)], vec![Op::RefNull(FUNC)]] });
    for (n, k, first, own) in [("m", EK::Mem, 0, om), ("t", EK::Table, 0, ot), ("g", EK::Global, 0, og)] { m.export(&format!("{n}0"), k, first); m.export(&format!("{n}own"), k, own) }
    m.export("bump", EK::Func, bump);
    m.export("op", EK::Func, bump + 1);
    m.export("see", EK::Func, bump + 2);
    m
}
#[derive(Clone, Copy)]
enum Act { New { mask: usize, from_last: bool, own: bool }, Op { inst: usize, op: usize }, Bump(usize) }
fn name(a: Act) -> String {
    match a {
        Act::New { mask, from_last, own } => format!("new instance sharing {}{}{}{}", if mask & 1 > 0 { "m" } else { "" }, if mask & 2 > 0 { "t" } else { "" }, if mask & 4 > 0 { "g" } else { "" }, if mask == 0 { "nothing".to_string() } else { format!(" ({} of {})", if own { "own" } else { "first" }, if from_last { "last" } else { "first" }) }),
        Act::Op { inst, op } => format!("instance {inst}: {}", OPS[op]), Act::Bump(i) => format!("instance {i}: bump"),
    }
}
fn step(w: &mut World, defs: &[Def], a: Act, n: u32) -> Result<u64, String> {
    match a {
        Act::New { mask, from_last, own } => {
            let src = if from_last { w.insts.len() - 1 } else { 0 };
            let items: Vec<Option<Item>> = (0..3).filter(|b| mask >> b & 1 == 1).map(|b| Some(w.item(src, &format!("{}{}", ["m", "t", "g"][b], if own { "own" } else { "0" })))).collect();
            w.instantiate(&defs[mask], &items, true)?.ok_or("refused")?;
        }
        Act::Op { inst, op } => { let i = inst % w.insts.len(); w.call_name(i, "op", &[op as u128, 3 + n as u128])?; }
        Act::Bump(inst) => { let i = inst % w.insts.len(); w.call_name(i, "bump", &[n as u128 + 1])?; }
    }
    for i in 0..w.insts.len() { w.call_name(i, "see", &[]).map_err(|e| format!("what instance {i} sees: {e}"))?; }
    w.check()?;
    Ok(w.state_hash())
}
fn fresh(defs: &[Def]) -> World {
    let mut w = World::new(Config::new());
    w.instantiate(&defs[0], &[], true).expect("first").expect("first");
    w
}
fn explore(c: &Check, what: &str, depth: usize, acts: &[Act], mods: &[Module]) {
    c.bound(format!("{what}: every history of {depth} steps of {} actions after a first instance", acts.len()));
    let n = acts.len();
    c.par(n, |j, l| {
        let defs: Vec<Def> = mods.iter().map(|m| Def::new(m, Opts::ON).expect("module")).collect();
        histories(c, l, what, depth, n, Some(j), &|| (fresh(&defs), 0u32), &|w, a| { w.1 += 1; let n = w.1; step(&mut w.0, &defs, acts[a], n) }, &|a| name(acts[a]));
    });
}
pub fn run(c: &Check) {
    let mods: Vec<Module> = (0..8).map(module).collect();
    let mut all = vec![Act::New { mask: 0, from_last: false, own: false }];
    for mask in 1..8 { for from_last in [false, true] { for own in [false, true] { all.push(Act::New { mask, from_last, own }) } } }
    for inst in 0..3 { for op in 0..OPS.len() { all.push(Act::Op { inst, op }) } all.push(Act::Bump(inst)) }
    let mut few = vec![Act::New { mask: 0, from_last: false, own: false }];
    for mask in [1, 2, 4, 7] { few.push(Act::New { mask, from_last: true, own: true }) }
    few.push(Act::New { mask: 7, from_last: false, own: false });
    for inst in 0..3 { for op in [1, 3, 5, 8, 9] { few.push(Act::Op { inst, op }) } few.push(Act::Bump(inst)) }
    explore(c, "all sharing patterns", c.pick(3, 4), &all, &mods);
    explore(c, "common sharing patterns", c.pick(4, 5), &few, &mods);
}
