//! P26: exactly the valid modules are accepted and no input crashes the parser.
//! (a) every operator on every operand stack and every short operator sequence, valid or not, against a type checker
//! written from the specification; (b) every short constant expression in every place one can stand; (c) every
//! one-byte change, insertion, deletion, truncation and section rearrangement of modules that use the whole format,
//! against a validator with the documented features; (d) modules at the implementation's limits; (e) memory taken by
//! hostile headers. Accepted modules are also instantiated and run with bounded fuel.
use crate::batch::{end_watch, watch};
use crate::corpus::*;
use crate::enumr::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use tinywasm::types::{FuncType, MemoryArch, MemoryType, TableType, WasmValue};
use tinywasm::{ExecProgress, Function, Global, HostFunction, Imports, Memory, ModuleInstance, Store, Table};
use wasmparser::{Validator, WasmFeatures};
use VT::{F32, F64, I32, I64, V128};
const FUNC: VT = VT::Func;
const EXT: VT = VT::Ext;
const ALL: [VT; 7] = [I32, I64, F32, F64, V128, FUNC, EXT];
const NOVAL: Opts = Opts { rewrite: true, memopt: true, validate: false, threads: 1 };
const NOMEM: Opts = Opts { rewrite: false, memopt: false, validate: true, threads: 2 };

/// The proposals the README lists as supported (reference types need the type representation of GC_TYPES).
fn features() -> WasmFeatures {
    use WasmFeatures as F;
    F::FLOATS | F::GC_TYPES | F::REFERENCE_TYPES | F::MUTABLE_GLOBAL | F::MULTI_VALUE | F::BULK_MEMORY | F::BULK_MEMORY_OPT | F::CALL_INDIRECT_OVERLONG | F::SATURATING_FLOAT_TO_INT
        | F::SIGN_EXTENSION | F::EXTENDED_CONST | F::TAIL_CALL | F::MULTI_MEMORY | F::SIMD | F::RELAXED_SIMD | F::MEMORY64 | F::CUSTOM_PAGE_SIZES | F::WIDE_ARITHMETIC
}
/// Valid with the supported features; valid only with the notation of typed function references (may be refused).
#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict { Valid, Either, Invalid }
fn verdict(b: &[u8]) -> Verdict {
    if Validator::new_with_features(features()).validate_all(b).is_ok() { return if exact(b) { Verdict::Either } else { Verdict::Valid } }
    if Validator::new_with_features(features() | WasmFeatures::FUNCTION_REFERENCES).validate_all(b).is_ok() { Verdict::Either } else { Verdict::Invalid }
}
/// Imports or exports of the exact function types of a later proposal, which the validator lets through.
fn exact(b: &[u8]) -> bool {
    wasmparser::Parser::new(0).parse_all(b).any(|p| match p {
        Ok(wasmparser::Payload::ImportSection(r)) => r.into_imports().any(|i| matches!(i, Ok(i) if matches!(i.ty, wasmparser::TypeRef::FuncExact(_)))),
        Ok(wasmparser::Payload::ExportSection(r)) => r.into_iter().any(|e| matches!(e, Ok(e) if e.kind == wasmparser::ExternalKind::FuncExact)),
        _ => false,
    })
}
fn sect(b: &mut Vec<u8>, id: u8, c: &[u8]) { b.push(id); uleb(b, c.len() as u64); b.extend(c) }

// ------------------------------------------------------------------------------------------ (a) operators

/// A module in which one function's body is replaced by each body under test.
pub struct Bench { m: Module, results: Vec<VT>, locals: Vec<VT>, declared: Vec<u32>, head: Vec<u8>, code: Vec<u8>, n: u64, tail: Vec<u8> }
impl Bench {
    pub fn new(results: &[VT]) -> Bench {
        let mut m = Module::default();
        m.ty(&[], &[]);
        m.import_func("e", "f", &[I32], &[I32]);
        m.imports.push(Import { module: "e".into(), name: "g".into(), kind: ImportKind::Global(I32, false) });
        m.ty(&[], &[I32, I64]); m.ty(&[I64, F32], &[]); m.ty(&[I32], &[]); m.ty(&[I32], &[I32, I32]);
        for (t, l) in [(FUNC, Limits::new(2, None)), (EXT, Limits::new(2, None)), (FUNC, Limits::new64(2, None))] { m.table(t, l); }
        m.mem(Limits::new(1, None)); m.mem(Limits::new64(1, None));
        m.global(I64, true, Op::I64C(0)); m.global(FUNC, true, Op::RefNull(FUNC)); m.global(V128, false, Op::VConst(0)); m.global(F32, true, Op::F32C(0));
        for (t, mode, i) in [(FUNC, SegMode::Passive, Op::RefFunc(0)), (EXT, SegMode::Passive, Op::RefNull(EXT)), (FUNC, SegMode::Declared, Op::RefFunc(0))] { m.elems.push(Elem { mode, ty: t, items: vec![vec![i]] }) }
        m.datas.push(Data { mode: SegMode::Passive, bytes: vec![1] });
        m.func(&[], &[], &[], vec![]);
        let f = m.func(&[I32], results, &ALL, vec![Op::Unreachable]);
        m.export("x", EK::Func, f);
        let all = sections(&encode(&m));
        let ci = all.iter().position(|s| s.0 == 10).unwrap();
        let bs = bodies(&all[ci].1);
        let mut code = vec![];
        for b in &bs[..bs.len() - 1] { uleb(&mut code, b.len() as u64); code.extend(b) }
        Bench { head: join(&all[..ci]), tail: join(&all[ci + 1..])[8..].to_vec(), n: bs.len() as u64, code, results: results.to_vec(), locals: [&[I32][..], &ALL].concat(), declared: vec![0, f], m }
    }
    pub fn bytes(&self, ops: &[Op]) -> Vec<u8> {
        let mut body = vec![7];
        for t in ALL { body.push(1); body.push(t.byte()) }
        for o in ops { encode_op(&mut body, o) }
        body.push(0x0b);
        let mut c = vec![];
        uleb(&mut c, self.n);
        c.extend(&self.code);
        uleb(&mut c, body.len() as u64); c.extend(body);
        let mut b = Vec::with_capacity(self.head.len() + c.len() + self.tail.len() + 8);
        b.extend(&self.head);
        sect(&mut b, 10, &c);
        b.extend(&self.tail);
        b
    }
    /// Whether the body is valid, and a fingerprint of the checker's last state.
    pub fn valid(&self, ops: &[Op]) -> (bool, u64) {
        let e = Env { m: &self.m, locals: &self.locals };
        let mut t = TS::new(&self.results);
        for (i, o) in ops.iter().enumerate() {
            let h = hash(&(&t.st, t.ctl.iter().map(|c| (c.kind, c.height, c.unreachable)).collect::<Vec<_>>()));
            if t.check(&e, &self.declared, o).is_none() { return (false, hash(&(h, o, ops.len() - i))) }
        }
        let h = hash(&(&t.st, t.ctl.iter().map(|c| (c.kind, c.height, c.unreachable, c.results.clone())).collect::<Vec<_>>()));
        (t.check(&e, &self.declared, &Op::End).is_some() && t.finished(), h)
    }
    fn judge(&self, c: &Check, l: &mut Local, ops: &[Op], alt: bool) {
        let (want, h) = self.valid(ops);
        let b = self.bytes(ops);
        l.transitions += 1; l.traces += 1;
        l.states.insert(h);
        l.add(if want { "valid" } else { "invalid" }, 1);
        let r = parse(&b, if alt { Opts::OFF } else { Opts::ON });
        let tell = |what: String| c.violation(format!("ops {:?} -> {:?}", show_ops(ops), self.results), format!("body {} of type [i32] -> {:?} is {}, but {what}", show_ops(ops), self.results, if want { "valid" } else { "invalid" }), hex(&b));
        match &r {
            Ok(_) if !want => tell("it is accepted".into()),
            Err(e) if want || e.starts_with("panic") => tell(format!("the parser says {e}")),
            _ => (),
        }
        if want && r.is_ok() {
            for o in [if alt { Opts::ON } else { Opts::OFF }, NOVAL, NOMEM] { l.traces += 1; if let Err(e) = parse(&b, o) { tell(format!("with {o:?} the parser says {e}")) } }
        }
    }
}
pub fn cst(t: VT) -> Op { match t { I32 => Op::I32C(1), I64 => Op::I64C(1), F32 => Op::F32C(0), F64 => Op::F64C(0), V128 => Op::VConst(1), t => Op::RefNull(t) } }
/// Every operator with immediates in and out of range.
pub fn all_ops() -> Vec<Op> {
    let mut v = vec![Op::Unreachable, Op::Nop, Op::Else, Op::End, Op::Return, Op::Drop, Op::Select, Op::RefIsNull];
    for b in [BT::Empty, BT::Type(0), BT::Type(1), BT::Type(2), BT::Type(5), BT::Type(6), BT::Type(99)].into_iter().chain(ALL.map(BT::Val)) { v.extend([Op::Block(b), Op::Loop(b), Op::If(b)]) }
    for i in [0, 1, 2, 77] { v.extend([Op::Br(i), Op::BrIf(i), Op::Call(i), Op::ReturnCall(i), Op::BrTable([].into(), i), Op::BrTable([0, i].into(), 0)]) }
    for ty in [0, 1, 2, 3, 99] { for table in [0, 1, 2, 3] { v.extend([Op::CallIndirect { ty, table }, Op::ReturnCallIndirect { ty, table }]) } }
    for t in ALL { v.extend([Op::SelectT(t), cst(t)]) }
    for i in (0..10).chain([200]) { v.extend([Op::LGet(i), Op::LSet(i), Op::LTee(i)]) }
    for i in 0..7 { v.extend([Op::GGet(i), Op::GSet(i)]) }
    for i in 0..4 { v.extend([Op::TGet(i), Op::TSet(i), Op::TableGrow(i), Op::TableSize(i), Op::TableFill(i)]); for j in 0..4 { v.extend([Op::TableCopy { dst: i, src: j }, Op::TableInit { elem: i, table: j }]) } }
    for i in 0..4 { v.extend([Op::ElemDrop(i), Op::DataDrop(i), Op::RefFunc(i)]) }
    for i in 0..3 { v.extend([Op::MemSize(i), Op::MemGrow(i), Op::MemFill(i)]); for j in 0..3 { v.extend([Op::MemCopy { dst: i, src: j }, Op::MemInit { data: i, mem: j }]) } }
    for mem in 0..3 { for align in 0..6 { for offset in [0, u32::MAX as u64, 1 << 32, u64::MAX] { if align < 5 || offset == 0 {
        let m = MA { align, offset, mem };
        for op in 0x28..=0x3e { if offset == 0 || [0x28, 0x39].contains(&op) { v.push(Op::Mem { op, m }) } }
        for sub in (0..=11).chain(84..=93) { for lane in [0, 1, 2, 4, 8, 15, 16] { if (matches!(sub, 84..=91) && offset == 0) || lane == 0 { v.push(Op::VMem { sub, m, lane }) } } }
    } } } }
    for b in 0x45..=0xc4 { v.push(Op::Num(b)) }
    for s in 0..8 { v.push(Op::Sat(s)) }
    for s in 19..=22 { v.push(Op::Wide(s)) }
    for sub in 0..=275 { if v_exists(sub) { v.push(Op::V(sub)) } }
    for sub in 21..=34 { for lane in [0, 1, 2, 3, 4, 7, 8, 15, 16, 255] { v.push(Op::VLane { sub, lane }) } }
    for x in [0, 31, 32, 255] { let mut s = [0; 16]; s[9] = x; v.push(Op::Shuffle(s)) }
    v
}
pub fn stacks(max: usize) -> Vec<Vec<VT>> {
    let mut v: Vec<Vec<VT>> = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..max { last = last.iter().flat_map(|s| ALL.map(|t| { let mut s = s.clone(); s.push(t); s })).collect(); v.extend(last.clone()) }
    v
}
fn operators(c: &Check) {
    let ops = all_ops();
    let b0 = Bench::new(&[]);
    let st = stacks(3);
    let deep = c.pick(3, 4);
    c.bound(format!("(a) {} operator forms (every opcode, immediates in and out of range) on each of {} operand stacks of up to 3 values of 7 types (4 values {}), alone, in dead code and in front of dead code; result types of each operator against every consumer", ops.len(), st.len(), if deep == 4 { "too" } else { "over 3 types" }));
    // operand types: what follows is unreachable, so only the operands decide
    c.par(ops.len(), |j, l| {
        let op = &ops[j];
        for s in &st {
            let pre: Vec<Op> = s.iter().map(|t| cst(*t)).collect();
            b0.judge(c, l, &[&pre[..], &[op.clone(), Op::Unreachable]].concat(), j % 2 == 0);
            if s.len() <= 1 {
                // in dead code with some known operands, and as the last instruction with everything before it dead
                b0.judge(c, l, &[&[Op::Unreachable][..], &pre, &[op.clone(), Op::Unreachable]].concat(), false);
                b0.judge(c, l, &[&[Op::Unreachable][..], &pre, &[op.clone()]].concat(), true);
                b0.judge(c, l, &[&[Op::Block(BT::Empty), Op::Br(0)][..], &pre, &[op.clone(), Op::End]].concat(), true);
                b0.judge(c, l, &[&[Op::Block(BT::Empty)][..], &pre, &[op.clone(), Op::Unreachable, Op::End]].concat(), true);
                // operands below the block may not be used
                b0.judge(c, l, &[&pre[..], &[Op::Block(BT::Empty), op.clone(), Op::Unreachable, Op::End, Op::Unreachable]].concat(), false);
            }
        }
        if deep == 4 { for s in &st { if s.len() == 3 { for t in ALL { let pre: Vec<Op> = [t].iter().chain(s).map(|t| cst(*t)).collect(); b0.judge(c, l, &[&pre[..], &[op.clone(), Op::Unreachable]].concat(), false) } } } }
        else { for k in 0..81usize { let pre: Vec<Op> = (0..4).map(|i| cst([I32, I64, V128][k / 3usize.pow(i) % 3])).collect(); b0.judge(c, l, &[&pre[..], &[op.clone(), Op::Unreachable]].concat(), true) } }
    });
    // result types: with the right operands, followed by each consumer
    let benches: Vec<Bench> = stacks(2).iter().map(|r| Bench::new(r)).collect();
    c.par(ops.len(), |j, l| {
        let op = &ops[j];
        for s in &st {
            let pre: Vec<Op> = s.iter().map(|t| cst(*t)).collect();
            let all = [&pre[..], &[op.clone()]].concat();
            if !b0.valid(&[&all[..], &[Op::Unreachable]].concat()).0 { continue }
            // (too many operands are also valid before dead code: only the shortest stack matters for results)
            if !s.is_empty() && b0.valid(&[&pre[1..], &[op.clone(), Op::Unreachable]].concat()).0 { continue }
            for b in &benches { b.judge(c, l, &all, false) }
            for k in 0..7u32 { b0.judge(c, l, &[&all[..], &[Op::LSet(1 + k), Op::Unreachable]].concat(), true) }
        }
    });
}
fn sequences(c: &Check) {
    let e = BT::Empty;
    let v = BT::Val(I32);
    let control = vec![Op::Unreachable, Op::Block(e), Op::Block(v), Op::Loop(e), Op::Loop(BT::Type(1)), Op::If(e), Op::If(v), Op::Else, Op::End, Op::Br(0), Op::Br(1), Op::BrIf(0), Op::BrTable([0].into(), 1), Op::Return, Op::Drop, Op::I32C(1), Op::I64C(1), Op::Select, Op::LGet(0), Op::Call(0)];
    let mixed: Vec<Op> = vec![Op::Unreachable, Op::Nop, Op::Block(e), Op::Block(BT::Type(5)), Op::Loop(v), Op::If(v), Op::Else, Op::End, Op::Br(0), Op::BrIf(1), Op::BrTable([1, 0].into(), 0), Op::Return, Op::Call(0), Op::Call(1), Op::CallIndirect { ty: 2, table: 0 }, Op::CallIndirect { ty: 0, table: 2 }, Op::ReturnCall(1), Op::ReturnCall(0), Op::ReturnCallIndirect { ty: 1, table: 0 },
        Op::Drop, Op::Select, Op::SelectT(I64), Op::SelectT(FUNC), Op::LGet(0), Op::LGet(2), Op::LGet(5), Op::LGet(6), Op::LSet(1), Op::LSet(2), Op::LTee(3), Op::LTee(7), Op::GGet(0), Op::GGet(1), Op::GGet(2), Op::GSet(0), Op::GSet(1), Op::GSet(2), Op::TGet(0), Op::TGet(1), Op::TSet(0), Op::TSet(1), Op::TableSize(2), Op::TableGrow(0), Op::TableFill(1), Op::TableCopy { dst: 0, src: 2 }, Op::TableInit { elem: 1, table: 1 }, Op::ElemDrop(0),
        mem(0x28, 0), mem(0x29, 4), mem(0x36, 0), mem(0x39, 0), Op::Mem { op: 0x28, m: MA { align: 2, offset: 0, mem: 1 } }, Op::MemSize(1), Op::MemGrow(0), Op::MemFill(0), Op::MemCopy { dst: 0, src: 1 }, Op::MemInit { data: 0, mem: 0 }, Op::DataDrop(0),
        Op::I32C(0), Op::I64C(0), Op::F32C(0), Op::F64C(0), Op::VConst(0), Op::RefNull(FUNC), Op::RefNull(EXT), Op::RefIsNull, Op::RefFunc(0), num("i32.add"), num("i64.add"), num("f32.add"), num("i64.extend_i32_u"), num("i32.eqz"), Op::Num(0xbf), Op::Sat(4), Op::Wide(21), Op::V(17), Op::V(174), Op::VLane { sub: 29, lane: 1 }, Op::Shuffle([3; 16]), Op::V(82)];
    let refs = vec![Op::RefNull(FUNC), Op::RefNull(EXT), Op::RefFunc(0), Op::RefFunc(1), Op::RefIsNull, Op::I32C(0), Op::I64C(0), Op::TGet(0), Op::TGet(1), Op::TGet(2), Op::TSet(0), Op::TSet(1), Op::TableGrow(1), Op::TableFill(0), Op::Select, Op::SelectT(FUNC), Op::SelectT(EXT), Op::LGet(6), Op::LSet(7), Op::GSet(2), Op::Drop, Op::Block(BT::Val(FUNC)), Op::Br(0), Op::End];
    let q = c.quick();
    let themes: Vec<(&str, &[Op], usize, Vec<VT>)> = vec![
        ("control", &control, if q { 4 } else { 5 }, vec![]), ("control", &control, if q { 4 } else { 5 }, vec![I32]), ("control", &control[..16], if q { 5 } else { 6 }, vec![I32]),
        ("mixed", &mixed, 3, vec![]), ("mixed", &mixed, 3, vec![I32]), ("mixed", &mixed, if q { 2 } else { 3 }, vec![I64, FUNC]), ("references", &refs, if q { 4 } else { 5 }, vec![]), ("references", &refs, 4, vec![FUNC]),
    ];
    for (name, a, n, res) in themes {
        let b = Bench::new(&res);
        let total = (1..=n).map(|k| a.len().pow(k as u32)).sum::<usize>();
        c.bound(format!("(a) {name}: all {total} sequences of length 1..={n} over {} operators, result {res:?}", a.len()));
        c.par(a.len() * a.len(), |j, l| {
            let first = [j / a.len(), j % a.len()];
            if first[1] == 0 { b.judge(c, l, &[a[first[0]].clone()], false) }
            let mut ix: Vec<usize> = first.to_vec();
            loop {
                let ops: Vec<Op> = ix.iter().map(|i| a[*i].clone()).collect();
                b.judge(c, l, &ops, ix[ix.len() - 1] % 2 == 0);
                // depth-first successor below the two fixed operators
                if ix.len() < n { ix.push(0); continue }
                loop {
                    if ix.len() == 2 { return }
                    let k = ix.len() - 1;
                    if ix[k] + 1 < a.len() { ix[k] += 1; break }
                    ix.pop();
                }
            }
        });
    }
}

// ------------------------------------------------------------------------------------------ (b) constant expressions

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place { Global(VT), Data(bool), Elem(bool), Item(VT) }
fn const_env() -> Module {
    let mut m = Module::default();
    m.import_func("e", "f", &[], &[]);
    for (n, t, mu) in [("i", I32, false), ("j", I64, false), ("r", FUNC, false), ("m", I32, true)] { m.imports.push(Import { module: "e".into(), name: n.into(), kind: ImportKind::Global(t, mu) }) }
    m.global(I32, false, Op::I32C(3)); // 4: defined, immutable
    m
}
fn const_module(p: Place, e: &[Op]) -> Module {
    let mut m = const_env();
    let init = e.to_vec();
    match p {
        Place::Global(t) => { m.globals.push(GlobalDef { ty: t, mutable: false, init }); m.global(I32, false, Op::I32C(1)); }
        Place::Data(is64) => { m.mem(Limits { is64, ..Limits::new(1, None) }); m.datas.push(Data { mode: SegMode::Active { idx: 0, offset: init }, bytes: vec![] }) }
        Place::Elem(is64) => { m.table(FUNC, Limits { is64, ..Limits::new(1, None) }); m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: init }, ty: FUNC, items: vec![] }) }
        Place::Item(t) => m.elems.push(Elem { mode: SegMode::Passive, ty: t, items: vec![init] }),
    }
    m.func(&[], &[], &[], vec![]);
    m
}
fn const_valid(p: Place, e: &[Op]) -> bool {
    let want = match p { Place::Global(t) | Place::Item(t) => t, Place::Data(x) | Place::Elem(x) => if x { I64 } else { I32 } };
    let mut st: Vec<VT> = vec![];
    let bin = |st: &mut Vec<VT>, t: VT| { let n = st.len(); if n < 2 || st[n - 1] != t || st[n - 2] != t { return false } st.pop(); true };
    for o in e {
        let ok = match o {
            Op::I32C(_) => { st.push(I32); true }
            Op::I64C(_) => { st.push(I64); true }
            Op::F32C(_) => { st.push(F32); true }
            Op::F64C(_) => { st.push(F64); true }
            Op::VConst(_) => { st.push(V128); true }
            Op::RefNull(t) => { st.push(*t); true }
            Op::RefFunc(f) => { st.push(FUNC); *f < 2 }
            // imported immutable globals only
            Op::GGet(g) => match g { 0 => { st.push(I32); true } 1 => { st.push(I64); true } 2 => { st.push(FUNC); true } _ => false },
            Op::Num(0x6a..=0x6c) => bin(&mut st, I32),
            Op::Num(0x7c..=0x7e) => bin(&mut st, I64),
            _ => false,
        };
        if !ok { return false }
    }
    st == [want]
}
fn constants(c: &Check) {
    let n = |s: &str| num(s);
    let wide = vec![Op::I32C(7), Op::I64C(7), Op::F32C(0x7fc00000), Op::F64C(0), Op::VConst(1), Op::RefNull(FUNC), Op::RefNull(EXT), Op::RefFunc(0), Op::RefFunc(1), Op::RefFunc(2), Op::GGet(0), Op::GGet(1), Op::GGet(2), Op::GGet(3), Op::GGet(4), Op::GGet(5), Op::GGet(6), Op::GGet(99),
        n("i32.add"), n("i32.sub"), n("i32.mul"), n("i64.add"), n("i64.sub"), n("i64.mul"), n("i32.div_s"), n("i32.and"), n("f32.add"), n("i32.eqz"), n("i64.extend_i32_s"), n("i32.wrap_i64"), Op::Nop, Op::Drop, Op::End, Op::Unreachable, Op::Call(0), Op::LGet(0), Op::MemSize(0), Op::Block(BT::Empty), Op::Select, Op::RefIsNull, Op::V(17), Op::GSet(3), Op::Return, Op::TGet(0)];
    let narrow = vec![Op::I32C(2), Op::I64C(3), Op::GGet(0), Op::GGet(1), n("i32.add"), n("i32.mul"), n("i64.sub"), n("i64.add")];
    let places: Vec<Place> = ALL.iter().map(|t| Place::Global(*t)).chain([Place::Data(false), Place::Data(true), Place::Elem(false), Place::Elem(true), Place::Item(FUNC), Place::Item(EXT)]).collect();
    let (dw, dn) = (c.pick(2, 3), c.pick(5, 7));
    c.bound(format!("(b) constant expressions in {} places: every sequence of length 0..={dw} over {} operators and 0..={dn} over {}", places.len(), wide.len(), narrow.len()));
    c.par(places.len() * 2 * wide.len(), |j, l| {
        let p = places[j % places.len()];
        let (a, d) = if j / places.len() % 2 == 0 { (&wide, dw) } else { (&narrow, dn) };
        let first = j / places.len() / 2;
        if first >= a.len() { return }
        let mut seqs: Vec<Vec<usize>> = vec![vec![first]];
        if first == 0 { seqs.push(vec![]) }
        while let Some(s) = seqs.pop() {
            if !s.is_empty() && s.len() < d { for k in 0..a.len() { let mut t = s.clone(); t.push(k); seqs.push(t) } }
            let e: Vec<Op> = s.iter().map(|i| a[*i].clone()).collect();
            // an early end leaves bytes that the next item swallows; what it becomes is decided by the reference validator
            let b = encode(&const_module(p, &e));
            let want = if e.contains(&Op::End) { match verdict(&b) { Verdict::Valid => true, Verdict::Invalid => false, _ => continue } } else { const_valid(p, &e) };
            l.transitions += 1; l.traces += 1;
            l.states.insert(hash(&(format!("{p:?}"), &e)));
            l.add(if want { "valid" } else { "invalid" }, 1);
            for o in [Opts::ON, NOMEM] {
                match parse(&b, o) {
                    Ok(m) => {
                        if !want { c.violation(format!("const {p:?} {:?}", show_ops(&e)), format!("the constant expression {} for {p:?} is invalid but accepted", show_ops(&e)), hex(&b)) }
                        else if let Err(x) = run_all(&m) { c.violation(format!("const {p:?} {:?}", show_ops(&e)), format!("the constant expression {} for {p:?}: {x}", show_ops(&e)), hex(&b)) }
                    }
                    Err(x) => if want || x.starts_with("panic") { c.violation(format!("const {p:?} {:?}", show_ops(&e)), format!("the constant expression {} for {p:?} is {} but the parser says {x}", show_ops(&e), if want { "valid" } else { "invalid" }), hex(&b)) },
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------ running what was accepted

/// Instantiates with fitting imports and calls every function with bounded fuel. Errors are fine, panics are not.
fn run_all(m: &tinywasm::Module) -> Result<(), String> {
    watch(|| "instantiating and running an accepted module".into());
    let r = guard(|| {
        let mut store = Store::default();
        let mut imps = Imports::new();
        // the corpus' imports; a changed import simply does not link
        let f = HostFunction::from_untyped(&mut store, &FuncType::new(&[wt(I32), wt(I64)], &[wt(F32)]), |_, _| Ok(vec![WasmValue::F32(1.5)]));
        imps.define("env", "f", f);
        let f0 = HostFunction::from_untyped(&mut store, &FuncType::new(&[], &[]), |_, _| Ok(vec![]));
        imps.define("e", "f", f0.clone());
        if let Ok(t) = Table::new(&mut store, TableType::new(wt(FUNC), 2, Some(9)), WasmValue::RefFunc(tinywasm::types::FuncRef::new(None))) { imps.define("env", "t", t); }
        if let Ok(x) = Memory::new(&mut store, MemoryType::new(MemoryArch::I32, 1, Some(4), None)) { imps.define("", "mémoire", x); }
        let gl = |store: &mut Store, t: VT, mu: bool, v: u128| Global::new(store, tinywasm::types::GlobalType::new(wt(t), mu), to_wv(t, v)).expect("global");
        for (mo, n, t, mu, v) in [("g", "", I32, false, 3u128), ("g", "m", V128, true, 9), ("e", "i", I32, false, 4), ("e", "j", I64, false, 5), ("e", "r", FUNC, false, crate::oracle::NULL), ("e", "m", I32, true, 6), ("e", "g", I32, false, 0)] { let g = gl(&mut store, t, mu, v); imps.define(mo, n, g); }
        let Ok(i) = ModuleInstance::instantiate_no_start(&mut store, m, Some(imps)) else { return };
        let mut fs: Vec<(Function, FuncType)> = vec![];
        if let Ok(Some(s)) = i.start_func(&store) { fs.push((s, FuncType::new(&[], &[]))) }
        for e in m.exports() { if let tinywasm::types::ExportType::Func(t) = e.ty { if let Ok(f) = i.func_untyped(&store, e.name) { fs.push((f, t.clone())) } } }
        for (f, ty) in fs {
            let args: Vec<WasmValue> = ty.params().iter().map(|t| match t { tinywasm::types::WasmType::RefFunc => to_wv(FUNC, crate::oracle::NULL), tinywasm::types::WasmType::RefExtern => to_wv(EXT, 1), tinywasm::types::WasmType::I32 => WasmValue::I32(1), tinywasm::types::WasmType::I64 => WasmValue::I64(1), tinywasm::types::WasmType::F32 => WasmValue::F32(1.0), tinywasm::types::WasmType::F64 => WasmValue::F64(1.0), tinywasm::types::WasmType::V128 => WasmValue::V128([1; 16]) }).collect();
            let Ok(mut x) = f.call_resumable(&mut store, &args) else { continue };
            for _ in 0..3 { match x.resume_with_fuel(300) { Ok(ExecProgress::Suspended) => (), _ => break } }
        }
    });
    end_watch();
    r.map_err(|p| format!("instantiating or running it panics: {p}"))
}

// ------------------------------------------------------------------------------------------ (c) damaged modules

fn judge_bytes(c: &Check, l: &mut Local, what: impl Fn() -> String, b: &[u8], opts: &[Opts]) {
    let want = verdict(b);
    l.transitions += 1;
    l.add(match want { Verdict::Valid => "valid", Verdict::Either => "valid_with_unsupported_notation", Verdict::Invalid => "invalid" }, 1);
    if want != Verdict::Invalid { l.states.insert(hash(b)); } else { l.states.insert(hash(&b[..b.len().min(24)])); }
    watch(|| hex(&b[..b.len().min(3000)]));
    for (k, o) in opts.iter().enumerate() {
        l.traces += 1;
        let r = parse(b, *o);
        let tell = |e: String| c.violation(format!("bytes {}", what()), format!("{} is {want:?}, but with {o:?} {e}", what()), hex(b));
        match r {
            Ok(m) => {
                if want == Verdict::Invalid { tell("it is accepted".into()) }
                else if k == 0 && let Err(e) = run_all(&m) { tell(e) }
            }
            Err(e) => if want == Verdict::Valid || e.starts_with("panic") { tell(format!("the parser says {e}")) },
        }
        if want == Verdict::Invalid && k == 1 { break }
    }
    end_watch();
}
/// A position in a module, as the section (and body) it lies in, so that lengths can be repaired after a change.
fn edited(secs: &[(u8, Vec<u8>)], i: usize, f: impl FnOnce(&mut Vec<u8>)) -> Vec<u8> { let mut s = secs.to_vec(); f(&mut s[i].1); join(&s) }
fn damage(c: &Check) {
    let mods: Vec<(&str, Vec<u8>)> = small().into_iter().skip(1).collect();
    let full = !c.quick();
    let size: usize = mods.iter().map(|m| m.1.len()).sum();
    c.bound(format!("(c) {} modules, {size} bytes: every byte replaced by every value; in every section and function body, with the lengths repaired, every byte value inserted at and every 1..=4 bytes deleted from every place; every truncation; every section removed, doubled, swapped; every pair of neighbouring bytes over {} values; LEB128 numbers in padded and overlong forms", mods.len(), if full { 256 } else { 12 }));
    let opts = [Opts::ON, NOMEM, Opts::OFF, NOVAL];
    for (name, b) in &mods {
        let secs = sections(b);
        // raw replacement and truncation
        c.par(b.len(), |i, l| {
            for v in 0..=255u8 { if v != b[i] { let mut d = b.clone(); d[i] = v; judge_bytes(c, l, || format!("{name} with byte {i} = {v:#x}"), &d, &opts) } }
            judge_bytes(c, l, || format!("the first {i} bytes of {name}"), &b[..i], &opts);
            if i + 1 < b.len() {
                let vals: Vec<u8> = if full { (0..=255).collect() } else { vec![0, 1, 2, 0x0b, 0x40, 0x63, 0x6f, 0x70, 0x7f, 0x80, 0xfd, 0xff] };
                for x in &vals { for y in &vals { let mut d = b.clone(); d[i] = *x; d[i + 1] = *y; judge_bytes(c, l, || format!("{name} with bytes {i}.. = {x:#x} {y:#x}"), &d, &opts[..2]) } }
            }
        });
        // edits with repaired section lengths
        let mut at: Vec<(usize, usize)> = vec![];
        for (i, s) in secs.iter().enumerate() { for p in 0..=s.1.len() { at.push((i, p)) } }
        c.par(at.len(), |j, l| {
            let (i, p) = at[j];
            for v in 0..=255u8 { let d = edited(&secs, i, |s| s.insert(p, v)); judge_bytes(c, l, || format!("{name} with {v:#x} inserted at {p} of section {i}"), &d, &opts[..3]) }
            for n in 1..=4 { if p + n <= secs[i].1.len() { let d = edited(&secs, i, |s| { s.drain(p..p + n); }); judge_bytes(c, l, || format!("{name} without {n} bytes at {p} of section {i}"), &d, &opts[..3]) } }
            if let Some(x) = secs[i].1.get(p).filter(|x| **x < 0x80) {
                // the same number in 2..=11 bytes, and with stray high bits
                for n in 2..=11 { for last in [0u8, 1, 0x7f, 0x10] { let d = edited(&secs, i, |s| { let mut r = vec![x | 0x80]; r.resize(n - 1, 0x80); r.push(last); s.splice(p..=p, r); }); judge_bytes(c, l, || format!("{name} with byte {p} of section {i} as a {n}-byte number ending in {last:#x}"), &d, &opts[..2]) } }
            }
        });
        // edits inside function bodies with both lengths repaired
        if let Some(ci) = secs.iter().position(|s| s.0 == 10) {
            let bs = bodies(&secs[ci].1);
            let at: Vec<(usize, usize)> = bs.iter().enumerate().flat_map(|(i, x)| (0..=x.len()).map(move |p| (i, p))).collect();
            c.par(at.len(), |j, l| {
                let (i, p) = at[j];
                let put = |f: &dyn Fn(&mut Vec<u8>)| { let mut n = bs.clone(); f(&mut n[i]); edited(&secs, ci, |s| *s = code(&n)) };
                for v in 0..=255u8 {
                    let d = put(&|x| x.insert(p, v)); judge_bytes(c, l, || format!("{name} with {v:#x} inserted at {p} of body {i}"), &d, &opts);
                    for w in [0u8, 0x1a] { let d = put(&|x| { x.insert(p, w); x.insert(p, v) }); judge_bytes(c, l, || format!("{name} with {v:#x} {w:#x} inserted at {p} of body {i}"), &d, &opts[..2]) }
                    // prefixed opcodes
                    for pre in [0xfcu8, 0xfd] { let d = put(&|x| { for b in [0, if v < 128 { 0 } else { 1 }].into_iter().rev().take(if v < 128 { 1 } else { 2 }) { x.insert(p, b) } x.insert(p, v); x.insert(p, pre) }); judge_bytes(c, l, || format!("{name} with {pre:#x} {v:#x} inserted at {p} of body {i}"), &d, &opts[..2]) }
                }
                for n in 1..=6 { if p + n <= bs[i].len() { let d = put(&|x| { x.drain(p..p + n); }); judge_bytes(c, l, || format!("{name} without {n} bytes at {p} of body {i}"), &d, &opts) } }
            });
        }
        // section surgery
        c.par(secs.len() * 16, |j, l| {
            let (i, k) = (j / 16, j % 16);
            let mut s = secs.clone();
            match k {
                0 => { s.remove(i); judge_bytes(c, l, || format!("{name} without section {i}"), &join(&s), &opts) }
                1 => { s.insert(i, secs[i].clone()); judge_bytes(c, l, || format!("{name} with section {i} twice"), &join(&s), &opts) }
                2 => for q in 0..i { let mut s = secs.clone(); s.swap(i, q); judge_bytes(c, l, || format!("{name} with sections {i} and {q} swapped"), &join(&s), &opts) },
                3 => for id in 0..=255u8 { for content in [vec![], vec![0], vec![1], vec![0, 0]] { let mut s = secs.clone(); s.insert(i, (id, content.clone())); judge_bytes(c, l, || format!("{name} with a section {id} of {content:?} before section {i}"), &join(&s), &opts) } },
                4 => for id in 0..=20u8 { let mut s = secs.clone(); s[i].0 = id; judge_bytes(c, l, || format!("{name} with section {i} numbered {id}"), &join(&s), &opts) },
                5 => { s[i].1 = vec![0]; judge_bytes(c, l, || format!("{name} with section {i} empty"), &join(&s), &opts) }
                6 => { s[i].1 = vec![]; judge_bytes(c, l, || format!("{name} with section {i} without a count"), &join(&s), &opts) }
                7 => for v in [0xffu8, 0x0b, 0] { let mut s = secs.clone(); s[i].1.push(v); judge_bytes(c, l, || format!("{name} with {v:#x} at the end of section {i}"), &join(&s), &opts) },
                // empty section, then the real one: a duplicate although nothing was in the first
                8 => { s.insert(i, (secs[i].0, vec![0])); judge_bytes(c, l, || format!("{name} with an empty section in front of section {i}"), &join(&s), &opts) }
                9 => { s.insert(i + 1, (secs[i].0, vec![0])); judge_bytes(c, l, || format!("{name} with an empty section behind section {i}"), &join(&s), &opts) }
                _ => (),
            }
        });
    }
}

// ------------------------------------------------------------------------------------------ (d) limits

/// A module, a call and its result. `must` says whether it has to be accepted (no implementation limit is involved).
pub struct Big { pub name: String, pub m: Module, args: Vec<u128>, want: Vec<u128>, must: bool }
pub fn bigs(quick: bool) -> Vec<Big> {
    let mut v = vec![];
    let mut add = |name: String, m: Module, args: Vec<u128>, want: Vec<u128>, must: bool| v.push(Big { name, m, args, want, must });
    let one = |params: &[VT], res: &[VT], locals: &[VT], body: Vec<Op>| { let mut m = Module::default(); let f = m.func(params, res, locals, body); m.export("x", EK::Func, f); m };
    // operand heights of every lane
    for (t, add_op) in [(I32, num("i32.add")), (I64, num("i64.add")), (F32, num("f32.add")), (V128, Op::V(206))] {
        for n in [254usize, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 70000] {
            let k = match t { I32 => Op::I32C(1), I64 => Op::I64C(1), F32 => Op::F32C(0x3f800000), _ => Op::VConst(1) };
            let want = match t { F32 => (n as f32).to_bits() as u128, _ => n as u128 };
            let mut b = vec![k; n]; b.extend(vec![add_op.clone(); n - 1]);
            add(format!("{n} operands of {t:?}"), one(&[], &[t], &[], b), vec![], vec![want], false);
            // a branch that discards them
            let mut b = vec![Op::Block(BT::Val(t))];
            b.extend(vec![cst(t); n]); b.push(Op::Br(0)); b.push(Op::End);
            add(format!("a branch over {n} operands of {t:?}"), one(&[], &[t], &[], b), vec![], vec![if t == F32 { 0 } else { 1 }], false);
            // operands under a block that is left with a value
            let mut b = vec![cst(I32); 3]; b.extend(vec![cst(t); n]); b.extend([Op::Block(BT::Val(I32)), Op::I32C(9), Op::LGet(0), Op::BrIf(0), Op::Drop, Op::I32C(8), Op::End, Op::LSet(0)]);
            b.extend(vec![Op::Drop; n + 3]); b.push(Op::LGet(0));
            add(format!("a block over {n} operands of {t:?}"), one(&[I32], &[I32], &[], b), vec![1], vec![9], false);
        }
    }
    // locals of every type up to the format's limit
    for t in ALL { for n in [254u32, 255, 256, 257, 258, 1000, 32767, 32768, 49999] {
        let k = cst(t);
        let (get, back): (Vec<Op>, u128) = match t { F32 | F64 => (vec![Op::LGet(n)], 0), FUNC | EXT => (vec![Op::LGet(n), Op::RefIsNull], 1), _ => (vec![Op::LGet(n)], 1) };
        let mut b = vec![k, Op::LSet(n)]; b.extend(get);
        add(format!("local {n} of type {t:?}"), one(&[I32], &[if t.is_ref() { I32 } else { t }], &vec![t; n as usize], b), vec![5], vec![back], true);
        // the parameter is still there, and the local before is untouched
        let mut b = vec![cst(t), Op::LSet(n), Op::LGet(n - 1)]; b.extend(match t { I32 => vec![], I64 => vec![num("i32.wrap_i64")], F32 => vec![Op::Num(0xbc)], F64 => vec![Op::Num(0xbd), num("i32.wrap_i64")], V128 => vec![Op::V(83)], _ => vec![Op::RefIsNull, num("i32.eqz")] });
        b.extend([Op::LGet(0), num("i32.add")]);
        add(format!("neighbours of local {n} of type {t:?}"), one(&[I32], &[I32], &vec![t; n as usize], b), vec![5], vec![5], true);
    } }
    // parameters and results up to the format's limit
    for n in [16usize, 17, 255, 256, 257, 999, 1000] { for t in [I32, I64, V128] {
        let tys = vec![t; n];
        let args: Vec<u128> = (0..n as u128).map(|i| i * 3 + 1).collect();
        add(format!("{n} parameters and results of {t:?}"), one(&tys, &tys, &[], (0..n as u32).rev().map(Op::LGet).collect()), args.clone(), args.iter().rev().copied().collect(), true);
        let mut m = Module::default();
        let callee = m.func(&tys, &tys, &[], (0..n as u32).rev().map(Op::LGet).collect());
        let bt = m.ty(&tys, &tys);
        let mut b: Vec<Op> = (0..n as u32).map(Op::LGet).collect();
        b.extend([Op::Call(callee), Op::Block(BT::Type(bt)), Op::Br(0), Op::End]);
        let f = m.func(&tys, &tys, &[], b);
        m.export("x", EK::Func, f);
        add(format!("a call with {n} parameters and results of {t:?}"), m, args.clone(), args.into_iter().rev().collect(), true);
    } }
    // branch tables and nesting
    for n in [255u32, 256, 257, 65535, 65536, 70000] {
        let mut b = vec![Op::Block(BT::Empty), Op::Block(BT::Empty), Op::LGet(0), Op::BrTable((0..n).map(|i| (i == n - 1) as u32).collect(), 0), Op::End, Op::I32C(10), Op::Return, Op::End];
        b.push(Op::I32C(20));
        for (a, w) in [(n - 2, 10), (n - 1, 20), (n, 10), (u32::MAX, 10)] { add(format!("a branch table of {n} entries, index {a}"), one(&[I32], &[I32], &[], b.clone()), vec![a as u128], vec![w], true) }
    }
    for n in [255usize, 256, 257, 1000, 65535, 65537].into_iter().take(if quick { 5 } else { 6 }) {
        let mut b = vec![Op::Block(BT::Empty); n];
        b.extend([Op::LGet(0), Op::BrIf(n as u32 - 1), Op::I32C(1), Op::LSet(0)]);
        b.extend(vec![Op::End; n]);
        b.push(Op::LGet(0));
        for (a, w) in [(0u128, 1), (7, 7)] { add(format!("{n} nested blocks, argument {a}"), one(&[I32], &[I32], &[], b.clone()), vec![a], vec![w], true) }
        let mut b = vec![]; for _ in 0..n { b.extend([Op::LGet(0), Op::If(BT::Empty)]) } b.extend([Op::I32C(3), Op::LSet(0)]); for _ in 0..n { b.extend([Op::Else, Op::End]) } b.push(Op::LGet(0));
        for (a, w) in [(0u128, 0), (7, 3)] { add(format!("{n} nested ifs, argument {a}"), one(&[I32], &[I32], &[], b.clone()), vec![a], vec![w], true) }
    }
    // distances that do not fit in 16 bits
    for n in [32766usize, 65534, 65535, 65536, 70000] {
        let mut b = vec![Op::Block(BT::Empty), Op::LGet(0), Op::BrIf(0)];
        for _ in 0..n / 2 { b.extend([num("i32.clz").clone()].into_iter().filter(|_| false)); b.extend([Op::I32C(1), Op::Call(0)]) }
        b.extend([Op::I32C(5), Op::LSet(0), Op::End, Op::LGet(0)]);
        let mut m = Module::default();
        m.func(&[I32], &[], &[], vec![]);
        let f = m.func(&[I32], &[I32], &[], b); m.export("x", EK::Func, f);
        for (a, w) in [(0u128, 5), (7, 7)] { add(format!("a branch over {n} instructions, argument {a}"), m.clone(), vec![a], vec![w], true) }
    }
    // index spaces beyond 16 bits
    for n in [255u32, 256, 65535, 65536, 66000] {
        let mut m = Module::default();
        for i in 0..n { m.types.push(FT { params: vec![[I32, I64, F32, F64][(i & 3) as usize]; (i >> 2 & 7) as usize], results: vec![[I32, I64, F32, F64][(i >> 5 & 3) as usize]; (i >> 7 & 7) as usize] }) }
        m.types.push(FT { params: vec![], results: vec![I32] });
        for i in 0..n { m.funcs.push(Func { ty: n, locals: vec![], body: vec![Op::I32C(i as i32)] }) }
        m.funcs.push(Func { ty: n, locals: vec![], body: vec![Op::Call(n - 1)] });
        m.export("x", EK::Func, n);
        add(format!("{n} types and functions"), m.clone(), vec![], vec![n as u128 - 1], true);
        m.table(FUNC, Limits::new(n as u64, None));
        m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(0)] }, ty: FUNC, items: (0..n).map(|i| vec![Op::RefFunc(i)]).collect() });
        m.funcs[n as usize].body = vec![Op::I32C(n as i32 - 1), Op::CallIndirect { ty: n, table: 0 }];
        add(format!("a table of {n} functions"), m.clone(), vec![], vec![n as u128 - 1], true);
        m.funcs[n as usize].body = vec![Op::I32C(n as i32 - 1), Op::ReturnCallIndirect { ty: n, table: 0 }];
        add(format!("a tail call through a table of {n} functions"), m, vec![], vec![n as u128 - 1], true);
        let mut m = Module::default();
        for i in 0..n { m.global(if i % 2 == 0 { I64 } else { I32 }, true, if i % 2 == 0 { Op::I64C(i as i64) } else { Op::I32C(i as i32) }); }
        let last = (n - 1) & !1;
        let f = m.func(&[], &[I64], &[], vec![Op::GGet(last), Op::I64C(1), num("i64.add"), Op::GSet(last), Op::GGet(last)]);
        m.export("x", EK::Func, f);
        add(format!("{n} globals"), m, vec![], vec![last as u128 + 1], true);
        let mut m = Module::default();
        m.mem(Limits::new(1, None));
        for i in 0..n { m.datas.push(Data { mode: SegMode::Passive, bytes: vec![i as u8, (i >> 8) as u8, (i >> 16) as u8, 1] }) }
        let f = m.func(&[], &[I32], &[], vec![Op::DataDrop(0), Op::I32C(16), Op::I32C(0), Op::I32C(4), Op::MemInit { data: n - 1, mem: 0 }, Op::I32C(16), mem(0x28, 0)]);
        m.export("x", EK::Func, f);
        add(format!("{n} data segments"), m, vec![], vec![(n as u128 - 1) | 1 << 24], true);
        let mut m = Module::default();
        m.table(FUNC, Limits::new(4, None));
        let f = m.func(&[], &[I32], &[], vec![Op::ElemDrop(0), Op::I32C(2), Op::I32C(0), Op::I32C(1), Op::TableInit { elem: n - 1, table: 0 }, Op::I32C(2), Op::TGet(0), Op::RefIsNull]);
        for i in 0..n { m.elems.push(Elem { mode: SegMode::Passive, ty: FUNC, items: vec![vec![if i == n - 1 { Op::RefFunc(f) } else { Op::RefNull(FUNC) }]] }) }
        m.export("x", EK::Func, f);
        add(format!("{n} element segments"), m, vec![], vec![0], n <= 100_000);
        let mut m = Module::default();
        let f = m.func(&[], &[I32], &[], vec![Op::I32C(77)]);
        for i in 0..n { m.export(&format!("e{i}"), EK::Func, f) }
        m.export("x", EK::Func, f);
        add(format!("{n} exports"), m, vec![], vec![77], true);
        // side data of one function
        let mut b = vec![Op::VConst(0)];
        for i in 0..n { b.extend([Op::VConst(i as u128), Op::V(206)]) }
        add(format!("{n} vector constants"), one(&[], &[V128], &[], b), vec![], vec![{ let s: u64 = (0..n as u64).sum(); s as u128 }], true);
        let mut b = vec![];
        for _ in 0..n.min(66000) / 2 { b.extend([Op::Block(BT::Empty), Op::Block(BT::Empty), Op::LGet(0), Op::BrTable([0, 1].into(), 1), Op::End, Op::End]) }
        b.push(Op::I32C(4));
        add(format!("{} branch tables", n / 2), one(&[I32], &[I32], &[], b), vec![0], vec![4], true);
    }
    for n in [1u32, 99, 100] {
        let mut m = Module::default();
        for _ in 0..n { m.mem(Limits::new(1, None)); m.table(FUNC, Limits::new(1, None)); }
        let f = m.func(&[], &[I32], &[], vec![Op::I32C(0), Op::I32C(42), Op::Mem { op: 0x36, m: MA { align: 0, offset: 4, mem: n - 1 } }, Op::I32C(1), Op::MemGrow(n - 1), Op::Drop, Op::I32C(0), Op::Mem { op: 0x28, m: MA { align: 0, offset: 4, mem: n - 1 } }, Op::MemSize(n - 1), num("i32.add"), Op::TableSize(n - 1), num("i32.add")]);
        m.export("x", EK::Func, f);
        add(format!("{n} memories and tables"), m, vec![], vec![45], true);
    }
    v
}
fn limits(c: &Check) {
    let b = bigs(c.quick());
    c.bound(format!("(d) {} modules around 8-, 15-, 16-bit and format limits (operand heights, locals, parameters, results, nesting, branch tables and distances, every index space, side tables): refused, or accepted and computing the right value, rewriting on and off, 1 and 8 threads", b.len()));
    c.par(b.len(), |j, l| {
        let g = &b[j];
        let bytes = encode(&g.m);
        let ok = verdict(&bytes) == Verdict::Valid;
        let big_stack = g.want.len();
        for o in [Opts::ON, Opts::OFF, Opts { threads: 8, ..Opts::ON }] {
            l.transitions += 1; l.traces += 1;
            l.states.insert(hash(&g.name));
            let bad = |e: String| c.violation(format!("limit {}", g.name), format!("{} with {o:?}: {e}", g.name), "");
            watch(|| g.name.clone());
            let r = parse(&bytes, o);
            match r {
                Err(e) => { l.add("refused", 1); if e.starts_with("panic") || ok && g.must { bad(e) } }
                Ok(_) if !ok => bad("invalid, but accepted".into()),
                Ok(m) => {
                    l.add("accepted", 1);
                    let r = guard(|| {
                        let cfg = tinywasm::engine::Config::new().with_value_stack(tinywasm::engine::StackConfig::dynamic(1024, 400_000 + big_stack));
                        let mut s = Store::new(tinywasm::Engine::new(cfg));
                        let i = ModuleInstance::instantiate(&mut s, &m, None).map_err(|e| e.to_string())?;
                        let f = i.func_untyped(&s, "x").map_err(|e| e.to_string())?;
                        let ty = g.m.func_type(g.m.exports.last().unwrap().idx).clone();
                        let out = vals_out(Some(&ty.results), f.call(&mut s, &args_wv(&ty.params, &g.args)));
                        if out != Out::Vals(g.want.clone()) { return Err(format!("gives {out:x?}, expected {:x?}", g.want)) }
                        Ok::<_, String>(())
                    });
                    match r { Ok(Ok(())) => (), Ok(Err(e)) => bad(e), Err(p) => bad(format!("panic {p}")) }
                }
            }
            end_watch();
        }
    });
}

// ------------------------------------------------------------------------------------------ (e) memory

fn memory(c: &Check) {
    const LIMIT: u64 = 24 << 20;
    c.bound("(e) headers that announce sections, bodies, names, vectors and locals of up to 2^32-1 items in a few bytes: the parser's peak memory stays below 24 MiB for slices and streams");
    let mut cases: Vec<(String, Vec<u8>)> = vec![];
    let head = b"\0asm\x01\0\0\0".to_vec();
    let big = [1u64 << 16, 1 << 20, 1 << 24, 1 << 28, (1 << 31) - 1, u32::MAX as u64];
    for id in 0..14u8 { for n in big {
        // section length
        let mut b = head.clone(); b.push(id); uleb(&mut b, n); b.extend([1, 0, 0]); cases.push((format!("section {id} of {n} bytes"), b));
        // item count
        for fill in [0usize, 3, 40] { let mut s = vec![]; uleb(&mut s, n); s.extend(vec![0x60; fill]); let mut b = head.clone(); sect(&mut b, id, &s); cases.push((format!("section {id} with {n} items"), b)); }
        // code sections with a matching function section in front
        if id == 10 {
            let mut t = head.clone(); sect(&mut t, 1, &[1, 0x60, 0, 0]);
            let mut fs = vec![]; uleb(&mut fs, n); fs.extend([0; 8]); let mut b = t.clone(); sect(&mut b, 3, &fs);
            let mut cs = vec![]; uleb(&mut cs, n); cs.extend([2, 0, 0x0b]); sect(&mut b, 10, &cs); cases.push((format!("{n} functions in name only"), b));
            let mut b = t.clone(); sect(&mut b, 3, &[8, 0, 0, 0, 0, 0, 0, 0, 0]); b.push(10); uleb(&mut b, n); b.extend([8, 2, 0, 0x0b]); cases.push((format!("a code section of {n} bytes with 8 functions"), b));
            let mut b = t.clone(); sect(&mut b, 3, &[1, 0]); let mut cs = vec![1]; uleb(&mut cs, n); cs.extend([0, 0x0b]); sect(&mut b, 10, &cs); cases.push((format!("a body of {n} bytes"), b));
            let mut b = t.clone(); sect(&mut b, 3, &[1, 0]); let mut bd = vec![1]; uleb(&mut bd, n); bd.extend([0x7f, 0x0b]); let mut cs = vec![1]; uleb(&mut cs, bd.len() as u64); cs.extend(&bd); sect(&mut b, 10, &cs); cases.push((format!("a body with {n} locals"), b));
            let mut b = t.clone(); sect(&mut b, 3, &[1, 0]); let mut bd = vec![]; uleb(&mut bd, n); bd.extend([1, 0x7f, 0x0b]); let mut cs = vec![1]; uleb(&mut cs, bd.len() as u64); cs.extend(&bd); sect(&mut b, 10, &cs); cases.push((format!("a body with {n} groups of locals"), b));
            let mut b = t.clone(); sect(&mut b, 3, &[1, 0]); let mut bd = vec![0, 0x41, 0, 0x0e]; uleb(&mut bd, n); bd.extend([0, 0, 0x0b]); let mut cs = vec![1]; uleb(&mut cs, bd.len() as u64); cs.extend(&bd); sect(&mut b, 10, &cs); cases.push((format!("a branch table of {n} entries"), b));
            let mut b = t.clone(); sect(&mut b, 3, &[1, 0]); let mut bd = vec![0, 0x41, 0, 0x1c]; uleb(&mut bd, n); bd.extend([0x7f, 0x0b]); let mut cs = vec![1]; uleb(&mut cs, bd.len() as u64); cs.extend(&bd); sect(&mut b, 10, &cs); cases.push((format!("a select of {n} types"), b));
        }
        if id == 1 { for at in 0..2 { let mut s = vec![1, 0x60]; if at == 1 { s.push(0) } uleb(&mut s, n); s.extend([0x7f, 0x7f]); let mut b = head.clone(); sect(&mut b, 1, &s); cases.push((format!("a type with {n} {}", ["parameters", "results"][at]), b)) } }
        if id == 9 { for flag in [0u8, 1, 4, 5] { let mut s = vec![1, flag]; if flag & 1 == 0 { s.extend([0x41, 0, 0x0b]) } else { s.push(if flag == 5 { 0x70 } else { 0 }) } uleb(&mut s, n); s.extend([0, 0]); let mut b = head.clone(); sect(&mut b, 4, &[1, 0x70, 0, 1]); sect(&mut b, 9, &s); cases.push((format!("an element segment of {n} items, flag {flag}"), b)) } }
        if id == 11 { let mut s = vec![1, 1]; uleb(&mut s, n); s.extend([0, 0]); let mut b = head.clone(); sect(&mut b, 11, &s); cases.push((format!("a data segment of {n} bytes"), b)) }
        if id == 2 { let mut s = vec![1]; uleb(&mut s, n); s.extend(b"ab"); let mut b = head.clone(); sect(&mut b, 2, &s); cases.push((format!("an import name of {n} bytes"), b)) }
    } }
    c.par(cases.len(), |j, l| {
        let (n, b) = &cases[j];
        for stream in [false, true] { for o in [Opts::ON, NOMEM] {
            if stream && o == NOMEM { continue }
            l.transitions += 1; l.traces += 1;
            l.states.insert(hash(n));
            watch(|| n.clone());
            let (r, peak) = crate::fault::peak(|| if stream { guard(|| o.parser().parse_module_stream(&b[..]).map(|_| ()).map_err(|e| e.to_string())) } else { guard(|| o.parser().parse_module_bytes(b).map(|_| ()).map_err(|e| e.to_string())) });
            end_watch();
            let how = if stream { "stream" } else { "slice" };
            let bad = |e: String| c.violation(format!("memory {n} {how}"), format!("{n}, {} bytes of input as a {how}: {e}", b.len()), hex(b));
            match r {
                Err(p) => bad(format!("panic {p}")),
                Ok(Ok(())) if verdict(b) == Verdict::Invalid => bad("accepted".into()),
                _ => (),
            }
            if peak > LIMIT { bad(format!("the parser held {peak} bytes at once")) }
        } }
    });
}

/// Tables with initializers (notation of typed function references): refused, or every element has the given value.
fn table_initializers(c: &Check) {
    c.bound("(f) tables with initializer expressions: reference types x limits x expressions x position among tables: refused or initialised as written");
    let mut cases = vec![];
    for (ty, exprs) in [(0x70u8, vec![("ref.null func", vec![0xd0u8, 0x70, 0x0b], None), ("ref.func 0", vec![0xd2, 0, 0x0b], Some(0)), ("ref.func 1", vec![0xd2, 1, 0x0b], Some(1))]), (0x6f, vec![("ref.null extern", vec![0xd0, 0x6f, 0x0b], None)])] {
        for (en, e, want) in exprs { for lim in [vec![0u8, 3], vec![1, 2, 5], vec![0, 0], vec![4, 3]] { for before in [false, true] { for init in 0..2u8 {
            let mut b = b"\0asm\x01\0\0\0".to_vec();
            sect(&mut b, 1, &[1, 0x60, 0, 1, 0x7f]);
            sect(&mut b, 3, &[2, 0, 0]);
            let mut t = vec![1 + before as u8];
            if before { t.extend([0x70, 0, 1]) }
            if init == 1 { t.extend([0x40, 0]) }
            t.push(ty); t.extend(&lim);
            if init == 1 { t.extend(&e) }
            sect(&mut b, 4, &t);
            sect(&mut b, 7, &[1, 1, b't', 1, before as u8]);
            sect(&mut b, 10, &[2, 4, 0, 0x41, 5, 0x0b, 4, 0, 0x41, 6, 0x0b]);
            cases.push((en, format!("a {ty:#x} table with limits {lim:?} {} initializer {en}{}", ["without", "with"][init as usize], if before { " behind another" } else { "" }), b, want.filter(|_| init == 1), lim[1] as usize, init == 1));
        } } } }
    }
    c.par(cases.len(), |j, l| {
        let (en, n, b, want, size, either) = &cases[j];
        for o in [Opts::ON, NOMEM, NOVAL] {
            l.transitions += 1; l.traces += 1;
            l.states.insert(hash(n));
            let bad = |e: String| c.violation(if e.starts_with("ignored") { format!("table initializer {en} ignored") } else { format!("table initializer {n}") }, format!("{n} with {o:?}: {e}"), hex(b));
            match parse(b, o) {
                Err(e) => if !either || e.starts_with("panic") { bad(format!("the parser says {e}")) },
                Ok(m) => {
                    let r = guard(|| {
                        let mut s = Store::default();
                        let i = ModuleInstance::instantiate(&mut s, &m, None).map_err(|e| e.to_string())?;
                        let t = i.table("t").map_err(|e| e.to_string())?;
                        if t.size(&s).map_err(|e| e.to_string())? as usize != *size { return Err("wrong size".to_string()) }
                        for k in 0..*size {
                            let v = t.get(&s, k as _).map_err(|e| e.to_string())?;
                            let ok = match (want, v) { (None, WasmValue::RefFunc(f)) => f.is_null(), (None, WasmValue::RefExtern(f)) => f.is_null(), (Some(w), WasmValue::RefFunc(f)) => f.addr() == Some(*w), _ => false };
                            if !ok { return Err(format!("{}element {k} is {v:?}", if want.is_some() && matches!(v, WasmValue::RefFunc(f) if f.is_null()) { "ignored, " } else { "" })) }
                        }
                        Ok(())
                    });
                    match r { Ok(Ok(())) => (), Ok(Err(e)) => bad(e), Err(p) => bad(format!("panic {p}")) }
                }
            }
        }
    });
}

pub fn run(c: &Check) {
    let t = std::time::Instant::now();
    let lap = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{s} {:.1}", t.elapsed().as_secs_f64()) };
    operators(c); lap("operators");
    sequences(c); lap("sequences");
    constants(c); lap("constants");
    limits(c); lap("limits");
    memory(c); lap("memory");
    table_initializers(c); lap("table initializers");
    damage(c); lap("damage");
    c.assume("the features are those the README lists as supported; modules that are valid only in the notation of typed function references may be refused");
    c.assume("for byte-level changes the reference verdict is wasmparser's validator with those features (a dependency of the repository, not part of it)");
}
