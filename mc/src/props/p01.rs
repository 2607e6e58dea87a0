//! P01: straight-line code, every valid sequence over themed alphabets plus a source x source x operator x
//! sink product over every operator, with the rewriter on and off.
use crate::batch::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use VT::*;

pub fn one(v: Vec<Op>) -> Vec<Vec<Op>> { v.into_iter().map(|o| vec![o]).collect() }

pub fn base_mem() -> Base {
    let mut m = Module::default();
    m.mem(Limits { min: 32, max: Some(32), is64: false, page_log2: Some(0) });
    m.global(I32, true, Op::I32C(0x01020384));
    m.global(I64, true, Op::I64C(0x0102030405060788));
    m.global(F32, true, Op::F32C(0x40490fdb));
    m.global(F64, true, Op::F64C(0x400921fb54442d18));
    m.global(V128, true, Op::VConst(0x0f0e0d0c0b0a09080706050403020180));
    m.global(I32, false, Op::I32C(77));
    Base::new(m, vec![(0..32u32).map(|i| (i * 37 + 129) as u8).collect()])
}
pub fn base_plain() -> Base { Base::new(Module::default(), vec![]) }

fn n(s: &str) -> Op { num(s) }

pub fn run(c: &Check) {
    let bp = base_plain();
    let bm = base_mem();
    let both = vec![Opts::ON, Opts::OFF];
    let on = vec![Opts::ON];
    let q = c.quick();
    let theme = |name: &'static str, base: &Base, params: &[VT], locals: &[VT], atoms: Vec<Vec<Op>>, max_len: usize, max_stack: usize, inputs: Vec<Vec<u128>>, opts: &Vec<Opts>| {
        run_theme(c, &Theme { name, base, params: params.to_vec(), locals: locals.to_vec(), atoms, max_len, max_stack, results: None, max_ctl: 0, max_dead: 0, inputs, opts: opts.clone(), budget: 10_000, wrap: wrap_locals });
    };
    let i32in = vec![vec![7, 0xffff_ffeb, 3], vec![0x8000_0000, 0x1234_5678, 0xffff_ffff]];
    let i64in = vec![vec![7, 0xffff_ffff_ffff_ffeb, 3], vec![0x8000_0000_0000_0000, 0x1234_5678_9abc_def0, u64::MAX as u128]];
    // locals and arithmetic
    let i32_atoms = vec![Op::LGet(0), Op::LGet(1), Op::LSet(0), Op::LSet(1), Op::LTee(0), Op::LTee(1), Op::I32C(8), Op::I32C(-3), n("i32.add"), n("i32.sub"), n("i32.mul"), n("i32.and"), Op::Drop];
    theme("i32 locals", &bp, &[I32, I32], &[], one(i32_atoms.clone()), if q { 6 } else { 8 }, 4, i32in.clone(), &on);
    theme("i32 locals, rewriting off", &bp, &[I32, I32], &[], one(i32_atoms), if q { 5 } else { 6 }, 4, i32in.clone(), &vec![Opts::OFF]);
    let i64_atoms = vec![Op::LGet(0), Op::LGet(1), Op::LSet(0), Op::LSet(1), Op::LTee(0), Op::LTee(1), Op::I64C(8), Op::I64C(-3), n("i64.add"), n("i64.sub"), n("i64.mul"), n("i64.and"), Op::Drop];
    theme("i64 locals", &bp, &[I64, I64], &[], one(i64_atoms.clone()), if q { 6 } else { 8 }, 4, i64in.clone(), &on);
    theme("i64 locals, rewriting off", &bp, &[I64, I64], &[], one(i64_atoms), if q { 5 } else { 6 }, 4, i64in.clone(), &vec![Opts::OFF]);
    let shifts = |w: &str, k: fn(i64) -> Op, cs: &[i64]| -> Vec<Op> { let mut v = vec![Op::LGet(0), Op::LGet(1), Op::LTee(1), Op::LSet(1)]; v.extend(cs.iter().map(|c| k(*c))); for o in ["shl", "shr_s", "shr_u", "rotl", "rotr"] { v.push(n(&format!("{w}.{o}"))) } v };
    theme("i32 shifts", &bp, &[I32, I32], &[], one(shifts("i32", |c| Op::I32C(c as i32), &[8, 16, 24])), if q { 6 } else { 7 }, 3, i32in.clone(), &on);
    theme("i64 shifts", &bp, &[I64, I64], &[], one(shifts("i64", Op::I64C, &[8, 16, 32, 48, 56])), if q { 6 } else { 7 }, 3, i64in.clone(), &on);
    let f32in = vec![vec![0x3fc00000, 0xc0200000, 0x7f800000], vec![0x00000001, 0x80000000, 0x7fc12345]];
    let f64in = vec![vec![0x3ff8000000000000, 0xc004000000000000, 0x7ff0000000000000], vec![1, 1 << 63, 0x7ff8000000012345]];
    theme("f32", &bp, &[F32, F32], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::LSet(0), Op::LTee(1), Op::F32C(0x40a00000), n("f32.add"), n("f32.sub"), n("f32.mul"), n("f32.div"), n("f32.min"), n("f32.copysign"), Op::Drop]), if q { 6 } else { 7 }, 4, f32in, &on);
    theme("f64", &bp, &[F64, F64], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::LSet(0), Op::LTee(1), Op::F64C(0x4014000000000000), n("f64.add"), n("f64.sub"), n("f64.mul"), n("f64.div"), n("f64.max"), n("f64.copysign"), Op::Drop]), if q { 6 } else { 7 }, 4, f64in, &on);
    let vin = vec![vec![0x00010203_04050607_08090a0b_0c0d0e0f, 0xfffefdfc_fbfaf9f8_8000000080000000_u128 << 32 | 0x11223344]];
    theme("v128", &bp, &[V128, V128], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::LSet(0), Op::LSet(1), Op::LTee(0), Op::LTee(1), Op::VConst(0x55aa), Op::V(78), Op::V(79), Op::V(81), Op::V(206), Op::V(213), Op::Drop]), if q { 6 } else { 7 }, 4, vin, &on);
    // mixed widths: the three value lanes must stay in step
    let mixed_in = vec![vec![9, 0x1_0000_0009, 0xdeadbeef_cafebabe_01234567_89abcdef]];
    theme("mixed widths", &bp, &[I32, I64, V128], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::LSet(0), Op::LSet(1), Op::LSet(2), Op::LTee(1), n("i32.wrap_i64"), n("i64.extend_i32_u"), Op::V(18), Op::VLane { sub: 27, lane: 1 }, n("i64.eqz"), Op::Select, Op::Drop]), if q { 6 } else { 7 }, 5, mixed_in.clone(), &both);
    theme("select and references", &bp, &[I32, Ext, I64], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::LSet(1), Op::LTee(1), Op::RefNull(Ext), Op::RefIsNull, Op::Select, Op::SelectT(Ext), Op::SelectT(I64), Op::I32C(0), n("i32.eqz"), Op::Drop]), if q { 6 } else { 7 }, 5, vec![vec![1, 5, 3], vec![0, crate::oracle::NULL, 1 << 40]], &both);
    // memory and globals
    let mem_in = vec![vec![4, 9, 0x1111_2222_3333_4444], vec![29, 12, 3]];
    theme("i32 memory", &bm, &[I32, I32], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::LSet(1), Op::LTee(1), Op::LTee(0), mem(0x28, 0), mem(0x28, 3), mem(0x2c, 1), mem(0x36, 0), mem(0x36, 3), mem(0x3a, 1), Op::I32C(1), n("i32.add")]), if q { 6 } else { 7 }, 4, mem_in.clone(), &on);
    theme("i64 memory", &bm, &[I32, I64], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::LSet(1), Op::LTee(1), Op::LTee(0), mem(0x29, 0), mem(0x29, 3), mem(0x34, 1), mem(0x37, 0), mem(0x37, 3), mem(0x3e, 1), Op::I64C(1), n("i64.add")]), if q { 6 } else { 7 }, 4, vec![vec![4, 9], vec![24, 12]], &on);
    theme("float memory", &bm, &[I32, F32, F64], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::LSet(1), Op::LTee(2), mem(0x2a, 0), mem(0x2b, 1), mem(0x38, 2), mem(0x39, 0), n("f32.mul"), n("f32.add"), n("f64.mul"), n("f64.add")]), if q { 6 } else { 7 }, 4, vec![vec![4, 0x3fc00000, 0x3ff8000000000000], vec![24, 0x40490fdb, 0x400921fb54442d18]], &on);
    theme("v128 memory", &bm, &[I32, V128], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::LSet(1), Op::LTee(1), Op::VMem { sub: 0, m: MA { align: 0, offset: 0, mem: 0 }, lane: 0 }, Op::VMem { sub: 0, m: MA { align: 0, offset: 3, mem: 0 }, lane: 0 }, Op::VMem { sub: 11, m: MA { align: 0, offset: 0, mem: 0 }, lane: 0 }, Op::V(206), Op::Drop, Op::I32C(16)]), if q { 6 } else { 7 }, 4, vec![vec![4, 0x0102030405060708090a0b0c0d0e0f], vec![17, 5]], &on);
    theme("memory.fill and load/store", &bm, &[I32, I32], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::I32C(5), Op::I32C(300), Op::LTee(0), Op::LSet(0), mem(0x2d, 0), mem(0x3a, 0), Op::MemFill(0), Op::MemCopy { dst: 0, src: 0 }, n("i32.add"), Op::MemSize(0)]), if q { 6 } else { 7 }, 4, vec![vec![4, 9], vec![27, 1]], &on);
    theme("i32 globals", &bm, &[I32], &[], one(vec![Op::LGet(0), Op::LSet(0), Op::LTee(0), Op::GGet(0), Op::GSet(0), Op::GGet(5), Op::I32C(4), n("i32.add"), n("i32.sub"), n("i32.shl"), n("i32.and"), Op::Drop]), if q { 6 } else { 7 }, 4, vec![vec![0x8000_0001], vec![6]], &on);
    theme("mixed globals", &bm, &[I64, F64, V128], &[], one(vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::LSet(0), Op::GGet(1), Op::GSet(1), Op::GGet(3), Op::GSet(3), Op::GGet(4), Op::GSet(4), Op::GGet(2), Op::GSet(2), n("i64.sub"), n("i64.rotl"), n("f64.sub")]), if q { 5 } else { 6 }, 4, vec![vec![0x8000_0000_0000_0001, 0x400921fb54442d18, 5]], &both);
    product(c);
}

// ------------------------------------------------------------------ source x source x operator x sink

/// Locals of the product programs, before mapping: 4 per type.
const TYPES: [VT; 5] = [I32, I64, F32, F64, V128];
fn ti(t: VT) -> u32 { TYPES.iter().position(|x| *x == t).unwrap() as u32 }
fn gl(t: VT) -> u32 { ti(t) }
struct Map { params: Vec<VT>, locals: Vec<VT>, idx: Box<dyn Fn(VT, u32) -> u32 + Sync> }
fn cst(t: VT, k: usize) -> Op {
    match t {
        I32 => Op::I32C([8, -1, 24][k]), I64 => Op::I64C([8, -1, 0x1_0000_0000][k]), F32 => Op::F32C([0x40200000, 0x80000000, 0x7fc00000][k]), F64 => Op::F64C([0x4004000000000000, 1 << 63, 0x7ff8000000000000][k]),
        V128 => Op::VConst([0x1_0000_0000_0000_0005, 0x80808080_80808080_80808080_80808080, 0x7fc00000][k]), _ => unreachable!(),
    }
}
fn ld(t: VT) -> Op { match t { I32 => mem(0x28, 2), I64 => mem(0x29, 2), F32 => mem(0x2a, 2), F64 => mem(0x2b, 2), V128 => Op::VMem { sub: 0, m: MA { align: 0, offset: 2, mem: 0 }, lane: 0 }, _ => unreachable!() } }
fn st(t: VT) -> Op { match t { I32 => mem(0x36, 2), I64 => mem(0x37, 2), F32 => mem(0x38, 2), F64 => mem(0x39, 2), V128 => Op::VMem { sub: 11, m: MA { align: 0, offset: 2, mem: 0 }, lane: 0 }, _ => unreachable!() } }
fn addop(t: VT) -> Op { match t { I32 => num("i32.add"), I64 => num("i64.add"), F32 => num("f32.add"), F64 => num("f64.add"), _ => Op::V(206) } }
fn mulop(t: VT) -> Op { match t { I32 => num("i32.mul"), I64 => num("i64.mul"), F32 => num("f32.mul"), F64 => num("f64.mul"), _ => Op::V(213) } }
fn subop(t: VT) -> Op { match t { I32 => num("i32.sub"), I64 => num("i64.sub"), F32 => num("f32.sub"), F64 => num("f64.sub"), _ => Op::V(209) } }
/// Ways to put a value of type `t` on the stack. `s` selects disjoint locals for the left and right operand.
fn sources(m: &Map, t: VT, s: u32) -> Vec<Vec<Op>> {
    let l = |k| (m.idx)(t, k);
    let a32 = (m.idx)(I32, 0);
    vec![
        vec![Op::LGet(l(s))], vec![Op::LGet(l(1 - s))],
        vec![cst(t, 0)], vec![cst(t, 1)], vec![cst(t, 2)],
        vec![Op::LGet(l(s)), Op::LTee(l(2))], vec![Op::LGet(l(s)), Op::LTee(l(1 - s))], vec![cst(t, 0), Op::LTee(l(s))], vec![cst(t, 0), Op::LSet(l(s)), Op::LGet(l(s))],
        vec![Op::GGet(gl(t))], vec![Op::GGet(gl(t)), Op::LTee(l(2))],
        vec![Op::LGet(a32), ld(t)], vec![Op::LGet(a32), ld(t), Op::LTee(l(s))],
        vec![Op::LGet(l(s)), Op::LGet(l(1 - s)), subop(t)], vec![Op::LGet(l(s)), cst(t, 0), subop(t), Op::LTee(l(2))], vec![Op::LGet(l(0)), Op::LGet(l(1)), addop(t), Op::LTee(l(s))],
        vec![Op::GGet(gl(t)), Op::GGet(gl(t)), mulop(t)],
    ]
}
fn sinks(m: &Map, t: VT) -> Vec<(Vec<Op>, Vec<Op>, Vec<VT>)> {
    let l = |k| (m.idx)(t, k);
    let a32 = (m.idx)(I32, 1);
    let mut v = vec![
        (vec![], vec![], vec![t]),
        (vec![], vec![Op::LSet(l(0))], vec![]), (vec![], vec![Op::LSet(l(2))], vec![]), (vec![], vec![Op::LTee(l(2))], vec![t]), (vec![], vec![Op::LTee(l(1)), Op::Drop], vec![]),
        (vec![], vec![Op::Drop], vec![]),
        (vec![], vec![Op::GSet(gl(t))], vec![]),
        (vec![Op::LGet(a32)], vec![st(t)], vec![]),
        (vec![Op::GGet(gl(t))], vec![addop(t)], vec![t]), (vec![], vec![Op::LGet(l(2)), addop(t), Op::LSet(l(2))], vec![]), (vec![], vec![Op::LGet(l(2)), addop(t), Op::LSet(l(1))], vec![]),
        (vec![], vec![cst(t, 0), subop(t), Op::LTee(l(2))], vec![t]),
    ];
    if t == I32 {
        v.push((vec![], vec![Op::If(BT::Val(I32)), Op::I32C(1), Op::Else, Op::I32C(2), Op::End], vec![I32]));
        v.push((vec![], vec![num("i32.eqz"), Op::If(BT::Val(I32)), Op::I32C(1), Op::Else, Op::I32C(2), Op::End], vec![I32]));
        v.push((vec![Op::Block(BT::Empty)], vec![Op::BrIf(0), cst(I64, 0), Op::LSet((m.idx)(I64, 2)), Op::End], vec![]));
        v.push((vec![Op::Block(BT::Val(I64)), cst(I64, 1)], vec![Op::BrIf(0), Op::Drop, cst(I64, 0), Op::End], vec![I64]));
        v.push((vec![cst(F64, 0), Op::GGet(3)], vec![Op::Select], vec![F64]));
        v.push((vec![Op::LGet((m.idx)(V128, 0)), Op::GGet(4)], vec![Op::Select], vec![V128]));
        v.push((vec![], vec![cst(I32, 0), num("i32.and"), Op::LTee(l(2))], vec![I32]));
    }
    v
}
pub fn bin_ops() -> Vec<(Op, Vec<VT>, VT)> {
    let mut v = vec![];
    for b in 0x45..=0xc4u8 { let (i, o) = num_sig(b); v.push((Op::Num(b), i.to_vec(), o[0])) }
    for s in 0..8u8 { let (i, o) = sat_sig(s); v.push((Op::Sat(s), i.to_vec(), o[0])) }
    for s in (0..=255).filter(|s| v_exists(*s)) { let (i, o) = v_sig(s); v.push((Op::V(s), i.to_vec(), o[0])) }
    for t in TYPES { v.push((Op::Nop, vec![t], t)) }
    v
}
fn product(c: &Check) {
    let base = base_mem();
    let near = Map { params: TYPES.iter().flat_map(|t| [*t; 2]).collect(), locals: TYPES.to_vec(), idx: Box::new(|t, k| if k < 2 { ti(t) * 2 + k } else { 10 + ti(t) }) };
    // the same programs with the locals beyond the one-byte index range
    let far = Map { params: near.params.clone(), locals: std::iter::repeat_n(I32, 244).chain([I32, I32, I64, I64, F32, F32, F64, F64, V128, V128]).chain(TYPES).chain(std::iter::repeat_n(I32, 270)).collect(), idx: Box::new(|t, k| if k == 0 { ti(t) * 2 } else if k == 1 { 254 + ti(t) * 2 } else { 264 + ti(t) }) };
    let inputs: Vec<Vec<u128>> = vec![
        vec![4, 9, 0x1234_5678_9abc, u64::MAX as u128 - 6, 0x3fc00000, 0xc0200000, 0x3ff8000000000000, 0xc004000000000000, 0x0001020304050607_08090a0b0c0d0e0f, 0x8000000080000000_ffffffff00000001],
        vec![0x8000_0000, 0xffff_ffff, 1 << 63, u64::MAX as u128, 0x7fc12345, 0x80000000, 0x7ff8000000012345, 1 << 63, u128::MAX, 1 << 127],
        vec![0, 0, 0, 0, 0, 0x7f800000, 0, 0x7ff0000000000000, 0, 7],
    ];
    let ops = bin_ops();
    let n_sinks_cap = c.pick(usize::MAX, usize::MAX);
    let jobs: Vec<(usize, bool)> = (0..ops.len()).flat_map(|i| [(i, false), (i, true)]).collect();
    c.par(jobs.len(), |j, l| {
        let (oi, is_far) = jobs[j];
        let (op, ins, out) = &ops[oi];
        let simd = matches!(op, Op::V(_));
        let fused = matches!(op, Op::V(78..=81 | 206 | 213));
        if is_far && (simd && !fused || !c.quick() && false) { return; }
        let m = if is_far { &far } else { &near };
        let all: Vec<VT> = m.params.iter().chain(&m.locals).copied().collect();
        let mut progs = vec![];
        let s0 = sources(m, ins[0], 0);
        let s1 = if ins.len() > 1 { sources(m, ins[1], 1) } else { vec![vec![]] };
        let s2: Vec<Vec<Op>> = if ins.len() > 2 { vec![vec![Op::LGet((m.idx)(ins[2], 0))]] } else { vec![vec![]] };
        for (ki, (pre, post, res)) in sinks(m, *out).iter().enumerate() {
            if ki >= n_sinks_cap { break; }
            // plain vector operators are not fused with anything: a few contexts are enough
            if simd && !fused && c.quick() && ki > 3 { continue; }
            for (ai, a) in s0.iter().enumerate() { for (bi, b) in s1.iter().enumerate() { for x in &s2 {
                if simd && !fused && c.quick() && ai + bi > 6 { continue; }
                if is_far && c.quick() && (ki + ai + bi) % 2 == 1 { continue; }
                let body: Vec<Op> = pre.iter().chain(a).chain(b).chain(x).chain(std::iter::once(op)).chain(post).cloned().collect();
                // return what is left plus the six locals the program can change
                let mut body = body;
                let mut results = res.clone();
                for t in TYPES { if ins.contains(&t) || *out == t || t == I64 { for k in 0..3 { body.push(Op::LGet((m.idx)(t, k))); results.push(t) } } }
                progs.push(Prog { params: m.params.clone(), results, locals: m.locals.clone(), body });
            } } }
        }
        let _ = &all;
        for p in progs.chunks(500) { run_batch(c, l, &base, p, &inputs, if is_far { &[Opts::ON] } else { &[Opts::ON, Opts::OFF] }, 10_000); }
        l.add("product_programs", progs.len() as u64);
    });
    c.bound("product: every scalar, saturating and vector operator x 17 operand sources per operand x every result sink (12, or 19 for i32), locals inside and beyond the one-byte index range, 3 input vectors, rewriting on and off");
    if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  product", c.start.elapsed().as_secs_f64()); }
}
