//! P03: every scalar numeric operator on the full cross product of a boundary grid, in every operand form.
use crate::batch::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use VT::*;

pub fn grid(t: VT) -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    match t {
        I32 => {
            for x in [0u32, 1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 17, 24, 30, 31, 32, 33, 63, 64, 65, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x00ff_ffff, 0x0100_0001, 0x0100_0003, 0x3fff_ffff, 0x4000_0000, 0x7fff_ff80, 0x7fff_ffbf, 0x7fff_ffc0, 0x7fff_fffe, 0x7fff_ffff, 0x1234_5678, 0x5555_5555] { v.push(x as u128); v.push(x.wrapping_neg() as u128); v.push(!x as u128) }
        }
        I64 => {
            for x in [0u64, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, (1 << 24) + 1, (1 << 25) + 2, (1 << 53) - 1, (1 << 53) + 1, (1 << 54) + 2, (1 << 54) + 6, 0x7fff_ff40_0000_0000, 0x7fff_ffc0_0000_0000, 0x7fff_ffff_ffff_fc00, 0x7fff_ffff_ffff_fdff, 0x7fff_ffff_ffff_fe00, 0x7fff_ff3f_ffff_ffff, 0x7fff_ffff_ffff_ffff, 0x0123_4567_89ab_cdef, 0x5555_5555_5555_5555, 0x7fff_ff80_0000_0001, 0xffff_ff80_0000_0001 >> 1] { v.push(x as u128); v.push(x.wrapping_neg() as u128); v.push(!x as u128) }
        }
        F32 => {
            for x in [0.0f32, 0.1, 0.49999997, 0.5, 0.50000006, 0.99999994, 1.0, 1.0000001, 1.5, 2.0, 2.5, 3.5, 4.5, 127.0, 128.0, 255.0, 256.0, 8388607.5, 8388608.0, 16777215.0, 16777216.0, 16777218.0, 2147483520.0, 2147483648.0, 2147483904.0, 4294967040.0, 4294967296.0, 4294967808.0, 9223371487098961920.0, 9223372036854775808.0, 9223373136366403584.0, 18446742974197923840.0, 18446744073709551616.0, 3.0e30, f32::MAX, f32::INFINITY, f32::MIN_POSITIVE] { v.push(x.to_bits() as u128); v.push((-x).to_bits() as u128) }
            for b in [1u32, 2, 0x007f_ffff, 0x7fc0_0000, 0x7fc0_0001, 0x7fff_ffff, 0x7f80_0001, 0x7fa0_0000, 0x7fbf_ffff, 0x0040_0000, 0x3f7f_fffe] { v.push(b as u128); v.push((b | 1 << 31) as u128) }
        }
        F64 => {
            for x in [0.0f64, 0.1, 0.49999999999999994, 0.5, 0.5000000000000001, 0.9999999999999999, 1.0, 1.0000000000000002, 1.5, 2.0, 2.5, 3.5, 4.5, 127.0, 255.5, 16777216.5, 16777217.0, 2147483646.5, 2147483647.0, 2147483647.5, 2147483647.9999998, 2147483648.0, 2147483648.5, 2147483648.9999995, 2147483649.0, 4294967294.5, 4294967295.0, 4294967295.5, 4294967295.9999995, 4294967296.0, 4503599627370495.5, 4503599627370496.5, 9007199254740993.0, 9223372036854774784.0, 9223372036854775808.0, 9223372036854777856.0, 18446744073709549568.0, 18446744073709551616.0, 18446744073709555712.0,
                3.4028234663852886e38, 3.4028235677973362e38, 3.4028235677973366e38, 1.1754943508222875e-38, 1.401298464324817e-45, 7.006492321624085e-46, 7.006492321624087e-46, 1.0e300, f64::MAX, f64::INFINITY, f64::MIN_POSITIVE] { v.push(x.to_bits() as u128); v.push((-x).to_bits() as u128) }
            for b in [1u64, 2, 0x000f_ffff_ffff_ffff, 0x7ff8_0000_0000_0000, 0x7ff8_0000_0000_0001, 0x7fff_ffff_ffff_ffff, 0x7ff0_0000_0000_0001, 0x7ff4_0000_0000_0000, 0x7ff0_0000_2000_0000, 0x7ffc_1234_5678_9abc, 0x3fef_ffff_ffff_fffe, 0x36a0_0000_0000_0000, 0x3810_0000_0000_0000, 0x380f_ffff_ffff_ffff, 0x47ef_ffff_e000_0000, 0x47ef_ffff_f000_0000] { v.push(b as u128); v.push((b | 1 << 63) as u128) }
        }
        _ => unreachable!(),
    }
    let mut out = vec![];
    for x in v { if !out.contains(&x) { out.push(x) } }
    out
}
pub fn konst(t: VT, v: u128) -> Op { match t { I32 => Op::I32C(v as u32 as i32), I64 => Op::I64C(v as u64 as i64), F32 => Op::F32C(v as u32), F64 => Op::F64C(v as u64), V128 => Op::VConst(v), t => Op::RefNull(t) } }

fn base() -> Base {
    let mut m = Module::default();
    for t in [I32, I64, F32, F64] { m.global(t, true, konst(t, 0)); }
    m.mem(Limits { min: 32, max: Some(32), is64: false, page_log2: Some(0) });
    Base::new(m, vec![])
}

pub fn run(c: &Check) {
    let b = base();
    let mut ops: Vec<(Op, Vec<VT>, Vec<VT>)> = vec![];
    for x in 0x45..=0xc4u8 { let (i, o) = num_sig(x); ops.push((Op::Num(x), i.to_vec(), o.to_vec())) }
    for s in 0..8u8 { let (i, o) = sat_sig(s); ops.push((Op::Sat(s), i.to_vec(), o.to_vec())) }
    for s in 19..=22u8 { let (i, o) = sat_sig(s); ops.push((Op::Wide(s), i.to_vec(), o.to_vec())) }
    let on = [Opts::ON];
    let both = [Opts::ON, Opts::OFF];
    let gi = |t: VT| match t { I32 => 0, I64 => 1, F32 => 2, _ => 3 };
    // the plain operator over the whole grid, from locals and from the operand stack
    c.par(ops.len(), |j, l| {
        let (op, ins, outs) = &ops[j];
        let a = grid(ins[0]);
        let inputs: Vec<Vec<u128>> = match ins.len() {
            1 => a.iter().map(|x| vec![*x]).collect(),
            2 => a.iter().flat_map(|x| grid(ins[1]).into_iter().map(move |y| vec![*x, y])).collect(),
            _ => { let s: Vec<u128> = [0u64, 1, 2, 1 << 63, (1 << 63) - 1, u64::MAX, u64::MAX - 1, 0x0123_4567_89ab_cdef].map(|x| x as u128).to_vec(); let mut v = vec![vec![]]; for _ in 0..4 { v = v.into_iter().flat_map(|p: Vec<u128>| s.iter().map(move |x| { let mut q = p.clone(); q.push(*x); q }).collect::<Vec<_>>()).collect() } v }
        };
        let n = ins.len() as u32;
        let out = outs[0];
        let get: Vec<Op> = (0..n).map(Op::LGet).collect();
        let mut bodies: Vec<(Vec<Op>, Vec<VT>)> = vec![];
        // results may be taken from the stack, a fresh local, an operand's local, or a global
        let fresh = n; // local of the result type
        let full = |pre: Vec<Op>, post: Vec<Op>| -> Vec<Op> { pre.into_iter().chain([op.clone()]).chain(post).collect() };
        bodies.push((full(get.clone(), vec![]), outs.clone()));
        if outs.len() == 1 {
            bodies.push((full(get.clone(), vec![Op::LSet(fresh), Op::LGet(fresh)]), outs.clone()));
            bodies.push((full(get.clone(), vec![Op::LTee(fresh), Op::LGet(0)]), vec![out, ins[0]]));
            if out == ins[0] { bodies.push((full(get.clone(), vec![Op::LSet(0), Op::LGet(0), Op::LGet(n - 1)]), vec![out, ins[(n - 1) as usize]])) }
            bodies.push((full(get.clone(), vec![Op::GSet(gi(out))]), vec![]));
            // operands computed on the stack
            let id = |t: VT| match t { I32 => vec![Op::I32C(0), num("i32.or")], I64 => vec![Op::I64C(0), num("i64.or")], F32 => vec![num("f32.neg"), num("f32.neg")], _ => vec![num("f64.neg"), num("f64.neg")] };
            let mut p = vec![];
            for k in 0..n { p.push(Op::LGet(k)); p.extend(id(ins[k as usize])) }
            bodies.push((full(p, vec![]), outs.clone()));
            // operand through a global
            let t = ins[(n - 1) as usize];
            let mut p = vec![Op::LGet(n - 1), Op::GSet(gi(t))];
            for k in 0..n - 1 { p.push(Op::LGet(k)) }
            p.push(Op::GGet(gi(t)));
            bodies.push((full(p, vec![]), outs.clone()));
            // right operand teed
            let mut p = get.clone(); p.push(Op::LTee(fresh + 1 + gi(t)));
            bodies.push((full(p, vec![Op::LGet(fresh + 1 + gi(t))]), vec![out, t]));
            if n == 2 && ins[0] == ins[1] { bodies.push((vec![Op::LGet(1), Op::LGet(0), op.clone()], outs.clone())); bodies.push((vec![Op::LGet(0), Op::LGet(0), op.clone()], outs.clone())) }
        }
        let progs: Vec<Prog> = bodies.into_iter().map(|(body, results)| Prog { params: ins.clone(), results, locals: vec![out, I32, I64, F32, F64], body }).collect();
        run_batch(c, l, &b, &progs, &inputs, &both, 1000);
    });
    c.bound("plain forms: 140 operators x every tuple of the boundary grid (about 80-130 values per type) x up to 10 operand/result forms, rewriting on and off");
    if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  plain", c.start.elapsed().as_secs_f64()); }
    // one constant operand: every grid constant on either side, against the whole grid
    let bin: Vec<&(Op, Vec<VT>, Vec<VT>)> = ops.iter().filter(|o| o.1.len() == 2 && o.2.len() == 1).collect();
    c.par(bin.len(), |j, l| {
        let (op, ins, outs) = bin[j];
        let g = grid(ins[0]);
        let inputs: Vec<Vec<u128>> = g.iter().map(|x| vec![*x]).collect();
        let mut progs = vec![];
        let out = outs[0];
        let mut push = |body: Vec<Op>, results: Vec<VT>| progs.push(Prog { params: vec![ins[0]], results, locals: vec![out], body });
        for k in &g {
            let k = konst(ins[0], *k);
            push(vec![Op::LGet(0), k.clone(), op.clone()], vec![out]);
            push(vec![k.clone(), Op::LGet(0), op.clone()], vec![out]);
            push(vec![Op::LGet(0), k.clone(), op.clone(), Op::LSet(1), Op::LGet(1)], vec![out]);
            push(vec![Op::LGet(0), k.clone(), op.clone(), Op::LTee(1), Op::LGet(1)], vec![out, out]);
            push(vec![Op::LGet(0), Op::GSet(gi(ins[0])), Op::GGet(gi(ins[0])), k.clone(), op.clone()], vec![out]);
            if out == ins[0] { push(vec![Op::LGet(0), k.clone(), op.clone(), Op::LSet(0), Op::LGet(0)], vec![out]); push(vec![Op::LGet(0), k.clone(), op.clone(), Op::LTee(0), Op::LGet(0)], vec![out, out]) }
        }
        for p in progs.chunks(400) { run_batch(c, l, &b, p, &inputs, &on, 1000) }
    });
    c.bound("constant forms: 76 binary operators x every grid constant as right or left operand x the whole grid x 7 forms");
    if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  constants", c.start.elapsed().as_secs_f64()); }
    // constants: every value survives being a constant (all constant pool and small-immediate encodings)
    c.par(4, |j, l| {
        let t = [I32, I64, F32, F64][j];
        let mut vals = grid(t);
        let bits = if matches!(t, I32 | F32) { 32 } else { 64 };
        for i in 0..bits { for d in [-1i128, 0, 1] { let x = ((1i128 << i) + d) as u128 & ((1u128 << bits) - 1); vals.push(x); vals.push(!x & ((1u128 << bits) - 1)) } }
        let progs: Vec<Prog> = vals.iter().flat_map(|v| [vec![konst(t, *v)], vec![konst(t, *v), Op::LSet(0), Op::LGet(0)], vec![konst(t, *v), Op::LTee(0), Op::LGet(0), Op::Drop]].map(|body| Prog { params: vec![t], results: vec![t], locals: vec![], body })).collect();
        for p in progs.chunks(400) { run_batch(c, l, &b, p, &[vec![0]], &both, 100) }
    });
    // wide sweeps of the one-operand operators
    let un: Vec<&(Op, Vec<VT>, Vec<VT>)> = ops.iter().filter(|o| o.1.len() == 1).collect();
    let jobs: Vec<(usize, u64)> = (0..un.len()).flat_map(|u| (0..16u64).map(move |s| (u, s))).collect();
    let mant: Vec<u64> = if c.quick() { vec![0, 1, 0x7f, 0x80] } else { vec![0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff] };
    let top_bits = if c.quick() { 14 } else { 18 };
    c.par(jobs.len(), |j, l| {
        let (op, ins, outs) = un[jobs[j].0];
        let bits = if matches!(ins[0], I32 | F32) { 32u32 } else { 64 };
        let per = 1u64 << (top_bits - 4);
        let inputs: Vec<Vec<u128>> = (jobs[j].1 * per..(jobs[j].1 + 1) * per).flat_map(|top| mant.iter().map(move |m| { let base = top << (bits - top_bits); let low = (1u64 << (bits - top_bits)) - 1; vec![(base | (m | m << 8 | if *m == 0x80 { 1 << (bits - top_bits - 1) } else { 0 }) & low) as u128] })).collect();
        let p = Prog { params: ins.clone(), results: outs.clone(), locals: vec![], body: vec![Op::LGet(0), op.clone()] };
        run_batch(c, l, &b, &[p], &inputs, &on, 100);
    });
    c.bound(format!("sweep: every one-operand operator on every value of its top {top_bits} bits x {} low-bit patterns", mant.len()));
    if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  sweep", c.start.elapsed().as_secs_f64()); }
    c.assume("the reference numerics (num.rs) were validated against the official spec test suite (examples/spec.rs)");
}
