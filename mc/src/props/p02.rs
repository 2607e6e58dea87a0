//! P02: every valid nesting of structured control over several alphabets (void, valued, mixed width,
//! multi-value, loops with counters, dead code), plus products over compare-and-branch forms and branch tables.
use super::p01::one;
use crate::batch::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use VT::*;

fn n(s: &str) -> Op { num(s) }
/// g0 records the order in which trace points execute.
fn tr(k: i32) -> Vec<Op> { vec![Op::GGet(0), Op::I32C(5), n("i32.mul"), Op::I32C(k), n("i32.add"), Op::GSet(0)] }
fn base() -> Base {
    let mut m = Module::default();
    m.global(I32, true, Op::I32C(1));
    m.global(I64, true, Op::I64C(3));
    m.global(V128, true, Op::VConst(9));
    m.ty(&[I32], &[I32]); // 0
    m.ty(&[I32, I64], &[I64]); // 1
    m.ty(&[], &[I64, I32]); // 2
    m.ty(&[I64], &[I32, I64]); // 3
    m.ty(&[V128, I32], &[I32, V128]); // 4
    m.ty(&[F64], &[]); // 5
    Base::new(m, vec![])
}

pub fn run(c: &Check) {
    let b = base();
    let q = c.quick();
    let both = vec![Opts::ON, Opts::OFF];
    let theme = |name: &'static str, params: &[VT], locals: &[VT], results: &[VT], atoms: Vec<Vec<Op>>, max_len: usize, max_stack: usize, max_ctl: usize, max_dead: usize, inputs: Vec<Vec<u128>>| {
        run_theme(c, &Theme { name, base: &b, params: params.to_vec(), locals: locals.to_vec(), atoms, max_len, max_stack, results: Some(results.to_vec()), max_ctl, max_dead, inputs, opts: both.clone(), budget: 300, wrap: wrap_none });
    };
    let sel = vec![vec![0, 2], vec![1, 0], vec![2, 1], vec![0xffff_ffff, 0]];
    // bodies are enumerated inside the function frame, so `return` and branches to the outermost label occur too
    let g = |i: u32| Op::LGet(i);
    theme("void control", &[I32, I32], &[], &[], vec![
        vec![Op::Block(BT::Empty)], vec![Op::Loop(BT::Empty)], vec![g(0), Op::If(BT::Empty)], vec![Op::Else], vec![Op::End],
        vec![Op::Br(0)], vec![Op::Br(1)], vec![g(0), Op::BrIf(0)], vec![g(1), Op::BrIf(1)], vec![g(0), Op::BrTable(vec![0, 1].into(), 0)], vec![Op::Return],
        tr(1), tr(2), vec![g(0), Op::I32C(-1), n("i32.add"), Op::LSet(0)],
    ], if q { 6 } else { 7 }, 4, 3, 1, sel.clone());
    theme("conditions on locals", &[I32, I32], &[], &[], vec![
        vec![Op::Block(BT::Empty)], vec![Op::Loop(BT::Empty)], vec![Op::Else], vec![Op::End],
        vec![g(0), n("i32.eqz"), Op::BrIf(0)], vec![g(0), g(1), n("i32.lt_u"), Op::BrIf(1)], vec![g(1), Op::I32C(1), n("i32.eq"), Op::If(BT::Empty)], vec![g(0), g(1), n("i32.ne"), Op::If(BT::Empty)],
        vec![g(0), Op::I32C(1), n("i32.sub"), Op::LTee(0), Op::BrIf(0)], vec![g(0), g(1), n("i32.and"), n("i32.eqz"), Op::BrIf(0)], vec![g(1), Op::I32C(1), n("i32.add"), Op::LTee(1), g(0), n("i32.ge_s"), Op::BrIf(1)],
        tr(1), vec![Op::Unreachable],
    ], if q { 6 } else { 7 }, 4, 3, 1, vec![vec![0, 2], vec![1, 0], vec![3, 1], vec![0x8000_0000, 3]]);
    theme("i32 values", &[I32, I32], &[], &[I32], one(vec![
        Op::Block(BT::Val(I32)), Op::Loop(BT::Val(I32)), Op::If(BT::Val(I32)), Op::Block(BT::Type(0)), Op::Else, Op::End, Op::Br(0), Op::Br(1), Op::BrIf(0), Op::BrIf(1), Op::Return,
        g(0), Op::I32C(7), n("i32.add"), Op::Drop, Op::LTee(1),
    ]), if q { 7 } else { 8 }, 4, 3, 1, vec![vec![0, 5], vec![1, 0]]);
    theme("mixed width values", &[I32, I64], &[], &[I64], one(vec![
        Op::Block(BT::Val(I64)), Op::Block(BT::Val(I32)), Op::Loop(BT::Val(I64)), Op::If(BT::Val(I64)), Op::Else, Op::End, Op::Br(0), Op::Br(1), Op::BrIf(0), Op::BrIf(1), Op::Return,
        g(0), g(1), Op::VConst(77), Op::Drop, n("i64.eqz"),
    ]), if q { 7 } else { 8 }, 5, 3, 1, vec![vec![0, 5 << 33], vec![1, 0]]);
    theme("multi-value", &[I32, I64], &[], &[I64, I32], one(vec![
        Op::Block(BT::Type(2)), Op::Loop(BT::Type(2)), Op::If(BT::Type(2)), Op::Block(BT::Type(1)), Op::Block(BT::Type(3)), Op::Else, Op::End, Op::Br(0), Op::Br(1), Op::BrIf(0), Op::BrIf(1),
        g(0), g(1), Op::Drop, Op::Return,
    ]), if q { 7 } else { 8 }, 5, 3, 1, vec![vec![0, 5 << 33], vec![1, 9]]);
    theme("v128 and params", &[I32, V128], &[], &[I32, V128], one(vec![
        Op::Block(BT::Type(4)), Op::Loop(BT::Type(4)), Op::If(BT::Type(4)), Op::Else, Op::End, Op::Br(0), Op::Br(1), Op::BrIf(0), Op::BrIf(1), Op::BrTable(vec![1].into(), 0), Op::Return,
        g(0), g(1), Op::I32C(1), Op::Drop, Op::LSet(1), Op::I64C(3),
    ]), if q { 7 } else { 8 }, 6, 3, 1, vec![vec![0, 5 << 100], vec![1, 9]]);
    theme("dead code", &[I32, I64], &[], &[I32], vec![
        vec![Op::Block(BT::Val(I32))], vec![Op::Loop(BT::Empty)], vec![g(0), Op::If(BT::Val(I32))], vec![Op::Else], vec![Op::End], vec![Op::Br(0)], vec![Op::Br(1)], vec![Op::BrIf(0)], vec![Op::Return], vec![Op::Unreachable],
        vec![g(1)], vec![Op::I32C(4)], vec![Op::Drop], vec![n("i64.add")], vec![n("i32.wrap_i64")], vec![Op::Select],
    ], if q { 6 } else { 7 }, 4, 3, 4, vec![vec![0, 5], vec![1, 0]]);
    theme("branch tables", &[I32, I64], &[], &[I64], vec![
        vec![Op::Block(BT::Val(I64))], vec![Op::Block(BT::Empty)], vec![Op::Loop(BT::Empty)], vec![Op::End], vec![g(0), Op::BrTable(vec![].into(), 1)], vec![g(0), Op::BrTable(vec![0, 1].into(), 2)], vec![g(0), Op::BrTable(vec![1, 0, 2].into(), 1)], vec![g(0), Op::BrTable(vec![2, 2].into(), 0)],
        vec![g(1)], vec![Op::F32C(1)], vec![Op::Drop], vec![g(0), Op::I32C(1), n("i32.add"), Op::LSet(0)], tr(3), tr(4),
    ], if q { 6 } else { 7 }, 4, 4, 1, vec![vec![0, 5], vec![1, 6], vec![2, 7], vec![0xffff_ffff, 8]]);
    compare_branches(c, &b);
    tables(c, &b);
    nesting(c, &b);
    drops(c, &b);
}

/// Every comparison (and eqz, and the bitwise tests) x operand forms x branch forms x ordered inputs.
fn compare_branches(c: &Check, b: &Base) {
    let cmps: Vec<(Op, VT, bool)> = (0x45..=0x66u8).map(|x| (Op::Num(x), num_sig(x).0[0], num_sig(x).0.len() == 1)).chain(["i32.and", "i32.or", "i32.xor", "i32.sub", "i32.add"].map(|s| (n(s), I32, false))).collect();
    c.par(cmps.len(), |j, l| {
        let (cmp, t, unary) = &cmps[j];
        let k = |v: usize| match t { I32 => Op::I32C([0, 1, -1, i32::MIN, 300, 40000, 70000][v]), I64 => Op::I64C([0, 1, -1, i64::MIN, 300, 40000, 1 << 40][v]), F32 => Op::F32C([0, 0x3f800000, 0xbf800000, 0x7fc00000, 0x80000000, 1, 0x7f800000][v]), _ => Op::F64C([0, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff8000000000000, 1 << 63, 1, 0x7ff0000000000000][v]) };
        let vals: Vec<u128> = match t { I32 => vec![0, 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 300], I64 => vec![0, 1, u64::MAX as u128, 1 << 63, (1 << 63) - 1, 300, 1 << 32], F32 => vec![0, 0x80000000, 0x3f800000, 0xbf800000, 0x7fc00000, 0x7f800000], _ => vec![0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff8000000000000, 0x7ff0000000000000] };
        // locals: 0,1 of type t (params); 2 i64; 3 of type t; 4.. a far copy
        let mut lhs: Vec<Vec<Op>> = vec![vec![Op::LGet(0)], vec![Op::LGet(0), Op::LTee(2)], vec![Op::LGet(300)], vec![k(1)], vec![Op::GGet(if *t == I32 { 0 } else { 1 })]];
        if !matches!(t, I32 | I64) { lhs.pop(); }
        let mut rhs: Vec<Vec<Op>> = vec![vec![Op::LGet(1)], vec![Op::LGet(1), Op::LTee(2)], vec![Op::LGet(301)], vec![Op::LGet(0)]];
        rhs.extend((0..7).map(|v| vec![k(v)]));
        if *unary { rhs = vec![vec![]]; }
        let cond_of = |a: &Vec<Op>, r: &Vec<Op>, neg: bool| { let mut v: Vec<Op> = a.iter().chain(r).cloned().collect(); v.push(cmp.clone()); if neg { v.push(n("i32.eqz")) } v };
        let i = |x: Vec<Vec<Op>>| -> Vec<Op> { x.into_iter().flatten().collect() };
        let mut progs = vec![];
        for a in &lhs { for r in &rhs { for neg in [false, true] {
            let cd = cond_of(a, r, neg);
            let wraps: Vec<Vec<Op>> = vec![
                i(vec![vec![Op::Block(BT::Empty)], cd.clone(), vec![Op::BrIf(0)], tr(1), vec![Op::End], tr(2), vec![Op::LGet(2)]]),
                i(vec![vec![Op::Block(BT::Empty), Op::Block(BT::Empty)], cd.clone(), vec![Op::BrIf(1)], tr(1), vec![Op::End], tr(2), vec![Op::End], tr(3), vec![Op::LGet(2)]]),
                i(vec![cd.clone(), vec![Op::If(BT::Empty)], tr(1), vec![Op::Else], tr(2), vec![Op::End, Op::LGet(2)]]),
                i(vec![cd.clone(), vec![Op::If(BT::Empty)], tr(1), vec![Op::End], tr(3), vec![Op::LGet(2)]]),
                i(vec![cd.clone(), vec![Op::If(BT::Val(*t)), Op::LGet(0), Op::Else, Op::LGet(1), Op::End]]),
                i(vec![vec![Op::Block(BT::Val(*t)), Op::LGet(1)], cd.clone(), vec![Op::BrIf(0), Op::Drop, Op::LGet(0)], tr(1), vec![Op::End]]),
                i(vec![vec![Op::Block(BT::Val(*t)), Op::I64C(3), Op::VConst(5), Op::LGet(1)], cd.clone(), vec![Op::BrIf(0), Op::Drop, Op::Drop, Op::Drop, Op::LGet(0), Op::End]]),
                i(vec![vec![Op::LGet(0), Op::LGet(1)], cd.clone(), vec![Op::Select]]),
                i(vec![vec![Op::Block(BT::Empty), Op::Block(BT::Empty), Op::Block(BT::Empty)], cd.clone(), vec![Op::BrTable(vec![0, 1].into(), 2), Op::End], tr(1), vec![Op::End], tr(2), vec![Op::End], tr(3), vec![Op::LGet(2)]]),
                i(vec![vec![Op::LGet(1)], cd.clone(), vec![Op::BrIf(0)], tr(1)]),
                // a loop whose back edge is the fused comparison; g0 bounds the iterations
                i(vec![vec![Op::Block(BT::Empty), Op::Loop(BT::Empty)], tr(1), vec![Op::GGet(0), Op::I32C(40), n("i32.gt_u"), Op::BrIf(1)], cd.clone(), vec![Op::BrIf(0), Op::End], tr(2), vec![Op::End, Op::LGet(2)]]),
            ];
            for body in wraps {
                let mut locals = vec![*t, *t];
                locals.extend(std::iter::repeat_n(I64, 296));
                locals.extend([*t, *t]);
                // copy the parameters to the far locals first
                let body: Vec<Op> = [Op::LGet(0), Op::LSet(300), Op::LGet(1), Op::LSet(301)].into_iter().chain(body).collect();
                let locals = { let mut v = vec![*t]; v.extend(&locals[1..]); v };
                progs.push(Prog { params: vec![*t, *t], results: vec![*t], locals, body });
            }
        } } }
        let inputs: Vec<Vec<u128>> = vals.iter().flat_map(|x| vals.iter().map(|y| vec![*x, *y])).collect();
        for p in progs.chunks(300) { run_batch(c, l, b, p, &inputs, &[Opts::ON, Opts::OFF], 3000); }
        l.add("compare_branch_programs", progs.len() as u64);
    });
    c.bound("compare-and-branch: 34 comparisons and 5 arithmetic conditions, each plain and negated x operand forms (near/far locals, tee, constants, globals) x 11 branch forms x all pairs of 6-7 boundary values");
    if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  compare branches", c.start.elapsed().as_secs_f64()); }
}

/// Branch tables of every length 0..=4 over every assignment of targets, carrying no value or one value of
/// each width, with extra operands underneath.
fn tables(c: &Check, b: &Base) {
    let mut jobs = vec![];
    for len in 0..=4usize { for carry in [None, Some(I32), Some(I64), Some(V128)] { jobs.push((len, carry)) } }
    c.par(jobs.len(), |j, l| {
        let (len, carry) = jobs[j];
        let mut progs = vec![];
        let depth = 4u32; // labels 0..depth-1 are blocks, label depth is the function
        let total = depth.pow(len as u32 + 1);
        for code in 0..total {
            let mut x = code;
            let mut ls = vec![];
            for _ in 0..=len { ls.push(x % depth); x /= depth }
            let d = ls.pop().unwrap();
            for junk in 0..3 {
                let bt = carry.map_or(BT::Empty, BT::Val);
                let val = match carry { None => vec![], Some(I32) => vec![Op::I32C(42)], Some(I64) => vec![Op::I64C(43 << 32)], _ => vec![Op::VConst(44 << 70)] };
                let mut body = vec![];
                for k in 0..depth { body.push(Op::Block(bt)); if junk > 0 { body.push(if (k + junk) % 2 == 0 { Op::I64C(k as i64) } else { Op::I32C(k as i32) }) } if junk == 2 { body.push(Op::F64C(5)) } }
                body.extend(val.clone());
                body.push(Op::LGet(0));
                body.push(Op::BrTable(ls.clone().into(), d));
                for k in 0..depth {
                    body.push(Op::End);
                    body.extend(tr(k as i32));
                    // leave the block with exactly its results
                    if k + 1 < depth && junk > 0 { if carry.is_some() { let t = carry.unwrap(); let loc = match t { I32 => 1, I64 => 2, _ => 3 }; body.push(Op::LSet(loc)); for _ in 0..junk { body.push(Op::Drop) } body.push(Op::LGet(loc)) } else { for _ in 0..junk { body.push(Op::Drop) } } }
                }
                progs.push(Prog { params: vec![I32], results: carry.into_iter().collect(), locals: vec![I32, I64, V128], body });
            }
        }
        let inputs: Vec<Vec<u128>> = (0..=len as u128 + 1).chain([0x8000_0000, 0xffff_ffff]).map(|x| vec![x]).collect();
        for p in progs.chunks(400) { run_batch(c, l, b, p, &inputs, &[Opts::ON, Opts::OFF], 3000); }
        l.add("branch_table_programs", progs.len() as u64);
    });
    c.bound("branch tables: lengths 0..4, every assignment of 4 labels to entries and default, carrying nothing / i32 / i64 / v128 over 0..2 extra operands per frame, every index and out-of-range indices");
}

/// Deep nesting and branches to every depth, and long bodies so that jump distances exceed every small encoding.
fn nesting(c: &Check, b: &Base) {
    let depths: Vec<u32> = if c.quick() { vec![1, 2, 7, 40, 200] } else { vec![1, 2, 3, 7, 40, 127, 128, 129, 200, 256, 300, 600] };
    let pads: Vec<usize> = if c.quick() { vec![0, 300, 17000] } else { vec![0, 100, 300, 5000, 17000, 40000] };
    let mut jobs = vec![];
    for d in &depths { for p in &pads { jobs.push((*d, *p)) } }
    c.par(jobs.len(), |j, l| {
        let (d, pad) = jobs[j];
        let mut progs = vec![];
        let targets: Vec<u32> = (0..=d).filter(|t| d <= 8 || *t < 3 || *t + 3 > d || t % 31 == 0).collect();
        let mut long: Vec<Op> = vec![];
        for i in 0..pad { long.extend([Op::LGet(1), Op::I32C(i as i32), n("i32.add"), Op::LSet(1)]) }
        for t in targets { for form in 0..4 {
            let mut body = vec![];
            for _ in 0..d { body.push(if form == 3 { Op::Loop(BT::Empty) } else { Op::Block(BT::Empty) }) }
            match form {
                0 => body.push(Op::Br(t)),
                1 | 3 => { body.extend([Op::LGet(0), Op::I32C(1), n("i32.sub"), Op::LTee(0), Op::I32C(0), n("i32.gt_s"), Op::BrIf(t)]) }
                _ => body.extend([Op::LGet(0), Op::BrTable(vec![t, 0].into(), d)]),
            }
            body.extend(tr(1));
            body.extend(long.clone());
            for k in 0..d { body.push(Op::End); body.extend(tr(k as i32 + 2)) }
            progs.push(Prog { params: vec![I32, I32], results: vec![], locals: vec![], body });
        } }
        // if/else with a long then-branch or else-branch
        for (a, e) in [(true, false), (false, true), (true, true)] {
            let mut body = vec![Op::LGet(0), Op::If(BT::Empty)];
            if a { body.extend(long.clone()) }
            body.extend(tr(1)); body.push(Op::Else);
            if e { body.extend(long.clone()) }
            body.extend(tr(2)); body.push(Op::End); body.extend(tr(3));
            progs.push(Prog { params: vec![I32, I32], results: vec![], locals: vec![], body });
        }
        for p in progs.chunks(if pad > 1000 { 6 } else { 60 }) { run_batch(c, l, b, p, &[vec![0, 0], vec![1, 0], vec![3, 0]], &[Opts::ON, Opts::OFF], 400_000); }
        l.add("nesting_programs", progs.len() as u64);
    });
    c.bound(format!("nesting: depths {depths:?} x branch to labels at every depth (all for depth <= 8) by br, br_if, br_table and loop back edges, bodies padded by {pads:?} statements"));
    if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  tables and nesting", c.start.elapsed().as_secs_f64()); }
}

/// Every mix of up to 4 operands of the five widths under every result pair, discarded by br, br_if, br_table, return.
fn drops(c: &Check, b: &Base) {
    let ts = [I32, I64, F32, F64, V128];
    let k = |t: VT, i: usize| match t { I32 => Op::I32C(100 + i as i32), I64 => Op::I64C((200 + i as i64) << 33), F32 => Op::F32C(0x40000000 + i as u32), F64 => Op::F64C(0x4000000000000000 + i as u64), _ => Op::VConst((300 + i as u128) << 65) };
    let mut under: Vec<Vec<VT>> = vec![vec![]];
    for t in ts { under.push(vec![t]); for u in ts { under.push(vec![t, u]); for w in ts { under.push(vec![t, u, w]) } } }
    let mut keep: Vec<Vec<VT>> = vec![vec![]];
    for t in ts { keep.push(vec![t]); for u in ts { keep.push(vec![t, u]); if !c.quick() { for w in ts { keep.push(vec![t, u, w]) } } } }
    c.par(keep.len(), |j, l| {
        let mut base = b.clone();
        let kp = &keep[j];
        let ty = base.module.ty(&[], kp);
        let bt = BT::Type(ty);
        let tyl = base.module.ty(kp, &[]);
        let mut progs = vec![];
        for u in &under { for form in 0..6 {
            let un: Vec<Op> = u.iter().enumerate().map(|(i, t)| k(*t, i)).collect();
            let kv: Vec<Op> = kp.iter().enumerate().map(|(i, t)| k(*t, 10 + i)).collect();
            let kv2: Vec<Op> = kp.iter().enumerate().map(|(i, t)| k(*t, 20 + i)).collect();
            let dropk = vec![Op::Drop; kp.len()];
            let dropu = vec![Op::Drop; u.len()];
            let i = |x: Vec<Vec<Op>>| -> Vec<Op> { x.into_iter().flatten().collect() };
            let body = match form {
                0 => i(vec![vec![Op::Block(bt)], un, kv, vec![Op::Br(0), Op::End]]),
                1 => i(vec![vec![Op::Block(bt)], un, kv, vec![Op::LGet(0), Op::BrIf(0)], dropk, dropu, kv2, vec![Op::End]]),
                2 => i(vec![vec![Op::Block(bt)], un, vec![Op::Block(bt), Op::I64C(1)], kv, vec![Op::LGet(0), Op::BrTable(vec![0, 1].into(), 0), Op::End, Op::Br(0), Op::End]]),
                3 => i(vec![un, kv, vec![Op::Return]]),
                4 => i(vec![vec![Op::Block(bt)], un, kv, vec![Op::LGet(0), Op::If(BT::Empty)], tr(1), vec![Op::End], vec![Op::Br(0), Op::End]]),
                // a loop taking the kept values as parameters; junk is discarded on the back edge
                _ => i(vec![kv, vec![Op::Loop(BT::Type(tyl))], dropk.clone(), tr(2), un, kv2, vec![Op::LGet(0), Op::I32C(-1), n("i32.add"), Op::LTee(0), Op::I32C(0), n("i32.gt_s"), Op::BrIf(0)], dropk, dropu, vec![Op::End], i(vec![kp.iter().enumerate().map(|(i, t)| k(*t, 30 + i)).collect()])]),
            };
            progs.push(Prog { params: vec![I32], results: kp.clone(), locals: vec![], body });
        } }
        for p in progs.chunks(400) { run_batch(c, l, &base, p, &[vec![0], vec![1], vec![2]], &[Opts::ON, Opts::OFF], 1000); }
        l.add("drop_keep_programs", progs.len() as u64);
    });
    c.bound("discarding: every kept tuple of up to 2 (thorough 3) values x every tuple of up to 3 discarded operands over the five widths, by br, br_if, br_table, return and loop back edges");
}
