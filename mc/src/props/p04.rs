//! P04: every vector operator on lane-pair grids placed in every lane position, every lane index,
//! shuffle selectors, vector loads and stores, and the fused forms.
use super::p03::{grid, konst};
use crate::batch::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use VT::*;

fn lane_values(w: u32, full8: bool) -> Vec<u64> {
    match w {
        8 if full8 => (0..256).collect(),
        8 => vec![0, 1, 2, 7, 8, 15, 16, 0x3f, 0x7e, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff],
        16 => [0u64, 1, 2, 7, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x101, 0x3fff, 0x4000, 0x7f7f, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0x807f, 0x8080, 0xff7f, 0xff80, 0xff00, 0xfffe, 0xffff, 0x1234, 0xb504, 0x5a82].to_vec(),
        32 => { let mut v: Vec<u64> = grid(F32).iter().map(|x| *x as u64).collect(); for x in [2u64, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0x8001, 0xffff, 0x1_0000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0001, 0xffff_8000, 0xffff_7fff, 0xffff_fffe, 0x8000_8000] { if !v.contains(&x) { v.push(x) } } v }
        _ => { let mut v: Vec<u64> = grid(F64).iter().map(|x| *x as u64).collect(); for x in [3u64, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, i64::MAX as u64, i64::MAX as u64 - 1, u64::MAX - 1, 0x8000_0000_8000_0000, 0x0123_4567_89ab_cdef] { if !v.contains(&x) { v.push(x) } } v }
    }
}
/// Packs all pairs of lane values into vectors so that every pair occurs in every lane.
fn pair_vectors(vals: &[u64], w: u32, rotate: bool) -> Vec<(u128, u128)> {
    let n = (128 / w) as usize;
    let pairs: Vec<(u64, u64)> = vals.iter().flat_map(|x| vals.iter().map(move |y| (*x, *y))).collect();
    let mut out = vec![];
    let chunks = pairs.len().div_ceil(n);
    for k in 0..chunks { for r in 0..if rotate { n } else { 1 } {
        let (mut a, mut b) = (0u128, 0u128);
        for i in 0..n { let (x, y) = pairs[(k * n + (i + r) % n) % pairs.len()]; a |= (x as u128) << (i as u32 * w); b |= (y as u128) << (i as u32 * w) }
        out.push((a, b));
    } }
    out
}
fn splat(v: u64, w: u32) -> u128 { (0..128 / w).fold(0, |a, i| a | ((v as u128) << (i * w))) }

pub fn run(c: &Check) {
    let mut m = Module::default();
    m.global(V128, true, Op::VConst(0));
    let b = Base::new(m, vec![]);
    let q = c.quick();
    let times = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  {s}", c.start.elapsed().as_secs_f64()) };
    let mut grids: Vec<Vec<(u128, u128)>> = vec![pair_vectors(&lane_values(8, true), 8, !q)];
    for w in [8, 16, 32, 64] { grids.push(pair_vectors(&lane_values(w, false), w, true)) }
    let small: Vec<u128> = grids[1..].iter().flat_map(|g| g.iter().step_by(g.len() / 12).map(|x| x.0)).collect();
    let relaxed = |s: u32| (256..=275).contains(&s);
    let subs: Vec<u32> = (0..=275).filter(|s| v_exists(*s) && !relaxed(*s)).collect();
    let both = [Opts::ON, Opts::OFF];
    // plain operators with vector operands only
    let mut jobs: Vec<(u32, usize, usize)> = vec![];
    for s in &subs { if v_sig(*s).0.iter().all(|t| *t == V128) { for (g, grid) in grids.iter().enumerate() { for k in 0..grid.len().div_ceil(4096) { jobs.push((*s, g, k)) } } } }
    c.par(jobs.len(), |j, l| {
        let (s, g, k) = jobs[j];
        let (ins, outs) = v_sig(s);
        let inputs: Vec<Vec<u128>> = grids[g].iter().skip(k * 4096).take(4096).map(|(a, b)| vec![*a, *b, a ^ b.rotate_left(3)]).collect();
        let get: Vec<Op> = (0..ins.len() as u32).map(Op::LGet).collect();
        let p = Prog { params: ins.to_vec(), results: outs.to_vec(), locals: vec![], body: get.into_iter().chain([Op::V(s)]).collect() };
        run_batch(c, l, &b, &[p], &inputs, &both[..1], 100);
    });
    c.bound(format!("plain: every non-relaxed vector operator x all 65536 pairs of 8-bit lanes{} and all pairs of 15/27/{}/{} boundary values of 8/16/32/64-bit lanes (integers and floats) in every lane position", if q { "" } else { " in every lane position" }, lane_values(32, false).len(), lane_values(64, false).len()));
    times("plain");
    // scalar operands: splats, shifts; and all operand forms on a smaller grid
    let jobs: Vec<u32> = subs.clone();
    c.par(jobs.len(), |j, l| {
        let s = jobs[j];
        let (ins, outs) = v_sig(s);
        let n = ins.len() as u32;
        let scal: Vec<u128> = match ins.iter().find(|t| **t != V128) { Some(I32) => (0..=130u128).chain([255, 256, 257, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x1234_5678, 0xff00, 0xffff]).collect(), Some(t) => grid(*t), None => vec![] };
        let inputs: Vec<Vec<u128>> = match ins {
            [V128] => grids[1..].iter().flat_map(|g| g.iter().step_by(7).map(|x| vec![x.0])).collect(),
            [V128, V128] => grids[1..].iter().flat_map(|g| g.iter().step_by(7).map(|x| vec![x.0, x.1])).collect(),
            [V128, V128, V128] => small.iter().flat_map(|a| small.iter().step_by(3).flat_map(move |b| [0, u128::MAX, 0x0f0f << 50, *a].map(|m| vec![*a, *b, m]))).collect(),
            [V128, _] => small.iter().flat_map(|a| scal.iter().map(move |x| vec![*a, *x])).collect(),
            _ => scal.iter().map(|x| vec![*x]).collect(),
        };
        let get: Vec<Op> = (0..n).map(Op::LGet).collect();
        let out = outs[0];
        let with = |pre: &[Op], post: &[Op]| -> Vec<Op> { pre.iter().cloned().chain([Op::V(s)]).chain(post.iter().cloned()).collect() };
        let mut bodies = vec![(with(&get, &[]), vec![out]), (with(&get, &[Op::LSet(n), Op::LGet(n)]), vec![out]), (with(&get, &[Op::LTee(n), Op::LGet(0)]), vec![out, ins[0]])];
        if out == ins[0] { bodies.push((with(&get, &[Op::LSet(0), Op::LGet(0), Op::LGet(n - 1)]), vec![out, ins[n as usize - 1]])); bodies.push((with(&get, &[Op::LTee(0), Op::LGet(0)]), vec![out, out])) }
        if out == V128 { bodies.push((with(&get, &[Op::GSet(0)]), vec![])) }
        if ins[n as usize - 1] == V128 {
            let mut p = vec![Op::LGet(n - 1), Op::GSet(0)]; p.extend((0..n - 1).map(Op::LGet)); p.push(Op::GGet(0));
            bodies.push((with(&p, &[]), vec![out]));
            let mut p = vec![]; for k in 0..n { p.extend([Op::LGet(k), Op::V(77), Op::V(77)]) }
            bodies.push((with(&p, &[]), vec![out]));
            let mut p = get.clone(); p.push(Op::LTee(n + 1));
            bodies.push((with(&p, &[Op::LGet(n + 1)]), vec![out, V128]));
        }
        let progs: Vec<Prog> = bodies.into_iter().map(|(body, results)| Prog { params: ins.to_vec(), results, locals: vec![out, V128], body }).collect();
        run_batch(c, l, &b, &progs, &inputs, &both, 100);
        // constant operands
        if n == 2 {
            let ks: Vec<u128> = if ins[1] == V128 { small.clone() } else { scal.clone() };
            let progs: Vec<Prog> = ks.iter().flat_map(|k| { let k = konst(ins[1], *k); [with(&[Op::LGet(0), k.clone()], &[]), with(&[Op::LGet(0), k.clone()], &[Op::LSet(1), Op::LGet(1)]), with(&[Op::LGet(0), Op::GSet(0), Op::GGet(0), k], &[])] }).map(|body| Prog { params: vec![V128], results: vec![out], locals: vec![out], body }).collect();
            let inputs: Vec<Vec<u128>> = small.iter().map(|x| vec![*x]).collect();
            for p in progs.chunks(200) { run_batch(c, l, &b, p, &inputs, &both[..1], 100) }
            if ins[1] == V128 {
                let progs: Vec<Prog> = ks.iter().map(|k| Prog { params: vec![V128], results: vec![out], locals: vec![], body: with(&[Op::VConst(*k), Op::LGet(0)], &[]) }).collect();
                run_batch(c, l, &b, &progs, &inputs, &both[..1], 100);
            }
        }
    });
    c.bound("forms: every operator with operands from locals, constants, globals, tees and the stack and results to the stack, locals and globals; every shift amount 0..130 and boundary scalars");
    times("forms");
    lanes_and_shuffles(c, &b, &small);
    times("lanes and shuffles");
    vmem(c);
    times("memory");
    relaxed_ops(c, &b, &grids, &small);
    times("relaxed");
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("target/x86-out/evidence/P04.json")) {
        // counts of the run against the intrinsic implementation (see check.sh)
        if let Some(n) = t.split("\"traces_validated_against_impl\":").nth(1).and_then(|s| s.split(',').next()).and_then(|s| s.parse::<u64>().ok()) {
            let mut l = Local::default();
            l.add("traces_on_the_simd_x86_build", n);
            c.merge(l);
        }
    }
    c.assume("relaxed operators: any of the specification's permitted results, the same choice on every execution");
}

fn lanes_and_shuffles(c: &Check, b: &Base, small: &[u128]) {
    c.par(14 + 17, |j, l| {
        if j < 14 {
            let sub = 21 + j as u32;
            let (ins, outs) = v_sig(sub);
            let n = match sub { 21..=23 => 16, 24..=26 => 8, 27 | 28 | 31 | 32 => 4, _ => 2 };
            let xs: Vec<u128> = if ins.len() == 2 { grid(ins[1]) } else { vec![0] };
            let inputs: Vec<Vec<u128>> = small.iter().chain(&[0x0001020304050607_08090a0b0c0d0e0f, 0x8081828384858687_88898a8b8c8d8e8f, 0x7ff4000000000001_fff0000000000001, 0x7fa00001_ffbfffff_7f800001_ffc12345]).flat_map(|v| xs.iter().step_by(if xs.len() > 20 { 3 } else { 1 }).map(move |x| vec![*v, *x])).collect();
            let progs: Vec<Prog> = (0..n).flat_map(|lane| { let op = Op::VLane { sub, lane }; let get: Vec<Op> = (0..ins.len() as u32).map(Op::LGet).collect(); let k = ins.len() as u32; [vec![op.clone()], vec![op.clone(), Op::LSet(k), Op::LGet(k)], vec![op, Op::LTee(k)]].map(|t| Prog { params: ins.to_vec(), results: outs.to_vec(), locals: vec![outs[0]], body: get.iter().cloned().chain(t).collect() }) }).collect();
            run_batch(c, l, b, &progs, &inputs, &[Opts::ON], 100);
            return;
        }
        let pos = j - 14;
        let inputs: Vec<Vec<u128>> = vec![vec![0x0f0e0d0c0b0a0908_0706050403020100, 0x1f1e1d1c1b1a1918_1716151413121110], vec![0x8081828384858687_08090a0b0c0d0e0f, u128::MAX / 3]];
        let mut sels: Vec<[u8; 16]> = vec![];
        if pos < 16 {
            for v in 0..32u8 { for base in 0..4 {
                let mut s: [u8; 16] = std::array::from_fn(|i| match base { 0 => i as u8, 1 => 31 - i as u8, 2 => 16 + i as u8, _ => (i as u8 * 7 + 3) % 32 });
                s[pos] = v;
                sels.push(s);
            } }
        } else {
            for r in 0..32u8 { sels.push(std::array::from_fn(|i| (i as u8 + r) % 32)); sels.push([r; 16]); sels.push(std::array::from_fn(|i| (i as u8 * 2 + r) % 32)); sels.push(std::array::from_fn(|i| (i as u8 / 2 + (i as u8 % 2) * 16 + r) % 32)); sels.push(std::array::from_fn(|i| ((i as u8 ^ 3) + r) % 32)); sels.push(std::array::from_fn(|i| ((i as u8 ^ 15) + r) % 32)) }
        }
        let progs: Vec<Prog> = sels.iter().flat_map(|s| [vec![Op::LGet(0), Op::LGet(1), Op::Shuffle(*s)], vec![Op::LGet(1), Op::LGet(1), Op::Shuffle(*s), Op::LSet(0), Op::LGet(0)]]).map(|body| Prog { params: vec![V128, V128], results: vec![V128], locals: vec![], body }).collect();
        for p in progs.chunks(300) { run_batch(c, l, b, p, &inputs, &[Opts::ON], 100) }
    });
    c.bound("every lane index of every lane instruction; shuffles with every selector byte at every position over four base selectors, plus rotations, splats, interleavings and reversals");
}

fn vmem(c: &Check) {
    let mut m = Module::default();
    m.mem(Limits { min: 48, max: Some(48), is64: false, page_log2: Some(0) });
    m.mem(Limits { min: 40, max: Some(40), is64: true, page_log2: Some(0) });
    let b = Base::new(m, vec![(0..48u32).map(|i| (i * 37 + 129) as u8).collect(), (0..40u32).map(|i| (i * 91 + 7) as u8).collect()]);
    let subs: Vec<u32> = (0..=11).chain(84..=93).collect();
    c.par(subs.len(), |j, l| {
        let sub = subs[j];
        let lanes = match sub { 84 | 88 => 16, 85 | 89 => 8, 86 | 90 => 4, 87 | 91 => 2, _ => 1u8 };
        let st = sub == 11 || (88..=91).contains(&sub);
        let takes_v = st || (84..=87).contains(&sub);
        let mut progs: [Vec<Prog>; 2] = [vec![], vec![]];
        for mem in 0..2u32 { for lane in 0..lanes { for off in [0u64, 1, 5, 32, 0xffff_fff0, 0xffff_ffff] {
            let at = if mem == 0 { I32 } else { I64 };
            let op = Op::VMem { sub, m: MA { align: 0, offset: off, mem }, lane };
            for form in 0..4 {
                let mut body = vec![];
                if form == 1 { body.extend([Op::LGet(0), Op::LTee(2)]) } else if form == 2 { body.extend([Op::LGet(0), konst(at, 1), if mem == 0 { num("i32.add") } else { num("i64.add") }]) } else { body.push(Op::LGet(0)) }
                if takes_v { body.push(Op::LGet(1)); if form == 3 { body.push(Op::V(77)) } }
                body.push(op.clone());
                if !st && form == 3 { body.extend([Op::LSet(1), Op::LGet(1)]) }
                progs[mem as usize].push(Prog { params: vec![at, V128], results: if st { vec![] } else { vec![V128] }, locals: vec![at], body });
            }
        } } }
        for mem in 0..2 {
            let size: u128 = if mem == 0 { 48 } else { 40 };
            let mut addrs: Vec<u128> = (0..=size + 1).collect();
            addrs.extend([0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff]);
            if mem == 1 { addrs.extend([1 << 32, u64::MAX as u128, u64::MAX as u128 - 15, 1 << 63]) }
            let inputs: Vec<Vec<u128>> = addrs.iter().map(|a| vec![*a, 0xf0e1d2c3b4a59687_78695a4b3c2d1e0f]).collect();
            for p in progs[mem].chunks(200) { run_batch(c, l, &b, p, &inputs, &[Opts::ON, Opts::OFF], 100) }
        }
    });
    c.bound("every vector load, store and lane access x every lane x 6 offsets x every address of a 48-byte and a 40-byte 64-bit memory and boundary addresses");
}

/// Relaxed operators: across all inputs at least one permitted alternative must explain every result.
fn relaxed_ops(c: &Check, b: &Base, grids: &[Vec<(u128, u128)>], small: &[u128]) {
    let subs: Vec<u32> = (256..=275).collect();
    c.par(subs.len(), |j, l| {
        let s = subs[j];
        let (ins, _) = v_sig(s);
        let n = ins.len();
        let mut inputs: Vec<Vec<u128>> = vec![];
        for g in &grids[1..] { for (a, b) in g.iter().step_by(if n == 3 { 5 } else { 1 }) { inputs.push([*a, *b, a ^ b.rotate_left(64)][..n].to_vec()) } }
        if n == 3 {
            for x in small { for y in small { inputs.push(vec![*x, *y, splat(0x80, 8)]); inputs.push(vec![*x, *y, *x]); inputs.push(vec![*y, *x, 0x00ff00ff_80007fff_01000001_fffe0001]) } }
            let fl: Vec<u64> = vec![0, 0x80000000, 0x3f800000, 0xbf800000, 0x3f800001, 0x3f7fffff, 0x4b800000, 0x33800000, 0xb3800000, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0x7fc00000, 1];
            for x in &fl { for y in &fl { for z in &fl { inputs.push(vec![splat(*x, 32), splat(*y, 32), splat(*z, 32)]) } } }
            let dl: Vec<u64> = vec![0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x3ff0000000000001, 0x3fefffffffffffff, 0x4340000000000000, 0x3c90000000000000, 0xbc90000000000000, 0x7fefffffffffffff, 0x7ff0000000000000, 0x7ff8000000000000, 1];
            for x in &dl { for y in &dl { for z in &dl { inputs.push(vec![splat(*x, 64), splat(*y, 64), splat(*z, 64)]) } } }
        }
        let get: Vec<Op> = (0..n as u32).map(Op::LGet).collect();
        let p = Prog { params: ins.to_vec(), results: vec![V128], locals: vec![], body: get.into_iter().chain([Op::V(s)]).collect() };
        let bytes = encode(&build(b, std::slice::from_ref(&p)));
        let mut x = match live(b, &bytes, Opts::ON, 1) { Ok(x) => x, Err(e) => { c.violation(format!("reject|v({s})"), format!("relaxed operator {s} not accepted: {e}"), hex(&bytes)); return } };
        for i in &inputs {
            let f = x.funcs[0].clone();
            let got = match guard(|| vals_out(Some(&[V128]), f.call(&mut x.store, &args_wv(&p.params, i)))) { Ok(o) => o, Err(e) => Out::Panic(e) };
            let alts = crate::simd::v_op(s, i[0], *i.get(1).unwrap_or(&0), *i.get(2).unwrap_or(&0));
            l.traces += 1; l.transitions += 1;
            l.states.insert(hash(&(s, format!("{got:?}"))));
            let hit = match &got { Out::Vals(v) => alts.iter().any(|a| *a == v[0]), _ => false };
            if !hit { c.violation(format!("relaxed|{s}|{i:x?}"), format!("relaxed operator {s} on {i:x?} gave {got:x?}, permitted {alts:x?}"), hex(&bytes)); return }
        }
        l.sample(|| format!("relaxed operator {s} on {:x?}", inputs[inputs.len() / 2]));
    });
    c.bound("relaxed operators: lane grids of the plain operators plus float triples; result must be one of the permitted ones");
}
