//! P06: bulk memory instructions, data segments and growth.
//! (a) operand grids of copy/fill/init over several memories of both address widths, in every operand form and
//! on every backend; (b) the same with one memory under two indices; (c) every bounded history of growth,
//! fills, copies, inits, drops and boundary accesses on fresh instances.
use crate::backends;
use crate::batch::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use VT::*;

const SIZES: [(u64, bool); 3] = [(9, false), (7, true), (6, false)];
fn datas(m: &mut Module) {
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![0xd1, 0xd2, 0xd3, 0xd4, 0xd5] });
    m.datas.push(Data { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(1)] }, bytes: vec![0xe1, 0xe2] });
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![] });
}
fn base() -> Base {
    let mut m = Module::default();
    for (n, is64) in SIZES { m.mem(Limits { min: n, max: Some(n), is64, page_log2: Some(0) }); }
    datas(&mut m);
    Base::new(m, SIZES.iter().enumerate().map(|(k, (n, _))| (0..*n as u8).map(|i| 0x10 * (k as u8 + 1) + i + 1).collect()).collect())
}
fn at(mem: u32) -> VT { if SIZES[mem as usize].1 { I64 } else { I32 } }
fn konst(t: VT, v: u64) -> Op { if t == I64 { Op::I64C(v as i64) } else { Op::I32C(v as u32 as i32) } }
fn addrs(n: u64, is64: bool, q: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=n + 1).collect();
    v.extend([0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_ffff - n + 1]);
    if is64 { v.extend([1 << 32, u64::MAX, u64::MAX - n + 1, (1 << 32) + 1, 1 << 63]) }
    if q { v.retain(|x| *x < n.saturating_sub(3) && x % 2 == 0 || *x >= n.saturating_sub(2)) }
    v
}

pub fn run(c: &Check) {
    let q = c.quick();
    let times = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  {s}", c.start.elapsed().as_secs_f64()) };
    let bes = backends::all();
    // ---------------------------------------------------------------- (a)
    #[derive(Clone, Copy)]
    enum K { Copy(u32, u32), Fill(u32), Init(u32, u32) }
    let mut kinds = vec![];
    for a in 0..3 { for b in 0..3 { kinds.push(K::Copy(a, b)) } kinds.push(K::Fill(a)); for d in 0..3 { kinds.push(K::Init(a, d)) } }
    let jobs: Vec<(K, usize)> = kinds.iter().flat_map(|k| (0..bes.len()).map(move |b| (*k, b))).collect();
    c.par(jobs.len(), |j, l| {
        let (k, bi) = jobs[j];
        let mut b = base();
        b.config = bes[bi].1;
        let small = q && bi > 8;
        // (operand types, instruction, operand grids)
        let (tys, op, grids): ([VT; 3], Op, [Vec<u64>; 3]) = match k {
            K::Copy(d, s) => {
                let lt = if at(d) == I64 && at(s) == I64 { I64 } else { I32 };
                let m = SIZES[d as usize].0.min(SIZES[s as usize].0);
                ([at(d), at(s), lt], Op::MemCopy { dst: d, src: s }, [addrs(SIZES[d as usize].0, at(d) == I64, small), addrs(SIZES[s as usize].0, at(s) == I64, small), addrs(m, lt == I64, small)])
            }
            K::Fill(d) => ([at(d), I32, at(d)], Op::MemFill(d), [addrs(SIZES[d as usize].0, at(d) == I64, small), vec![0, 0x1ab, 0xffff_ffff], addrs(SIZES[d as usize].0, at(d) == I64, small)]),
            K::Init(d, s) => ([at(d), I32, I32], Op::MemInit { data: s, mem: d }, [addrs(SIZES[d as usize].0, at(d) == I64, small), addrs(5, false, small), addrs(5, false, small)]),
        };
        let inputs: Vec<Vec<u128>> = grids[0].iter().flat_map(|x| { let g = &grids; g[1].iter().flat_map(move |y| g[2].iter().map(move |z| vec![*x as u128, *y as u128, *z as u128])) }).collect();
        let g = |i| Op::LGet(i);
        let mut progs = vec![
            Prog { params: tys.to_vec(), results: vec![], locals: vec![], body: vec![g(0), g(1), g(2), op.clone()] },
            Prog { params: tys.to_vec(), results: vec![tys[2], I32], locals: vec![], body: vec![Op::I32C(77), Op::LSet(3), g(2), g(0), g(1), g(2), op.clone(), g(3)] },
        ];
        progs[1].locals = vec![I32];
        run_batch(c, l, &b, &progs, &inputs, &[Opts::ON, Opts::OFF], 100);
        // operands as constants: all operands, and each single one, over the full grid of the default backend
        if bi < 9 || !q {
            let mut progs = vec![];
            let one = |s: usize, v: u64| konst(tys[s], v);
            for y in &grids[1] { for z in &grids[2] { progs.push(Prog { params: vec![tys[0]], results: vec![], locals: vec![], body: vec![g(0), one(1, *y), one(2, *z), op.clone()] }); } }
            run_batch(c, l, &b, &progs, &grids[0].iter().map(|x| vec![*x as u128]).collect::<Vec<_>>(), &[Opts::ON, Opts::OFF], 100);
            let mut progs = vec![];
            for x in &grids[0] { for y in &grids[1] { progs.push(Prog { params: vec![tys[2]], results: vec![], locals: vec![], body: vec![one(0, *x), one(1, *y), g(0), op.clone()] }); } }
            for x in &grids[0] { progs.push(Prog { params: vec![tys[2], tys[1]], results: vec![], locals: vec![], body: vec![one(0, *x), g(1), Op::LTee(1), g(0), Op::LTee(0), op.clone()] }); }
            run_batch(c, l, &b, &progs, &grids[2].iter().map(|x| vec![*x as u128, 1]).collect::<Vec<_>>(), &[Opts::ON], 100);
        }
    });
    c.bound("memory.copy over all 9 pairs of 3 memories (9 B, 7 B 64-bit, 6 B), memory.fill, memory.init of 3 segments (passive, dropped by activation, empty): every combination of operands from 0..=size+1 and boundary values, in local, constant and mixed operand forms, 14 backends");
    times("operand grids");
    wide_copies(c);
    times("long transfers");
    aliases(c);
    times("aliased memories");
    let d = c.pick(4, 5);
    for (bi, page_log2) in [(0usize, Some(0)), (2, Some(0)), (8, Some(0)), (12, Some(0)), (0, None), (7, None)] {
        for is64 in [false, true] { grow_histories(c, if page_log2.is_none() { 3 } else { d }, bi, page_log2, is64) }
    }
    times("histories");
    sizes(c);
    times("grow limits");
}

/// Transfers longer than any internal copy chunk, at every alignment modulo 3 near chunk boundaries.
fn wide_copies(c: &Check) {
    let bes = backends::all();
    c.par(bes.len(), |bi, l| {
        let mut m = Module::default();
        for n in [20000u64, 17000] { m.mem(Limits { min: n, max: Some(n), is64: false, page_log2: Some(0) }); }
        let bytes: Vec<u8> = (0..9000u32).map(|i| (i * 7 + i / 251) as u8).collect();
        m.datas.push(Data { mode: SegMode::Passive, bytes });
        let mut b = Base::new(m, [20000u32, 17000].iter().map(|n| (0..*n).map(|i| (i * 31 + (i >> 8) * 7 + 1) as u8).collect()).collect());
        b.config = bes[bi].1;
        let p = |op| Prog { params: vec![I32, I32, I32], results: vec![], locals: vec![], body: vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), op] };
        let progs = vec![p(Op::MemCopy { dst: 0, src: 0 }), p(Op::MemCopy { dst: 1, src: 0 }), p(Op::MemCopy { dst: 0, src: 1 })];
        let mut inp = vec![];
        for n in [0u128, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12289, 16383, 17000] { for (d, s) in [(0u128, 0u128), (0, 1), (1, 0), (3, 4096), (4096, 3), (2999, 3000), (0, 3000), (3000, 0)] { inp.push(vec![d, s, n]) } }
        run_batch(c, l, &b, &progs, &inp, &[Opts::ON], 100);
        run_batch(c, l, &b, &[p(Op::MemInit { data: 0, mem: 0 })], &[[0u128, 0, 9000], [7, 1, 8999], [0, 1, 9000], [11001, 0, 9000], [11000, 0, 9000], [4095, 4097, 4098]].map(|x| x.to_vec()), &[Opts::ON], 100);
        run_batch(c, l, &b, &[p(Op::MemFill(0))], &[[0u128, 0xab, 20000], [1, 7, 19999], [1, 7, 20000], [4095, 9, 8193], [19999, 1, 1], [20000, 1, 0], [20001, 1, 0]].map(|x| x.to_vec()), &[Opts::ON], 100);
    });
    c.bound("transfers of up to 17000 bytes around 4096-byte multiples within and between memories, forwards and backwards overlapping, 14 backends");
}

/// One memory imported under two indices (and a private one): every operation in both roles.
fn aliases(c: &Check) {
    let q = c.quick();
    let bes = backends::all();
    let combos: Vec<(usize, bool)> = (0..bes.len()).flat_map(|b| [(b, false), (b, true)]).collect();
    c.par(combos.len(), |j, l| {
        let (bi, is64) = combos[j];
        let t = if is64 { I64 } else { I32 };
        let lim = Limits { min: 6, max: Some(8), is64, page_log2: Some(0) };
        let mut a = Module::default();
        a.mem(lim);
        a.datas.push(Data { mode: SegMode::Active { idx: 0, offset: vec![konst(t, 0)] }, bytes: vec![1, 2, 3, 4, 5, 6] });
        export_all(&mut a);
        let mut b = Module::default();
        for n in ["x", "y"] { b.imports.push(Import { module: "a".into(), name: n.into(), kind: ImportKind::Mem(lim) }) }
        b.mem(Limits { min: 5, max: Some(9), is64, page_log2: Some(0) });
        for d in 0..3 { for s in 0..3 { b.func(&[t, t, t], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemCopy { dst: d, src: s }]); } }
        for d in 0..3 { b.func(&[t, I32, t], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemFill(d)]); }
        for d in 0..3 { b.func(&[t], &[t, t, t, t], &[], vec![Op::LGet(0), Op::MemGrow(d), Op::MemSize(0), Op::MemSize(1), Op::MemSize(2)]); }
        export_all(&mut b);
        let (da, db) = match (Def::new(&a, Opts::ON), Def::new(&b, Opts::ON)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => { c.violation("alias|parse", e, ""); return } };
        let g: Vec<u128> = if q { vec![0, 1, 2, 5, 6, 7, u32::MAX as u128] } else { (0..=9).chain([0x8000_0000, u32::MAX as u128 - 4, u32::MAX as u128]).collect() };
        let (ma, mb) = (b.n_imp(EK::Mem), 3);
        let _ = (ma, mb);
        let new = || -> Result<World, String> {
            let mut w = World::new(bes[bi].1());
            let i = w.instantiate(&da, &[], true)?.unwrap();
            let x = w.item(i, "m0");
            w.instantiate(&db, &[Some(x.clone()), Some(x)], true)?;
            w.check()?;
            Ok(w)
        };
        let mut w = match new() { Ok(w) => w, Err(e) => { c.violation(format!("alias|setup|{bi}|{is64}"), e, hex(&db.bytes)); return } };
        let mut go = |f: usize, args: &[u128]| {
            l.traces += 1; l.transitions += 5;
            let r = w.call_name(1, &format!("f{f}"), args).and_then(|_| w.check());
            if let Err(e) = r { c.violation(format!("alias|f{f}|{args:?}|{is64}"), format!("backend {}: {e}", bes[bi].0), hex(&db.bytes)); if let Ok(n) = new() { w = n } }
            l.states.insert(w.state_hash());
        };
        for f in 0..9 { for x in &g { for y in &g { for z in &g { go(f, &[*x, *y, *z]) } } } }
        for f in 9..12 { for x in &g { for z in &g { go(f, &[*x, 0xa0 + *x, *z]) } } }
        for d in [0u128, 1, u32::MAX as u128, 1, 1, 0] { for f in 12..15 { go(f, &[d]) } }
        for f in 0..9 { for x in &g { for y in &g { go(f, &[*x, *y, 3]) } } }
    });
    c.bound("one memory imported under two indices plus a private one: copy (9 pairs), fill and grow through every index, 7-13 values per operand, 32- and 64-bit, 14 backends");
}

/// Every history of at most `depth` actions on a fresh instance.
fn grow_histories(c: &Check, depth: usize, bi: usize, page_log2: Option<u32>, is64: bool) {
    let t = if is64 { I64 } else { I32 };
    let page = 1u64 << page_log2.unwrap_or(16);
    let (min, max) = if page == 1 { (4, 9) } else { (1, 3) };
    let mut m = Module::default();
    m.mem(Limits { min, max: Some(max), is64, page_log2 });
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![0xd1, 0xd2, 0xd3] });
    m.datas.push(Data { mode: SegMode::Active { idx: 0, offset: vec![konst(t, 1)] }, bytes: vec![0xe1, 0xe2] });
    let g = Op::LGet;
    let grow = m.func(&[t], &[t, t], &[], vec![g(0), Op::MemGrow(0), Op::MemSize(0)]);
    let fill = m.func(&[t, I32, t], &[], &[], vec![g(0), g(1), g(2), Op::MemFill(0)]);
    let copy = m.func(&[t, t, t], &[], &[], vec![g(0), g(1), g(2), Op::MemCopy { dst: 0, src: 0 }]);
    let init = m.func(&[t, I32, I32], &[], &[], vec![g(0), g(1), g(2), Op::MemInit { data: 0, mem: 0 }]);
    let init1 = m.func(&[t, I32, I32], &[], &[], vec![g(0), g(1), g(2), Op::MemInit { data: 1, mem: 0 }]);
    let drop0 = m.func(&[], &[], &[], vec![Op::DataDrop(0)]);
    let drop1 = m.func(&[], &[], &[], vec![Op::DataDrop(1)]);
    let st = m.func(&[t, I32], &[], &[], vec![g(0), g(1), mem(0x3a, 0)]);
    let ld = m.func(&[t], &[I32], &[], vec![g(0), mem(0x2d, 0)]);
    let end = m.func(&[], &[], &[], vec![Op::MemSize(0), konst(t, page), num(if is64 { "i64.mul" } else { "i32.mul" }), konst(t, 1), num(if is64 { "i64.sub" } else { "i32.sub" }), Op::I32C(0x5a), mem(0x3a, 0)]);
    export_all(&mut m);
    if let Err(e) = Def::new(&m, Opts::ON) { c.violation("hist|parse", e, ""); return }
    let (p, big) = (page as u128, if is64 { u64::MAX as u128 } else { u32::MAX as u128 });
    let sz = (min * page) as u128;
    let acts: Vec<(u32, Vec<u128>)> = vec![
        (grow, vec![0]), (grow, vec![1]), (grow, vec![2]), (grow, vec![big]), (grow, vec![big >> 1]),
        (end, vec![]), (st, vec![sz, 0x77]), (ld, vec![sz + p - 1]),
        (fill, vec![1, 0x11, sz - 1]), (fill, vec![sz - 1, 0x22, p + 1]), (fill, vec![0, 0, sz]),
        (copy, vec![1, 0, sz - 1]), (copy, vec![0, sz - 1, 2]), (copy, vec![sz, 0, p]),
        (init, vec![sz - 2, 0, 3]), (init, vec![0, 1, 2]), (init, vec![1, 0, 0]), (init, vec![sz + p, 3, 0]), (init1, vec![0, 0, 1]), (init1, vec![0, 0, 0]),
        (drop0, vec![]), (drop1, vec![]),
    ];
    let n = acts.len();
    let be = backends::all()[bi].clone();
    let name = format!("hist {} page {page} is64 {is64}", be.0);
    c.par(n, |j, l| {
        let def = Def::new(&m, Opts::ON).unwrap();
        histories(c, l, &name, depth, n, Some(j),
            &|| { let mut w = World::new(be.1()); w.instantiate(&def, &[], true).map_err(|e| format!("setup: {e}")).unwrap(); w },
            &|w, a| { let (f, args) = &acts[a]; w.call_name(0, &format!("f{f}"), args)?; w.check()?; Ok(w.state_hash()) },
            &|a| format!("f{}{:?}", acts[a].0, acts[a].1));
    });
    c.bound(format!("all {n}^{depth} histories of growth, fill, copy, init, drop, store and load actions, memory {min}..{max} pages of {page} bytes, is64 {is64}, backend {}", be.0));
}

/// memory.grow and memory.size against every kind of limit.
fn sizes(c: &Check) {
    let mut cases = vec![];
    for is64 in [false, true] { for (min, max) in [(0u64, None), (0, Some(0)), (1, Some(1)), (0, Some(2)), (1, Some(65536)), (2, Some(3))] { for p in [None, Some(0u32), Some(16)] { cases.push(Limits { min, max, is64, page_log2: p }) } } }
    for max in [Some((1u64 << 32) - 1), Some(u32::MAX as u64 >> 1)] { cases.push(Limits { min: 1, max, is64: false, page_log2: Some(0) }) }
    for max in [(1u64 << 47), (1 << 48) - 1, 1 << 48] { for min in [0u64, 1] { cases.push(Limits { min, max: Some(max), is64: true, page_log2: None }) } }
    for max in [u64::MAX, 1 << 63] { cases.push(Limits { min: 1, max: Some(max), is64: true, page_log2: Some(0) }) }
    c.par(cases.len(), |j, l| {
        let lim = cases[j];
        let t = if lim.is64 { I64 } else { I32 };
        let mut m = Module::default();
        m.mem(lim);
        m.func(&[t], &[t, t], &[], vec![Op::LGet(0), Op::MemGrow(0), Op::MemSize(0)]);
        m.func(&[], &[t], &[], vec![Op::MemSize(0)]);
        m.export("f0", EK::Func, 0);
        m.export("f1", EK::Func, 1);
        m.export("m0", EK::Mem, 0);
        let r = (|| -> Result<(), String> {
            let def = Def::new(&m, Opts::ON)?;
            let mut w = World::new(tinywasm::engine::Config::default());
            w.instantiate(&def, &[], true)?.unwrap();
            w.check()?;
            let cap = w.rs.mems[0].cap();
            let mut deltas: Vec<u64> = vec![0, 1, 1, cap.wrapping_add(1), u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, 1 << 48, u32::MAX as u64, 0x8000_0000, 0, 2, 1];
            if !lim.is64 { deltas.iter_mut().for_each(|d| *d &= 0xffff_ffff) }
            for d in deltas {
                // growth that fits the limits but not the host is decided by the host; only small or impossible growth is compared
                let now = w.rs.mems[0].pages;
                let fits = now.checked_add(d).is_some_and(|n| n <= cap);
                if fits && (d << lim.page_log2.unwrap_or(16)) > (64 << 20) { continue }
                if !fits && lim.max.is_some_and(|x| now.checked_add(d).is_some_and(|n| n <= x)) && lim.is64 { continue }
                l.traces += 1; l.transitions += 1;
                w.call_name(0, "f0", &[d as u128]).map_err(|e| format!("memory.grow {d:#x}: {e}"))?;
                w.call_name(0, "f1", &[])?;
                w.check()?;
                l.states.insert(w.state_hash());
            }
            Ok(())
        })();
        if let Err(e) = r { c.violation(format!("limits|{lim:?}"), format!("{e}; memory {lim:?}"), hex(&encode(&m))) }
    });
    c.bound(format!("memory.grow by 14 deltas (0, small, just past the limit, 2^31.., 2^63.., 2^64-1) for {} limit declarations", cases.len()));
}
