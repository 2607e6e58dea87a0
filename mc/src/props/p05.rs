//! P05: scalar loads and stores over every access instruction, operand form, static offset and address of
//! small byte-granular memories (32- and 64-bit, several per module), on every backend.
use super::p03::konst;
use crate::backends;
use crate::batch::*;
use crate::num::Trap;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use VT::*;

fn small() -> (Module, Vec<Vec<u8>>) {
    let mut m = Module::default();
    for (n, is64) in [(40, false), (37, true), (24, false), (0, false)] { m.mem(Limits { min: n, max: Some(n), is64, page_log2: Some(0) }); }
    for t in [I32, I64, F32, F64] { m.global(t, true, konst(t, 0)); }
    let init = [(40, 37, 129), (37, 91, 7), (24, 53, 200)].map(|(n, a, b)| (0..n as u32).map(|i| (i * a + b) as u8).collect()).to_vec();
    (m, init)
}
fn gi(t: VT) -> u32 { [I32, I64, F32, F64].iter().position(|x| *x == t).unwrap() as u32 }
fn n(s: &str) -> Op { num(s) }
fn pre(t: VT) -> &'static str { match t { I32 => "i32", I64 => "i64", F32 => "f32", _ => "f64" } }

/// All operand forms of one access. Locals: 0 address, 1 value, 2 and 3 spare of the address/value type,
/// 300.. copies beyond the compact local range (only in the `far` forms).
fn forms(op: u8, m: MA, at: VT) -> Vec<(Vec<Op>, Vec<VT>, bool)> {
    let (t, _, st) = mem_sig(op);
    let x = || Op::Mem { op, m };
    let g = |i| Op::LGet(i);
    let add = |t: VT| n(&format!("{}.add", pre(t)));
    let one = |t: VT| match t { I32 => Op::I32C(1), I64 => Op::I64C(1), F32 => Op::F32C(0x3f800000), _ => Op::F64C(0x3ff0000000000000) };
    let mut v: Vec<(Vec<Op>, Vec<VT>, bool)> = vec![];
    let mut p = |b: Vec<Op>, r: Vec<VT>| v.push((b, r, false));
    if !st {
        p(vec![g(0), x()], vec![t]);
        p(vec![g(0), x(), Op::LSet(1), g(1)], vec![t]);
        p(vec![g(0), x(), Op::LTee(1), g(1)], vec![t, t]);
        p(vec![g(0), Op::LTee(2), x(), g(2)], vec![t, at]);
        p(vec![g(0), Op::LTee(2), x(), Op::LTee(3), g(2)], vec![t, at]);
        p(vec![g(0), one(at), add(at), x()], vec![t]);
        p(vec![g(0), one(at), add(at), Op::LTee(0), x(), g(0)], vec![t, at]);
        p(vec![g(0), Op::GSet(gi(at)), Op::GGet(gi(at)), x()], vec![t]);
        p(vec![g(1), g(0), x()], vec![t, t]);
        p(vec![g(1), g(0), x(), add(t)], vec![t]);
        p(vec![g(0), x(), g(1), add(t), Op::LSet(1), g(1)], vec![t]);
        p(vec![g(0), x(), one(t), add(t)], vec![t]);
        p(vec![g(0), x(), Op::Drop], vec![]);
        p(vec![g(0), x(), Op::GSet(gi(t)), Op::GGet(gi(t))], vec![t]);
        p(vec![konst(at, 3), x()], vec![t]);
        p(vec![konst(at, u64::MAX as u128), x()], vec![t]);
        if t == at { p(vec![g(0), x(), Op::LSet(0), g(0)], vec![t]); p(vec![g(0), x(), Op::LTee(0), g(0)], vec![t, t]) }
        if t == I32 { p(vec![g(0), x(), Op::If(BT::Val(I32)), Op::I32C(5), Op::Else, Op::I32C(6), Op::End], vec![I32]); p(vec![g(0), x(), Op::I32C(255), n("i32.and"), Op::LTee(1)], vec![t]) }
        if t == I64 { p(vec![g(0), x(), n("i64.eqz")], vec![I32]); p(vec![g(0), x(), n("i32.wrap_i64")], vec![I32]) }
        v.push((vec![g(0), Op::LSet(300), g(300), x(), Op::LSet(301), g(301)], vec![t], true));
        v.push((vec![g(0), x(), Op::LSet(301), g(301)], vec![t], true));
        v.push((vec![g(0), x(), Op::LTee(301), g(301)], vec![t, t], true));
        v.push((vec![g(0), Op::LSet(300), g(300), x(), Op::LTee(1), g(1)], vec![t, t], true));
    } else {
        p(vec![g(0), g(1), x()], vec![]);
        p(vec![g(0), konst(t, 0xa1b2c3d4e5f60718), x()], vec![]);
        p(vec![g(0), g(1), Op::LTee(3), x(), g(3)], vec![t]);
        p(vec![g(0), Op::LTee(2), g(1), x(), g(2)], vec![at]);
        p(vec![g(0), g(1), g(1), add(t), x()], vec![]);
        p(vec![g(0), one(at), add(at), g(1), x()], vec![]);
        p(vec![g(1), Op::GSet(gi(t)), g(0), Op::GGet(gi(t)), x()], vec![]);
        p(vec![g(0), Op::GSet(gi(at)), Op::GGet(gi(at)), g(1), x()], vec![]);
        p(vec![konst(at, 3), g(1), x()], vec![]);
        p(vec![g(0), g(1), x(), g(0), g(1), x()], vec![]);
        if t == at { p(vec![g(0), g(0), x()], vec![]); p(vec![g(1), g(0), x()], vec![]) }
        // read-modify-write shapes with the same and with different operands
        let ld = match (t, mem_sig(op).1) { (I32, 4) => 0x28, (I64, 8) => 0x29, (F32, _) => 0x2a, (F64, _) => 0x2b, (I32, 1) => 0x2d, (I32, _) => 0x2f, (_, 1) => 0x31, (_, 2) => 0x33, _ => 0x35 };
        let l = |off: u64, mem: u32| Op::Mem { op: ld, m: MA { offset: off, mem, ..m } };
        p(vec![g(0), g(0), l(m.offset, m.mem), one(t), add(t), x()], vec![]);
        p(vec![g(0), g(0), l(m.offset, m.mem), g(1), add(t), x()], vec![]);
        p(vec![g(0), g(0), l(m.offset ^ 1, m.mem), one(t), add(t), x()], vec![]);
        p(vec![g(0), g(0), l(m.offset, m.mem), one(t), n(&format!("{}.sub", pre(t))), x()], vec![]);
        p(vec![g(0), g(2), l(m.offset, m.mem), one(t), add(t), x()], vec![]);
        if at == I32 { p(vec![g(0), g(0), l(m.offset, if m.mem == 0 { 2 } else { 0 }), one(t), add(t), x()], vec![]) }
        p(vec![g(0), g(1), g(1), g(1), n(&format!("{}.mul", pre(t))), add(t), x()], vec![]);
        p(vec![g(0), g(1), one(t), g(1), n(&format!("{}.mul", pre(t))), add(t), x()], vec![]);
        p(vec![g(1), g(0), g(1), one(t), g(1), n(&format!("{}.mul", pre(t))), add(t), x()], vec![t]);
        p(vec![g(0), g(1), g(1), n(&format!("{}.mul", pre(t))), g(1), add(t), x()], vec![]);
        if t == F32 || t == F64 {
            let (abs, neg, mul) = (n(&format!("{}.abs", pre(t))), n(&format!("{}.neg", pre(t))), n(&format!("{}.mul", pre(t))));
            for sub in [add(t), n(&format!("{}.sub", pre(t)))] {
                p(vec![g(0), g(1), abs.clone(), g(1), neg.clone(), one(t), abs.clone(), mul.clone(), sub.clone(), x()], vec![]);
                p(vec![g(1), g(0), one(at), add(at), g(1), abs.clone(), g(1), neg.clone(), g(3), abs.clone(), mul.clone(), sub.clone(), x(), g(0)], vec![t, at]);
                p(vec![g(0), g(1), neg.clone(), one(t), abs.clone(), mul.clone(), g(1), abs.clone(), sub.clone(), x()], vec![]);
                p(vec![g(0), g(0), l(m.offset, m.mem), g(0), l(m.offset, m.mem), g(1), neg.clone(), mul.clone(), sub, x()], vec![]);
            }
        } else {
            let mul = n(&format!("{}.mul", pre(t)));
            let cl = n(&format!("{}.clz", pre(t)));
            p(vec![g(0), g(1), cl.clone(), g(1), cl.clone(), g(1), cl.clone(), mul, add(t), x()], vec![]);
            p(vec![g(0), g(0), l(m.offset, m.mem), cl.clone(), one(t), add(t), x()], vec![]);
            p(vec![g(0), g(0), l(m.offset, m.mem), konst(t, 2), add(t), x()], vec![]);
            p(vec![g(0), g(1), g(1), cl, add(t), one(t), add(t), x()], vec![]);
        }
        v.push((vec![g(0), Op::LSet(300), g(300), g(1), x()], vec![], true));
        v.push((vec![g(1), Op::LSet(301), g(0), g(301), x()], vec![], true));
        v.push((vec![g(0), Op::LSet(300), g(300), g(300), l(m.offset, m.mem), one(t), add(t), x()], vec![], true));
    }
    v
}
fn prog(op: u8, at: VT, f: (Vec<Op>, Vec<VT>, bool)) -> Prog {
    let t = mem_sig(op).0;
    let mut locals = vec![at, t];
    if f.2 { locals.resize(298, I32); locals.extend([at, t]); }
    Prog { params: vec![at, t], results: f.1, locals, body: f.0 }
}

pub fn run(c: &Check) {
    let (m, init) = small();
    let ops: Vec<u8> = (0x28..=0x3e).collect();
    let times = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  {s}", c.start.elapsed().as_secs_f64()) };
    let bes = backends::all();
    let q = c.quick();
    let sizes = [40u64, 37, 24, 0];
    // every form on the default backend, the plain forms on all
    let jobs: Vec<(u8, u32, usize)> = ops.iter().flat_map(|o| (0..4u32).flat_map(move |mm| (0..14usize).map(move |b| (*o, mm, b)))).collect();
    assert_eq!(bes.len(), 14);
    c.par(jobs.len(), |j, l| {
        let (op, mi, bi) = jobs[j];
        let mut b = Base::new(m.clone(), init.clone());
        b.config = bes[bi].1;
        let size = sizes[mi as usize];
        let (at, t) = (if mi == 1 { I64 } else { I32 }, mem_sig(op).0);
        let mut offs = vec![0u64, 1, 7, size, 0xffff_ffff, 0x8000_0000, 0xffff_fff8];
        if !q || bi == 0 { offs.extend([2, 3, 5, size.saturating_sub(8), size.saturating_sub(4), size.saturating_sub(1), size + 1, 0x7fff_ffff]) }
        if mi == 1 { offs.extend([1 << 32, u64::MAX, u64::MAX - 7, 1 << 63]) }
        offs.sort(); offs.dedup();
        let vals: Vec<u128> = match t { I32 => vec![0xf1e2d3c4, 0x7fffffff], I64 => vec![0xf1e2d3c4b5a69788, 0x7fffffffffffffff], F32 => vec![0x7fa12345, 0x40490fdb], _ => vec![0xfff4123456789abc, 0x400921fb54442d18] };
        let mut addrs: Vec<u64> = (0..=size + 1).collect();
        addrs.extend([0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0xffff_fffd, 0xffff_fffc, 0xffff_fff8, 0xffff_fff0, 0xffff_ffff - size]);
        if mi == 1 { addrs.extend([1 << 32, (1 << 32) + 3, u64::MAX, u64::MAX - 1, u64::MAX - 3, u64::MAX - 7, u64::MAX - 36, 1 << 63, (1 << 63) + 5]) }
        for off in offs {
            let ma = MA { align: 0, offset: off, mem: mi };
            let mut fs = forms(op, ma, at);
            if bi != 0 { fs.retain(|f| !f.2); if q { fs = fs.into_iter().step_by(3).collect() } }
            let progs: Vec<Prog> = fs.into_iter().map(|f| prog(op, at, f)).collect();
            let inputs: Vec<Vec<u128>> = addrs.iter().enumerate().flat_map(|(k, a)| { let vs = if q { vec![vals[k % 2]] } else { vals.clone() }; vs.into_iter().map(|v| vec![*a as u128, v]) }).collect();
            run_batch(c, l, &b, &progs, &inputs, if bi == 0 { &[Opts::ON, Opts::OFF] } else { &[Opts::ON] }, 1000);
        }
    });
    c.bound("every scalar access x four memories (40 B, 37 B 64-bit, 24 B, empty) x 14 backends x 7-19 static offsets x every address 0..=size+1 and boundary addresses up to 2^64-1; 25-42 operand forms on the default backend");
    times("byte-granular");
    standard_pages(c, &ops);
    times("64 KiB pages");
    large(c);
    times("beyond 4 GiB");
}

/// One standard page: the same boundaries with ordinary page sizes, and alignments.
fn standard_pages(c: &Check, ops: &[u8]) {
    let bes = backends::all();
    let which = [0usize, 7, 8, 6];
    let jobs: Vec<(u8, bool, usize)> = ops.iter().flat_map(|o| [false, true].into_iter().flat_map(move |w| which.into_iter().map(move |b| (*o, w, b)))).collect();
    c.par(jobs.len(), |j, l| {
        let (op, is64, bi) = jobs[j];
        let mut m = Module::default();
        for t in [I32, I64, F32, F64] { m.global(t, true, konst(t, 0)); }
        m.mem(Limits { min: 1, max: Some(2), is64, page_log2: None });
        let mut b = Base::new(m, vec![(0..65536u32).map(|i| (i * 31 + (i >> 8) * 7 + 1) as u8).collect()]);
        b.config = bes[bi].1;
        let (at, (t, w, st)) = (if is64 { I64 } else { I32 }, mem_sig(op));
        let mut progs = vec![];
        for off in [0u64, 1, 255, 65528, 65536, 0xffff_0000, 0xffff_ffff] { for align in 0..=w.trailing_zeros() as u8 {
            let x = Op::Mem { op, m: MA { align, offset: off, mem: 0 } };
            progs.push(prog(op, at, if st { (vec![Op::LGet(0), Op::LGet(1), x], vec![], false) } else { (vec![Op::LGet(0), x, Op::LTee(1)], vec![t], false) }));
        } }
        let mut addrs: Vec<u64> = vec![0, 1, 254, 255, 256, 32767, 32768, 65519, 65520, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0xffff_0000, 0xffff_ffff];
        addrs.extend(65527..=65536);
        if is64 { addrs.extend([1 << 32, u64::MAX, u64::MAX - 65535]) }
        let inputs: Vec<Vec<u128>> = addrs.iter().map(|a| vec![*a as u128, 0xf1e2d3c4b5a69788]).collect();
        run_batch(c, l, &b, &progs, &inputs, &[Opts::ON], 1000);
    });
    c.bound("every scalar access x a standard 64 KiB page (32- and 64-bit) x every alignment hint x 7 offsets x 26-29 addresses, 4 backends");
}

/// A 64-bit memory of more than 4 GiB on the sparse backend: bytes at addresses that differ only above bit 31.
fn large(c: &Check) {
    let pages: u64 = 65536 + 2;
    let size = pages << 16;
    let mut m = Module::default();
    m.mem(Limits { min: pages, max: Some(pages), is64: true, page_log2: None });
    for (i, op) in (0x28..=0x3eu8).enumerate() {
        for (k, off) in [0u64, 4, 1 << 32].into_iter().enumerate() {
            let (t, _, st) = mem_sig(op);
            let x = Op::Mem { op, m: MA { align: 0, offset: off, mem: 0 } };
            let f = if st { m.func(&[I64, t], &[], &[], vec![Op::LGet(0), Op::LGet(1), x]) } else { m.func(&[I64, t], &[t], &[], vec![Op::LGet(0), x]) };
            m.export(&format!("f{}", i * 3 + k), EK::Func, f);
        }
    }
    m.export("m", EK::Mem, 0);
    let bytes = encode(&m);
    let module = match parse(&bytes, Opts::ON) { Ok(m) => m, Err(e) => { c.violation("large|parse", format!("a module with a 64-bit memory of {pages} pages is not accepted: {e}"), hex(&bytes)); return } };
    let r = guard(|| -> Result<(), String> {
        let mut store = tinywasm::Store::new(tinywasm::Engine::new(tinywasm::engine::Config::new().with_memory_backend(tinywasm::engine::MemoryBackend::paged(65536))));
        let inst = tinywasm::ModuleInstance::instantiate(&mut store, &module, None).map_err(|e| format!("instantiate: {e}"))?;
        let mem = inst.memory("m").map_err(|e| e.to_string())?;
        let mut l = Local::default();
        let interesting: Vec<u64> = vec![0, 3, 65533, 0xffff_fff8, 0xffff_fffd, 0xffff_ffff, 1 << 32, (1 << 32) + 3, (1 << 32) + 65533, size - 8, size - 7, size - 4, size - 3, size - 2, size - 1, size, size + 1, 2 << 32, u64::MAX - 3, u64::MAX];
        for (i, op) in (0x28..=0x3eu8).enumerate() { for (k, off) in [0u64, 4, 1 << 32].into_iter().enumerate() { for a in &interesting {
            let (t, w, st) = mem_sig(op);
            let f = inst.func_untyped(&store, &format!("f{}", i * 3 + k)).map_err(|e| e.to_string())?;
            let ea = *a as u128 + off as u128;
            let inb = ea + w as u128 <= size as u128;
            let val: u128 = 0xf1e2d3c4b5a69788;
            if inb {
                let pat: Vec<u8> = (0..w + 2).map(|i| 0x91 ^ (i as u8 * 17) ^ (ea as u8)).collect();
                let lo = (ea as usize).saturating_sub(1);
                let n = pat.len().min(size as usize - lo);
                mem.copy_from_slice(&mut store, lo, &pat[..n]).map_err(|e| e.to_string())?;
                // the byte with the same low 32 bits must not be touched or read
                let alias = (ea as u64 ^ (1 << 32)) as usize;
                if alias + 16 < size as usize { mem.fill(&mut store, alias, 16, 0x55).map_err(|e| e.to_string())?; }
                let got = vals_out(None, f.call(&mut store, &args_wv(&[I64, t], &[*a as u128, val])));
                let now = mem.read_vec(&store, lo, n).map_err(|e| e.to_string())?;
                let mut want = pat[..n].to_vec();
                let d = ea as usize - lo;
                let wo = if st { for b in 0..w as usize { want[d + b] = (val >> (8 * b)) as u8 } Out::Vals(vec![]) } else {
                    let raw = pat[d..d + w as usize].iter().rev().fold(0u128, |v, b| v << 8 | *b as u128);
                    let s = if matches!(op, 0x2c | 0x2e | 0x30 | 0x32 | 0x34) { (((raw as i128) << (128 - 8 * w)) >> (128 - 8 * w)) as u128 } else { raw };
                    Out::Vals(vec![if t == I32 || t == F32 { s as u32 as u128 } else { s as u64 as u128 }])
                };
                if got != wo || now != want { return Err(format!("access {op:#x} at {ea:#x}: {got:x?} bytes {now:x?}, expected {wo:x?} {want:x?}")); }
                if alias + 16 < size as usize && mem.read_vec(&store, alias, 16).map_err(|e| e.to_string())?.iter().any(|b| *b != 0x55) { return Err(format!("access {op:#x} at {ea:#x} touched {alias:#x}")); }
            } else {
                let got = vals_out(None, f.call(&mut store, &args_wv(&[I64, t], &[*a as u128, val])));
                if got != Out::Trap(Trap::MemOob) { return Err(format!("access {op:#x} at {ea:#x} of {size:#x}: {got:x?}")); }
            }
            l.traces += 1; l.transitions += 3; l.states.insert(hash(&(op, off, *a)));
        } } }
        c.merge(l);
        Ok(())
    });
    match r { Ok(Ok(())) => {} Ok(Err(e)) => c.violation("large|access", e, hex(&bytes)), Err(p) => c.violation("large|panic", format!("panic: {p}"), hex(&bytes)) }
    c.bound("a 64-bit memory of 4 GiB + 128 KiB on the sparse backend: every scalar access x 3 offsets x 20 addresses around 2^32 and the end");
}
