//! P15: every memory backend is one flat growable array.
//! (a) every bounded sequence of operations of the backend trait, on every backend, against a `Vec<u8>`;
//! (b) long transfers around every internal buffer and chunk size, from every pattern of touched chunks;
//! (c) histories mixing guest instructions and the host memory interface on every backend.
use crate::backends::{self, Short};
use crate::oracle::RMem;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use crate::world::*;
use std::io::{Read, Seek, SeekFrom, Write};
use tinywasm::engine::MemoryBackend;
use tinywasm::{LazyLinearMemory, LinearMemory, PagedMemory, Trap, VecMemory};
use VT::{F32, F64, I32, I64, V128};

type Mem = Box<dyn LinearMemory>;
type Make = (&'static str, fn(usize) -> Mem);
fn ty(n: usize) -> tinywasm::types::MemoryType { mem_ty(&Limits { min: n as u64, max: None, is64: true, page_log2: Some(0) }) }
const MAKE: [Make; 16] = [
    ("vec", |n| Box::new(VecMemory::try_new(n).unwrap())),
    ("paged(1)", |n| Box::new(PagedMemory::try_new(n, 1).unwrap())),
    ("paged(2)", |n| Box::new(PagedMemory::try_new(n, 2).unwrap())),
    ("paged(4)", |n| Box::new(PagedMemory::try_new(n, 4).unwrap())),
    ("paged(8)", |n| Box::new(PagedMemory::try_new(n, 8).unwrap())),
    ("lazy vec", |n| Box::new(LazyLinearMemory::try_new(ty(n), MemoryBackend::vec()).unwrap())),
    ("lazy paged(4)", |n| Box::new(LazyLinearMemory::try_new(ty(n), MemoryBackend::paged(4)).unwrap())),
    ("user short(1)", |n| Box::new(Short::<1>(vec![0; n]))),
    ("user short(3)", |n| Box::new(Short::<3>(vec![0; n]))),
    ("lazy user short(3)", |n| Box::new(LazyLinearMemory::try_new(ty(n), MemoryBackend::custom(move |_| Ok(Short::<3>(vec![0; n])))).unwrap())),
    ("lazy lazy paged(2)", |n| Box::new(LazyLinearMemory::try_new(ty(n), MemoryBackend::custom(|t| LazyLinearMemory::try_new(t, MemoryBackend::paged(2)))).unwrap())),
    // chunks near the internal buffer sizes, for the long transfers
    ("paged(128)", |n| Box::new(PagedMemory::try_new(n, 128).unwrap())),
    ("paged(256)", |n| Box::new(PagedMemory::try_new(n, 256).unwrap())),
    ("paged(512)", |n| Box::new(PagedMemory::try_new(n, 512).unwrap())),
    ("paged(1024)", |n| Box::new(PagedMemory::try_new(n, 1024).unwrap())),
    ("paged(4096)", |n| Box::new(PagedMemory::try_new(n, 4096).unwrap())),
];
const SMALL: usize = 11;

#[derive(Clone, Copy, Debug, PartialEq)]
enum A { WriteAll(usize, usize), Write(usize, usize), Fixed(usize, usize), Fill(usize, usize, u8), Copy(usize, usize, usize), Grow(isize) }

/// The bytes the `k`-th operation of a history writes.
fn data(k: usize, n: usize) -> Vec<u8> { (0..n).map(|i| (0x20 * (k + 1) + i + 1) as u8 | 1).collect() }
fn range(m: &[u8], a: usize, n: usize) -> Option<std::ops::Range<usize>> { a.checked_add(n).filter(|e| *e <= m.len()).map(|e| a..e) }
fn oob(a: usize, n: usize, m: &[u8]) -> Result<(), Trap> { Err(Trap::MemoryOutOfBounds { offset: a, len: n, max: m.len() }) }

/// One operation on both sides.
fn act(mem: &mut Mem, m: &mut Vec<u8>, k: usize, a: A) -> Result<(), String> {
    fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{what} gave {got:?}, expected {want:?}")) } }
    match a {
        A::WriteAll(p, n) => {
            let d = data(k, n);
            let want = range(m, p, n).map(|r| m[r].copy_from_slice(&d));
            eq("write_all", mem.write_all(p, &d), want)
        }
        A::Write(p, n) => {
            // a short write is allowed, but it must make progress and stay inside
            let d = data(k, n);
            let most = m.len().saturating_sub(p).min(n);
            let w = mem.write(p, &d);
            if w > most || (w == 0) != (most == 0) { return Err(format!("write of {n} bytes at {p} wrote {w}, {most} possible")); }
            if w > 0 { m[p..p + w].copy_from_slice(&d[..w]) }
            Ok(())
        }
        A::Fixed(p, n) => {
            let d = data(k, n);
            let want = match range(m, p, n) { Some(r) => { m[r].copy_from_slice(&d); Ok(()) } None => oob(p, n, m) };
            eq("fixed write", match n { 1 => mem.write_8(p, &d), 2 => mem.write_16(p, &d), 4 => mem.write_32(p, &d), 8 => mem.write_64(p, &d), _ => mem.write_128(p, &d) }, want)
        }
        A::Fill(p, n, v) => { let want = range(m, p, n).map(|r| m[r].fill(v)); eq("fill", mem.fill(p, n, v), want) }
        A::Copy(d, s, n) => {
            let want = match (range(m, d, n), range(m, s, n)) { (Some(_), Some(r)) => { m.copy_within(r, d); Some(()) } _ => None };
            eq("copy_within", mem.copy_within(d, s, n), want)
        }
        A::Grow(by) => {
            if by < 0 { return Ok(()) }
            let n = m.len() + by as usize;
            m.resize(n, 0);
            eq("grow_to", mem.grow_to(n), Ok(()))
        }
    }
}
fn shallow(mem: &Mem, m: &[u8]) -> Result<(), String> {
    if mem.len() != m.len() || mem.is_empty() != m.is_empty() { return Err(format!("length {} (empty: {}), expected {}", mem.len(), mem.is_empty(), m.len())); }
    let v = mem.read_vec(0, m.len());
    if v.as_deref() != Some(m) { return Err(format!("content {v:x?}, expected {m:x?}")); }
    Ok(())
}
/// Every way of reading at every address.
fn deep(mem: &Mem, m: &[u8]) -> Result<(), String> {
    let mut addrs: Vec<usize> = (0..=m.len() + 1).collect();
    addrs.extend([usize::MAX, usize::MAX - 1, usize::MAX - 15]);
    for a in addrs {
        for n in [0, 1, 2, 3, 5, m.len()] {
            let want = range(m, a, n).map(|r| m[r].to_vec());
            if mem.read_vec(a, n) != want { return Err(format!("read_vec({a}, {n}) gave {:x?}, expected {want:x?}", mem.read_vec(a, n))); }
            let mut b = vec![0x55; n];
            if mem.read_exact(a, &mut b).is_some() != want.is_some() || want.is_some_and(|w| w != b) { return Err(format!("read_exact({a}, {n}) gave {b:x?}")); }
            let mut b = vec![0x55; n];
            let most = m.len().saturating_sub(a).min(n);
            let r = mem.read(a, &mut b);
            if r > most || (r == 0) != (most == 0) { return Err(format!("read({a}, {n}) read {r}, {most} possible")); }
            if r > 0 && b[..r] != m[a..a + r] || b[r..].iter().any(|x| *x != 0x55) { return Err(format!("read({a}, {n}) gave {b:x?} of {r}")); }
        }
        macro_rules! fixed { ($($f:ident $n:literal),*) => { $( { let want = match range(m, a, $n) { Some(r) => Ok(<[u8; $n]>::try_from(&m[r]).unwrap()), None => Err(oob(a, $n, m).unwrap_err()) }; let got = mem.$f(a); if got != want { return Err(format!("{}({a}) gave {got:?}, expected {want:?}", stringify!($f))); } } )* } }
        fixed!(read_8 1, read_16 2, read_32 4, read_64 8, read_128 16);
    }
    Ok(())
}

fn alphabet(level: usize) -> Vec<A> {
    let mut v = vec![];
    match level {
        // everything, for pairs
        0 => {
            let at: Vec<usize> = (0..=9).chain([12, usize::MAX, usize::MAX - 1]).collect();
            let ns = [0, 1, 2, 3, 4, 5, 9];
            for a in &at { for n in ns { v.push(A::WriteAll(*a, n)); for x in [0, 7] { v.push(A::Fill(*a, n, x)) } } for n in [1, 3, 9] { v.push(A::Write(*a, n)) } for n in [1, 2, 4, 8, 16] { v.push(A::Fixed(*a, n)) } }
            for d in [0, 1, 2, 3, 4, 5, 7, usize::MAX] { for s in [0, 1, 2, 3, 4, 6, 8, usize::MAX] { for n in [0, 1, 2, 4, 5, 9] { v.push(A::Copy(d, s, n)) } } }
            for g in [0, 1, 2, 3, 4, 8] { v.push(A::Grow(g)) }
        }
        1 => {
            for (a, n) in [(0, 1), (0, 4), (3, 2), (4, 4), (2, 7), (5, 3), (8, 1)] { v.push(A::WriteAll(a, n)) }
            for (a, n) in [(0, 9), (3, 4), (8, 4)] { v.push(A::Write(a, n)) }
            for (a, n) in [(0, 1), (3, 1), (3, 2), (2, 4), (4, 4), (1, 8)] { v.push(A::Fixed(a, n)) }
            for (a, n) in [(0, 4), (0, 5), (3, 3), (4, 4), (4, 1), (1, 8), (8, 4)] { for x in [0, 7] { v.push(A::Fill(a, n, x)) } }
            for (d, s, n) in [(0, 1, 4), (1, 0, 4), (0, 4, 4), (4, 0, 4), (3, 4, 5), (4, 3, 5), (0, 2, 7), (2, 0, 7), (5, 5, 3), (6, 1, 2), (1, 6, 2), (8, 0, 4), (0, 8, 4)] { v.push(A::Copy(d, s, n)) }
            for g in [0, 1, 3, 4] { v.push(A::Grow(g)) }
        }
        _ => {
            for (a, n) in [(0, 4), (3, 3), (6, 4)] { v.push(A::WriteAll(a, n)) }
            v.extend([A::Fixed(3, 2), A::Fixed(7, 1), A::Write(2, 9)]);
            for (a, n) in [(0, 4), (2, 4), (4, 5)] { v.push(A::Fill(a, n, 0)) }
            v.push(A::Fill(3, 6, 7));
            for (d, s, n) in [(0, 3, 5), (3, 0, 5), (4, 0, 4), (1, 6, 3)] { v.push(A::Copy(d, s, n)) }
            for g in [1, 3, 4] { v.push(A::Grow(g)) }
        }
    }
    v
}

pub fn run(c: &Check) {
    let times = |s: &str| if std::env::var_os("MC_TIMES").is_some() { eprintln!("{:>6.1}s  {s}", c.start.elapsed().as_secs_f64()) };
    for (level, depth) in c.pick([(0, 2), (1, 3), (2, 4)], [(0, 2), (1, 4), (2, 6)]) {
        let al = alphabet(level);
        let lens: &[usize] = if level == 0 && !c.quick() { &[0, 1, 4, 5, 8, 9] } else { &[0, 5, 8] };
        // quick: pairs of everything with the next smaller alphabet, in both orders
        let few: Vec<bool> = al.iter().map(|a| level > 0 || !c.quick() || alphabet(1).contains(a)).collect();
        let jobs = SMALL * lens.len() * al.len();
        c.par(jobs, |j, l| {
            let (mk, rest) = (j % SMALL, j / SMALL);
            let (len, first) = (lens[rest % lens.len()], rest / lens.len());
            let mut seen = std::collections::HashSet::new();
            let mut seq = vec![0; depth];
            seq[0] = first;
            loop {
                if c.stopped() { return }
                let mut bad = None;
                let mut at = 0;
                if level > 0 || few[seq[0]] || few[seq[1]] {
                let r = guard(|| {
                    let (mut mem, mut m) = (MAKE[mk].1(len), vec![0u8; len]);
                    for (k, a) in seq.iter().enumerate() {
                        at = k;
                        if let Err(e) = act(&mut mem, &mut m, k, al[*a]).and_then(|()| shallow(&mem, &m)) { bad = Some(e); return }
                    }
                    l.transitions += depth as u64;
                    l.states.insert(hash(&(mk, &m)));
                    if seen.insert(hash(&(mk, &m, seq[depth - 1]))) { if let Err(e) = deep(&mem, &m) { bad = Some(e) } }
                });
                l.traces += 1;
                if let Err(p) = r { bad = Some(format!("panic: {p}")) }
                if let Some(e) = bad {
                    let s = format!("{} of {len} bytes: {:?}", MAKE[mk].0, seq[..=at].iter().map(|a| al[*a]).collect::<Vec<_>>());
                    c.violation(s.clone(), format!("{e}\nafter {s}"), s);
                }
                }
                let mut k = depth;
                while k > 1 { k -= 1; seq[k] += 1; if seq[k] < al.len() { break } seq[k] = 0; if k == 1 { k = 0 } }
                if k <= 0 || depth == 1 { break }
            }
        });
        c.bound(format!("backend trait: every sequence of {depth} of {} operations{} from {} initial lengths {lens:?} on {SMALL} backends; after every operation length and content, at the end every reading method at every address", al.len(), if few.iter().all(|x| *x) { "" } else { " (one of them from a smaller alphabet)" }, lens.len()));
        times("trait histories");
    }
    long(c);
    times("long transfers");
    mixed(c);
    times("histories");
}

/// (b)
fn long(c: &Check) {
    let n = 4096 * 2 + 300;
    let lens = [1, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8192];
    let at: Vec<usize> = vec![0, 1, 128, 255, 256, 257, 512, 1023, 1024, 1025, 4095, 4096, n - 4096, n - 1024, n - 1];
    // which chunks hold data before: all, none, a stripe, the first part, the last part
    let pat = |k: usize| -> Vec<(usize, usize)> { match k { 0 => vec![(0, n)], 1 => vec![], 2 => (0..n / 700).step_by(2).map(|i| (i * 700, 300)).collect(), 3 => vec![(0, 1000)], _ => vec![(n - 1000, 1000)] } };
    c.par(MAKE.len() * 5, |j, l| {
        let (mk, k) = (j % MAKE.len(), j / MAKE.len());
        let mut model = vec![0u8; n];
        for (p, len) in pat(k) { for i in p..p + len { model[i] = (i * 31 + (i >> 8) * 7) as u8 | 1 } }
        let fresh = || { let mut m = MAKE[mk].1(n); for (p, len) in pat(k) { m.write_all(p, &model[p..p + len]).expect("in range"); } m };
        let mut ops = vec![];
        for d in &at { for s in &at { for x in lens { ops.push(A::Copy(*d, *s, x)) } } for x in lens { ops.extend([A::Fill(*d, x, 0), A::Fill(*d, x, 9), A::WriteAll(*d, x), A::Write(*d, x)]) } }
        for d in [1usize, 2, 127, 128, 255, 256, 257, 1023, 1024] { for s in [1000usize, 1024, 2048] { for x in lens { ops.extend([A::Copy(s + d, s, x), A::Copy(s - d.min(s), s, x)]) } } }
        if c.quick() && mk > 4 && mk < SMALL { ops = ops.into_iter().step_by(3).collect() }
        for a in ops {
            if c.stopped() { return }
            l.traces += 1;
            l.transitions += 1;
            let mut m = model.clone();
            let r = guard(|| { let mut mem = fresh(); act(&mut mem, &mut m, 3, a)?; shallow(&mem, &m).map_err(|e| format!("{:.200}", e)) });
            l.states.insert(hash(&m));
            if let Err(e) | Ok(Err(e)) = r { let s = format!("{} of {n} bytes, pattern {k}: {a:?}", MAKE[mk].0); c.violation(s.clone(), format!("{e}\n{s}"), s); }
        }
    });
    c.bound(format!("long transfers: copy_within, fill, write_all and write of lengths {lens:?} between {} positions of {n} bytes and at distances around 128, 256 and 1024, from 5 patterns of touched chunks, {} backends", at.len(), MAKE.len()));
}

/// (c)
fn guest(page: Option<u32>) -> Module {
    let mut m = Module::default();
    let (n, max) = if page == Some(0) { (6, 12) } else { (1, 2) };
    m.mem(Limits { min: n, max: Some(max), is64: false, page_log2: page });
    m.mem(Limits { min: 5, max: Some(64), is64: true, page_log2: Some(0) });
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![0xd1, 0xd2, 0xd3, 0xd4] });
    let ma = |o| MA { align: 0, offset: o, mem: 0 };
    let f = |m: &mut Module, name: &str, ps: &[VT], rs: &[VT], b: Vec<Op>| { let f = m.func(ps, rs, &[], b); m.export(name, EK::Func, f) };
    for (i, (op, t)) in [(0x3a, I32), (0x3b, I32), (0x36, I32), (0x37, I64), (0x38, F32), (0x39, F64)].iter().enumerate() { f(&mut m, &format!("s{i}"), &[I32, *t], &[], vec![Op::LGet(0), Op::LGet(1), Op::Mem { op: *op, m: ma(0) }]) }
    f(&mut m, "sv", &[I32, V128], &[], vec![Op::LGet(0), Op::LGet(1), Op::VMem { sub: 11, m: ma(0), lane: 0 }]);
    for (i, (op, t)) in [(0x2d, I32), (0x2e, I32), (0x28, I32), (0x29, I64), (0x2a, F32)].iter().enumerate() { f(&mut m, &format!("l{i}"), &[I32], &[*t], vec![Op::LGet(0), Op::Mem { op: *op, m: ma(0) }]) }
    f(&mut m, "lv", &[I32], &[V128], vec![Op::LGet(0), Op::VMem { sub: 0, m: ma(0), lane: 0 }]);
    f(&mut m, "fill", &[I32, I32, I32], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemFill(0)]);
    f(&mut m, "copy", &[I32, I32, I32], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemCopy { dst: 0, src: 0 }]);
    f(&mut m, "from1", &[I32, I64, I32], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemCopy { dst: 0, src: 1 }]);
    f(&mut m, "to1", &[I64, I32, I32], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemCopy { dst: 1, src: 0 }]);
    f(&mut m, "init", &[I32, I32, I32], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemInit { data: 0, mem: 0 }]);
    f(&mut m, "grow", &[I32], &[I32], vec![Op::LGet(0), Op::MemGrow(0)]);
    f(&mut m, "size", &[], &[I32], vec![Op::MemSize(0)]);
    m.export("m0", EK::Mem, 0);
    m.export("m1", EK::Mem, 1);
    m
}
#[derive(Clone, Debug)]
enum G { Call(&'static str, Vec<u128>), HWrite(usize, usize), HFill(usize, usize, u8), HCopy(usize, usize, usize), HGrow(i64), HText(usize), Cursor(usize, usize) }
fn guest_acts(small: bool) -> Vec<G> {
    let mut v = vec![];
    let n: u128 = if small { 6 } else { 65536 };
    let c = n - 2;
    for (i, w) in [1u128, 2, 4, 8].iter().enumerate() { for a in [0, c, n + 1 - w.min(&n)] { v.push(G::Call(["s0", "s1", "s2", "s3"][i], vec![a, 0xf1f2f3f4f5f6f7f8 & if i < 3 { 0xffff_ffff } else { u64::MAX as u128 }])) } }
    v.push(G::Call("sv", vec![if small { 0 } else { n - 9 }, 0xa1a2a3a4a5a6a7a8a9aaabacadaeaf]));
    for a in [c, n - 1] { v.push(G::Call("l3", vec![a])) }
    v.push(G::Call("l1", vec![c + 1]));
    v.push(G::Call("lv", vec![if small { 0 } else { n - 16 }]));
    v.push(G::Call("fill", vec![1, 0, 4]));
    v.push(G::Call("fill", vec![c, 0x77, 6]));
    v.push(G::Call("copy", vec![1, 0, 5]));
    v.push(G::Call("copy", vec![0, 2, 4]));
    v.push(G::Call("copy", vec![c, 0, 6]));
    v.push(G::Call("from1", vec![3, 1, 3]));
    v.push(G::Call("to1", vec![0, c, 2]));
    v.push(G::Call("init", vec![c - 1, 0, 4]));
    for d in [0, 1, 3] { v.push(G::Call("grow", vec![d])) }
    v.push(G::HWrite(c as usize, 5));
    v.push(G::HWrite(0, 6));
    v.push(G::HFill(2, 4, 0));
    v.push(G::HFill(c as usize, 1, 0x66));
    v.push(G::HCopy(3, 1, 3));
    v.push(G::HCopy(0, c as usize, 6));
    for d in [1, 2, -1] { v.push(G::HGrow(d)) }
    v.push(G::HText(c as usize - 1));
    v.push(G::Cursor(c as usize - 2, 6));
    v
}
fn model(w: &mut World) -> &mut RMem { let a = w.mems[0].0; &mut w.rs.mems[a] }
fn gact(w: &mut World, a: &G) -> Result<u64, String> {
    let h = w.mems[0].1;
    let same = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{what} gave {got}, expected {want}")) };
    let show = |r: tinywasm::Result<()>| match r { Ok(()) => "ok".into(), Err(tinywasm::Error::Trap(t)) => format!("{:?}", trap_of(&t)), Err(e) => e.to_string() };
    let want = |b: bool| (if b { "ok" } else { "MemOob" }).to_string();
    match a {
        G::Call(f, args) => { w.call_name(0, f, args)?; }
        G::HWrite(p, n) => { let d = data(1, *n); let got = show(h.copy_from_slice(&mut w.store, *p, &d)); let m = model(w); let ok = range(&m.data, *p, *n).map(|r| m.data[r].copy_from_slice(&d)); same("copy_from_slice", got, want(ok.is_some()))? }
        G::HFill(p, n, v) => { let got = show(h.fill(&mut w.store, *p, *n, *v)); let m = model(w); let ok = range(&m.data, *p, *n).map(|r| m.data[r].fill(*v)); same("fill", got, want(ok.is_some()))? }
        G::HCopy(s, d, n) => { let got = show(h.copy_within(&mut w.store, *s, *d, *n)); let m = model(w); let ok = match (range(&m.data, *s, *n), range(&m.data, *d, *n)) { (Some(r), Some(_)) => { m.data.copy_within(r, *d); true } _ => false }; same("copy_within", got, want(ok))? }
        G::HGrow(d) => { let got = h.grow(&mut w.store, *d).map_err(|e| e.to_string()); let m = model(w); let want = if *d < 0 { None } else { let old = m.pages as i64; m.grow(*d as u64).map(|_| old) }; same("grow", format!("{got:?}"), format!("{:?}", Ok::<_, String>(want)))? }
        G::HText(p) => {
            let got = show(h.write_cstring_bytes(&mut w.store, *p, "hé"));
            let m = model(w);
            let ok = range(&m.data, *p, 4).map(|r| m.data[r].copy_from_slice("hé\0".as_bytes()));
            same("write_cstring_bytes", got, want(ok.is_some()))?;
            if range(&model(w).data, *p, 4).is_some() {
                same("read_string", format!("{:?}", h.read_string(&w.store, *p, 3).ok()), format!("{:?}", Some("hé")))?;
                same("read_cstring_until_null", format!("{:?}", h.read_cstring_until_null(&w.store, *p, 4).ok()), format!("{:?}", Some(std::ffi::CString::new("hé").unwrap())))?;
            }
        }
        G::Cursor(p, n) => {
            let d = data(2, *n);
            let mut cur = h.cursor(&mut w.store).map_err(|e| e.to_string())?;
            cur.seek(SeekFrom::Start(*p as u64)).map_err(|e| e.to_string())?;
            let r = cur.write_all(&d);
            let pos = cur.position() as usize;
            let mut back = vec![];
            cur.set_position(*p as u64);
            let n2 = cur.read_to_end(&mut back).map_err(|e| e.to_string())?;
            let m = model(w);
            let fits = m.data.len().saturating_sub(*p).min(*n);
            if r.is_ok() != (fits == *n) { return Err(format!("cursor write of {n} at {p}: {r:?}")); }
            if pos != p + fits { return Err(format!("cursor at {pos}, expected {}", p + fits)); }
            if fits > 0 { m.data[*p..p + fits].copy_from_slice(&d[..fits]) }
            let exp = m.data.get(*p..).unwrap_or(&[]);
            if back != exp || n2 != exp.len() { return Err("cursor read back different bytes".into()); }
        }
    }
    w.check()?;
    Ok(w.state_hash())
}
fn mixed(c: &Check) {
    let bes = backends::all();
    for (page, depth) in [(Some(0), c.pick(3, 4)), (None, c.pick(2, 3))] {
        let al = guest_acts(page == Some(0));
        let m = guest(page);
        let which: Vec<usize> = (0..bes.len()).collect();
        c.par(which.len() * al.len(), |j, l| {
            let (b, first) = (which[j % which.len()], j / which.len());
            let d = match Def::new(&m, if j % 2 == 0 { Opts::ON } else { Opts::OFF }) { Ok(d) => d, Err(e) => { c.violation("parse", e, ""); return } };
            let fresh = || { let mut w = World::new(bes[b].1()); w.instantiate(&d, &[], true).expect("instantiates").expect("instantiates"); w };
            let show = |a: usize| format!("{:x?}", al[a]);
            histories(c, l, &format!("{} page {page:?}", bes[b].0), depth, al.len(), Some(first), &fresh, &|w, a| gact(w, &al[a]), &show);
        });
        c.bound(format!("guest and host: every history of {depth} of {} actions (loads, stores, bulk instructions, copies from and to a second memory, growth; host writes, fills, copies, growth, strings, cursor) on {} backends, page size {}", al.len(), bes.len(), if page.is_some() { "1" } else { "65536" }));
    }
}
