//! P25: a module means the same however its bytes are delivered to the parser.
//! Reference: the slice parser on one worker thread. Every other delivery - every two- and three-way split of the
//! stream, every fixed chunk size, interrupted reads at every point, files, every worker count - must give an equal
//! module where the reference accepts, and an error where it rejects. A stream that fails is never accepted.
use crate::batch::{end_watch, watch, watch_tick};
use crate::corpus::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use std::io::{Error, ErrorKind, Read};
use tinywasm::Module as TModule;
use VT::{F64, I32, I64};

/// A stream of `bytes` that ends every read at the next cut, and may fail.
struct Cuts<'a> { b: &'a [u8], p: usize, cuts: &'a [usize], step: usize, interrupt: bool, told: bool, fail: Option<(usize, ErrorKind)> }
impl<'a> Cuts<'a> {
    fn at(b: &'a [u8], cuts: &'a [usize]) -> Self { Cuts { b, p: 0, cuts, step: usize::MAX, interrupt: false, told: false, fail: None } }
    fn step(b: &'a [u8], step: usize) -> Self { Cuts { step, ..Cuts::at(b, &[]) } }
}
impl Read for Cuts<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if let Some((at, k)) = self.fail && self.p >= at { return Err(Error::new(k, "broken stream")); }
        if self.interrupt && !std::mem::replace(&mut self.told, true) { return Err(Error::new(ErrorKind::Interrupted, "again")); }
        self.told = false;
        let next = self.cuts.iter().copied().find(|c| *c > self.p).unwrap_or(self.b.len());
        let next = self.fail.map_or(next, |(at, _)| next.min(at)).min(self.b.len());
        let n = out.len().min(next - self.p).min(self.step);
        out[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}
#[derive(Clone)]
enum Got { Ok(Box<TModule>, Vec<u8>), Err(String), Panic(String) }
impl Got {
    fn show(&self) -> String { match self { Got::Ok(_, b) => format!("accepted ({} bytes archived, hash {:x})", b.len(), hash(b)), Got::Err(e) => format!("rejected: {e}"), Got::Panic(p) => format!("panicked: {p}") } }
}
fn got(f: impl FnOnce() -> Result<TModule, tinywasm::parser::ParseError>) -> Got {
    watch_tick();
    let r = guard(f);
    end_watch();
    match r {
        Ok(Ok(m)) => match guard(|| m.serialize_twasm()) { Ok(Ok(b)) => Got::Ok(Box::new(m), b), Ok(Err(e)) => Got::Panic(format!("cannot be archived: {e}")), Err(p) => Got::Panic(p) },
        Ok(Err(e)) => Got::Err(e.to_string()),
        Err(p) => Got::Panic(p),
    }
}
fn same(want: &Got, g: &Got) -> bool {
    match (want, g) {
        // (NaN constants make a module different from itself)
        (Got::Ok(a, x), Got::Ok(b, y)) => x == y && (a == b || a != a),
        (Got::Err(_), Got::Err(_)) => true,
        _ => false,
    }
}
struct Case<'a> { c: &'a Check, name: String, bytes: &'a [u8], o: Opts, want: Got }
impl<'a> Case<'a> {
    fn new(c: &'a Check, l: &mut Local, name: String, bytes: &'a [u8], o: Opts) -> Self {
        watch(|| format!("parsing {name}\n{}", hex(&bytes[..bytes.len().min(2000)])));
        let want = got(|| Opts { threads: 1, ..o }.parser().parse_module_bytes(bytes));
        l.states.insert(match &want { Got::Ok(_, b) => hash(b), x => hash(&(bytes, x.show())) });
        l.add(if matches!(want, Got::Ok(..)) { "accepted_inputs" } else { "rejected_inputs" }, 1);
        let k = Case { c, name, bytes, o, want };
        if let Got::Panic(_) = k.want { k.fail("slice, 1 thread", &k.want) }
        k
    }
    fn fail(&self, how: &str, g: &Got) {
        self.c.violation(format!("{}/{how}", self.name), format!("{}, options {:?}: parsed from a slice on one thread it is {}, delivered as {how} it is {}", self.name, self.o, self.want.show(), g.show()), hex(&self.bytes[..self.bytes.len().min(4000)]));
    }
    fn expect(&self, ok: bool) { if matches!(self.want, Got::Ok(..)) != ok { self.fail(if ok { "a valid module" } else { "an invalid module" }, &self.want) } }
    fn judge(&self, l: &mut Local, how: impl FnOnce() -> String, g: Got) {
        l.transitions += 1; l.traces += 1;
        if !same(&self.want, &g) { self.fail(&how(), &g) }
    }
    fn stream(&self, l: &mut Local, threads: usize, s: Cuts, how: impl FnOnce() -> String) {
        let o = Opts { threads, ..self.o };
        let g = got(|| o.parser().parse_module_stream(s));
        self.judge(l, || format!("{} on {threads} threads", how()), g)
    }
    fn slice(&self, l: &mut Local, threads: usize) {
        let o = Opts { threads, ..self.o };
        self.judge(l, || format!("slice on {threads} threads"), got(|| o.parser().parse_module_bytes(self.bytes)))
    }
    fn file(&self, l: &mut Local, threads: usize, dir: &std::path::Path) {
        let p = dir.join(format!("{:?}.wasm", std::thread::current().id()));
        std::fs::write(&p, self.bytes).expect("scratch file");
        let o = Opts { threads, ..self.o };
        self.judge(l, || format!("file on {threads} threads"), got(|| o.parser().parse_module_file(&p)));
        let _ = std::fs::remove_file(&p);
    }
    /// A stream that breaks before its end must not be taken for the module.
    fn broken(&self, l: &mut Local, at: usize, kind: ErrorKind, threads: usize, step: usize) {
        let o = Opts { threads, ..self.o };
        let s = Cuts { fail: Some((at, kind)), ..Cuts::step(self.bytes, step) };
        l.transitions += 1; l.traces += 1;
        let g = got(|| o.parser().parse_module_stream(s));
        if !matches!(g, Got::Err(_)) { self.fail(&format!("a stream that fails with {kind:?} at byte {at} on {threads} threads"), &g) }
    }
}

const NOVAL: Opts = Opts { rewrite: true, memopt: false, validate: false, threads: 1 };
const NOMEM: Opts = Opts { rewrite: false, memopt: false, validate: true, threads: 1 };

/// Damaged forms of a module: truncations, changed bytes, section surgery.
fn damaged(b: &[u8], every_byte: bool) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for n in 0..b.len() { v.push((format!("first {n} bytes"), b[..n].to_vec())) }
    for (i, x) in b.iter().enumerate() {
        let mut vals: Vec<u8> = if every_byte { (0..=255).collect() } else { vec![0, 1, 0x0b, 0x7f, 0x80, 0xff, x.wrapping_add(1), x.wrapping_sub(1), x ^ 0x80] };
        vals.sort(); vals.dedup();
        for y in vals { if y != *x { let mut d = b.to_vec(); d[i] = y; v.push((format!("byte {i} = {y:#x}"), d)) } }
    }
    for n in 1..=9 { for y in [0, 1, 10, 0xff] { let mut d = b.to_vec(); d.extend(vec![y; n]); v.push((format!("{n} extra bytes {y:#x}"), d)) } }
    let s = sections(b);
    for i in 0..s.len() {
        let (mut a, mut d, mut e) = (s.clone(), s.clone(), s.clone());
        a.remove(i); v.push((format!("section {i} missing"), join(&a)));
        d.insert(i, s[i].clone()); v.push((format!("section {i} twice"), join(&d)));
        e.push(s[i].clone()); v.push((format!("section {i} again at the end"), join(&e)));
        for j in 0..i { let mut w = s.clone(); w.swap(i, j); v.push((format!("sections {i} and {j} swapped"), join(&w))) }
        let mut t = s.clone(); t[i].1.push(0); v.push((format!("section {i} one byte longer"), join(&t)));
        let mut t = s.clone(); t[i].1.pop(); v.push((format!("section {i} one byte shorter"), join(&t)));
        let mut t = s.clone(); t.insert(i, (14, vec![1, 2])); v.push((format!("unknown section before {i}"), join(&t)));
    }
    v
}

/// A module whose code section has the given body sizes; functions differ in content, locals, side data and memory use.
fn sized(sizes: &[usize], seed: usize) -> Vec<u8> {
    let mut m = Module::default();
    let h = m.import_func("e", "h", &[I32], &[I32]);
    let mem = m.mem(Limits::new(1, Some(2)));
    let n = sizes.len();
    for i in 0..n {
        let me = h + 1 + i as u32;
        let k = i + seed;
        let head: (&[VT], Vec<Op>) = match k % 7 {
            0 => (&[], vec![Op::Block(BT::Empty), Op::Block(BT::Empty), Op::LGet(0), Op::BrTable(vec![1, 0, (i % 2) as u32].into(), 1), Op::End, Op::End]),
            1 => (&[VT::V128], vec![Op::VConst((i as u128) << 64 | 77), Op::LSet(1)]),
            2 => (&[I64, F64], vec![Op::LGet(0), Op::Call(me), Op::Drop]),
            3 if n < 40 || i == n - 1 => (&[], vec![Op::LGet(0), Op::Mem { op: 0x28, m: MA { align: 0, offset: i as u64, mem } }, Op::Drop]),
            4 => (&[], vec![Op::LGet(0), Op::Call(h + 1 + ((i + 1) % n) as u32), Op::Drop]),
            5 => (&[F64], vec![Op::F64C(0x4059_0000_0000_0000 + i as u64), Op::LSet(1)]),
            _ => (&[I32], vec![Op::LGet(0), Op::LSet(1)]),
        };
        let mut body = head.1;
        let mut f = Func { ty: 0, locals: head.0.to_vec(), body: vec![] };
        let filler = |j: usize| [Op::LGet(0), Op::I32C(((i * 37 + j * 11) % 60) as i32), num(if j % 2 == 0 { "i32.add" } else { "i32.xor" }), Op::LSet(0)];
        f.body = [body.clone(), vec![Op::LGet(0)]].concat();
        let mut len = encode_body(&f).len();
        let mut j = 0;
        while len + 7 <= sizes[i] { body.extend(filler(j)); len += 7; j += 1 }
        while len < sizes[i] { body.push(Op::Nop); len += 1 }
        body.push(Op::LGet(0));
        m.func(&[I32], &[I32], head.0, body);
    }
    m.export("a", EK::Func, h + 1);
    m.datas.push(Data { mode: SegMode::Passive, bytes: b"tail".to_vec() });
    encode(&m)
}
/// Size vectors around the limits at which work is spread over threads and around uneven chunk boundaries.
fn shapes(quick: bool) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![];
    // every count around the thresholds, total just below, at and above 16 KiB
    for n in [7, 8, 9, 12, 13, 16, 47, 48, 49, 52] {
        for total in [16383usize, 16384, 16385, 16500] {
            let prefix = |k: usize| if k < 128 { 1 } else if k < 16384 { 2 } else { 3 };
            let mut s = vec![total / n - 2; n];
            let sum: usize = s.iter().map(|k| k + prefix(*k)).sum();
            s[n / 2] += total - sum;
            v.push(s);
        }
    }
    // one giant function at every place, the rest tiny
    for n in [8, 9, 13, 25] { for k in 0..n { let mut s = vec![30; n]; s[k] = 20000; v.push(s) } }
    // geometric sizes in every rotation, both directions
    let geo: Vec<usize> = (0..11).map(|i| 24 << i).collect();
    for k in 0..geo.len() { let mut s = geo.clone(); s.rotate_left(k); v.push(s.clone()); s.reverse(); v.push(s) }
    // two giants at every pair of places
    for a in 0..10 { for b in a + 1..10 { let mut s = vec![40; 10]; s[a] = 9000; s[b] = 9000; v.push(s) } }
    // average body size around the limit
    for (n, sz) in [(1030, 15), (1030, 16), (1100, 17)] { v.push(vec![sz - 1; n]); }
    if !quick {
        for n in 8..=60 { v.push(vec![17000 / n; n]); v.push((0..n).map(|i| 30 + i * 34000 / (n * n)).collect()) }
        for a in 0..12 { for b in a + 1..12 { for d in b + 1..12 { let mut s = vec![33; 12]; s[a] = 6000; s[b] = 6000; s[d] = 6000; v.push(s) } } }
    }
    v
}

pub fn run(c: &Check) {
    let dir = std::env::temp_dir().join(format!("mc-p25-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    // (a) small modules: every two- and three-way split, every chunk size, every interruption and failure point
    let mut mods: Vec<(String, Vec<u8>)> = vec![];
    for (n, b) in small() { mods.push((n.to_string(), b.clone())); if n != "everything compact" { mods.push((format!("{n} with custom sections"), customised(&b))) } }
    let longest = mods.iter().map(|m| m.1.len()).max().unwrap();
    c.bound(format!("{} small modules up to {longest} bytes using every section and segment form, with and without custom sections: every two-way and every three-way split, every fixed read size, an interrupted read before every piece, a failing stream at every byte, files", mods.len()));
    c.par(mods.len() * longest, |j, l| {
        let (name, b) = &mods[j % mods.len()];
        let i = j / mods.len();
        if i > b.len() { return }
        let k = Case::new(c, l, name.clone(), b, [Opts::ON, NOVAL, NOMEM][i % 3]);
        k.expect(true);
        if i == 0 {
            l.sample(|| format!("{name}: {} bytes, {}", b.len(), k.want.show()));
            for t in [0, 1, 2, 16] { k.slice(l, t); k.file(l, t, &dir) }
        }
        k.stream(l, 1, Cuts::at(b, &[i]), || format!("stream cut at {i}"));
        k.stream(l, 2, Cuts { interrupt: true, ..Cuts::at(b, &[i]) }, || format!("interrupted stream cut at {i}"));
        for s in i + 1..b.len() { k.stream(l, 1, Cuts::at(b, &[i, s]), || format!("stream cut at {i} and {s}")) }
        if i > 0 { k.stream(l, 1, Cuts::step(b, i), || format!("stream in pieces of {i}")); k.stream(l, 1, Cuts { interrupt: true, ..Cuts::step(b, i) }, || format!("interrupted stream in pieces of {i}")) }
        if i < b.len() { for kind in [ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::Other] { for step in [usize::MAX, 1, 3] { k.broken(l, i, kind, 1, step) } } }
    });
    // (b) damaged small modules: accepted in every delivery, with the same meaning, or in none
    let full = !c.quick();
    c.bound(format!("of each: every truncation, {} for every byte, extra bytes, every section missing, doubled, moved, longer, shorter, an unknown section: slice, whole stream, bytewise and 2, 3, 5 and 7 byte pieces, a cut at the damage{}", if full { "every other value" } else { "9 other values" }, if full { ", every two-way split" } else { "" }));
    let jobs: Vec<(usize, String, Vec<u8>)> = mods.iter().enumerate().flat_map(|(i, m)| damaged(&m.1, full).into_iter().map(move |(w, b)| (i, w, b))).collect();
    let step = 64;
    c.par(jobs.len().div_ceil(step), |j, l| for (i, w, b) in jobs.iter().skip(j * step).take(step) {
        let k = Case::new(c, l, format!("{}, {w}", mods[*i].0), b, Opts::ON);
        k.stream(l, 1, Cuts::at(b, &[]), || "whole stream".into());
        for s in [1, 2, 3, 5, 7] { k.stream(l, 1, Cuts::step(b, s), || format!("stream in pieces of {s}")) }
        let d = b.iter().zip(&mods[*i].1).position(|(x, y)| x != y).unwrap_or(b.len());
        for cut in [d.saturating_sub(1), d, d + 1] { k.stream(l, 1, Cuts::at(b, &[cut]), || format!("stream cut at {cut}")) }
        if full { for cut in 0..b.len() { k.stream(l, 1, Cuts::at(b, &[cut]), || format!("stream cut at {cut}")) } }
    });
    // (c) large code sections spread over threads
    let threads: Vec<usize> = if full { (1..=16).chain([64, 0]).collect() } else { vec![1, 2, 3, 4, 5, 7, 11, 12, 13, 64, 0] };
    let sh = shapes(c.quick());
    c.bound(format!("{} code sections around the limits for spreading work (function counts 7-52 and 1030-1100, 16383-16500 bytes, average sizes 15-17) and with every place of giant functions and every rotation of geometric sizes; {} thread counts; slice, file, whole stream, pieces of 1, 4096 and 16384 bytes, cuts at every section and body boundary; three option sets{}", sh.len(), threads.len(), if full { "" } else { " (two of them with 2, 4 and 12 threads)" }));
    c.par(sh.len() * 3, |j, l| {
        let (sizes, oi) = (&sh[j / 3], j % 3);
        let b = sized(sizes, j / 3);
        let k = Case::new(c, l, format!("{} functions of sizes {:?}", sizes.len(), &sizes[..sizes.len().min(16)]), &b, [Opts::ON, NOVAL, NOMEM][oi]);
        k.expect(true);
        l.sample(|| format!("{}: {}", k.name, k.want.show()));
        for &t in &threads {
            if oi != 0 && !full && ![2, 4, 12].contains(&t) { continue }
            k.slice(l, t);
            k.stream(l, t, Cuts::at(&b, &[]), || "whole stream".into());
            if oi == 0 { k.file(l, t, &dir); k.stream(l, t, Cuts::step(&b, 4096), || "stream in pieces of 4096".into()); k.stream(l, t, Cuts { interrupt: true, ..Cuts::step(&b, 16384) }, || "interrupted stream in pieces of 16384".into()) }
        }
        if oi != 0 { return }
        k.stream(l, 4, Cuts::step(&b, 1), || "stream in pieces of 1".into());
        // cuts at and around the boundaries of the code section and of its bodies
        let start = b.len() - sections(&b).iter().rev().take_while(|s| s.0 != 10).map(|s| s.1.len() + 2).sum::<usize>();
        let mut at = vec![start];
        let cs = sections(&b).into_iter().find(|s| s.0 == 10).unwrap().1;
        let mut p = start - cs.len();
        for x in bodies(&cs).iter().take(60) { at.push(p); p += x.len() + if x.len() < 128 { 1 } else if x.len() < 16384 { 2 } else { 3 } }
        for a in at { for cut in a.saturating_sub(6)..(a + 7).min(b.len()) { k.stream(l, 3, Cuts::at(&b, &[cut]), || format!("stream cut at {cut}")) } }
    });
    // (d) damage inside a large code section
    let base: Vec<Vec<usize>> = vec![vec![2100; 8], (0..11).map(|i| 24 << i).collect(), vec![200, 17000, 30, 30, 30, 30, 30, 30, 30], vec![800; 24]];
    c.bound(format!("{} large modules with one damaged body at every place (truncated, type error, bad opcode, wrong length, missing end, extra bytes), wrong counts, trailing bytes, truncations around every body, a failing stream at every body: every thread count, slice, file, streams", base.len()));
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (i, s) in base.iter().enumerate() { for f in 0..=s.len() { jobs.push((i, f)) } }
    c.par(jobs.len(), |j, l| {
        let (i, f) = jobs[j];
        let b = sized(&base[i], 3);
        let secs = sections(&b);
        let ci = secs.iter().position(|s| s.0 == 10).unwrap();
        let bs = bodies(&secs[ci].1);
        let with = |content: Vec<u8>| { let mut s = secs.clone(); s[ci].1 = content; join(&s) };
        let mut cases: Vec<(String, Vec<u8>)> = vec![];
        if f < bs.len() {
            let mut put = |w: &str, x: Vec<u8>| { let mut n = bs.clone(); n[f] = x; cases.push((format!("body {f} {w}"), with(code(&n)))) };
            let x = &bs[f];
            put("empty", vec![]);
            put("without end", x[..x.len() - 1].to_vec());
            put("with an extra end", [&x[..], &[0x0b]].concat());
            put("with an extra nop", [&x[..], &[1]].concat());
            put("leaving nothing", [&x[..x.len() - 3], &[0x0b]].concat());
            put("leaving an i64", [&x[..x.len() - 3], &[0x42, 0, 0x0b]].concat());
            put("with an unknown opcode", [&x[..x.len() - 1], &[0xff, 0x0b]].concat());
            put("cut inside an immediate", [&x[..x.len() - 1], &[0x41]].concat());
            put("with too many locals", [&[1, 0xff, 0xff, 0xff, 0xff, 0x0f, 0x7f][..], &x[1..]].concat());
            put("calling a function that does not exist", [&x[..x.len() - 1], &[0x10, 0x7f, 0x0b]].concat());
            let mut n = bs.clone(); n.remove(f); cases.push((format!("body {f} missing"), with(code(&n))));
            let mut n = bs.clone(); n.insert(f, bs[f].clone()); cases.push((format!("body {f} twice"), with(code(&n))));
            // a length one more or less than the body
            for d in [-1i64, 1, 1 << 20] {
                let mut o = vec![]; uleb(&mut o, bs.len() as u64);
                for (q, x) in bs.iter().enumerate() { uleb(&mut o, (x.len() as i64 + if q == f { d } else { 0 }) as u64); o.extend(x) }
                cases.push((format!("body {f} with length off by {d}"), with(o)));
            }
        } else {
            for t in [vec![0], vec![0x0b], vec![2, 0, 0x0b], vec![0; 300]] { cases.push((format!("{} trailing bytes in the code section", t.len()), with([code(&bs), t].concat()))) }
            for d in [-1i64, 1, 100, 1 << 30] { let mut o = vec![]; uleb(&mut o, (bs.len() as i64 + d) as u64); for x in &bs { uleb(&mut o, x.len() as u64); o.extend(x) } cases.push((format!("count off by {d}"), with(o))) }
            for (d, w) in [(1usize, "shorter"), (2, "much shorter")] { let mut s = secs.clone(); let n = s[ci].1.len() - d; s[ci].1.truncate(n); cases.push((format!("code section {w}"), join(&s))) }
            let mut s = secs.clone(); let x = s[ci].clone(); s.insert(ci, x); cases.push(("code section twice".into(), join(&s)));
            let mut s = secs.clone(); let n = s.len() - 1; s[n].1.push(0); cases.push(("bad data section".into(), join(&s)));
            cases.push(("an extra byte at the end".into(), [&b[..], &[0]].concat()));
            cases.push(("an unknown section at the end".into(), [&b[..], &[77, 0]].concat()));
        }
        // truncations and broken streams around this body
        let head = b.len() - sections(&b).iter().skip(ci + 1).map(|s| s.1.len() + 2).sum::<usize>() - secs[ci].1.len();
        let p = head + 1 + bs[..f].iter().map(|x| x.len() + 2).sum::<usize>();
        for d in -4i64..=4 { let n = (p as i64 + d) as usize; if n < b.len() { cases.push((format!("first {n} bytes"), b[..n].to_vec())) } }
        for (w, bytes) in &cases {
            let k = Case::new(c, l, format!("{} functions, {w}", base[i].len()), bytes, Opts::ON);
            k.expect(false);
            for &t in &threads {
                k.slice(l, t);
                k.stream(l, t, Cuts::at(bytes, &[]), || "whole stream".into());
                k.stream(l, t, Cuts::step(bytes, 1000), || "stream in pieces of 1000".into());
                if full { k.file(l, t, &dir); k.stream(l, t, Cuts::step(bytes, 1), || "stream in pieces of 1".into()) }
            }
        }
        let k = Case::new(c, l, format!("{} functions", base[i].len()), &b, Opts::ON);
        for t in [1, 4] { for d in -2i64..=2 { let at = (p as i64 + d) as usize; if at < b.len() { for step in [usize::MAX, 512] { k.broken(l, at, ErrorKind::Other, t, step); k.broken(l, at, ErrorKind::UnexpectedEof, t, step) } } } }
    });
    let _ = std::fs::remove_dir_all(&dir);
    c.assume("workers share only immutable data, so what can vary between schedules is which worker gets which functions; every partition the worker counts and size vectors give rise to is executed");
}
