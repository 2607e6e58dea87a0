//! P23: the host memory interface is exact and bounded.
//! (a) every operation with every offset and length around every boundary up to the maximum integer, on guest-declared
//! and host-created memories of many sizes and every backend; (b) every short history of host and guest operations;
//! (c) every short history of cursor operations; (d) every short byte string through the string helpers; (e) every
//! combination of limits for a host-created memory. After every operation the whole memory is compared with a byte
//! array, both through the host and through guest loads.
use crate::backends;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use std::io::{Read, Seek, SeekFrom, Write};
use tinywasm::engine::Config;
use tinywasm::types::{MemoryArch, MemoryType, WasmValue};
use tinywasm::{Engine, Function, Imports, Memory, ModuleInstance, Store};
use VT::{I32, I64};

/// Guest side: hash of the first n bytes (read one by one), store8, fill, copy, grow, size.
fn module(l: Limits, imported: bool) -> Module {
    let mut m = Module::default();
    if imported { m.imports.push(Import { module: "e".into(), name: "m".into(), kind: ImportKind::Mem(l) }) } else { m.mem(l); }
    m.export("m", EK::Mem, 0);
    let a = if l.is64 { I64 } else { I32 };
    let c = |v: i64| if l.is64 { Op::I64C(v) } else { Op::I32C(v as i32) };
    let (add, lt) = if l.is64 { (num("i64.add"), num("i64.lt_u")) } else { (num("i32.add"), num("i32.lt_u")) };
    let ma = MA { align: 0, offset: 0, mem: 0 };
    // hash(n): local 1 = i, local 2 = h
    let f = m.func(&[a], &[I64], &[a, I64], vec![
        Op::I64C(0x1505), Op::LSet(2),
        Op::Loop(BT::Empty),
        Op::LGet(1), Op::LGet(0), lt, Op::If(BT::Empty),
        Op::LGet(2), Op::I64C(33), num("i64.mul"), Op::LGet(1), Op::Mem { op: 0x31, m: ma }, num("i64.add"), Op::LSet(2),
        Op::LGet(1), c(1), add, Op::LSet(1), Op::Br(1), Op::End, Op::End,
        Op::LGet(2),
    ]);
    m.export("hash", EK::Func, f);
    let f = m.func(&[a, I32], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::Mem { op: 0x3a, m: ma }]);
    m.export("store", EK::Func, f);
    let f = m.func(&[a, I64], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::Mem { op: 0x37, m: ma }]);
    m.export("store64", EK::Func, f);
    let f = m.func(&[a, I32, a], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemFill(0)]);
    m.export("fill", EK::Func, f);
    let f = m.func(&[a, a, a], &[], &[], vec![Op::LGet(0), Op::LGet(1), Op::LGet(2), Op::MemCopy { dst: 0, src: 0 }]);
    m.export("copy", EK::Func, f);
    let f = m.func(&[a], &[a], &[], vec![Op::LGet(0), Op::MemGrow(0)]);
    m.export("grow", EK::Func, f);
    let f = m.func(&[], &[a], &[], vec![Op::MemSize(0)]);
    m.export("size", EK::Func, f);
    m
}
fn hash_of(b: &[u8]) -> u64 { b.iter().fold(0x1505u64, |h, x| h.wrapping_mul(33).wrapping_add(*x as u64)) }

#[derive(Clone, Copy)]
struct Shape { pages: u64, max: Option<u64>, page: Option<u64>, is64: bool, host: bool }
impl Shape {
    fn bytes(&self) -> usize { (self.pages * self.page.unwrap_or(65536)) as usize }
    fn show(&self) -> String { format!("{} memory{} of {} pages of {} bytes, max {:?}", if self.host { "host-created" } else { "guest-declared" }, if self.is64 { "64" } else { "" }, self.pages, self.page.unwrap_or(65536), self.max) }
    fn ty(&self) -> MemoryType { MemoryType::new(if self.is64 { MemoryArch::I64 } else { MemoryArch::I32 }, self.pages, self.max, self.page) }
}
struct Rig { store: Store, mem: Memory, model: Vec<u8>, shape: Shape, f: Vec<Function> }
fn rig(cfg: Config, s: Shape) -> Result<Rig, String> {
    if s.page == Some(4) {
        let mut store = Store::new(Engine::new(cfg));
        let mem = Memory::new(&mut store, s.ty()).map_err(|e| e.to_string())?;
        return Ok(Rig { store, mem, model: vec![0; s.bytes()], shape: s, f: vec![] });
    }
    let l = Limits { min: s.pages, max: s.max, is64: s.is64, page_log2: s.page.map(|p| p.trailing_zeros()) };
    let module = parse(&encode(&module(l, s.host)), Opts::ON)?;
    let mut store = Store::new(Engine::new(cfg));
    let mut im = Imports::new();
    let mut own = None;
    if s.host { let m = Memory::new(&mut store, s.ty()).map_err(|e| e.to_string())?; im.define("e", "m", m); own = Some(m) }
    let inst = ModuleInstance::instantiate(&mut store, &module, Some(im)).map_err(|e| e.to_string())?;
    let mem = match own { Some(m) => m, None => inst.memory("m").map_err(|e| e.to_string())? };
    let f = ["hash", "store", "store64", "fill", "copy", "grow", "size"].map(|n| inst.func_untyped(&store, n).expect("export")).to_vec();
    let mut r = Rig { store, mem, model: vec![0; s.bytes()], shape: s, f };
    r.same("creation", true)?;
    Ok(r)
}
impl Rig {
    fn a(&self, v: u64) -> WasmValue { if self.shape.is64 { WasmValue::I64(v as i64) } else { WasmValue::I32(v as u32 as i32) } }
    /// Gives the memory distinct contents, through the host.
    fn pattern(&mut self) -> Result<(), String> {
        for (i, b) in self.model.iter_mut().enumerate() { *b = (i as u8).wrapping_mul(37).wrapping_add((i >> 8) as u8) ^ 0x5a }
        self.mem.copy_from_slice(&mut self.store, 0, &self.model).map_err(|e| e.to_string())
    }
    fn same(&mut self, at: &str, guest: bool) -> Result<(), String> {
        let e = |e: tinywasm::Error| e.to_string();
        let n = self.mem.len(&self.store).map_err(e)?;
        if n != self.model.len() { return Err(format!("after {at}: length {n}, expected {}", self.model.len())) }
        let b = self.mem.read_vec(&self.store, 0, n).map_err(|e| format!("after {at}: reading the whole memory: {e}"))?;
        if b != self.model {
            let d: Vec<_> = (0..n).filter(|i| b[*i] != self.model[*i]).collect();
            return Err(format!("after {at}: {} bytes differ, first at {}: {:02x}, expected {:02x}", d.len(), d[0], b[d[0]], self.model[d[0]]));
        }
        let page = self.shape.page.unwrap_or(65536) as usize;
        let pc = self.mem.page_count(&self.store).map_err(e)?;
        if pc * page != n { return Err(format!("after {at}: {pc} pages of {page} bytes, length {n}")) }
        if guest && !self.f.is_empty() {
            let a = self.a(n as u64);
            let h = vals_out(Some(&[I64]), self.f[0].call(&mut self.store, &[a]));
            if h != Out::Vals(vec![hash_of(&self.model) as u128]) { return Err(format!("after {at}: the guest reads other bytes ({h:x?})")) }
            let p = vals_out(None, self.f[6].call(&mut self.store, &[]));
            if p != Out::Vals(vec![pc as u128]) { return Err(format!("after {at}: memory.size {p:?}, host page count {pc}")) }
        }
        Ok(())
    }
    fn range(&self, off: usize, len: usize) -> Option<std::ops::Range<usize>> { let e = off.checked_add(len)?; (e <= self.model.len()).then_some(off..e) }
    /// One operation against the byte array; Ok(true) if it changed the model.
    fn step(&mut self, op: &HOp) -> Result<bool, String> {
        let before = self.model.clone();
        let (m, n) = (self.mem, self.model.len());
        let want_err = |r: Result<String, tinywasm::Error>| match r { Ok(v) => Err(format!("{op:?} on {n} bytes succeeded with {v}, expected an error")), Err(_) => Ok(()) };
        let eq = |got: Result<Vec<u8>, tinywasm::Error>, want: Option<&[u8]>| match (got, want) {
            (Ok(g), Some(w)) if g == w => Ok(()),
            (Err(_), None) => Ok(()),
            (g, w) => Err(format!("{op:?} on {n} bytes gave {g:x?}, expected {w:x?}")),
        };
        match *op {
            HOp::Read(o, l) => {
                let mut b = vec![0xee; l];
                let k = m.read(&self.store, o, &mut b).map_err(|e| format!("{op:?}: {e}"))?;
                let avail = n.saturating_sub(o).min(l);
                if k > avail || (k == 0) != (avail == 0) { return Err(format!("{op:?} on {n} bytes transferred {k} bytes, {avail} available")) }
                if b[..k] != self.model[o.min(n)..o.min(n) + k] || b[k..].iter().any(|x| *x != 0xee) { return Err(format!("{op:?} on {n} bytes transferred {k} bytes: {b:x?}")) }
            }
            HOp::ReadExact(o, l) => {
                let mut b = vec![0xee; l];
                let r = m.read_exact(&self.store, o, &mut b).map(|_| b);
                eq(r, self.range(o, l).map(|r| &self.model[r]))?
            }
            HOp::ReadVec(o, l) => eq(m.read_vec(&self.store, o, l), self.range(o, l).map(|r| &self.model[r]))?,
            HOp::Write(o, ref d) => {
                let k = m.write(&mut self.store, o, d).map_err(|e| format!("{op:?}: {e}"))?;
                let avail = n.saturating_sub(o).min(d.len());
                if k > avail || (k == 0) != (avail == 0) { return Err(format!("{op:?} on {n} bytes transferred {k} bytes, {avail} possible")) }
                if k > 0 { self.model[o..o + k].copy_from_slice(&d[..k]) }
            }
            HOp::CopyFrom(o, ref d) => match (m.copy_from_slice(&mut self.store, o, d), self.range(o, d.len())) {
                (Ok(()), Some(r)) => self.model[r].copy_from_slice(d),
                (Err(_), None) => (),
                (r, _) => return Err(format!("{op:?} on {n} bytes: {r:?}")),
            },
            HOp::Fill(o, l, v) => match (m.fill(&mut self.store, o, l, v), self.range(o, l)) {
                (Ok(()), Some(r)) => self.model[r].fill(v),
                (Err(_), None) => (),
                (r, _) => return Err(format!("{op:?} on {n} bytes: {r:?}")),
            },
            HOp::Copy(s, d, l) => match (m.copy_within(&mut self.store, s, d, l), self.range(s, l), self.range(d, l)) {
                (Ok(()), Some(r), Some(_)) => self.model.copy_within(r, d),
                (Err(_), a, b) if a.is_none() || b.is_none() => (),
                (r, ..) => return Err(format!("{op:?} on {n} bytes: {r:?}")),
            },
            HOp::CStr(o, ref d, bytes) => {
                let r = if bytes { m.write_cstring_bytes(&mut self.store, o, std::str::from_utf8(d).expect("ascii")) } else { m.write_cstring(&mut self.store, o, &std::ffi::CString::new(d.clone()).expect("no nul")) };
                match (r, self.range(o, d.len() + 1)) {
                    (Ok(()), Some(r)) => { let mut d = d.clone(); d.push(0); self.model[r].copy_from_slice(&d) }
                    (Err(_), None) => (),
                    (r, _) => return Err(format!("{op:?} on {n} bytes: {r:?}")),
                }
            }
            HOp::Text(o, l) => strings(&m, &self.store, &self.model, o, l).map_err(|e| format!("{op:?} on {n} bytes: {e}"))?,
            HOp::Grow(d) => {
                let page = self.shape.page.unwrap_or(65536);
                let old = n as u64 / page;
                let limit = self.shape.max.unwrap_or((1u64 << 32) / page).max(self.shape.pages);
                let want = u64::try_from(d).ok().and_then(|d| old.checked_add(d)).filter(|x| *x <= limit);
                match (m.grow(&mut self.store, d), want) {
                    (Ok(Some(o)), Some(new)) if o as u64 == old => self.model.resize((new * page) as usize, 0),
                    (Ok(None), None) => (),
                    (r, _) => return Err(format!("{op:?} on {old} pages (limit {limit}): {r:?}")),
                }
            }
            HOp::GStore(a, v) => { let x = self.a(a); match (self.f[1].call(&mut self.store, &[x, WasmValue::I32(v as i32)]), self.range(a as usize, 1)) { (Ok(_), Some(r)) => self.model[r].fill(v), (Err(_), None) => (), (r, _) => return Err(format!("{op:?}: {r:?}")) } }
            HOp::GStore64(a, v) => { let x = self.a(a); match (self.f[2].call(&mut self.store, &[x, WasmValue::I64(v as i64)]), self.range(a as usize, 8)) { (Ok(_), Some(r)) => self.model[r].copy_from_slice(&v.to_le_bytes()), (Err(_), None) => (), (r, _) => return Err(format!("{op:?}: {r:?}")) } }
            HOp::GFill(a, v, l) => { let (x, y) = (self.a(a), self.a(l)); match (self.f[3].call(&mut self.store, &[x, WasmValue::I32(v as i32), y]), self.range(a as usize, l as usize)) { (Ok(_), Some(r)) => self.model[r].fill(v), (Err(_), None) => (), (r, _) => return Err(format!("{op:?}: {r:?}")) } }
            HOp::GCopy(d, s, l) => { let a = [self.a(d), self.a(s), self.a(l)]; match (self.f[4].call(&mut self.store, &a), self.range(d as usize, l as usize), self.range(s as usize, l as usize)) { (Ok(_), Some(_), Some(r)) => self.model.copy_within(r, d as usize), (Err(_), x, y) if x.is_none() || y.is_none() => (), (r, ..) => return Err(format!("{op:?}: {r:?}")) } }
            HOp::GGrow(d) => {
                let page = self.shape.page.unwrap_or(65536);
                let old = n as u64 / page;
                let limit = self.shape.max.unwrap_or((1u64 << 32) / page);
                let want = old.checked_add(d).filter(|x| *x <= limit);
                let x = self.a(d);
                let got = vals_out(None, self.f[5].call(&mut self.store, &[x]));
                let ok = match want { Some(new) => { self.model.resize((new * page) as usize, 0); old as u128 } None => if self.shape.is64 { u64::MAX as u128 } else { u32::MAX as u128 } };
                if got != Out::Vals(vec![ok]) { return Err(format!("{op:?}: {got:?}, expected {ok:x}")) }
            }
            HOp::Cursor(ref ops) => return self.cursor(ops).map(|_| before != self.model),
        }
        let _ = want_err;
        Ok(before != self.model)
    }
    /// Cursor operations on one cursor against position + byte array.
    fn cursor(&mut self, ops: &[COp]) -> Result<(), String> {
        let n = self.model.len();
        let mut pos = 0u64;
        let mut c = match ops.first() { Some(COp::At(p)) => { pos = *p; self.mem.cursor_at(&mut self.store, *p) } _ => self.mem.cursor(&mut self.store) }.map_err(|e| e.to_string())?;
        for (i, o) in ops.iter().enumerate() {
            let at = |m: String| format!("cursor on {n} bytes, {:?}: {m}", &ops[..=i]);
            let avail = |p: u64, l: usize| n.saturating_sub(usize::try_from(p).unwrap_or(usize::MAX)).min(l);
            match o {
                COp::At(_) => (),
                COp::Set(p) => { c.set_position(*p); pos = *p }
                COp::Read(l) => {
                    let mut b = vec![0xee; *l];
                    let k = c.read(&mut b).map_err(|e| at(e.to_string()))?;
                    let av = avail(pos, *l);
                    if k > av || (k == 0) != (av == 0) { return Err(at(format!("read {k} bytes of {av}"))) }
                    if (k > 0 && b[..k] != self.model[pos as usize..pos as usize + k]) || b[k..].iter().any(|x| *x != 0xee) { return Err(at(format!("read {b:x?}"))) }
                    pos += k as u64;
                }
                COp::ReadExact(l) => {
                    let mut b = vec![0; *l];
                    let av = avail(pos, *l);
                    let r = c.read_exact(&mut b);
                    if r.is_ok() != (av == *l) || (*l > 0 && r.is_ok() && b[..] != self.model[pos as usize..pos as usize + l]) { return Err(at(format!("read_exact {r:?} {b:x?}"))) }
                    pos += av as u64;
                }
                COp::ReadAll => {
                    let mut b = vec![];
                    let r = c.read_to_end(&mut b);
                    let p = usize::try_from(pos).unwrap_or(usize::MAX).min(n);
                    if r.is_err() || b != self.model[p..] { return Err(at(format!("read_to_end {r:?} {b:x?}"))) }
                    pos += (n - p) as u64;
                }
                COp::Write(d) => {
                    let k = c.write(d).map_err(|e| at(e.to_string()))?;
                    let av = avail(pos, d.len());
                    if k > av || (k == 0) != (av == 0) { return Err(at(format!("wrote {k} bytes of {av}"))) }
                    if k > 0 { self.model[pos as usize..pos as usize + k].copy_from_slice(&d[..k]) }
                    pos += k as u64;
                }
                COp::WriteAll(d) => {
                    let av = avail(pos, d.len());
                    let r = c.write_all(d);
                    if r.is_ok() != (av == d.len()) { return Err(at(format!("write_all {r:?}"))) }
                    if av > 0 { self.model[pos as usize..pos as usize + av].copy_from_slice(&d[..av]) }
                    pos += av as u64;
                }
                COp::Flush => c.flush().map_err(|e| at(e.to_string()))?,
                COp::Seek(s) => {
                    let t = match s { SeekFrom::Start(x) => *x as i128, SeekFrom::End(x) => n as i128 + *x as i128, SeekFrom::Current(x) => pos as i128 + *x as i128 };
                    match (c.seek(*s), u64::try_from(t)) {
                        (Ok(p), Ok(w)) if p == w => pos = w,
                        (Err(_), Err(_)) => (),
                        (r, w) => return Err(at(format!("{r:?}, expected {w:?}"))),
                    }
                }
            }
            if c.position() != pos || c.stream_position().ok() != Some(pos) { return Err(at(format!("position {}, expected {pos}", c.position()))) }
        }
        Ok(())
    }
}
#[derive(Clone, Debug)]
enum COp { At(u64), Set(u64), Read(usize), ReadExact(usize), ReadAll, Write(Vec<u8>), WriteAll(Vec<u8>), Flush, Seek(SeekFrom) }
#[derive(Clone, Debug)]
enum HOp {
    Read(usize, usize), ReadExact(usize, usize), ReadVec(usize, usize), Write(usize, Vec<u8>), CopyFrom(usize, Vec<u8>), Fill(usize, usize, u8), Copy(usize, usize, usize), CStr(usize, Vec<u8>, bool), Text(usize, usize), Grow(i64),
    GStore(u64, u8), GStore64(u64, u64), GFill(u64, u8, u64), GCopy(u64, u64, u64), GGrow(u64), Cursor(Vec<COp>),
}
/// All string readers against the bytes.
fn strings(m: &Memory, store: &Store, model: &[u8], o: usize, l: usize) -> Result<(), String> {
    let bytes = o.checked_add(l).filter(|e| *e <= model.len()).map(|e| &model[o..e]);
    let utf8 = bytes.and_then(|b| std::str::from_utf8(b).ok().map(String::from));
    let got = m.read_string(store, o, l);
    if got.as_ref().ok() != utf8.as_ref() { return Err(format!("read_string {got:?}, expected {utf8:?}")) }
    // exactly one nul, at the end
    let cstr = bytes.filter(|b| b.iter().position(|x| *x == 0) == b.len().checked_sub(1) && !b.is_empty()).map(|b| b[..b.len() - 1].to_vec());
    let got = m.read_cstring(store, o, l).map(|c| c.into_bytes());
    if got.as_ref().ok() != cstr.as_ref() { return Err(format!("read_cstring {got:?}, expected {cstr:?}")) }
    let until = bytes.and_then(|b| b.iter().position(|x| *x == 0).map(|p| b[..p].to_vec()));
    let got = m.read_cstring_until_null(store, o, l).map(|c| c.into_bytes());
    if got.as_ref().ok() != until.as_ref() { return Err(format!("read_cstring_until_null {got:?}, expected {until:?}")) }
    // an odd number of bytes is no UTF-16 string: either refused or its whole units
    let units: Option<Vec<u16>> = bytes.map(|b| b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect());
    let js = units.and_then(|u| utf16(&u));
    let got = m.read_js_string(store, o, l);
    if got.as_ref().ok() != js.as_ref() && !(l % 2 == 1 && got.is_err()) { return Err(format!("read_js_string {got:?}, expected {js:?}")) }
    Ok(())
}
/// UTF-16 with surrogate pairs, strict.
fn utf16(u: &[u16]) -> Option<String> {
    let mut s = String::new();
    let mut i = 0;
    while i < u.len() {
        let x = u[i] as u32;
        let c = if (0xd800..0xdc00).contains(&x) {
            let y = *u.get(i + 1)? as u32;
            if !(0xdc00..0xe000).contains(&y) { return None }
            i += 1;
            0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00)
        } else { x };
        s.push(char::from_u32(c)?);
        i += 1;
    }
    Some(s)
}

fn shapes(all: bool) -> Vec<Shape> {
    let mut v = vec![];
    for host in [false, true] {
        for is64 in [false, true] {
            for pages in [0, 1, 2, 3, 7, 8, 9, 16, 17, 33] { if all || pages != 2 { v.push(Shape { pages, max: Some(pages + 3), page: Some(1), is64, host }) } }
            v.push(Shape { pages: 1, max: Some(2), page: None, is64, host });
            v.push(Shape { pages: 0, max: Some(1), page: None, is64, host });
            v.push(Shape { pages: 1, max: None, page: None, is64, host });
        }
    }
    // a page size no module can declare: no guest side
    v.push(Shape { pages: 3, max: Some(5), page: Some(4), is64: false, host: true });
    v
}
fn around(n: usize, all: bool) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 2, n / 2, u32::MAX as usize, 1 << 32, isize::MAX as usize, usize::MAX - 1, usize::MAX, usize::MAX - n, (usize::MAX - n).wrapping_add(1), 1 << 63];
    if all { v.extend([6, 10, 15, 16, 17, 4095, 4096, 4097, n + 7, n + 8, 65535, 65536]) }
    v.sort_unstable();
    v.dedup();
    v
}
fn single(c: &Check, l: &mut Local, be: backends::Backend, s: Shape) {
    let r = guard(|| -> Result<(), String> {
        let mut r = rig((be.1)(), s)?;
        r.pattern()?;
        let n = r.model.len();
        let offs = around(n, !c.quick());
        let small: Vec<usize> = offs.iter().copied().filter(|x| *x <= n + 9).collect();
        let data = |l: usize, k: u8| (0..l).map(|i| (i as u8).wrapping_mul(3).wrapping_add(k) | 1).collect::<Vec<u8>>();
        let mut ops: Vec<HOp> = vec![];
        for &o in &offs {
            for &len in &small {
                if n > 1000 && len > n + 2 { continue }
                ops.extend([HOp::Read(o, len), HOp::ReadExact(o, len), HOp::Write(o, data(len, 7)), HOp::CopyFrom(o, data(len, 13)), HOp::CStr(o, data(len, 4).iter().map(|b| b & 0x7f).collect(), len % 2 == 0)]);
            }
            for &len in &offs { ops.extend([HOp::ReadVec(o, len), HOp::Fill(o, len, 0xa7), HOp::Text(o, len)]); }
        }
        let mut few = vec![0, 1, 3, n / 2, n.saturating_sub(1), n, n + 1, u32::MAX as usize, usize::MAX - n, usize::MAX];
        few.sort_unstable();
        few.dedup();
        let co: &[usize] = if c.quick() { &few } else { &offs };
        for &a in co { for &b in co { for &len in co.iter().step_by(if n > 1000 && !c.quick() { 3 } else { 1 }) { ops.push(HOp::Copy(a, b, len)) } } }
        for d in [0, -1, i64::MIN, i64::MAX, 1 << 32, 1 << 48, 5] { ops.push(HOp::Grow(d)) }
        for d in [1, 1, 1, 1] { ops.push(HOp::Grow(d)) }
        for (i, op) in ops.iter().enumerate() {
            l.transitions += 1;
            l.traces += 1;
            let at = format!("{op:?}");
            let changed = r.step(op)?;
            if changed { l.states.insert(hash(&r.model)); }
            // small memories also through the guest; large ones whenever they changed
            let small = r.model.len() <= 64;
            if changed || small || i % 16 == 0 { r.same(&at, small && (changed || i % 8 == 0))? }
            // back to distinct contents so that the next transfer shows
            if changed { r.pattern()? }
        }
        Ok(())
    });
    match r { Ok(Ok(())) => (), Ok(Err(e)) => c.violation(format!("single {} {}", be.0, s.show()), format!("{} on {}: {e}", s.show(), be.0), ""), Err(p) => c.violation(format!("single panic {} {}", be.0, s.show()), format!("{} on {}: panic {p}", s.show(), be.0), "") }
}
fn history_ops(n: usize) -> Vec<HOp> {
    use HOp::*;
    let w = |b: &[u8]| b.to_vec();
    vec![
        Write(0, w(&[1, 2, 3])), Write(n - 1, w(&[4, 5])), Write(n, w(&[6])), CopyFrom(2, w(&[7, 8, 9, 10])), CopyFrom(n - 1, w(&[11, 12])), CopyFrom(n, vec![]), CopyFrom(n + 2, w(&[13])),
        Fill(1, 3, 0xcc), Fill(n - 1, 2, 0xcd), Fill(n, 1, 0xce), Copy(0, 2, 4), Copy(2, 0, 4), Copy(n - 2, n - 1, 2), Copy(0, n, 2), CStr(1, w(b"ab"), true), CStr(n - 1, w(b"x"), false),
        Read(0, n + 4), ReadExact(n - 1, 2), ReadVec(1, n), Text(0, n), Grow(0), Grow(1), Grow(2), Grow(100), Grow(-1),
        GStore(0, 0x41), GStore(n as u64, 0x42), GStore(n as u64 + 1, 0x43), GStore64(1, 0x1122_3344_5566_7788), GFill(0, 0x33, 2), GFill(n as u64 - 1, 0x34, 3), GCopy(1, 0, 5), GCopy(0, n as u64 - 1, 2), GGrow(0), GGrow(1), GGrow(50),
        Cursor(vec![COp::At(n as u64 - 1), COp::Write(w(&[0x77, 0x78]))]), Cursor(vec![COp::ReadAll]), Cursor(vec![COp::Seek(SeekFrom::End(-2)), COp::WriteAll(w(&[0x79, 0x7a, 0x7b]))]),
    ]
}
fn history(c: &Check, l: &mut Local, be: backends::Backend, s: Shape, prefix: &[HOp], rest: &[HOp], depth: usize) {
    // odometer over the remaining positions
    let mut ix = vec![0usize; depth];
    loop {
        let seq: Vec<&HOp> = prefix.iter().chain(ix.iter().map(|i| &rest[*i])).collect();
        let r = guard(|| -> Result<(), String> {
            let mut r = rig((be.1)(), s)?;
            for (i, op) in seq.iter().enumerate() {
                l.transitions += 1;
                r.step(op)?;
                // every prefix of length < all is compared by the sequence that ends there
                if i + 1 == seq.len() || ix.iter().skip((i + 1).saturating_sub(prefix.len())).all(|x| *x == 0) { r.same(&format!("{op:?}"), true)? }
            }
            l.states.insert(hash(&r.model));
            Ok(())
        });
        l.traces += 1;
        let show = || seq.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("; ");
        match r { Ok(Ok(())) => (), Ok(Err(e)) => c.violation(format!("history {} {}", be.0, show()), format!("{} on {}, {}: {e}", s.show(), be.0, show()), ""), Err(p) => c.violation(format!("history panic {} {}", be.0, show()), format!("{} on {}, {}: panic {p}", s.show(), be.0, show()), "") }
        let Some(k) = (0..depth).rev().find(|k| ix[*k] + 1 < rest.len()) else { return };
        ix[k] += 1;
        ix[k + 1..].fill(0);
        if c.stopped() { return }
    }
}
fn cursor_ops(n: u64) -> Vec<COp> {
    use COp::*;
    vec![
        Read(0), Read(1), Read(3), Read(20), ReadExact(2), ReadAll, Write(vec![]), Write(vec![1]), Write(vec![2, 3, 4]), WriteAll(vec![5, 6]), WriteAll(vec![7; 12]), Flush,
        Set(0), Set(3), Set(n), Set(n + 1), Set(u64::MAX), Seek(SeekFrom::Start(1)), Seek(SeekFrom::Start(u64::MAX)), Seek(SeekFrom::Start(1 << 63)), Seek(SeekFrom::End(0)), Seek(SeekFrom::End(-1)), Seek(SeekFrom::End(2)), Seek(SeekFrom::End(i64::MIN)), Seek(SeekFrom::End(i64::MAX)),
        Seek(SeekFrom::Current(0)), Seek(SeekFrom::Current(1)), Seek(SeekFrom::Current(-2)), Seek(SeekFrom::Current(i64::MIN)), Seek(SeekFrom::Current(i64::MAX)),
    ]
}
/// Every cursor sequence that starts with `first`.
fn cursors(c: &Check, l: &mut Local, be: backends::Backend, s: Shape, first: &COp, depth: usize) {
    let n = s.bytes();
    let ops = cursor_ops(n as u64);
    let mut ix = vec![0usize; depth - 1];
    let r = guard(|| -> Result<(), String> {
        let mut r = rig((be.1)(), s)?;
        r.pattern()?;
        loop {
            let seq: Vec<COp> = std::iter::once(first.clone()).chain(ix.iter().map(|i| ops[*i].clone())).collect();
            l.traces += 1;
            l.transitions += seq.len() as u64;
            let before = r.model.clone();
            r.cursor(&seq)?;
            r.same(&format!("cursor {seq:?}"), false)?;
            l.states.insert(hash(&r.model));
            if r.model != before { r.pattern()? }
            let Some(k) = (0..depth - 1).rev().find(|k| ix[*k] + 1 < ops.len()) else { return Ok(()) };
            ix[k] += 1;
            ix[k + 1..].fill(0);
        }
    });
    match r { Ok(Ok(())) => (), Ok(Err(e)) => c.violation(format!("cursor {} {first:?} {n}", be.0), format!("{} on {}: {e}", s.show(), be.0), ""), Err(p) => c.violation(format!("cursor panic {} {first:?} {n}", be.0), format!("{} on {}: panic {p}", s.show(), be.0), "") }
}
/// Every string of `len` symbols, through every offset and length.
fn texts(c: &Check, l: &mut Local, be: backends::Backend, first: u16, len: usize, wide: bool) {
    let sym: &[u16] = if wide { &[0, 0x41, 0xff, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff] } else { &[0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff] };
    let size = if wide { len * 2 } else { len };
    let s = Shape { pages: size as u64, max: None, page: Some(1), is64: false, host: true };
    let mut ix = vec![0usize; len - 1];
    let r = guard(|| -> Result<(), String> {
        let mut r = rig((be.1)(), s)?;
        loop {
            let units: Vec<u16> = std::iter::once(first).chain(ix.iter().map(|i| sym[*i])).collect();
            r.model = if wide { units.iter().flat_map(|u| u.to_le_bytes()).collect() } else { units.iter().map(|u| *u as u8).collect() };
            r.mem.copy_from_slice(&mut r.store, 0, &r.model).map_err(|e| e.to_string())?;
            l.states.insert(hash(&r.model));
            for o in 0..=size { for n in 0..=size - o { l.transitions += 4; l.traces += 1; strings(&r.mem, &r.store, &r.model, o, n).map_err(|e| format!("bytes {} offset {o} length {n}: {e}", hex(&r.model)))? } }
            let Some(k) = (0..len - 1).rev().find(|k| ix[*k] + 1 < sym.len()) else { return Ok(()) };
            ix[k] += 1;
            ix[k + 1..].fill(0);
        }
    });
    match r { Ok(Ok(())) => (), Ok(Err(e)) => c.violation(format!("text {} {first:x} {wide}", be.0), format!("on {}: {e}", be.0), ""), Err(p) => c.violation(format!("text panic {} {first:x} {wide}", be.0), p, "") }
}
/// Creation succeeds exactly for consistent limits; nothing panics or allocates absurdly.
fn creation(c: &Check, l: &mut Local, be: backends::Backend) {
    let counts = [0u64, 1, 2, 3, 1 << 61, 1 << 62, u64::MAX];
    // (types that really need more than one page and less than 2 EiB are left out: they would allocate it)
    for is64 in [false, true] { for page in [None, Some(0), Some(1), Some(2), Some(4), Some(65536), Some(65537), Some(1 << 32), Some(1 << 40), Some(u64::MAX)] { for min in counts { for max in [None, Some(0), Some(1), Some(2), Some(4), Some(65536), Some(65537), Some(1 << 48), Some(u64::MAX)] {
        if min.checked_mul(page.unwrap_or(65536)).is_some_and(|b| b > 65537 && b < 1 << 61) { continue }
        let r = guard(|| {
            let ty = MemoryType::new(if is64 { MemoryArch::I64 } else { MemoryArch::I32 }, min, max, page);
            let mut store = Store::new(Engine::new((be.1)()));
            let m = Memory::new(&mut store, ty).map_err(|e| e.to_string())?;
            let n = m.len(&store).map_err(|e| e.to_string())?;
            let b = m.read_vec(&store, 0, n.min(100)).map_err(|e| e.to_string())?;
            let t = m.ty(&store).map_err(|e| e.to_string())?;
            Ok::<_, String>((n, b.iter().all(|x| *x == 0), t == ty && m.page_count(&store).map_err(|e| e.to_string())? as u64 == min))
        });
        l.traces += 1;
        l.transitions += 1;
        let p = page.unwrap_or(65536);
        // bytes of storage that must not be refused, and a type no memory can have
        let fits = min.checked_mul(p).filter(|b| *b <= 65537);
        // a lazy memory takes its storage on first use only
        let lazy = be.0.contains("lazy");
        let huge = min.checked_mul(p).is_none_or(|b| b >= 1 << 61);
        let bad = max.is_some_and(|m| m < min) || p == 0 || min.checked_mul(p).is_none() || (huge && !lazy);
        let ok = match &r { Ok(Ok((n, zero, same))) => !bad && *zero && *same && (lazy || Some(*n as u64) == min.checked_mul(p)), Ok(Err(_)) => bad || huge || fits.is_none(), Err(_) => false };
        if !ok { c.violation(format!("creation {} {is64} {page:?} {min} {max:?}", be.0), format!("Memory::new on {} with {min}..{max:?} pages of {page:?} bytes (64-bit: {is64}): {r:?}", be.0), "") }
        if let Ok(Ok((n, ..))) = r { l.states.insert(hash(&("created", n, p))); }
    } } } }
}

pub fn run(c: &Check) {
    let bes = backends::all();
    let t = std::time::Instant::now();
    macro_rules! tick { ($n:literal) => { if std::env::var_os("MC_TIMES").is_some() { eprintln!("{} {:.1}s", $n, t.elapsed().as_secs_f64()) } } }
    let shs = shapes(!c.quick());
    c.par(bes.len() * shs.len(), |j, l| single(c, l, bes[j % bes.len()], shs[j / bes.len()]));
    tick!("a");
    c.bound(format!("(a) every operation × offsets and lengths around every boundary (up to usize::MAX) on {} memory shapes × {} backends", shs.len(), bes.len()));
    let depth = c.pick(2, 3);
    let n = 8usize;
    let hs: Vec<Shape> = [(false, false), (true, true), (true, false)].into_iter().map(|(is64, host)| Shape { pages: n as u64, max: Some(n as u64 + 3), page: Some(1), is64, host }).collect();
    let ops = history_ops(n);
    let hs = if c.quick() { &hs[..2] } else { &hs[..] };
    c.par(bes.len() * hs.len() * ops.len(), |j, l| history(c, l, bes[j % bes.len()], hs[j / bes.len() % hs.len()], &[ops[j / bes.len() / hs.len()].clone()], &ops, depth - 1));
    if c.quick() {
        // one backend per family to depth 3
        let few: Vec<_> = bes.iter().filter(|b| ["vec", "paged(4)"].contains(&b.0)).copied().collect();
        c.par(few.len() * ops.len(), |j, l| history(c, l, few[j % few.len()], hs[0], &[ops[j / few.len()].clone()], &ops, 2));
    }
    tick!("b");
    c.bound(format!("(b) every history of length {depth} (3 on two backends) over {} host and guest actions × {} shapes × {} backends", ops.len(), hs.len(), bes.len()));
    let cs = Shape { pages: 9, max: Some(9), page: Some(1), is64: false, host: true };
    let z = Shape { pages: 0, ..cs };
    let mut first = cursor_ops(9);
    first.extend([0, 3, 8, 9, 10, 1 << 40, u64::MAX].map(COp::At));
    let cd = c.pick(3, 4);
    let cb: Vec<_> = if c.quick() { bes.iter().filter(|b| ["vec", "paged(2)", "paged(4)", "lazy vec", "user short(3)"].contains(&b.0)).copied().collect() } else { bes.clone() };
    c.par(cb.len() * first.len() * 2, |j, l| cursors(c, l, cb[j % cb.len()], if j / cb.len() % 2 == 0 { cs } else { z }, &first[j / cb.len() / 2], cd));
    tick!("c");
    c.bound(format!("(c) every cursor history of length {cd} over {} operations on 9-byte and empty memories × {} backends", cursor_ops(9).len(), cb.len()));
    let tb: Vec<_> = bes.iter().filter(|b| ["vec", "paged(2)"].contains(&b.0)).copied().collect();
    let (nl, wl) = (c.pick(3, 4), c.pick(3, 4));
    let nsym = [0u16, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
    let wsym = [0u16, 0x41, 0xff, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff];
    c.par(tb.len() * nsym.len(), |j, l| texts(c, l, tb[j % tb.len()], nsym[j / tb.len()], nl, false));
    c.par(tb.len() * wsym.len(), |j, l| texts(c, l, tb[j % tb.len()], wsym[j / tb.len()], wl, true));
    if c.quick() { c.par(nsym.len(), |j, l| if [0xf0, 0xf4, 0xed, 0xe0].contains(&nsym[j]) { texts(c, l, tb[0], nsym[j], 4, false) }) }
    tick!("d");
    c.bound(format!("(d) every byte string of length {nl} over 19 UTF-8 boundary bytes (4 after each multi-byte lead) and every UTF-16 string of length {wl} over 10 boundary units, through every offset and length of every reader"));
    // (the user backends of this harness do not refuse absurd sizes themselves)
    let own: Vec<_> = bes.iter().filter(|b| !b.0.starts_with("user")).copied().collect();
    c.par(own.len(), |j, l| creation(c, l, own[j]));
    tick!("e");
    c.bound("(e) Memory::new with every combination of 8 minima, 9 maxima, 10 page sizes and both index types");
    c.assume("short transfers are allowed by Memory::read/write (documented) as long as progress is made while bytes are available");
    c.assume("read_js_string of an odd number of bytes may be refused or read the whole units");
}
