//! Modules that together use every section, segment form, import and export kind, and tools to take the binaries apart.
use crate::wasm::*;
use VT::{F32, F64, I32, I64, V128};

/// One module per aspect of the binary format; each is valid, small and different in every part.
pub fn small() -> Vec<(&'static str, Vec<u8>)> {
    let mut out: Vec<(&'static str, Vec<u8>)> = vec![("empty", b"\0asm\x01\0\0\0".to_vec())];
    // everything at once
    let mut m = Module::default();
    let imp = m.import_func("env", "f", &[I32, I64], &[F32]);
    let tg = m.ty(&[], &[I32]);
    m.imports.push(Import { module: "env".into(), name: "t".into(), kind: ImportKind::Table(VT::Func, Limits::new(2, Some(9))) });
    m.imports.push(Import { module: "".into(), name: "mémoire".into(), kind: ImportKind::Mem(Limits::new(1, Some(4))) });
    m.imports.push(Import { module: "g".into(), name: "".into(), kind: ImportKind::Global(I32, false) });
    m.imports.push(Import { module: "g".into(), name: "m".into(), kind: ImportKind::Global(V128, true) });
    let t = m.table(VT::Ext, Limits::new(1, None));
    let mem = m.mem(Limits::new(1, Some(2)));
    let g = m.global(F64, true, Op::F64C(0x3ff8_0000_0000_0001));
    let g2 = m.global(VT::Func, false, Op::RefFunc(imp + 1));
    let f1 = m.func(&[], &[I32], &[I32, I64, V128, F32, F32], vec![
        Op::Block(BT::Empty), Op::Block(BT::Empty), Op::LGet(0), Op::BrTable(vec![0, 1, 0].into(), 1), Op::End, Op::I32C(-7), Op::Return, Op::End,
        Op::LGet(0), Op::Mem { op: 0x28, m: MA { align: 2, offset: 65535, mem } },
    ]);
    let f2 = m.func(&[I32], &[V128], &[], vec![Op::VConst(0x0f0e0d0c0b0a09080706050403020100), Op::LGet(0), Op::V(17), Op::Shuffle([0, 1, 2, 3, 20, 21, 22, 23, 8, 9, 10, 11, 28, 29, 30, 31])]);
    let f3 = m.func(&[], &[], &[], vec![Op::I32C(0), Op::I32C(0), Op::I32C(1), Op::MemInit { data: 1, mem }, Op::DataDrop(1), Op::I32C(1), Op::CallIndirect { ty: tg, table: 0 }, Op::Drop, Op::F64C(0x4000_0000_0000_0000), Op::GSet(g)]);
    let f4 = m.func(&[], &[I32], &[], vec![Op::ReturnCall(f1)]);
    for (n, k, i) in [("f1", EK::Func, f1), ("zwei", EK::Func, f2), ("", EK::Func, f3), ("f4", EK::Func, f4), ("t", EK::Table, t), ("m", EK::Mem, mem), ("g", EK::Global, g), ("h", EK::Global, g2)] { m.export(n, k, i) }
    m.start = Some(f3);
    m.elems.push(Elem { mode: SegMode::Active { idx: 0, offset: vec![Op::I32C(1)] }, ty: VT::Func, items: vec![vec![Op::RefFunc(f1)]] });
    m.elems.push(Elem { mode: SegMode::Passive, ty: VT::Ext, items: vec![vec![Op::RefNull(VT::Ext)]] });
    m.elems.push(Elem { mode: SegMode::Declared, ty: VT::Func, items: vec![vec![Op::RefFunc(f2)], vec![Op::RefNull(VT::Func)]] });
    m.datas.push(Data { mode: SegMode::Active { idx: mem, offset: vec![Op::GGet(0)] }, bytes: b"active".to_vec() });
    m.datas.push(Data { mode: SegMode::Passive, bytes: vec![1, 2, 3] });
    out.push(("everything", encode(&m)));
    COMPACT.set(true);
    m.elems.push(Elem { mode: SegMode::Passive, ty: VT::Func, items: vec![vec![Op::RefFunc(f4)]] });
    out.push(("everything compact", encode(&m)));
    COMPACT.set(false);
    // code only, no data count
    let mut m = Module::default();
    for k in 0..4 { m.func(&[I32], &[I32], &[], vec![Op::LGet(0), Op::I32C(k * 1000), num("i32.add")]); }
    m.export("a", EK::Func, 0);
    out.push(("code", encode(&m)));
    // 64-bit memory and table, small pages, multi-value, tail calls, sat, wide, bulk
    let mut m = Module::default();
    let ty = m.ty(&[I64, I64], &[I64, I64]);
    let bt = m.ty(&[I32], &[I32, I64]);
    let m64 = m.mem(Limits { min: 3, max: Some(1 << 20), is64: true, page_log2: Some(0) });
    let t64 = m.table(VT::Func, Limits::new64(3, Some(5)));
    let a = m.func(&[I64, I64], &[I64, I64], &[], vec![Op::LGet(0), Op::LGet(0), Op::LGet(1), Op::LGet(1), Op::Wide(0x13)]);
    m.func(&[I64, I64], &[I64, I64], &[], vec![Op::LGet(0), Op::LGet(1), Op::I64C(2), Op::ReturnCallIndirect { ty, table: t64 }]);
    m.func(&[F32], &[I32, I64], &[], vec![Op::LGet(0), Op::Sat(0), Op::Block(BT::Type(bt)), Op::I64C(i64::MIN), Op::End, Op::I64C(5), Op::I32C(9), Op::I64C(1), Op::MemFill(m64)]);
    m.elems.push(Elem { mode: SegMode::Active { idx: t64, offset: vec![Op::I64C(2)] }, ty: VT::Func, items: vec![vec![Op::RefFunc(a)]] });
    m.datas.push(Data { mode: SegMode::Active { idx: m64, offset: vec![Op::I64C(1), Op::I64C(1), num("i64.add")] }, bytes: b"x".to_vec() });
    m.export("mem", EK::Mem, m64);
    out.push(("wide", encode(&m)));
    out
}

/// The sections of a binary module as (id, contents).
pub fn sections(b: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let (mut p, mut v) = (8, vec![]);
    while p < b.len() {
        let id = b[p];
        let mut r = Rd { b, p: p + 1 };
        let n = r.u().unwrap() as usize;
        v.push((id, r.bytes(n).unwrap().to_vec()));
        p = r.p;
    }
    v
}
pub fn join(s: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    for (id, c) in s { o.push(*id); uleb(&mut o, c.len() as u64); o.extend(c) }
    o
}
/// Puts a custom section in front of every section and at the end.
pub fn customised(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for (i, s) in sections(b).into_iter().enumerate() { v.push((0, [&[2u8, b'c', b'0' + i as u8][..], &vec![0xa5; i]].concat())); v.push(s) }
    v.push((0, vec![0]));
    join(&v)
}
/// The code section's bodies (each with its length prefix removed).
pub fn bodies(code: &[u8]) -> Vec<Vec<u8>> {
    let mut r = Rd { b: code, p: 0 };
    let n = r.u().unwrap();
    (0..n).map(|_| { let k = r.u().unwrap() as usize; r.bytes(k).unwrap().to_vec() }).collect()
}
pub fn code(bodies: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    uleb(&mut o, bodies.len() as u64);
    for b in bodies { uleb(&mut o, b.len() as u64); o.extend(b) }
    o
}
