//! Conformance of the reference interpreter: runs the assertions of the official WebAssembly test suite
//! (as packaged in the wasm-testsuite crate) on `mc::oracle`.
use mc::num::Trap;
use mc::oracle::*;
use mc::wasm::*;
use std::collections::HashMap;
use std::rc::Rc;
use wast::core::{NanPattern, V128Pattern, WastArgCore, WastRetCore};
use wast::{QuoteWat, WastArg, WastDirective, WastExecute, WastInvoke, WastRet};

struct Run { st: RStore, regs: HashMap<String, usize>, names: HashMap<String, usize>, last: Option<usize>, spectest: usize }
fn arg(a: &WastArg) -> Option<u128> {
    let WastArg::Core(a) = a else { return None };
    Some(match a {
        WastArgCore::I32(v) => *v as u32 as u128, WastArgCore::I64(v) => *v as u64 as u128, WastArgCore::F32(v) => v.bits as u128, WastArgCore::F64(v) => v.bits as u128,
        WastArgCore::V128(v) => u128::from_le_bytes(v.to_le_bytes()), WastArgCore::RefNull(_) => NULL, WastArgCore::RefExtern(x) => *x as u128, _ => return None,
    })
}
fn f32ok(p: &NanPattern<wast::token::F32>, v: u32) -> bool { match p { NanPattern::CanonicalNan => v & 0x7fff_ffff == 0x7fc0_0000, NanPattern::ArithmeticNan => v & 0x7fc0_0000 == 0x7fc0_0000, NanPattern::Value(x) => x.bits == v } }
fn f64ok(p: &NanPattern<wast::token::F64>, v: u64) -> bool { match p { NanPattern::CanonicalNan => v & (u64::MAX >> 1) == 0x7ff8 << 48, NanPattern::ArithmeticNan => v & 0x7ff8 << 48 == 0x7ff8 << 48, NanPattern::Value(x) => x.bits == v } }
fn ret_ok(r: &WastRet, v: u128) -> bool { let WastRet::Core(r) = r else { return false }; core_ok(r, v) }
fn core_ok(r: &WastRetCore, v: u128) -> bool {
    match r {
        WastRetCore::I32(x) => *x as u32 as u128 == v, WastRetCore::I64(x) => *x as u64 as u128 == v, WastRetCore::F32(p) => f32ok(p, v as u32), WastRetCore::F64(p) => f64ok(p, v as u64),
        WastRetCore::V128(p) => match p {
            V128Pattern::I8x16(l) => (0..16).all(|i| (v >> (8 * i)) as u8 as i8 == l[i]), V128Pattern::I16x8(l) => (0..8).all(|i| (v >> (16 * i)) as i16 == l[i]),
            V128Pattern::I32x4(l) => (0..4).all(|i| (v >> (32 * i)) as i32 == l[i]), V128Pattern::I64x2(l) => (0..2).all(|i| (v >> (64 * i)) as i64 == l[i]),
            V128Pattern::F32x4(l) => (0..4).all(|i| f32ok(&l[i], (v >> (32 * i)) as u32)), V128Pattern::F64x2(l) => (0..2).all(|i| f64ok(&l[i], (v >> (64 * i)) as u64)),
        },
        WastRetCore::RefNull(_) => v == NULL, WastRetCore::RefExtern(Some(x)) => *x as u128 == v, WastRetCore::RefExtern(None) | WastRetCore::RefFunc(_) => v != NULL,
        WastRetCore::Either(o) => o.iter().any(|r| core_ok(r, v)),
        _ => false,
    }
}
fn trap_ok(t: &Trap, msg: &str) -> bool {
    let m = match t {
        Trap::Unreachable => "unreachable", Trap::MemOob => "out of bounds memory access", Trap::TableOob => "out of bounds table access", Trap::DivZero => "integer divide by zero", Trap::IntOverflow => "integer overflow",
        Trap::InvalidConv => "invalid conversion to integer", Trap::CallStack => "call stack exhausted", Trap::UndefinedElem => "undefined element", Trap::UninitElem => "uninitialized element", Trap::IndirectMismatch => "indirect call type mismatch", _ => "?",
    };
    msg.starts_with(m) || m.starts_with(msg)
}
impl Run {
    fn module(&mut self, q: &mut QuoteWat) -> Result<Result<usize, InstErr>, String> {
        let bytes = q.encode().map_err(|e| format!("encode {e}"))?;
        let m = Rc::new(decode(&bytes)?);
        // the encoder and the decoder must agree
        if decode(&encode(&m))? != *m { return Err("re-encoding differs".into()); }
        let imports: Vec<Option<Ext>> = m.imports.iter().map(|i| self.regs.get(&i.module).and_then(|x| self.st.export(*x, &i.name))).collect();
        self.st.budget = u64::MAX;
        Ok(self.st.instantiate(&m, &imports))
    }
    fn invoke(&mut self, i: &WastInvoke) -> Result<Result<Vec<u128>, Trap>, String> {
        let inst = match &i.module { Some(n) => *self.names.get(n.name()).ok_or("name")?, None => self.last.ok_or("no module")? };
        let args = i.args.iter().map(arg).collect::<Option<Vec<_>>>().ok_or("args")?;
        let Some(Ext::Func(f)) = self.st.export(inst, i.name) else { return Err("no func".into()) };
        self.st.depth = 0;
        Ok(self.st.invoke(f, &args))
    }
}
fn main() { std::thread::Builder::new().stack_size(2 << 30).spawn(real).unwrap().join().unwrap() }
fn real() {
    let (mut pass, mut fail, mut skip) = (0u64, 0u64, 0u64);
    let filter = std::env::args().nth(1);
    let files: Vec<_> = wasm_testsuite::data::spec(wasm_testsuite::data::SpecVersion::V2).chain(wasm_testsuite::data::spec(wasm_testsuite::data::SpecVersion::V3)).chain(wasm_testsuite::data::Proposal::all().iter().flat_map(|p| wasm_testsuite::data::proposal(p.clone()))).collect();
    for f in files {
        if filter.as_ref().is_some_and(|x| !f.name().contains(x.as_str())) { continue; }
        let Ok(w) = f.wast() else { continue };
        let Ok(ds) = w.directives() else { continue };
        let mut st = RStore::new();
        st.max_depth = 2000;
        let mut m = Module::default();
        for (n, p) in [("print", vec![]), ("print_i32", vec![VT::I32]), ("print_i64", vec![VT::I64]), ("print_f32", vec![VT::F32]), ("print_f64", vec![VT::F64]), ("print_i32_f32", vec![VT::I32, VT::F32]), ("print_f64_f64", vec![VT::F64, VT::F64])] { let i = m.func(&p, &[], &[], vec![]); m.export(n, EK::Func, i); }
        for (n, t, v) in [("global_i32", VT::I32, Op::I32C(666)), ("global_i64", VT::I64, Op::I64C(666)), ("global_f32", VT::F32, Op::F32C(666.6f32.to_bits())), ("global_f64", VT::F64, Op::F64C(666.6f64.to_bits()))] { let g = m.global(t, false, v); m.export(n, EK::Global, g); }
        let t = m.table(VT::Func, Limits::new(10, Some(20))); m.export("table", EK::Table, t);
        let t = m.mem(Limits::new(1, Some(2))); m.export("memory", EK::Mem, t);
        let spectest = st.instantiate(&Rc::new(m), &[]).unwrap();
        let mut r = Run { st, regs: HashMap::from([("spectest".into(), spectest)]), names: HashMap::new(), last: None, spectest };
        let _ = r.spectest;
        for d in ds {
            let span = d.span().linecol_in(f.raw());
            let mut bad = |s: String, fail: &mut u64| { *fail += 1; if *fail < 60 { println!("FAIL {}:{} {s}", f.name(), span.0 + 1) } };
            match d {
                WastDirective::Module(mut q) => {
                    let name = q.name().map(|n| n.name().to_string());
                    match r.module(&mut q) { Ok(Ok(i)) => { r.last = Some(i); if let Some(n) = name { r.names.insert(n, i); } } Ok(Err(e)) => bad(format!("module {e:?}"), &mut fail), Err(_) => { r.last = None; skip += 1 } }
                }
                WastDirective::Register { name, module, .. } => { let i = match module { Some(n) => r.names.get(n.name()).copied(), None => r.last }; if let Some(i) = i { r.regs.insert(name.to_string(), i); } }
                WastDirective::Invoke(i) => match r.invoke(&i) { Ok(Ok(_)) => pass += 1, Ok(Err(e)) => bad(format!("{e:?}"), &mut fail), Err(_) => skip += 1 },
                WastDirective::AssertReturn { exec, results, .. } => {
                    let got = match exec {
                        WastExecute::Invoke(i) => r.invoke(&i),
                        WastExecute::Get { module, global, .. } => { let inst = match module { Some(n) => r.names.get(n.name()).copied(), None => r.last }; match inst.and_then(|i| r.st.export(i, global)) { Some(Ext::Global(g)) => Ok(Ok(vec![r.st.globals[g].v])), _ => Err("get".into()) } }
                        _ => Err("wat".into()),
                    };
                    match got { Ok(Ok(v)) => if v.len() == results.len() && results.iter().zip(&v).all(|(r, v)| ret_ok(r, *v)) { pass += 1 } else { bad(format!("got {v:x?} want {results:?}"), &mut fail) }, Ok(Err(e)) => bad(format!("trap {e:?}"), &mut fail), Err(_) => skip += 1 }
                }
                WastDirective::AssertTrap { exec, message, .. } => {
                    let got = match exec {
                        WastExecute::Invoke(i) => r.invoke(&i).map(|r| r.map(|_| ())),
                        WastExecute::Wat(wast::Wat::Module(mm)) => { let mut q = QuoteWat::Wat(wast::Wat::Module(mm)); r.module(&mut q).map(|x| match x { Ok(_) => Ok(()), Err(InstErr::Trap(t)) => Err(t), Err(e) => Err(Trap::Other(format!("{e:?}"))) }) }
                        _ => Err("x".into()),
                    };
                    match got { Ok(Err(t)) if trap_ok(&t, message) => pass += 1, Ok(x) => bad(format!("want trap {message}, got {x:?}"), &mut fail), Err(_) => skip += 1 }
                }
                WastDirective::AssertExhaustion { call, .. } => match r.invoke(&call) { Ok(Err(Trap::CallStack)) => pass += 1, Ok(x) => bad(format!("want exhaustion, got {x:?}"), &mut fail), Err(_) => skip += 1 },
                WastDirective::AssertUnlinkable { module, .. } => { if let wast::Wat::Module(mm) = module { let mut q = QuoteWat::Wat(wast::Wat::Module(mm)); match r.module(&mut q) { Ok(Err(InstErr::Unknown | InstErr::Incompatible)) => pass += 1, Ok(x) => bad(format!("want unlinkable, got {x:?}"), &mut fail), Err(_) => skip += 1 } } }
                _ => {}
            }
        }
    }
    println!("oracle conformance: pass={pass} fail={fail} skipped={skip}");
    std::process::exit((fail > 0) as i32);
}
