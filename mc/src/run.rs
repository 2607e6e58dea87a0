//! Binding to the implementation under test: value conversion, trap classification, panic containment.
use crate::num::Trap;
use crate::oracle::NULL;
use crate::wasm::*;
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::types::{ExternRef, FuncRef, WasmType, WasmValue};

pub fn wt(t: VT) -> WasmType { match t { VT::I32 => WasmType::I32, VT::I64 => WasmType::I64, VT::F32 => WasmType::F32, VT::F64 => WasmType::F64, VT::V128 => WasmType::V128, VT::Func => WasmType::RefFunc, VT::Ext => WasmType::RefExtern } }
pub fn to_wv(t: VT, v: u128) -> WasmValue {
    match t {
        VT::I32 => WasmValue::I32(v as u32 as i32), VT::I64 => WasmValue::I64(v as u64 as i64), VT::F32 => WasmValue::F32(f32::from_bits(v as u32)), VT::F64 => WasmValue::F64(f64::from_bits(v as u64)),
        VT::V128 => WasmValue::V128(v.to_le_bytes()),
        VT::Func => WasmValue::RefFunc(FuncRef::new((v != NULL).then_some(v as u32))), VT::Ext => WasmValue::RefExtern(ExternRef::new((v != NULL).then_some(v as u32))),
    }
}
pub fn from_wv(v: &WasmValue) -> (VT, u128) {
    match v {
        WasmValue::I32(x) => (VT::I32, *x as u32 as u128), WasmValue::I64(x) => (VT::I64, *x as u64 as u128), WasmValue::F32(x) => (VT::F32, x.to_bits() as u128), WasmValue::F64(x) => (VT::F64, x.to_bits() as u128),
        WasmValue::V128(b) => (VT::V128, u128::from_le_bytes(*b)),
        WasmValue::RefFunc(r) => (VT::Func, r.addr().map_or(NULL, |a| a as u128)), WasmValue::RefExtern(r) => (VT::Ext, r.addr().map_or(NULL, |a| a as u128)),
    }
}
pub fn args_wv(tys: &[VT], a: &[u128]) -> Vec<WasmValue> { tys.iter().zip(a).map(|(t, v)| to_wv(*t, *v)).collect() }

/// What a call into the implementation ended with.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Out { Vals(Vec<u128>), Trap(Trap), Link(String), Err(String), Panic(String) }

pub fn trap_of(t: &tinywasm::Trap) -> Trap {
    use tinywasm::Trap as T;
    match t {
        T::Unreachable => Trap::Unreachable, T::MemoryOutOfBounds { .. } => Trap::MemOob, T::TableOutOfBounds { .. } => Trap::TableOob, T::DivisionByZero => Trap::DivZero, T::IntegerOverflow => Trap::IntOverflow,
        T::InvalidConversionToInt => Trap::InvalidConv, T::CallStackOverflow => Trap::CallStack, T::ValueStackOverflow => Trap::ValueStack, T::UndefinedElement { .. } => Trap::UndefinedElem, T::UninitializedElement { .. } => Trap::UninitElem,
        T::IndirectCallTypeMismatch { .. } => Trap::IndirectMismatch, T::OutOfMemory => Trap::Oom, T::HostFunction(e) => Trap::Host(e.to_string()), t => Trap::Other(t.message().into()),
    }
}
pub fn err_out(e: tinywasm::Error) -> Out {
    match e { tinywasm::Error::Trap(t) => Out::Trap(trap_of(&t)), tinywasm::Error::Linker(l) => Out::Link(l.message().into()), e => Out::Err(e.to_string()) }
}
pub fn vals_out(tys: Option<&[VT]>, r: tinywasm::Result<Vec<WasmValue>>) -> Out {
    match r {
        Ok(v) => {
            let c: Vec<_> = v.iter().map(from_wv).collect();
            if let Some(t) = tys { if c.len() != t.len() || c.iter().zip(t).any(|(a, b)| a.0 != *b) { return Out::Err(format!("result types {:?}, declared {t:?}", c.iter().map(|x| x.0).collect::<Vec<_>>())); } }
            Out::Vals(c.into_iter().map(|x| x.1).collect())
        }
        Err(e) => err_out(e),
    }
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; static QUIET: RefCell<bool> = const { RefCell::new(false) }; }
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| *q.borrow()) {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let at = i.location().map(|l| { let f = l.file(); format!("{}:{}", f.rsplit("/crates/").next().unwrap_or(f), l.line()) }).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {at}")));
        } else { old(i) }
    }));
}
/// Runs implementation code; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Opts { pub rewrite: bool, pub memopt: bool, pub validate: bool, pub threads: usize }
impl Opts {
    pub const ON: Opts = Opts { rewrite: true, memopt: true, validate: true, threads: 1 };
    pub const OFF: Opts = Opts { rewrite: false, memopt: true, validate: true, threads: 1 };
    pub fn parser(&self) -> Parser {
        let o = ParserOptions::default().with_rewrite_optimization(self.rewrite).with_local_memory_allocation_optimization(self.memopt).with_validation(self.validate);
        Parser::with_options(if self.threads == 0 { o } else { o.with_parser_threads(self.threads) })
    }
}
pub fn parse(bytes: &[u8], o: Opts) -> Result<tinywasm::Module, String> {
    match guard(|| o.parser().parse_module_bytes(bytes)) { Ok(Ok(m)) => Ok(m), Ok(Err(e)) => Err(format!("error: {e}")), Err(p) => Err(format!("panic: {p}")) }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
