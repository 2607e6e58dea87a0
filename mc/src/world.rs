//! Lockstep worlds: the reference store and a real `Store` built side by side from the same modules and
//! driven through the same actions; after every action the whole observable state is compared.
use crate::num::Trap;
use crate::oracle::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use tinywasm::types::{GlobalType, MemoryArch, MemoryType, TableType, WasmValue};
use tinywasm::{Extern, FuncContext, Function, Global, HostFunction, Imports, LinkingError, Memory, ModuleInstance, Store, Table};

/// A module in both forms.
#[derive(Clone)]
pub struct Def { pub rm: Rc<Module>, pub tm: tinywasm::Module, pub bytes: Rc<Vec<u8>> }
impl Def {
    pub fn new(m: &Module, o: Opts) -> Result<Def, String> {
        let bytes = encode(m);
        let tm = parse(&bytes, o).map_err(|e| format!("valid module not accepted: {e}; {}", hex(&bytes)))?;
        Ok(Def { rm: Rc::new(m.clone()), tm, bytes: Rc::new(bytes) })
    }
}
/// Exports every memory, table, global and function of the module as m<i>, t<i>, g<i>, f<i>.
pub fn export_all(m: &mut Module) {
    for i in 0..m.all_mems().len() { m.export(&format!("m{i}"), EK::Mem, i as u32) }
    for i in 0..m.all_globals().len() { m.export(&format!("g{i}"), EK::Global, i as u32) }
    for i in 0..m.all_tables().len() { m.export(&format!("t{i}"), EK::Table, i as u32) }
    let n = m.n_imp(EK::Func) as usize + m.funcs.len();
    for i in 0..n { m.export(&format!("f{i}"), EK::Func, i as u32) }
}
pub fn mem_ty(l: &Limits) -> MemoryType { MemoryType::new(if l.is64 { MemoryArch::I64 } else { MemoryArch::I32 }, l.min, l.max, l.page_log2.map(|p| 1 << p)) }

/// The correspondence between reference function addresses and the implementation's, learned by use.
#[derive(Default)]
pub struct FMap { to_ref: HashMap<u32, usize>, to_real: HashMap<usize, u32> }
impl FMap {
    /// The reference value of a real reference, given the value the reference model expects here.
    pub fn canon(&mut self, got: u128, want: u128) -> u128 {
        if got == NULL { return NULL; }
        let g = got as u32;
        if let Some(r) = self.to_ref.get(&g) { return *r as u128; }
        if want != NULL && !self.to_real.contains_key(&(want as usize)) { self.to_ref.insert(g, want as usize); self.to_real.insert(want as usize, g); return want; }
        u128::MAX - 1 - got
    }
    pub fn real(&self, r: u128) -> u128 { if r == NULL { NULL } else { *self.to_real.get(&(r as usize)).unwrap_or_else(|| panic!("reference {r} has not been observed")) as u128 } }
    pub fn knows(&self, r: u128) -> bool { r == NULL || self.to_real.contains_key(&(r as usize)) }
}

pub type Shared<T> = Rc<RefCell<T>>;
pub struct World {
    pub rs: RStore, pub store: Store,
    /// (reference instance, real instance)
    pub insts: Vec<(usize, ModuleInstance)>,
    pub mems: Vec<(usize, Memory)>, pub tables: Vec<(usize, Table)>, pub globals: Vec<(usize, Global)>,
    pub funcs: HashMap<usize, Function>,
    pub fmap: Shared<FMap>,
    /// what the host functions of the implementation saw; compared with `rs.log`
    pub log: Shared<Vec<String>>,
    pub trace: Vec<String>,
}
#[derive(Clone)]
pub enum Item { Func(usize, Function), Table(usize, Table), Mem(usize, Memory), Global(usize, Global) }
impl Item {
    pub fn ext(&self) -> Ext { match self { Item::Func(a, _) => Ext::Func(*a), Item::Table(a, _) => Ext::Table(*a), Item::Mem(a, _) => Ext::Mem(*a), Item::Global(a, _) => Ext::Global(*a) } }
    pub fn real(&self) -> Extern { match self { Item::Func(_, x) => x.clone().into(), Item::Table(_, x) => (*x).into(), Item::Mem(_, x) => (*x).into(), Item::Global(_, x) => (*x).into() } }
}

pub type RHost = Rc<dyn Fn(&mut RStore, usize, &[u128]) -> Result<Vec<u128>, Trap>>;
pub type THost = Rc<dyn Fn(FuncContext<'_>, &[u128]) -> Result<Vec<u128>, tinywasm::Error>>;

impl World {
    pub fn new(cfg: tinywasm::engine::Config) -> World { Self::on(Store::new(tinywasm::Engine::new(cfg))) }
    pub fn on(store: Store) -> World {
        let mut rs = RStore::new();
        rs.max_depth = 900;
        rs.budget = 1_000_000;
        World { rs, store, insts: vec![], mems: vec![], tables: vec![], globals: vec![], funcs: HashMap::new(), fmap: Default::default(), log: Default::default(), trace: vec![] }
    }
    pub fn host_mem(&mut self, l: Limits) -> Result<Item, String> {
        let h = Memory::new(&mut self.store, mem_ty(&l)).map_err(|e| format!("Memory::new: {e}"))?;
        self.rs.mems.push(RMem::new(l));
        let a = self.rs.mems.len() - 1;
        self.mems.push((a, h));
        Ok(Item::Mem(a, h))
    }
    pub fn host_global(&mut self, ty: VT, mutable: bool, v: u128) -> Result<Item, String> {
        let real = if ty == VT::Func { self.fmap.borrow().real(v) } else { v };
        let h = Global::new(&mut self.store, GlobalType::default().with_ty(wt(ty)).with_mutable(mutable), to_wv(ty, real)).map_err(|e| format!("Global::new: {e}"))?;
        self.rs.globals.push(RGlobal { ty, mutable, v });
        let a = self.rs.globals.len() - 1;
        self.globals.push((a, h));
        Ok(Item::Global(a, h))
    }
    pub fn host_table(&mut self, ty: VT, lim: Limits, init: u128) -> Result<Item, String> {
        let real = if ty == VT::Func { self.fmap.borrow().real(init) } else { init };
        let h = Table::new(&mut self.store, TableType::new(wt(ty), lim.min, lim.max), to_wv(ty, real)).map_err(|e| format!("Table::new: {e}"))?;
        self.rs.tables.push(RTable { ty, lim, elems: vec![init; lim.min as usize] });
        let a = self.rs.tables.len() - 1;
        self.tables.push((a, h));
        Ok(Item::Table(a, h))
    }
    /// A host function with one behaviour for each side; both sides see and return reference-model bits.
    pub fn host_fn(&mut self, params: &[VT], results: &[VT], r: RHost, t: THost) -> Item {
        let (rt, ps) = (results.to_vec(), params.to_vec());
        let ty = tinywasm::types::FuncType::new(&params.iter().map(|t| wt(*t)).collect::<Vec<_>>(), &results.iter().map(|t| wt(*t)).collect::<Vec<_>>());
        let fmap = self.fmap.clone();
        let f = HostFunction::from_untyped(&mut self.store, &ty, move |ctx, args| {
            let raw: Vec<u128> = args.iter().zip(&ps).map(|(a, p)| { let (t, v) = from_wv(a); assert_eq!(t, *p, "host argument type"); v }).collect();
            let out = t(ctx, &raw)?;
            Ok(out.iter().zip(&rt).map(|(v, t)| to_wv(*t, if *t == VT::Func { fmap.borrow().real(*v) } else { *v })).collect())
        });
        let Ext::Func(a) = self.rs.host(params, results, move |s, c, v| r(s, c, v)) else { unreachable!() };
        self.funcs.insert(a, f.clone());
        Item::Func(a, f)
    }
    /// A host function that records its arguments and returns fixed values or an error.
    pub fn host_log(&mut self, name: &'static str, params: &[VT], results: &[VT], out: Result<Vec<u128>, &'static str>) -> Item {
        let (o2, log) = (out.clone(), self.log.clone());
        self.host_fn(params, results,
            Rc::new(move |s, _, a| { s.log.push(format!("{name}{a:x?}")); out.clone().map_err(|e| Trap::Host(e.into())) }),
            Rc::new(move |_, a| { log.borrow_mut().push(format!("{name}{a:x?}")); o2.clone().map_err(|e| tinywasm::Error::Other(e.into())) }))
    }
    pub fn item(&self, i: usize, name: &str) -> Item {
        let (ri, inst) = &self.insts[i];
        match self.rs.export(*ri, name).unwrap_or_else(|| panic!("export {name}")) {
            Ext::Func(a) => Item::Func(a, inst.func_untyped(&self.store, name).unwrap_or_else(|e| panic!("func {name}: {e}"))),
            Ext::Table(a) => Item::Table(a, inst.table(name).unwrap_or_else(|e| panic!("table {name}: {e}"))),
            Ext::Mem(a) => Item::Mem(a, inst.memory(name).unwrap_or_else(|e| panic!("memory {name}: {e}"))),
            Ext::Global(a) => Item::Global(a, inst.global(name).unwrap_or_else(|e| panic!("global {name}: {e}"))),
        }
    }
    pub fn track(&mut self, i: usize) {
        let (ri, inst) = self.insts[i].clone();
        for e in self.rs.insts[ri].module.clone().exports.iter() {
            match self.rs.export(ri, &e.name).unwrap() {
                Ext::Mem(a) => if !self.mems.iter().any(|m| m.0 == a) { self.mems.push((a, inst.memory(&e.name).expect("exported memory"))) },
                Ext::Table(a) => if !self.tables.iter().any(|m| m.0 == a) { self.tables.push((a, inst.table(&e.name).expect("exported table"))) },
                Ext::Global(a) => if !self.globals.iter().any(|m| m.0 == a) { self.globals.push((a, inst.global(&e.name).expect("exported global"))) },
                Ext::Func(a) => if !self.funcs.contains_key(&a) { let f = inst.func_untyped(&self.store, &e.name).expect("exported function"); self.funcs.insert(a, f); },
            }
        }
    }
    pub fn imports(d: &Def, items: &[Option<Item>]) -> Imports {
        let mut imps = Imports::new();
        for (imp, it) in d.rm.imports.iter().zip(items) { if let Some(x) = it { imps.define(&imp.module, &imp.name, x.real()); } }
        imps
    }
    /// Instantiates on both sides. Ok(Some(index)) if both succeed, Ok(None) if both fail the same way.
    pub fn instantiate(&mut self, d: &Def, items: &[Option<Item>], start: bool) -> Result<Option<usize>, String> {
        let imps = Self::imports(d, items);
        let exts: Vec<Option<Ext>> = items.iter().map(|x| x.as_ref().map(|i| i.ext())).collect();
        self.instantiate_with(d, imps, &exts, start)
    }
    pub fn instantiate_with(&mut self, d: &Def, imps: Imports, exts: &[Option<Ext>], start: bool) -> Result<Option<usize>, String> {
        let want = self.rs.instantiate_opt(&d.rm, exts, start);
        let store = &mut self.store;
        let got = guard(|| if start { ModuleInstance::instantiate(store, &d.tm, Some(imps)) } else { ModuleInstance::instantiate_no_start(store, &d.tm, Some(imps)) }).map_err(|p| format!("instantiation panicked: {p}; expected {:?}", want))?;
        let show = |e: &tinywasm::Error| format!("{e}");
        match (want, got) {
            (Ok(ri), Ok(inst)) => { self.insts.push((ri, inst)); self.track(self.insts.len() - 1); Ok(Some(self.insts.len() - 1)) }
            (Ok(_), Err(e)) => Err(format!("instantiation failed: {}", show(&e))),
            (Err(e), Ok(_)) => Err(format!("instantiation succeeded, expected {e:?}")),
            (Err(w), Err(e)) => {
                let ok = match (&w, &e) {
                    (InstErr::Unknown, tinywasm::Error::Linker(LinkingError::UnknownImport { .. })) => true,
                    (InstErr::Incompatible, tinywasm::Error::Linker(LinkingError::IncompatibleImportType { .. })) => true,
                    (InstErr::Trap(t), tinywasm::Error::Trap(g)) => trap_of(g) == *t,
                    (InstErr::Trap(Trap::Host(m)), tinywasm::Error::Other(g)) => m == g,
                    _ => false,
                };
                if ok { Ok(None) } else { Err(format!("instantiation failed with {}, expected {w:?}", show(&e))) }
            }
        }
    }
    /// Calls a function handle of both sides and compares the outcome.
    pub fn call(&mut self, f: &Item, args: &[u128]) -> Result<Out, String> { self.call_via(f, args, |h, s, a| h.call(s, a)) }
    /// As `call`, with the given way to run the function on the implementation.
    pub fn call_via(&mut self, f: &Item, args: &[u128], run: impl FnOnce(&Function, &mut Store, &[WasmValue]) -> tinywasm::Result<Vec<WasmValue>>) -> Result<Out, String> {
        let Item::Func(a, h) = f else { panic!("not a function") };
        let ty = self.rs.funcs[*a].ty.clone();
        let real: Vec<u128> = args.iter().zip(&ty.params).map(|(v, t)| if *t == VT::Func { self.fmap.borrow().real(*v) } else { *v }).collect();
        self.rs.budget = self.rs.budget.max(1_000_000);
        let want = match self.rs.invoke(*a, args) { Ok(v) => Out::Vals(v), Err(t) => Out::Trap(t) };
        if want == Out::Trap(Trap::Budget) { panic!("reference ran out of budget") }
        let store = &mut self.store;
        let got = guard(|| run(h, store, &args_wv(&ty.params, &real))).map_err(|p| format!("panic: {p}; expected {want:x?}"))?;
        let got = self.canon_out(vals_out(Some(&ty.results), got), &ty.results, &want);
        if got != want { return Err(format!("got {got:x?}, expected {want:x?}")); }
        Ok(want)
    }
    pub fn canon_out(&self, got: Out, tys: &[VT], want: &Out) -> Out {
        match (got, want) {
            (Out::Vals(mut v), Out::Vals(w)) => { for (i, t) in tys.iter().enumerate() { if *t == VT::Func { v[i] = self.fmap.borrow_mut().canon(v[i], w.get(i).copied().unwrap_or(NULL)) } } Out::Vals(v) }
            (Out::Err(e), Out::Trap(Trap::Host(m))) if e == *m || e == format!("unknown error: {m}") => want.clone(),
            (Out::Trap(Trap::Host(e)), Out::Trap(Trap::Host(m))) if e.ends_with(m.as_str()) => want.clone(),
            (g, _) => g,
        }
    }
    pub fn call_name(&mut self, i: usize, name: &str, args: &[u128]) -> Result<Out, String> {
        let f = self.item(i, name);
        self.call(&f, args)
    }
    /// Compares every tracked memory, table and global and the host log.
    pub fn check(&mut self) -> Result<(), String> {
        for (a, h) in &self.mems {
            let w = &self.rs.mems[*a];
            let n = h.len(&self.store).map_err(|e| e.to_string())?;
            if n != w.data.len() { return Err(format!("memory #{a} has {n} bytes, expected {}", w.data.len())); }
            let p = h.page_count(&self.store).map_err(|e| e.to_string())?;
            if p as u64 != w.pages { return Err(format!("memory #{a} has {p} pages, expected {}", w.pages)); }
            let b = h.read_vec(&self.store, 0, n).map_err(|e| format!("read of memory #{a}: {e}"))?;
            if b != w.data { let i = (0..n).find(|i| b[*i] != w.data[*i]).unwrap(); return Err(format!("memory #{a} byte {i} is {:#x}, expected {:#x}", b[i], w.data[i])); }
        }
        for (a, h) in &self.tables {
            let w = &self.rs.tables[*a];
            let n = h.size(&self.store).map_err(|e| e.to_string())?;
            if n != w.elems.len() { return Err(format!("table #{a} has {n} entries, expected {}", w.elems.len())); }
            for i in 0..n {
                let (t, v) = from_wv(&h.get(&self.store, i as u32).map_err(|e| format!("table #{a}[{i}]: {e}"))?);
                if t != w.ty { return Err(format!("table #{a}[{i}] has type {t:?}")); }
                let v = if t == VT::Func { self.fmap.borrow_mut().canon(v, w.elems[i]) } else { v };
                if v != w.elems[i] { return Err(format!("table #{a}[{i}] is {v:x}, expected {:x}", w.elems[i])); }
            }
        }
        for (a, h) in &self.globals {
            let w = &self.rs.globals[*a];
            let (t, v) = from_wv(&h.get(&self.store).map_err(|e| e.to_string())?);
            if t != w.ty { return Err(format!("global #{a} has type {t:?}, expected {:?}", w.ty)); }
            let v = if t == VT::Func { self.fmap.borrow_mut().canon(v, w.v) } else { v };
            if v != w.v { return Err(format!("global #{a} is {v:#x}, expected {:#x}", w.v)); }
        }
        let l = self.log.borrow();
        if *l != self.rs.log { return Err(format!("host calls {:?}, expected {:?}", l, self.rs.log)); }
        Ok(())
    }
    pub fn state_hash(&self) -> u64 {
        let mut h = H::default();
        for (a, _) in &self.mems { self.rs.mems[*a].data.hash(&mut h); self.rs.mems[*a].pages.hash(&mut h) }
        for (a, _) in &self.tables { self.rs.tables[*a].elems.hash(&mut h) }
        for (a, _) in &self.globals { self.rs.globals[*a].v.hash(&mut h) }
        self.rs.log.hash(&mut h);
        h.finish()
    }
}

/// Explores every sequence of at most `depth` actions out of `n`, replaying each maximal history from a fresh
/// world (`fresh` builds one, `step` performs an action on both sides and compares the outcome). The full
/// observable state is compared after every action that is new with respect to the previous history.
pub fn histories<W>(c: &Check, l: &mut Local, name: &str, depth: usize, n: usize, first: Option<usize>, fresh: &dyn Fn() -> W, step: &dyn Fn(&mut W, usize) -> Result<u64, String>, show: &dyn Fn(usize) -> String) {
    let mut seq = vec![0usize; depth];
    if let Some(f) = first { seq[0] = f }
    // the first position at which this history differs from the previous one: earlier steps were compared already
    loop {
        if c.stopped() { return; }
        let mut w = fresh();
        l.traces += 1;
        let mut failed = false;
        let mut done = depth;
        l.sample(|| format!("{name}: {}", seq.iter().map(|a| show(*a)).collect::<Vec<_>>().join("; ")));
        for (k, a) in seq.iter().enumerate() {
            crate::batch::watch(|| format!("{name}: {}", seq[..=k].iter().map(|a| show(*a)).collect::<Vec<_>>().join("; ")));
            let r = guard(|| step(&mut w, *a));
            crate::batch::end_watch();
            l.transitions += 1;
            match r {
                Ok(Ok(h)) => { l.states.insert(h); }
                Ok(Err(e)) | Err(e) => {
                    let s = seq[..=k].iter().map(|a| show(*a)).collect::<Vec<_>>().join("; ");
                    c.violation(format!("{name}|{s}"), format!("{e}\nafter: {s}"), s.clone());
                    failed = true;
                    done = k + 1;
                    break;
                }
            }
        }
        if failed { std::mem::forget(w) }
        // next history; after a failure skip its extensions
        let mut k = done;
        for x in &mut seq[done.min(depth)..] { *x = n - 1 }
        loop {
            if k == 0 || (k == 1 && first.is_some()) { return; }
            k -= 1;
            seq[k] += 1;
            if seq[k] < n { break; }
            seq[k] = 0;
        }
        for x in &mut seq[k + 1..] { *x = 0 }
    }
}
#[allow(unused)]
fn _t(_: WasmValue) {}
