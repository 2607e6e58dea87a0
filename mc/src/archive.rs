//! Archiving a module and comparing what comes back: structure, bytes and behaviour.
use crate::batch::*;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use tinywasm::{ExecProgress, Module as TModule};

/// Archives `m` and loads it again, checking that nothing changed. Returns the loaded module.
pub fn round_trip(m: &TModule) -> Result<(TModule, Vec<u8>), String> {
    let r = guard(|| {
        let b = m.serialize_twasm().map_err(|e| format!("serialising fails: {e}"))?;
        if m.serialize_twasm().ok().as_ref() != Some(&b) || m.clone().serialize_twasm().ok().as_ref() != Some(&b) { return Err("serialising twice gives different bytes".to_string()) }
        let n = TModule::try_from_twasm(&b).map_err(|e| format!("loading fails: {e}"))?;
        #[allow(clippy::eq_op)]
        let same = if m == m { *m == n } else { format!("{m:?}") == format!("{n:?}") };
        if !same { return Err(format!("the loaded module differs: {}", first_difference(&format!("{m:?}"), &format!("{n:?}")))) }
        if n.serialize_twasm().ok().as_ref() != Some(&b) { return Err("serialising the loaded module gives different bytes".into()) }
        Ok((n, b))
    });
    r.unwrap_or_else(|p| Err(format!("panic: {p}")))
}
pub fn first_difference(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| { let lo = (0..=i.saturating_sub(60).min(s.len())).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0); s[lo..].chars().take(160).collect::<String>() };
    format!("{:?} became {:?}", cut(a), cut(b))
}

/// The stand-in for `run_batch`: the module's archive gives an equal module in which every program computes the same.
pub fn batch(c: &Check, l: &mut Local, base: &Base, progs: &[Prog], inputs: &[Vec<u128>], opts: &[Opts], budget: u64) {
    if progs.is_empty() || c.stopped() { return }
    let bytes = encode(&build(base, progs));
    for o in opts {
        let Ok(m) = parse(&bytes, *o) else { l.add("not_accepted", 1); continue };
        l.add("modules", 1);
        watch(|| format!("module {}", hex(&bytes)));
        let (n, arch) = match round_trip(&m) {
            Ok(x) => x,
            Err(e) => {
                end_watch();
                if progs.len() == 1 { c.violation(format!("archive|{}|{o:?}", show_ops(&progs[0].body)), format!("{e}; options {o:?}\n{}", describe(&progs[0])), hex(&bytes)) }
                else { let h = progs.len() / 2; batch(c, l, base, &progs[..h], inputs, &[*o], budget); batch(c, l, base, &progs[h..], inputs, &[*o], budget) }
                continue;
            }
        };
        l.states.insert(hash(&arch));
        let (Ok(mut x), Ok(mut y)) = (live_of(base, &m, progs.len()), live_of(base, &n, progs.len())) else { end_watch(); c.violation(format!("instantiate {}", show_ops(&progs[0].body)), "cannot be instantiated", hex(&bytes)); continue };
        let fuel = budget.min(20_000) as u32;
        'p: for (pi, p) in progs.iter().enumerate() {
            if c.stopped() { break }
            for input in inputs.iter().take(2) {
                let input: Vec<u128> = input.iter().take(p.params.len()).copied().collect();
                watch_tick();
                let mut ends = vec![];
                for v in [&mut x, &mut y] {
                    l.traces += 1;
                    for (k, b) in base.mem_init.iter().enumerate() { v.mems[k].copy_from_slice(&mut v.store, 0, b).expect("reset memory") }
                    let f = v.funcs[pi].clone();
                    let out = guard(|| match f.call_resumable(&mut v.store, &args_wv(&p.params, &input)) {
                        Err(e) => err_out(e),
                        Ok(mut run) => match run.resume_with_fuel(fuel) { Ok(ExecProgress::Completed(r)) => vals_out(Some(&p.results), Ok(r)), Ok(ExecProgress::Suspended) => Out::Err("out of fuel".into()), Err(e) => err_out(e) },
                    }).unwrap_or_else(Out::Panic);
                    let mems: Vec<Vec<u8>> = base.mem_init.iter().enumerate().map(|(k, b)| v.mems[k].read_vec(&v.store, 0, b.len()).expect("read memory")).collect();
                    let gl: Vec<u128> = v.globals.iter().map(|(g, ..)| from_wv(&g.get(&v.store).expect("global")).1).collect();
                    ends.push((out, mems, gl));
                }
                l.transitions += 1;
                if ends[0] != ends[1] {
                    c.violation(format!("run|{}|{input:x?}|{o:?}", show_ops(&p.body)), format!("the parsed module gives {:x?}, the loaded one {:x?}; input {input:x?}, options {o:?}\n{}", ends[0].0, ends[1].0, describe(p)), hex(&bytes));
                    break 'p;
                }
            }
        }
        end_watch();
        l.add("programs", progs.len() as u64);
    }
}
