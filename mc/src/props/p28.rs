//! P28: the command line tool, run as a process. (a) literals and arity; (b) names of exports; (c) traps and entry
//! points; (d) engine flags against the library with the same configuration; (e) formats, paths and standard input;
//! (f) `compile` explored over the reachable states of a directory; (g) `inspect` and `dump`; (h) odd invocations.
use crate::batch::{end_watch, watch};
use crate::cli::*;
use crate::corpus;
use crate::report::*;
use crate::run::*;
use crate::wasm::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fs;
use std::path::Path;
use tinywasm::engine::{Config, FuelPolicy};
use tinywasm::{Engine, MemoryBackend, ModuleInstance, StackConfig, Store};
use VT::{F32, F64, I32, I64, V128};

fn s(v: &[&str]) -> Vec<String> { v.iter().map(|x| x.to_string()).collect() }
fn line(args: &[String]) -> String { args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" ") }
fn wat(t: &str) -> Vec<u8> { wat::parse_str(t).expect("module text") }

// ---- values ----
fn int(t: &str, bits: u32) -> Option<i128> {
    let (neg, d) = match t.as_bytes().first()? { b'-' => (true, &t[1..]), b'+' => (false, &t[1..]), _ => (false, t) };
    if d.is_empty() { return None }
    let mut v: u128 = 0;
    for b in d.bytes() { if !b.is_ascii_digit() { return None } v = v.checked_mul(10)?.checked_add((b - b'0') as u128)?; }
    let lim = 1u128 << (bits - 1);
    if neg { (v <= lim).then(|| (v as i128).wrapping_neg()) } else { (v < lim).then_some(v as i128) }
}
/// The value a literal denotes.
fn literal(t: VT, x: &str) -> Option<u128> {
    match t {
        I32 => int(x, 32).map(|v| v as i32 as u32 as u128),
        I64 => int(x, 64).map(|v| v as i64 as u64 as u128),
        V128 => int(x, 128).map(|v| v as u128),
        F32 => x.parse::<f32>().ok().map(|v| v.to_bits() as u128),
        F64 => x.parse::<f64>().ok().map(|v| v.to_bits() as u128),
        _ => None,
    }
}
fn name(t: VT) -> &'static str { match t { I32 => "i32", I64 => "i64", F32 => "f32", F64 => "f64", V128 => "v128", VT::Func => "funcref", VT::Ext => "externref" } }
/// Reads a printed value back.
fn read_value(t: VT, x: &str) -> Option<u128> {
    let x = x.strip_prefix(name(t))?.strip_prefix('(')?.strip_suffix(')')?;
    match t {
        V128 => { let b: Vec<u8> = x.strip_prefix('[')?.strip_suffix(']')?.split(", ").map(|y| y.parse::<u8>()).collect::<Result<_, _>>().ok()?; Some(u128::from_le_bytes(b.try_into().ok()?)) }
        t => literal(t, x),
    }
}
fn is_nan(t: VT, v: u128) -> bool { match t { F32 => f32::from_bits(v as u32).is_nan(), F64 => f64::from_bits(v as u64).is_nan(), _ => false } }
/// Splits `a, b` at top level.
fn split(x: &str) -> Vec<String> {
    let (mut v, mut d) = (vec![String::new()], 0);
    let mut it = x.chars().peekable();
    while let Some(ch) = it.next() {
        match ch { '(' | '[' => d += 1, ')' | ']' => d -= 1, ',' if d == 0 => { if it.peek() == Some(&' ') { it.next(); } v.push(String::new()); continue } _ => () }
        v.last_mut().unwrap().push(ch);
    }
    v
}
/// Does the output denote exactly these values?
fn printed(out: &str, want: &[(VT, u128)]) -> bool {
    if want.is_empty() { return out.is_empty() }
    let Some(x) = out.strip_suffix('\n') else { return false };
    let parts = if want.len() == 1 { vec![x.to_string()] } else { let Some(x) = x.strip_prefix('[').and_then(|x| x.strip_suffix(']')) else { return false }; split(x) };
    parts.len() == want.len() && parts.iter().zip(want).all(|(p, (t, v))| read_value(*t, p).is_some_and(|r| r == *v || is_nan(*t, r) && is_nan(*t, *v)))
}
fn judge_values(c: &Check, l: &mut Local, key: String, args: &[String], files: &str, r: &Ran, want: Option<&[(VT, u128)]>) {
    match want {
        None => { judge(c, l, key, &line(args), files, r, &Want::Fail); }
        Some(w) => if judge(c, l, key.clone(), &line(args), files, r, &Want::Ok) && !printed(&r.text(), w) {
            c.violation(key, format!("tinywasm {}: prints {:?}, the results are {:x?}", line(args), r.text(), w), files)
        },
    }
}

const INTS: &[&str] = &["0", "1", "-1", "+1", "-0", "+0", "00", "007", "-007", "10", "127", "128", "255", "256", "32767", "65536", "2147483646", "2147483647", "2147483648", "-2147483647", "-2147483648", "-2147483649", "4294967295", "4294967296", "-4294967296",
    "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728",
    "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "1339673755198158349044581307228491536", "72623859790382856", "1e3", "1.0", "1.", "0x10", "0b1", "1_000", " 1", "1 ", "", " ", "+", "-", "--1", "+-1", "a", "\u{0663}", "1u32", "i32(1)", "1,2", "'1'", "true", "null", "ref.null", "\u{2212}1", "1\n", "99999999999999999999999999999999999999999999999999"];
const FLOATS: &[&str] = &["0", "-0", "0.0", "-0.0", "+0.0", "1", "1.5", "-2.5", ".5", "5.", "-.5", "1e10", "1E10", "1e-10", "-1e+5", "1e400", "-1e400", "1e39", "3.4028234663852886e38", "3.4028235677973366e38", "3.4028235677973365e38", "1e-45", "7e-46", "7.006492321624085e-46", "1.401298464324817e-45", "1.17549435e-38", "1e-400", "0.1", "0.30000000000000004",
    "1.7976931348623157e308", "1.7976931348623159e308", "5e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072011e-308", "2.2250738585072014e-308", "16777217", "16777216.999", "9007199254740993", "1.00000017881393432617187499", "1.00000017881393421514957253748434595763683319091796875001", "1.000000178813934326171875", "123456789012345678901234567890", "nan", "NaN", "-nan", "inf", "-inf", "+inf", "Infinity", "-infinity", "INF", "nan:0x1", "0x1p3", "1e", "e1", ".", "", " 1.5", "1.5 ", "1,5", "1_0.0", "--1.5", "1.5f", "abc", "1.5.5", "1e5.5", "\u{0663}", "-", "+", "1d"];

/// A function returning its parameters rotated by one place, with a counter in the last place.
fn rotate(m: &mut Module, params: &[VT]) -> String {
    let mut body: Vec<Op> = (1..params.len() as u32).map(Op::LGet).collect();
    if !params.is_empty() { body.push(Op::LGet(0)) }
    let mut res = params.to_vec();
    if !res.is_empty() { res.rotate_left(1) }
    let f = m.func(params, &res, &[], body);
    let n = format!("f_{}", params.iter().map(|t| name(*t)).collect::<Vec<_>>().join("_"));
    m.export(&n, EK::Func, f);
    n
}
fn rotated(params: &[VT], vals: &[u128]) -> Vec<(VT, u128)> {
    let mut v: Vec<(VT, u128)> = params.iter().copied().zip(vals.iter().copied()).collect();
    if !v.is_empty() { v.rotate_left(1) }
    v
}
fn valid_of(t: VT, k: usize) -> &'static str { match t { I32 => ["-2147483648", "7", "-3"][k % 3], I64 => ["4294967297", "-9223372036854775808", "12"][k % 3], F32 => ["-1.5", "0.1", "3e5"][k % 3], F64 => ["0.1", "-1e300", "2.5"][k % 3], V128 => ["1339673755198158349044581307228491536", "-2", "5"][k % 3], _ => "0" } }

fn literals(c: &Check, t: &Tool) {
    let types = [I32, I64, F32, F64, V128];
    let mut m = Module::default();
    let mut sigs: Vec<Vec<VT>> = vec![vec![]];
    for a in types { sigs.push(vec![a]); for b in types { sigs.push(vec![a, b]); for d in types { sigs.push(vec![a, b, d]) } } }
    sigs.push(vec![VT::Func]); sigs.push(vec![VT::Ext]); sigs.push(vec![I32, VT::Ext]); sigs.push(vec![VT::Func, I32]);
    sigs.push((0..40).map(|k| types[k % 5]).collect());
    let names: Vec<String> = sigs.iter().map(|p| rotate(&mut m, p)).collect();
    let bytes = encode(&m);
    let dir = t.dir();
    fs::write(dir.join("m.wasm"), &bytes).unwrap();
    let files = format!("m.wasm = {}", hex(&bytes));
    let mut jobs: Vec<(usize, Vec<String>, bool)> = vec![];
    for (k, p) in sigs.iter().enumerate() {
        if p.len() == 1 { for x in INTS.iter().chain(FLOATS) { jobs.push((k, s(&[x]), true)) } }
        if p.len() == 2 { for pos in 0..2 { for x in if matches!(p[pos], F32 | F64) { FLOATS } else { INTS } { let mut v: Vec<String> = (0..2).map(|j| valid_of(p[j], j).to_string()).collect(); v[pos] = x.to_string(); jobs.push((k, v, true)) } } }
        for n in 0..p.len() + 3 { for r in 0..3 { let v: Vec<String> = (0..n).map(|j| valid_of(*p.get(j).unwrap_or(&I32), j + r).to_string()).collect(); jobs.push((k, v.clone(), true)); jobs.push((k, v, false)) } }
        if p.len() == 3 { for pos in 0..3 { for x in ["x", "", "1e", "1.5", "300000000000000000000000000000000000000000"] { let mut v: Vec<String> = (0..3).map(|j| valid_of(p[j], j).to_string()).collect(); v[pos] = x.to_string(); jobs.push((k, v, true)) } } }
    }
    c.bound(format!("literals: {} signatures (all of up to three numeric types), {} literals per type at every place, every number of arguments", sigs.len(), INTS.len() + FLOATS.len()));
    let chunks: Vec<_> = jobs.chunks(40).collect();
    c.par(chunks.len(), |i, l| for (k, v, sep) in chunks[i] {
        let p = &sigs[*k];
        let vals: Option<Vec<u128>> = if p.len() == v.len() { p.iter().zip(v).map(|(t, x)| literal(*t, x)).collect() } else { None };
        let want = vals.map(|v| rotated(p, &v));
        // `--` makes everything after it an argument; a number needs no `--`, even a negative one
        if !sep && !v.iter().all(|x| x.parse::<f64>().is_ok_and(|y| y.is_finite())) { continue }
        let mut args = s(&["run", "--invoke", &names[*k], "m.wasm"]);
        if *sep { args.push("--".into()) }
        args.extend(v.iter().cloned());
        watch(|| line(&args));
        let r = t.run(&dir, &args, b"");
        judge_values(c, l, format!("literal {} {v:?}{}", names[*k], if *sep { "" } else { " without --" }), &args, &files, &r, want.as_deref());
        end_watch();
    });
}

fn results(c: &Check, t: &Tool) {
    // every kind of result value
    let bits32: Vec<u32> = vec![0, 1, 0x80000000, 0x7fffffff, 0xffffffff, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f7fffff, 0x00800000, 0x007fffff, 0x4b800001, 0x3dcccccd, 0x501502f9, 0x5f000000, 0xcf000000, 0x33d6bf95];
    let bits64: Vec<u64> = vec![0, 1, 1 << 63, i64::MAX as u64, u64::MAX, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7fefffffffffffff, 0x0010000000000000, 0x000fffffffffffff, 0x3fb999999999999a, 0x4340000000000001, 0x43e0000000000000, 0x7e37e43c8800759c, 1 << 32, 0xffffffff];
    let mut m = Module::default();
    let mut fs_: Vec<(String, Vec<(VT, u128)>)> = vec![];
    let mut add = |m: &mut Module, vals: Vec<(VT, u128)>| {
        let res: Vec<VT> = vals.iter().map(|x| x.0).collect();
        let body = vals.iter().map(|(t, v)| match t { I32 => Op::I32C(*v as u32 as i32), I64 => Op::I64C(*v as u64 as i64), F32 => Op::F32C(*v as u32), F64 => Op::F64C(*v as u64), _ => Op::VConst(*v) }).collect();
        let f = m.func(&[], &res, &[], body);
        let n = format!("r{}", fs_.len());
        m.export(&n, EK::Func, f);
        fs_.push((n, vals));
    };
    for b in &bits32 { add(&mut m, vec![(I32, *b as u128)]); add(&mut m, vec![(F32, *b as u128)]) }
    for b in &bits64 { add(&mut m, vec![(I64, *b as u128)]); add(&mut m, vec![(F64, *b as u128)]); add(&mut m, vec![(V128, (*b as u128) << 64 | (b.rotate_left(8)) as u128)]) }
    for k in 2..12 { add(&mut m, (0..k).map(|j| match j % 5 { 0 => (I32, bits32[j] as u128), 1 => (F64, bits64[j] as u128), 2 => (V128, u128::MAX - j as u128), 3 => (I64, bits64[j] as u128), _ => (F32, bits32[j] as u128) }).collect()) }
    let bytes = encode(&m);
    let dir = t.dir();
    fs::write(dir.join("m.wasm"), &bytes).unwrap();
    let files = format!("m.wasm = {}", hex(&bytes));
    c.par(fs_.len(), |i, l| {
        let (n, v) = &fs_[i];
        for args in [s(&["run", "--invoke", n, "m.wasm"]), s(&["--invoke", n, "m.wasm"]), s(&["run", "m.wasm", "--invoke", n]), s(&["m.wasm", &format!("--invoke={n}")]), s(&["--log-level", "error", "m.wasm", "--invoke", n]), s(&["run", "--log-level=trace", "m.wasm", "--invoke", n])] {
            let r = t.run(&dir, &args, b"");
            judge_values(c, l, format!("result {n}"), &args, &files, &r, Some(v));
        }
    });
}

fn names(c: &Check, t: &Tool) {
    let list = ["a", "b", "A", "", " ", "a ", " a", "-", "--", "-x", "--invoke", "a=b", "=", "\u{e9}\u{1f600}", "a\nb", "run", "_start", "compile", "0", "m.wasm", "\\", "\"", "$HOME", "*", "a.b", "..", "/"];
    let mut m = Module::default();
    m.mem(Limits::new(1, None)); m.table(VT::Func, Limits::new(1, None)); m.global(I32, false, Op::I32C(9));
    for (k, n) in list.iter().enumerate() { let f = m.func(&[], &[I32], &[], vec![Op::I32C(100 + k as i32)]); m.export(n, EK::Func, f); }
    for (n, k) in [("mem", EK::Mem), ("tab", EK::Table), ("glob", EK::Global)] { m.export(n, k, 0) }
    // a name which is also a number of a function, kinds before and after
    let bytes = encode(&m);
    let dir = t.dir();
    for f in ["m.wasm", "run", "m m.wasm", "\u{e9}.wasm"] { fs::write(dir.join(f), &bytes).unwrap() }
    let files = format!("m.wasm = {}", hex(&bytes));
    let bad = ["mem", "tab", "glob", "c", "aa", "\u{e9}", "a.", "1", "27", "_Start", "ab"];
    c.par(list.len() + bad.len(), |i, l| {
        let (n, want) = if i < list.len() { (list[i], Some(vec![(I32, 100 + i as u128)])) } else { (bad[i - list.len()], None) };
        for f in ["m.wasm", "./run", "m m.wasm", "\u{e9}.wasm"] {
            for args in [s(&["run", &format!("--invoke={n}"), f]), s(&[&format!("--invoke={n}"), f]), s(&["run", f, &format!("--invoke={n}")])] {
                let r = t.run(&dir, &args, b"");
                judge_values(c, l, format!("export {n:?}"), &args, &files, &r, want.as_deref());
            }
        }
    });
}

fn traps(c: &Check, t: &Tool) {
    let bodies: Vec<(&str, &str, bool)> = vec![("unreachable", "unreachable", true), ("div zero", "(drop (i32.div_s (i32.const 1) (global.get $z)))", true), ("rem zero", "(drop (i64.rem_u (i64.const 1) (i64.extend_i32_u (global.get $z))))", true), ("overflow", "(drop (i32.div_s (i32.const 0x80000000) (i32.const -1)))", true),
        ("conversion", "(drop (i32.trunc_f32_s (f32.const nan)))", true), ("conversion range", "(drop (i64.trunc_f64_u (f64.const -1)))", true), ("load", "(drop (i32.load (i32.const 65533)))", true), ("store", "(i64.store (i32.const -1) (i64.const 1))", true), ("memory.fill", "(memory.fill (i32.const 65536) (i32.const 0) (i32.const 1))", true),
        ("memory.init", "(memory.init $d (i32.const 0) (i32.const 0) (i32.const 9))", true), ("table.get", "(drop (table.get (i32.const 9)))", true), ("table.set", "(table.set (i32.const -1) (ref.null func))", true), ("table.copy", "(table.copy (i32.const 1) (i32.const 0) (i32.const 4))", true), ("table.init", "(table.init $e (i32.const 0) (i32.const 1) (i32.const 1))", true),
        ("indirect undefined", "(call_indirect (type $v) (i32.const 99))", true), ("indirect null", "(call_indirect (type $v) (i32.const 3))", true), ("indirect type", "(call_indirect (type $i) (i32.const 0) (i32.const 1)) (drop)", true), ("recursion", "(call $rec)", true),
        ("none", "nop", false), ("loads", "(drop (i32.load (i32.const 65532)))", false), ("grow fails", "(drop (memory.grow (i32.const 70000)))", false), ("indirect", "(call_indirect (type $v) (i32.const 0))", false), ("saturate", "(drop (i32.trunc_sat_f32_s (f32.const nan)))", false)];
    let places = ["invoked", "start, default entry", "start, other invoked", "start, invoked", "_start", "start and _start", "_start, other invoked", "second call of a chain", "after partial effects", "archive", "text on standard input"];
    c.bound(format!("traps: {} bodies in {} places", bodies.len(), places.len()));
    c.par(bodies.len() * places.len(), |i, l| {
        let (bn, body, fails) = bodies[i / places.len()];
        let place = places[i % places.len()];
        let (extra, args, runs): (&str, Vec<String>, bool) = match place {
            "invoked" | "archive" | "text on standard input" => (r#"(export "x" (func $b))"#, s(&["run", "--invoke", "x", "m.wat"]), true),
            "start, default entry" => ("(start $b)", s(&["run", "m.wat"]), true),
            "start, other invoked" => ("(start $b)", s(&["run", "--invoke", "ok", "m.wat"]), true),
            "start, invoked" => (r#"(start $b) (export "x" (func $b))"#, s(&["m.wat", "--invoke", "x"]), true),
            "_start" => (r#"(export "_start" (func $b))"#, s(&["m.wat"]), true),
            "start and _start" => (r#"(start $b) (func (export "_start"))"#, s(&["m.wat"]), true),
            "_start, other invoked" => (r#"(export "_start" (func $b))"#, s(&["run", "m.wat", "--invoke", "ok"]), false),
            "second call of a chain" => (r#"(func $k (call $ok) (drop) (call $b) (call $ok) (drop)) (export "x" (func $k))"#, s(&["run", "--invoke", "x", "m.wat"]), true),
            _ => (r#"(func (export "x") (result i32) (global.set $z (i32.const 0)) (call $b) (i32.const 3))"#, s(&["run", "--invoke", "x", "m.wat"]), true),
        };
        let text = format!(r#"(module (type $v (func)) (type $i (func (param i32) (result i32))) (memory 1) (table 4 funcref) (global $z (mut i32) (i32.const 0)) (data $d "abc") (elem $e func $ok0) (elem (i32.const 0) func $ok0) (func $ok0)
  (func $rec (call $rec) (call $rec)) (func $ok (export "ok") (result i32) (i32.const 42)) (func $b {body}) {extra})"#);
        let dir = t.dir();
        fs::write(dir.join("m.wat"), &text).unwrap();
        let want = if runs && fails { None } else if args.iter().any(|a| a == "ok") { Some(vec![(I32, 42)]) } else if place == "after partial effects" { Some(vec![(I32, 3)]) } else { Some(vec![]) };
        let mut args = args;
        watch(|| format!("{bn} {place}"));
        let stdin = match place {
            "archive" => { let r = t.run(&dir, &["compile", "m.wat"], b""); judge(c, l, format!("trap {bn} {place}"), "compile m.wat", &text, &r, &Want::Out(vec![])); args[3] = "m.twasm".into(); String::new() }
            "text on standard input" => { args[3] = "-".into(); text.clone() }
            _ => String::new(),
        };
        let r = t.run(&dir, &args, stdin.as_bytes());
        judge_values(c, l, format!("trap {bn}, {place}"), &args, &text, &r, want.as_deref());
        end_watch();
        let _ = fs::remove_dir_all(dir);
    });
    // default entry points: every combination of start section and `_start`, every entry
    let starts = [("none", ""), ("counts", "(start $inc)"), ("traps", "(start $bad)")];
    let unders = [("none", ""), ("counts", r#"(export "_start" (func $inc))"#), ("traps", r#"(export "_start" (func $bad))"#), ("needs start", r#"(func (export "_start") (if (i32.ne (global.get $n) (i32.const 1)) (then unreachable)))"#), ("takes a value", r#"(func (export "_start") (param i32))"#), ("returns a value", r#"(func (export "_start") (result i32) (i32.const 7))"#), ("is a memory", r#"(memory 1) (export "_start" (memory 0))"#)];
    let entries: [(&str, Vec<&str>); 8] = [("plus", vec!["--invoke", "plus", "@", "40"]), ("default", vec![]), ("n", vec!["--invoke", "n"]), ("_start", vec!["--invoke", "_start"]), ("missing", vec!["--invoke", "missing"]), ("n with an argument", vec!["--invoke", "n", "@", "1"]), ("g", vec!["--invoke", "g"]), ("default with an argument", vec!["@", "1"])];
    c.par(starts.len() * unders.len() * entries.len(), |i, l| {
        let (st, u, (en, e)) = (starts[i % 3], unders[i / 3 % unders.len()], &entries[i / 3 / unders.len()]);
        let text = format!(r#"(module (global $n (mut i32) (i32.const 0)) (export "g" (global $n)) (func $inc (global.set $n (i32.add (global.get $n) (i32.const 1)))) (func $bad unreachable) (func (export "n") (result i32) (global.get $n)) (func (export "plus") (param i32) (result i32) (i32.add (global.get $n) (local.get 0))) {} {})"#, st.1, u.1);
        let dir = t.dir();
        fs::write(dir.join("m.wat"), &text).unwrap();
        let started = match st.0 { "counts" => 1u128, _ => 0 };
        let want: Option<Vec<(VT, u128)>> = if st.0 == "traps" { None } else {
            match *en {
                "n" => Some(vec![(I32, started)]),
                "plus" => Some(vec![(I32, 40 + started)]),
                "missing" | "g" | "n with an argument" => None,
                "_start" => match u.0 { "counts" => Some(vec![]), "needs start" if started == 1 => Some(vec![]), "returns a value" => Some(vec![(I32, 7)]), _ => None },
                _ if st.0 == "counts" => Some(vec![]),
                _ => match u.0 { "counts" | "returns a value" => Some(vec![]), _ => None },
            }
        };
        for sub in [true, false] {
            if *en == "default with an argument" { continue }
            let mut args = if sub { s(&["run"]) } else { vec![] };
            let at = e.iter().position(|x| *x == "@");
            args.extend(e[..at.unwrap_or(e.len())].iter().map(|x| x.to_string()));
            args.push("m.wat".into());
            if let Some(p) = at { args.extend(e[p + 1..].iter().map(|x| x.to_string())) }
            let r = t.run(&dir, &args, b"");
            judge_values(c, l, format!("entry {en}: start {}, _start {}", st.0, u.0), &args, &text, &r, want.as_deref());
        }
        let _ = fs::remove_dir_all(dir);
    });
}

// ---- engine flags ----
#[derive(Clone)]
struct Flag { args: Vec<&'static str>, set: fn(Config) -> Config }
fn flag(args: &[&'static str], set: fn(Config) -> Config) -> Flag { Flag { args: args.to_vec(), set } }
fn flags(c: &Check, t: &Tool) {
    let mut m = Module::default();
    m.mem(Limits::new(1, Some(40)));
    // frames: rec(n) = n, one frame per level; wide lanes: deep operand stacks of each type
    m.func(&[I32], &[I32], &[], vec![Op::LGet(0), num("i32.eqz"), Op::If(BT::Val(I32)), Op::I32C(0), Op::Else, Op::LGet(0), Op::I32C(1), num("i32.sub"), Op::Call(0), Op::I32C(1), num("i32.add"), Op::End]);
    m.export("rec", EK::Func, 0);
    let mut progs: Vec<(String, Vec<String>)> = vec![];
    for n in [0, 1, 2, 3, 6, 7, 8, 9, 10, 30, 98, 99, 100, 101, 500, 1022, 1023, 1024, 1025] { progs.push(("rec".into(), vec![n.to_string()])) }
    for (ty, k, add) in [(I32, Op::I32C(1), "i32.add"), (I64, Op::I64C(1), "i64.add"), (F64, Op::F64C(0x3ff0000000000000), "f64.add"), (V128, Op::VConst(1), "")] {
        for n in [1usize, 2, 3, 7, 8, 9, 16, 33, 100, 300] {
            let mut b = vec![k.clone(); n];
            for _ in 1..n { b.push(if add.is_empty() { Op::V(174) } else { num(add) }) }
            let f = m.func(&[], &[ty], &[], b);
            let nm = format!("deep_{}_{n}", name(ty));
            m.export(&nm, EK::Func, f);
            progs.push((nm, vec![]));
        }
        // locals only
        let f = m.func(&[], &[], &vec![ty; 50], vec![]);
        m.export(&format!("locals_{}", name(ty)), EK::Func, f);
        progs.push((format!("locals_{}", name(ty)), vec![]));
    }
    // memory: grow, write at both ends and across every page, read back
    let f = m.func(&[I32], &[I32, I32, I64], &[], vec![Op::LGet(0), Op::MemGrow(0), Op::I32C(65533), Op::I64C(0x1122334455667788), mem(0x37, 0), Op::MemSize(0), Op::I32C(65535), mem(0x29, 0)]);
    m.export("mem", EK::Func, f);
    let f = m.func(&[I32, I32], &[I64], &[], vec![Op::LGet(0), Op::I32C(0xa5), Op::LGet(1), Op::MemFill(0), Op::LGet(0), mem(0x29, 0)]);
    m.export("fill", EK::Func, f);
    let mut memory: Vec<(String, Vec<String>)> = vec![];
    for n in ["0", "1", "2", "39", "40", "-1"] { memory.push(("mem".into(), s(&[n]))) }
    for a in ["0", "1", "65528", "65529", "32760"] { for b in ["0", "8", "32768", "65535", "65536"] { memory.push(("fill".into(), s(&[a, b]))) } }
    let bytes = encode(&m);
    let dir = t.dir();
    fs::write(dir.join("m.wasm"), &bytes).unwrap();
    let files = format!("m.wasm = {}", hex(&bytes));
    let none = flag(&[], |c| c);
    let mut vs = vec![none.clone()];
    macro_rules! f1 { ($v:ident, $n:literal, $w:ident, $($x:literal)*) => { $($v.push(flag(&[concat!("--", $n), stringify!($x)], |c| c.$w(StackConfig::fixed($x))));)* } }
    macro_rules! f2 { ($v:ident, $n:literal, $w:ident, $(($x:literal $y:literal))*) => { $($v.push(flag(&[concat!("--", $n), concat!($x, ":", $y)], |c| c.$w(StackConfig::dynamic($x, $y))));)* } }
    f1!(vs, "value-stack-size", with_value_stack, 0 1 2 8 9 64 100 200 1000 4096 100000);
    f2!(vs, "value-stack-dynamic", with_value_stack, (0 0) (0 8) (0 1000) (1 2) (8 8) (8 9) (8 100) (9 64) (100 200) (1000 5000) (1 100000));
    let mut cs = vec![none.clone()];
    f1!(cs, "call-stack-size", with_call_stack, 0 1 2 8 9 99 100 101 1000 1024);
    f2!(cs, "call-stack-dynamic", with_call_stack, (0 0) (0 8) (1 2) (8 8) (2 9) (8 100) (99 1000) (100 1024) (0 100000));
    let rest: Vec<Flag> = vec![none.clone(), flag(&["--fuel-policy", "per-instruction"], |c| c.with_fuel_policy(FuelPolicy::PerInstruction)), flag(&["--fuel-policy=weighted"], |c| c.with_fuel_policy(FuelPolicy::Weighted)), flag(&["--trap-on-oom"], |c| c.with_trap_on_oom(true)), flag(&["--trap-on-oom", "--fuel-policy", "weighted", "--memory-backend", "paged"], |c| c.with_trap_on_oom(true).with_fuel_policy(FuelPolicy::Weighted).with_memory_backend(MemoryBackend::paged(65536)))];
    let mut mb = vec![none.clone(), flag(&["--memory-backend", "vec"], |c| c.with_memory_backend(MemoryBackend::vec())), flag(&["--memory-backend", "paged"], |c| c.with_memory_backend(MemoryBackend::paged(65536))), flag(&["--memory-page-chunk-size", "4096"], |c| c), flag(&["--memory-backend", "vec", "--memory-page-chunk-size", "8"], |c| c.with_memory_backend(MemoryBackend::vec()))];
    macro_rules! pg { ($($x:literal)*) => { $(mb.push(flag(&["--memory-backend", "paged", "--memory-page-chunk-size", stringify!($x)], |c| c.with_memory_backend(MemoryBackend::paged($x))));)* } }
    pg!(16 64 1024 4096 65536 131072 1048576);
    let module = tinywasm::parse_bytes(&bytes).expect("module");
    let mut jobs: Vec<(Vec<&Flag>, &(String, Vec<String>))> = vec![];
    for v in &vs { for k in &cs { for p in &progs { let plain = v.args.is_empty() || k.args.is_empty(); if plain || p.0 == "rec" || !c.quick() { jobs.push((vec![v, k], p)) } } } }
    for r in &rest { for b in &mb { for p in memory.iter().chain(progs.iter().filter(|p| p.1.is_empty()).take(3)) { jobs.push((vec![r, b], p)) } } }
    for v in vs.iter().step_by(3) { for k in cs.iter().step_by(4) { for r in &rest { for b in mb.iter().step_by(2) { for p in [&memory[1], &memory[9], &progs[7], &progs[12]] { jobs.push((vec![v, k, r, b], p)) } } } } }
    c.bound(format!("engine flags: {} value stacks x {} call stacks x {} programs; {} other settings x {} memory settings x {} programs; mixtures", vs.len(), cs.len(), progs.len(), rest.len(), mb.len(), memory.len()));
    let chunks: Vec<_> = jobs.chunks(64).collect();
    c.par(chunks.len(), |i, l| for (n, (fl, (f, a))) in chunks[i].iter().enumerate() {
        let mut cfg = Config::new();
        let mut args: Vec<String> = vec![];
        for x in fl { cfg = (x.set)(cfg); args.extend(x.args.iter().map(|x| x.to_string())) }
        if args.iter().filter(|a| a.starts_with("--memory-backend")).count() > 1 || args.iter().filter(|a| a.starts_with("--fuel-policy")).count() > 1 { continue }
        watch(|| format!("{args:?} {f} {a:?}"));
        let want = guard(|| -> Out {
            let mut st = Store::new(Engine::new(cfg));
            let inst = match ModuleInstance::instantiate(&mut st, &module, None) { Ok(i) => i, Err(e) => return err_out(e) };
            let f = inst.func_untyped(&st, f).expect("export");
            let w: Vec<_> = a.iter().map(|x| tinywasm::types::WasmValue::I32(x.parse().unwrap())).collect();
            vals_out(None, f.call(&mut st, &w))
        }).unwrap_or_else(Out::Panic);
        let sig = module.exports().find(|e| e.name == *f).map(|e| match e.ty { tinywasm::types::ExportType::Func(t) => t.results().iter().map(|t| [I32, I64, F32, F64, V128, VT::Func, VT::Ext].into_iter().find(|x| wt(*x) == *t).unwrap()).collect::<Vec<_>>(), _ => vec![] }).unwrap();
        let mut cmd: Vec<String> = if n % 2 == 0 { s(&["run"]) } else { vec![] };
        // flags before the path, after it, and on both sides
        match n % 3 { 0 => { cmd.extend(args); cmd.extend(s(&["--invoke", f, "m.wasm"])) } 1 => { cmd.extend(s(&["m.wasm", "--invoke", f])); cmd.extend(args) } _ => { cmd.extend(s(&["--invoke", f])); cmd.extend(args); cmd.push("m.wasm".into()) } }
        cmd.push("--".into());
        cmd.extend(a.iter().cloned());
        let r = t.run(&dir, &cmd, b"");
        let want = match want { Out::Vals(v) => Some(sig.into_iter().zip(v).collect::<Vec<_>>()), _ => None };
        judge_values(c, l, format!("flags {cmd:?}"), &cmd, &files, &r, want.as_deref());
        end_watch();
    });
    // settings which cannot be honoured are refused, sizes no machine can provide end in an error
    let refuse: Vec<Vec<&str>> = vec![vec!["--value-stack-dynamic", "5"], vec!["--value-stack-dynamic", "5:"], vec!["--value-stack-dynamic", ":5"], vec!["--value-stack-dynamic", "9:3"], vec!["--value-stack-dynamic", "a:b"], vec!["--value-stack-dynamic", "3:9:12"], vec!["--value-stack-dynamic", ""], vec!["--value-stack-dynamic", "-1:3"], vec!["--value-stack-dynamic", "5:4"], vec!["--value-stack-dynamic", "1:0"], vec!["--value-stack-dynamic", "4097:4096"], vec!["--call-stack-dynamic", "5:4"], vec!["--call-stack-dynamic", "1:0"], vec!["--value-stack-dynamic", "1:18446744073709551616"],
        vec!["--call-stack-dynamic", "9:3"], vec!["--call-stack-dynamic", "3-9"], vec!["--call-stack-dynamic", " 3:9"], vec!["--call-stack-size", "-1"], vec!["--call-stack-size", "1.5"], vec!["--call-stack-size", ""], vec!["--call-stack-size", "18446744073709551616"], vec!["--value-stack-size", "x"], vec!["--value-stack-size", "0x10"],
        vec!["--value-stack-size", "10", "--value-stack-dynamic", "1:2"], vec!["--call-stack-size", "10", "--call-stack-dynamic", "1:2"], vec!["--fuel-policy", "none"], vec!["--fuel-policy", "Weighted"], vec!["--memory-backend", "mmap"], vec!["--memory-backend", ""], vec!["--memory-backend", "paged", "--memory-page-chunk-size", "0"], vec!["--memory-backend", "paged", "--memory-page-chunk-size", "-5"], vec!["--memory-page-chunk-size", "4k"],
        vec!["--trap-on-oom=yes"], vec!["--no-such-flag"], vec!["--log-level", "loud"], vec!["--invoke", "rec", "--invoke", "rec"]];
    let crash: Vec<Vec<&str>> = vec![vec!["--memory-backend", "paged", "--memory-page-chunk-size", "3"], vec!["--memory-backend", "paged", "--memory-page-chunk-size", "65537"], vec!["--memory-backend", "paged", "--memory-page-chunk-size", "1"], vec!["--memory-backend", "paged", "--memory-page-chunk-size", "2"], vec!["--memory-backend", "paged", "--memory-page-chunk-size", "18446744073709551615"], vec!["--memory-backend", "paged", "--memory-page-chunk-size", "9223372036854775808"], vec!["--memory-backend", "paged", "--memory-page-chunk-size", "281474976710656"],
        vec!["--value-stack-size", "18446744073709551615"], vec!["--value-stack-size", "9223372036854775807"], vec!["--value-stack-size", "281474976710656"], vec!["--value-stack-dynamic", "18446744073709551615:18446744073709551615"], vec!["--value-stack-dynamic", "281474976710656:281474976710657"], vec!["--value-stack-dynamic", "0:18446744073709551615"], vec!["--value-stack-dynamic", "16:9223372036854775808"],
        vec!["--call-stack-size", "18446744073709551615"], vec!["--call-stack-size", "281474976710656"], vec!["--call-stack-dynamic", "18446744073709551615:18446744073709551615"], vec!["--call-stack-dynamic", "0:18446744073709551615"], vec!["--call-stack-dynamic", "1:4611686018427387904"],
        vec!["--value-stack-dynamic", "1024:1000000000000000"], vec!["--call-stack-dynamic", "16:1000000000000000"]];
    c.par(refuse.len() + crash.len(), |i, l| {
        for (f, a) in [("rec", "5"), ("fill", "5"), ("deep_i32_100", "")] {
            let fl = if i < refuse.len() { &refuse[i] } else { &crash[i - refuse.len()] };
            let mut cmd = s(&["run"]);
            cmd.extend(fl.iter().map(|x| x.to_string()));
            if !fl.contains(&"--invoke") { cmd.extend(s(&["--invoke", f])) }
            cmd.push("m.wasm".into());
            if !a.is_empty() { cmd.extend(s(if f == "fill" { &["5", "5"] } else { &["5"] })) }
            let r = t.run(&dir, &cmd, b"");
            let values = match f { "rec" => vec![(I32, 5u128)], "fill" => vec![(I64, 0xa5a5a5a5a5)], _ => vec![(I32, 100u128)] };
            // either the right result or an error; a stack which may grow to a size no machine has is no error
            let must = fl.len() == 2 && fl[1].ends_with(":1000000000000000");
            let want = if must { Some(values) } else if i >= refuse.len() && r.code == Some(0) { Some(values) } else { None };
            judge_values(c, l, format!("flags {cmd:?}"), &cmd, &files, &r, want.as_deref());
        }
    });
    // allocation failure: refused by memory.grow, or a trap if asked for
    let text = r#"(module (memory 1) (func (export "grow") (param i32) (result i32) (memory.grow (local.get 0))))"#;
    fs::write(dir.join("g.wat"), text).unwrap();
    for (oom, back) in [(false, "vec"), (true, "vec")] { for n in ["1", "60000"] {
        let mut l = Local::default();
        let mut args = s(&["run", "--memory-backend", back, "--invoke", "grow", "g.wat", n]);
        if oom { args.insert(1, "--trap-on-oom".into()) }
        let mut cmd = std::process::Command::new("prlimit");
        cmd.arg("--as=1000000000").arg(&t.bin).args(&args);
        t.prepare(&mut cmd, &dir);
        let r = t.go(cmd, b"");
        let want = if n == "1" { Some(vec![(I32, 1u128)]) } else if oom { None } else { Some(vec![(I32, u32::MAX as u128)]) };
        judge_values(c, &mut l, format!("1 GB limit {args:?}"), &args, text, &r, want.as_deref());
        c.merge(l);
    } }
}

// ---- formats ----
const TEXTS: &[(&str, &str)] = &[
    ("empty", "(module)"),
    ("f", r#"(module (func (export "f") (result i32) (i32.const 42)))"#),
    ("start", r#"(module (global $g (mut i32) (i32.const 1)) (func $s (global.set $g (i32.const 77))) (start $s) (func (export "f") (result i32) (global.get $g)))"#),
    ("_start", r#"(module (func (export "_start")) (func (export "f") (result i64 f32) (i64.const -1) (f32.const 0.5)))"#),
    ("trap", r#"(module (func (export "_start") unreachable) (func (export "f") (result i32) (i32.div_u (i32.const 1) (i32.const 0))))"#),
    ("memory", r#"(module (memory (export "m") 1 3) (data (i32.const 10) "\01\02\03\04TWAS\00asm") (func (export "f") (result i32 i64) (i32.load (i32.const 10)) (i64.load (i32.const 14))))"#),
    ("table", r#"(module (table (export "t") 3 5 funcref) (type $t (func (result i32))) (elem (i32.const 1) $a $b) (func $a (result i32) (i32.const 5)) (func $b (result i32) (i32.const 6)) (func (export "f") (result i32) (call_indirect (type $t) (i32.const 2))))"#),
    ("imports", r#"(module (import "env" "log" (func $l (param i32 i64) (result f32))) (import "env" "mem" (memory 1 2)) (import "a" "t" (table 1 funcref)) (import "" "g" (global (mut i64))) (func (export "f") (result i32) (i32.const 1)) (export "again" (func $l)))"#),
    ("simd", r#"(module (func (export "f") (result v128) (i32x4.add (v128.const i32x4 1 2 3 4) (i32x4.splat (i32.const 10)))))"#),
    ("memory64", r#"(module (memory i64 1) (func (export "f") (result i64) (i64.store (i64.const 8) (i64.const 99)) (i64.load (i64.const 8))))"#),
    ("multi memory", r#"(module (memory $a 1) (memory $b 1) (data (memory $b) (i32.const 0) "z") (func (export "f") (result i32 i32) (i32.load8_u $a (i32.const 0)) (i32.load8_u $b (i32.const 0))))"#),
    ("loop", r#"(module (func (export "f") (result i32) (local i32 i32) (loop $l (local.set 0 (i32.add (local.get 0) (i32.const 3))) (br_if $l (i32.lt_u (local.tee 1 (i32.add (local.get 1) (i32.const 1))) (i32.const 1000)))) (local.get 0)))"#),
    ("tail", r#"(module (func $g (param i32) (result i32) (if (result i32) (local.get 0) (then (return_call $g (i32.sub (local.get 0) (i32.const 1)))) (else (i32.const 9)))) (func (export "f") (result i32) (call $g (i32.const 100000))))"#),
    ("comment", "(; TWAS ;) ;; first\n(module $name (func $x (export \"f\") (export \"g\") (result f64) (f64.const nan)))"),
    ("bare", r#"(func (export "f") (result i32) (i32.const 8))"#),
];
fn formats(c: &Check, t: &Tool) {
    let lib = |m: &tinywasm::Module, f: Option<&str>| -> Option<Vec<(VT, u128)>> {
        guard(|| {
            let mut st = Store::default();
            let i = ModuleInstance::instantiate_no_start(&mut st, m, None).ok()?;
            if m.start_func.is_some() { i.start(&mut st).ok()?; }
            match f { None => { if m.start_func.is_none() { i.func_untyped(&st, "_start").ok()?.call(&mut st, &[]).ok()?; } Some(vec![]) } Some(f) => Some(i.func_untyped(&st, f).ok()?.call(&mut st, &[]).ok()?.iter().map(from_wv).collect()) }
        }).ok().flatten()
    };
    c.par(TEXTS.len(), |i, l| {
        let (n, text) = TEXTS[i];
        let Ok(bytes) = wat::parse_str(text) else { panic!("text {n}") };
        let Ok(m) = tinywasm::parse_bytes(&bytes) else { c.violation(format!("format {n}"), "the library refuses a valid module", hex(&bytes)); return };
        let arch = m.serialize_twasm().expect("archive");
        let dir = t.dir();
        let files = format!("text {text}");
        // (content, how it is delivered, accepted)
        let mut ways: Vec<(String, &[u8], bool, bool)> = vec![];
        for (file, b, ok, tw) in [("m.wasm", &bytes[..], true, false), ("m.wat", text.as_bytes(), true, false), ("m.twasm", &arch, true, true), ("m", &bytes, true, false), ("m.bin", &bytes, true, false), ("m.twasm.wasm", &bytes, true, false), ("a.twasm", &bytes, true, false), ("b.wasm", &arch, true, true), ("b.wat", &arch, true, true), ("c.wat", &bytes, true, false), ("noext", &arch, true, true), ("d.wasm", text.as_bytes(), false, false), ("d.txt", text.as_bytes(), false, false), ("d.twasm", text.as_bytes(), false, false), ("sub/x.y.wat", text.as_bytes(), true, false), ("./sub/-", &bytes, true, false)] {
            if let Some(p) = Path::new(file).parent() { fs::create_dir_all(dir.join(p)).unwrap() }
            fs::write(dir.join(file), b).unwrap();
            ways.push((file.into(), b, ok, tw));
        }
        for b in [&bytes[..], text.as_bytes(), &arch] { ways.push(("-".into(), b, true, b == &arch[..])) }
        ways.push((dir.join("m.wat").to_string_lossy().into_owned(), text.as_bytes(), true, false));
        let run_f = lib(&m, Some("f"));
        let run_d = lib(&m, None);
        let mut first: HashMap<&str, Vec<u8>> = HashMap::new();
        for (file, b, ok, tw) in &ways {
            let stdin: &[u8] = if file == "-" { b } else { b"" };
            watch(|| format!("{n} {file}"));
            for (cmd, want) in [(s(&["run", "--invoke", "f", file]), &run_f), (s(&[file]), &run_d), (s(&["run", file]), &run_d)] {
                let r = t.run(&dir, &cmd, stdin);
                judge_values(c, l, format!("format {n}: {cmd:?}"), &cmd, &files, &r, want.as_deref().filter(|_| *ok));
            }
            for k in ["inspect", "dump"] {
                let r = t.run(&dir, &[k, file], stdin);
                let w = if !*ok { Want::Fail } else { match first.get(k) { Some(o) => Want::Out(o.clone()), None => Want::Ok } };
                if judge(c, l, format!("format {n}: {k} {file}"), &format!("{k} {file}"), &files, &r, &w) && *ok { first.insert(k, r.out); }
            }
            let r = t.run(&dir, &["compile", file, "-o", "-"], stdin);
            judge(c, l, format!("format {n}: compile {file} -o -"), &format!("compile {file} -o -"), &files, &r, &if *ok && !*tw { Want::Out(arch.clone()) } else { Want::Fail });
            end_watch();
        }
        // damaged input in every format, by file and by standard input
        let cut = c.pick(7, 1);
        let mut broken: Vec<(String, Vec<u8>)> = vec![];
        for k in (0..bytes.len()).step_by(cut) { broken.push(("x.wasm".into(), bytes[..k].to_vec())); broken.push(("-".into(), bytes[..k].to_vec())) }
        for k in (0..arch.len()).step_by(cut * 2) { broken.push(("x.twasm".into(), arch[..k].to_vec())); broken.push(("-".into(), arch[..k].to_vec())) }
        for k in (1..text.len()).step_by(cut * 2) { if text.is_char_boundary(k) { broken.push(("x.wat".into(), text.as_bytes()[..k].to_vec())); broken.push(("-".into(), text.as_bytes()[..k].to_vec())) } }
        for (k, (file, b)) in broken.iter().enumerate() {
            let stdin: &[u8] = if file == "-" { b } else { fs::write(dir.join(file), b).unwrap(); b"" };
            if file == "-" && b.is_empty() { continue }
            // a prefix may be a module of its own
            let own = wat::parse_bytes(b).map(|x| x.into_owned()).ok().filter(|_| file != "x.wasm" && file != "x.twasm").or_else(|| b.starts_with(b"\0asm").then(|| b.clone())).and_then(|b| tinywasm::parse_bytes(&b).ok()).or_else(|| tinywasm::Module::try_from_twasm(b).ok());
            watch(|| format!("{n} damaged {k}"));
            let w = if own.is_some() { Want::Ok } else { Want::Fail };
            for cmd in [vec!["inspect", file], vec!["dump", file], vec!["compile", file, "-o", "out.twasm"]] {
                if own.is_some() && cmd[0] == "compile" { continue }
                let r = t.run(&dir, &cmd, stdin);
                judge(c, l, format!("format {n}: damaged {}", hex(b)), &cmd.join(" "), &format!("{file} = {}", hex(b)), &r, &w);
            }
            let r = t.run(&dir, &["run", "--invoke", "f", file], stdin);
            let want = own.as_ref().and_then(|m| lib(m, Some("f")));
            judge_values(c, l, format!("format {n}: damaged {}", hex(b)), &s(&["run", "--invoke", "f", file]), &format!("{file} = {}", hex(b)), &r, want.as_deref());
            if dir.join("out.twasm").exists() { c.violation(format!("format {n}: output for damaged {}", hex(b)), "compiling an invalid module creates an output file", hex(b)); let _ = fs::remove_file(dir.join("out.twasm")); }
            end_watch();
        }
        let _ = fs::remove_dir_all(dir);
    });
    c.bound(format!("formats: {} modules, 20 deliveries each, every command; truncations of every form", TEXTS.len()));
}

// ---- compile: reachable states of a directory ----
type Dir = BTreeMap<String, Vec<u8>>;
fn read_dir(p: &Path, pre: &str, out: &mut Dir) {
    for e in fs::read_dir(p).unwrap().flatten() {
        let n = format!("{pre}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() { out.insert(format!("{n}/"), vec![]); read_dir(&e.path(), &format!("{n}/"), out) } else { out.insert(n, fs::read(e.path()).unwrap()); }
    }
}
fn compile(c: &Check, t: &Tool) {
    let a = wat(TEXTS[1].1);
    let btext = r#"(module (func (export "f") (result i32) (i32.const 43)) (memory 1))"#;
    let big = { let mut x = Module::default(); for k in 0..400 { let f = x.func(&[], &[I32], &[], vec![Op::I32C(k)]); x.export(&format!("e{k}"), EK::Func, f); } encode(&x) };
    let arch = |b: &[u8]| tinywasm::parse_bytes(b).unwrap().serialize_twasm().unwrap();
    let (ta, tb, tbig) = (arch(&a), arch(&wat(btext)), arch(&big));
    let value = |b: &[u8]| -> Option<u128> { if b == ta || b == a { Some(42) } else if b == tb { Some(43) } else { None } };
    let mut start = Dir::new();
    start.insert("a.wasm".into(), a.clone()); start.insert("b.wat".into(), btext.as_bytes().to_vec()); start.insert("big.v1.wasm".into(), big.clone()); start.insert("bad.wasm".into(), a[..a.len() - 3].to_vec()); start.insert("dir.twasm/".into(), vec![]); start.insert("dir.wasm".into(), a.clone());
    start.insert("noext".into(), a.clone()); start.insert("sub/".into(), vec![]); start.insert("sub/in.wat".into(), btext.as_bytes().to_vec()); start.insert(".hidden".into(), a.clone()); start.insert("keep.txt".into(), b"precious".to_vec());
    // (arguments, standard input, input file or none, default or given output, force)
    struct Act { args: Vec<&'static str>, input: &'static str, stdin: u8, output: Option<&'static str>, force: bool }
    let mk = |args: &'static str, input: &'static str, stdin: u8, output: Option<&'static str>| Act { args: args.split(' ').collect(), input, stdin, output, force: args.split(' ').any(|x| x == "-f" || x == "--force") };
    let acts: Vec<Act> = vec![
        mk("compile a.wasm", "a.wasm", 0, Some("a.twasm")), mk("compile a.wasm --force", "a.wasm", 0, Some("a.twasm")), mk("compile b.wat -o a.twasm", "b.wat", 0, Some("a.twasm")), mk("compile b.wat -o a.twasm -f", "b.wat", 0, Some("a.twasm")), mk("compile big.v1.wasm --output a.twasm -f", "big.v1.wasm", 0, Some("a.twasm")),
        mk("compile bad.wasm -o a.twasm --force", "bad.wasm", 0, Some("a.twasm")), mk("compile bad.wasm", "bad.wasm", 0, Some("bad.twasm")), mk("compile missing.wasm -f", "missing.wasm", 0, Some("missing.twasm")), mk("compile a.twasm -o c.twasm -f", "a.twasm", 0, Some("c.twasm")), mk("compile - -o c.twasm", "-", 1, Some("c.twasm")), mk("compile -o c.twasm -f -", "-", 2, Some("c.twasm")), mk("compile -f - -o c.twasm", "-", 3, Some("c.twasm")),
        mk("compile -", "-", 1, None), mk("compile - --force", "-", 1, None), mk("compile a.wasm -o -", "a.wasm", 0, Some("-")), mk("compile a.wasm -o - --force", "a.wasm", 0, Some("-")), mk("compile a.wasm -o nodir/x.twasm", "a.wasm", 0, Some("nodir/x.twasm")), mk("compile a.wasm -o sub -f", "a.wasm", 0, Some("sub")), mk("compile dir.wasm", "dir.wasm", 0, Some("dir.twasm")), mk("compile dir.wasm -f", "dir.wasm", 0, Some("dir.twasm")),
        mk("compile a.wasm -o a.wasm", "a.wasm", 0, Some("a.wasm")), mk("compile b.wat -o a.wasm --force", "b.wat", 0, Some("a.wasm")), mk("compile sub/in.wat", "sub/in.wat", 0, Some("sub/in.twasm")), mk("compile ./sub/in.wat -o sub/../c.twasm", "sub/in.wat", 0, Some("c.twasm")), mk("compile noext", "noext", 0, Some("noext.twasm")), mk("compile .hidden", ".hidden", 0, Some(".hidden.twasm")), mk("compile big.v1.wasm", "big.v1.wasm", 0, Some("big.v1.twasm")), mk("compile a.wasm -o keep.txt", "a.wasm", 0, Some("keep.txt")), mk("compile sub", "sub", 0, Some("sub.twasm")),
    ];
    let runs = ["a.wasm", "a.twasm", "c.twasm", "noext.twasm", "missing.wasm"];
    let reach = |st: &Dir, act: usize| -> (Dir, Want, Vec<u8>) {
        let x = &acts[act];
        let stdin = match x.stdin { 1 => a.clone(), 2 => btext.as_bytes().to_vec(), 3 => b"\0asm\x01\0\0\0\x07".to_vec(), _ => vec![] };
        let inp = if x.input == "-" { Some(&stdin) } else { st.get(x.input) };
        let out = match inp { Some(b) if *b == a => Some(&ta), Some(b) if b == btext.as_bytes() => Some(&tb), Some(b) if *b == big => Some(&tbig), _ => None };
        let fail = (st.clone(), Want::Fail, stdin.clone());
        let (Some(o), Some(to)) = (out, x.output) else { return fail };
        if to == "-" { return (st.clone(), Want::Out(o.clone()), stdin) }
        if st.contains_key(&format!("{to}/")) || to.starts_with("nodir/") || st.contains_key(to) && !x.force { return fail }
        let mut n = st.clone();
        n.insert(to.into(), o.clone());
        (n, Want::Out(vec![]), stdin)
    };
    // breadth-first search over the states of the model; every transition is executed by the tool
    let mut seen: HashMap<Dir, usize> = HashMap::from([(start.clone(), 0)]);
    let mut order = vec![start.clone()];
    let mut q = VecDeque::from([0usize]);
    let cap = c.pick(1500, usize::MAX);
    let mut complete = true;
    while let Some(i) = q.pop_front() {
        for k in 0..acts.len() {
            let n = reach(&order[i], k).0;
            if !seen.contains_key(&n) { if order.len() >= cap { complete = false; continue } seen.insert(n.clone(), order.len()); q.push_back(order.len()); order.push(n); }
        }
    }
    c.bound(format!("compile: {} states of a directory{}, {} actions in each", order.len(), if complete { " (all reachable)" } else { " (breadth-first)" }, acts.len() + runs.len()));
    c.par(order.len(), |i, l| {
        let dir = t.dir();
        let put = |st: &Dir| { for n in st.keys() { if let Some(d) = n.strip_suffix('/') { fs::create_dir_all(dir.join(d)).unwrap() } } for (n, b) in st { if !n.ends_with('/') && fs::read(dir.join(n)).ok().as_ref() != Some(b) { fs::write(dir.join(n), b).unwrap() } } };
        let st = &order[i];
        put(st);
        let key = |k: &str| format!("compile {k} in state with {:?}", st.keys().filter(|n| !start.contains_key(*n)).collect::<Vec<_>>());
        for k in 0..acts.len() + runs.len() {
            let (n, want, stdin, args) = if k < acts.len() { let (n, w, i) = reach(st, k); (n, w, i, acts[k].args.clone()) } else {
                let f = runs[k - acts.len()];
                (st.clone(), match st.get(f).and_then(|b| value(b)) { Some(v) => Want::Out(format!("i32({v})\n").into_bytes()), None => Want::Fail }, vec![], vec!["run", "--invoke", "f", f])
            };
            watch(|| format!("{args:?}"));
            let r = t.run(&dir, &args, &stdin);
            let text = args.join(" ");
            let mut found = Dir::new();
            read_dir(&dir, "", &mut found);
            let files = format!("files {:?}", st.iter().map(|(n, b)| format!("{n}: {} bytes", b.len())).collect::<Vec<_>>());
            judge(c, l, key(&text), &text, &files, &r, &want);
            if found != n {
                let d: Vec<String> = found.iter().filter(|(k, v)| n.get(*k) != Some(v)).map(|(k, v)| format!("{k} has {} bytes", v.len())).chain(n.iter().filter(|(k, v)| found.get(*k) != Some(v)).map(|(k, v)| format!("{k} must have {} bytes", v.len()))).collect();
                c.violation(key(&text), format!("tinywasm {text}: {}", d.join("; ")), files);
            }
            if found != *st { for f in found.keys() { if !st.contains_key(f) && !f.ends_with('/') { fs::remove_file(dir.join(f)).unwrap() } } put(st) }
            end_watch();
        }
        let _ = fs::remove_dir_all(dir);
    });
    // output that cannot be written is an error
    let dir = t.dir();
    fs::write(dir.join("a.wasm"), &a).unwrap();
    let mut l = Local::default();
    let r = t.run(&dir, &["compile", "a.wasm", "-o", "/dev/full", "--force"], b"");
    judge(c, &mut l, "compile to a full device", "compile a.wasm -o /dev/full --force", "", &r, &Want::Fail);
    for args in [vec!["compile", "a.wasm", "-o", "-"], vec!["run", "--invoke", "f", "a.wasm"], vec!["inspect", "a.wasm"]] {
        let mut cmd = std::process::Command::new("sh");
        cmd.arg("-c").arg("\"$@\" > /dev/full").arg("sh").arg(&t.bin).args(&args);
        t.prepare(&mut cmd, &dir);
        let r = t.go(cmd, b"");
        l.traces += 1;
        if r.code == Some(0) { c.violation(format!("{args:?} with a full standard output"), format!("tinywasm {args:?} > /dev/full reports success"), "") }
    }
    c.merge(l);
}

// ---- inspect and dump ----
fn ftype(p: &[wasmparser::ValType], r: &[wasmparser::ValType]) -> String {
    let j = |v: &[wasmparser::ValType]| v.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ");
    if r.is_empty() { format!("({})", j(p)) } else { format!("({}) -> ({})", j(p), j(r)) }
}
/// The lines `inspect` must show, from an independent decoder; `max=` of memories without a declared maximum is left open.
fn description(b: &[u8]) -> (Vec<String>, Vec<String>) {
    use wasmparser::*;
    let (mut types, mut funcs, mut mems, mut tabs, mut globs): (Vec<FuncType>, Vec<u32>, Vec<MemoryType>, Vec<TableType>, Vec<GlobalType>) = Default::default();
    let (mut imports, mut exports) = (vec![], vec![]);
    let mem = |m: &MemoryType| format!("memory[{}] initial={} max={} page_size={}", if m.memory64 { "i64" } else { "i32" }, m.initial, m.maximum.map_or("?".into(), |x| x.to_string()), 1u64 << m.page_size_log2.unwrap_or(16));
    let tab = |t: &TableType| format!("table[{} {}] initial={} max={}", if t.table64 { "i64" } else { "i32" }, t.element_type.to_string().trim_start_matches('(').trim_end_matches(')'), t.initial, t.maximum.map_or("unbounded".into(), |x| x.to_string()));
    let glob = |g: &GlobalType| format!("global[{} {}]", if g.mutable { "mut" } else { "const" }, g.content_type);
    for p in Parser::new(0).parse_all(b) {
        match p.expect("valid module") {
            Payload::TypeSection(s) => for g in s { for t in g.unwrap().into_types() { types.push(t.unwrap_func().clone()) } },
            Payload::ImportSection(s) => for i in s.into_imports() { let i = i.unwrap(); imports.push(format!("  {}.{}: {}", i.module, i.name, match i.ty { TypeRef::Func(t) => { funcs.push(t); let t = &types[t as usize]; format!("func {}", ftype(t.params(), t.results())) } TypeRef::Memory(m) => { mems.push(m); mem(&m) } TypeRef::Table(t) => { tabs.push(t); tab(&t) } TypeRef::Global(g) => { globs.push(g); glob(&g) } _ => String::new() })) },
            Payload::FunctionSection(s) => for f in s { funcs.push(f.unwrap()) },
            Payload::TableSection(s) => for x in s { tabs.push(x.unwrap().ty) },
            Payload::MemorySection(s) => for x in s { mems.push(x.unwrap()) },
            Payload::GlobalSection(s) => for x in s { globs.push(x.unwrap().ty) },
            Payload::ExportSection(s) => for e in s { let e = e.unwrap(); let k = e.index as usize; exports.push(format!("  {}: {}", e.name, match e.kind { ExternalKind::Func => { let t = &types[funcs[k] as usize]; format!("func {}", ftype(t.params(), t.results())) } ExternalKind::Memory => mem(&mems[k]), ExternalKind::Table => tab(&tabs[k]), ExternalKind::Global => glob(&globs[k]), _ => String::new() })) },
            _ => (),
        }
    }
    (imports, exports)
}
fn same_line(a: &str, w: &str) -> bool { match w.split_once("max=?") { None => a == w, Some((x, y)) => a.starts_with(x) && a.ends_with(y) && a.len() > x.len() + y.len() && a[x.len()..a.len() - y.len()].strip_prefix("max=").is_some_and(|n| n.bytes().all(|b| b.is_ascii_alphanumeric())) } }
fn inspect(c: &Check, t: &Tool) {
    let mut mods: Vec<(String, Vec<u8>)> = TEXTS.iter().map(|(n, x)| (n.to_string(), wat::parse_str(x).unwrap())).collect();
    for (n, b) in corpus::small() { mods.push((n.to_string(), b)) }
    // every kind and order of imports and exports
    let lims = [Limits::new(0, None), Limits::new(1, Some(1)), Limits::new(2, Some(5)), Limits::new64(1, Some(3)), Limits::new64(0, None), Limits { min: 3, max: Some(70), is64: false, page_log2: Some(0) }];
    for a in 0..5 { for b in 0..5 { for d in 0..6 {
        let mut m = Module::default();
        for (k, x) in [a, b, (a + b + d) % 5].into_iter().enumerate() {
            let n = ["x", "y z", ""][k];
            match x { 0 => { m.import_func("env", n, &[I32, F64][..k.min(2)], &[V128, I64, F32][..(d + k) % 4]); } 1 => { let ty = lims[d].clone(); m.imports.push(Import { module: "m.n".into(), name: n.into(), kind: ImportKind::Mem(ty) }) } 2 => m.imports.push(Import { module: "".into(), name: n.into(), kind: ImportKind::Table(if k == 1 { VT::Ext } else { VT::Func }, Limits { page_log2: None, ..lims[d].clone() }) }), 3 => m.imports.push(Import { module: "env".into(), name: n.into(), kind: ImportKind::Global([I32, I64, F32, F64, V128, VT::Ext][d], k % 2 == 0) }), _ => () }
        }
        let (nf, nm, nt, ng) = (m.n_imp(EK::Func), m.n_imp(EK::Mem), m.n_imp(EK::Table), m.n_imp(EK::Global));
        let f = m.func(&[VT::Ext, I64], &[VT::Func], &[], vec![Op::RefNull(VT::Func)]);
        m.mem(lims[(d + a) % 6].clone()); m.table(VT::Func, Limits { page_log2: None, ..lims[(d + b) % 6].clone() }); m.global(F32, b % 2 == 0, Op::F32C(0));
        let mut ex = vec![("func", EK::Func, f), ("mem", EK::Mem, nm), ("table", EK::Table, nt), ("glob", EK::Global, ng)];
        ex.rotate_left(a % 4);
        for k in 0..nf { ex.push((["re1", "re2", "re3"][k as usize], EK::Func, k)) }
        if ng > 0 { ex.push(("reg", EK::Global, 0)) } if nm > 0 { ex.insert(0, ("rem", EK::Mem, 0)) } if nt > 0 { ex.push(("ret", EK::Table, 0)) }
        for (n, k, i) in ex.into_iter().skip(d % 3) { m.export(n, k, i) }
        mods.push((format!("kinds {a} {b} {d}"), encode(&m)));
    } } }
    c.bound(format!("inspect and dump: {} modules", mods.len()));
    c.par(mods.len(), |i, l| {
        let (n, b) = &mods[i];
        let Ok(m) = tinywasm::parse_bytes(b) else { l.add("not_accepted", 1); return };
        let dir = t.dir();
        fs::write(dir.join("m.wasm"), b).unwrap();
        fs::write(dir.join("m.twasm"), m.serialize_twasm().unwrap()).unwrap();
        let (im, ex) = description(b);
        for f in ["m.wasm", "m.twasm"] {
            let r = t.run(&dir, &["inspect", f], b"");
            if judge(c, l, format!("inspect {n}"), &format!("inspect {f}"), &hex(b), &r, &Want::Ok) {
                let mut want = vec!["Imports".to_string()];
                want.extend(if im.is_empty() { vec!["  (none)".into()] } else { im.clone() });
                want.push(String::new()); want.push("Exports".into());
                want.extend(if ex.is_empty() { vec!["  (none)".into()] } else { ex.clone() });
                let text = r.text();
                let got: Vec<&str> = text.strip_suffix('\n').unwrap_or(&text).split('\n').collect();
                let want: Vec<String> = want.join("\n").split('\n').map(String::from).collect();
                if got.len() != want.len() || !got.iter().zip(&want).all(|(a, w)| same_line(a, w)) { c.violation(format!("inspect {n}"), format!("inspect {f} prints\n{text}\ninstead of\n{}", want.join("\n")), hex(b)) }
            }
            // every function with its exports and its instructions
            let mut want = String::new();
            let nimp = m.imports().filter(|i| matches!(i.ty, tinywasm::types::ImportType::Func(_))).count() as u32;
            for (k, f) in m.funcs.iter().enumerate() {
                let names: Vec<&str> = m.exports.iter().filter(|e| e.kind == tinywasm::types::ExternalKind::Func && e.index == nimp + k as u32).map(|e| &*e.name).collect();
                want += &if names.is_empty() { format!("func[{k}]\n") } else { format!("func[{k}] exports={names:?}\n") };
                for (ip, x) in f.instructions.iter().enumerate() { want += &format!("  {ip:04}: {x:?}\n") }
                want.push('\n');
            }
            let r = t.run(&dir, &["dump", f], b"");
            judge(c, l, format!("dump {n}"), &format!("dump {f}"), &hex(b), &r, &Want::Out(want.into_bytes()));
        }
        let _ = fs::remove_dir_all(dir);
    });
}

fn odd(c: &Check, t: &Tool) {
    let dir = t.dir();
    fs::write(dir.join("m.wasm"), wat(TEXTS[1].1)).unwrap();
    fs::write(dir.join("empty.wasm"), b"").unwrap();
    fs::create_dir_all(dir.join("d.wasm")).unwrap();
    let ok: Vec<Vec<&str>> = vec![vec!["--help"], vec!["--version"], vec!["run", "--help"], vec!["compile", "--help"], vec!["completion", "bash"], vec!["completion", "zsh"], vec!["completion", "fish"], vec!["completion", "powershell"], vec!["completion", "elvish"]];
    let bad: Vec<Vec<&str>> = vec![vec!["run"], vec!["compile"], vec!["dump"], vec!["inspect"], vec!["completion"], vec!["completion", "cmd"], vec!["nosuch.wasm"], vec!["run", "nosuch.wasm"], vec!["run", "empty.wasm"], vec!["run", "d.wasm"], vec!["dump", "empty.wasm"], vec!["inspect", "d.wasm"], vec!["compile", "empty.wasm"], vec!["compile", "d.wasm"], vec!["dump", "m.wasm", "extra"], vec!["inspect", "m.wasm", "extra"], vec!["compile", "m.wasm", "extra"], vec!["run", "--invoke"], vec!["run", "-"], vec!["inspect", "-"], vec!["dump", "-"], vec!["compile", "-", "-o", "x"], vec!["wast"], vec!["wast", "nosuch.wast"], vec!["run", ""], vec!["m.wasm", "run"], vec!["run", "m.wasm"], vec!["m.wasm"]];
    let mut l = Local::default();
    for (v, w) in ok.iter().map(|x| (x, Want::Ok)).chain(bad.iter().map(|x| (x, Want::Fail))) {
        let r = t.run(&dir, v, b"");
        if judge(c, &mut l, format!("odd {v:?}"), &format!("{v:?}"), "", &r, &w) && matches!(w, Want::Ok) && r.out.is_empty() { c.violation(format!("odd {v:?}"), "prints nothing", "") }
    }
    let mut left = Dir::new();
    read_dir(&dir, "", &mut left);
    if left.len() != 3 { c.violation("odd: files", format!("files left behind: {:?}", left.keys()), "") }
    c.merge(l);
}

pub fn run(c: &Check) {
    let t = Tool::new("p28");
    let mut at = std::time::Instant::now();
    let mut lap = |n: &str| { if std::env::var_os("MC_TIMES").is_some() { eprintln!("{n}: {:?}", at.elapsed()); at = std::time::Instant::now() } };
    lap("build");
    literals(c, &t); results(c, &t); names(c, &t); lap("values");
    traps(c, &t); lap("traps");
    flags(c, &t); lap("flags");
    formats(c, &t); lap("formats");
    compile(c, &t); lap("compile");
    inspect(c, &t); odd(c, &t); lap("inspect");
    c.assume("the decimal-to-binary conversion of the Rust standard library is the reference for float literals");
    c.assume("the library itself is judged by the other properties; flags are compared with the library under the same configuration");
}
