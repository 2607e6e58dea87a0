//! P29: the spec-script runner reports an assertion as passed exactly when it holds. (a) what a call does x what a
//! directive claims about it; (b) modules of every fate x the directives about modules; (c) histories of module,
//! register, invoke and get directives against a model of the registry; (d) files, directories, reports and status.
use crate::batch::{end_watch, watch};
use crate::cli::*;
use crate::report::*;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

/// A directive and whether it holds; None: not judged.
type Line = (String, bool);
/// Runs a script with one directive per line and compares verdict, counts and the list of failures.
fn script(c: &Check, l: &mut Local, t: &Tool, dir: &Path, key: &str, lines: &[Line]) -> bool {
    let text: String = lines.iter().map(|(x, _)| format!("{}\n", x.replace('\n', " "))).collect();
    fs::write(dir.join("s.wast"), &text).unwrap();
    watch(|| format!("{key}\n{text}"));
    let r = t.run(dir, &["wast", "s.wast"], b"");
    end_watch();
    l.transitions += lines.len() as u64;
    let bad: Vec<usize> = lines.iter().enumerate().filter(|(_, x)| !x.1).map(|(i, _)| i + 1).collect();
    let mut e = report(&r, &bad, lines.len(), "s.wast");
    l.traces += 1;
    l.states.insert(hash(&(key, r.code, &r.out)));
    if r.sig.is_some() || r.code == Some(101) { e = Some(format!("the runner crashes: {}", r.show())) }
    if let Some(e) = &e { c.violation(key, format!("{e}\nscript:\n{}\noutput: {}\n{}", text.chars().take(2500).collect::<String>(), r.text().chars().take(400).collect::<String>(), r.err.chars().take(600).collect::<String>()), text); }
    l.sample(|| format!("{key}: {} directives, failing lines {bad:?}: status {:?}", lines.len(), r.code));
    e.is_none()
}
fn number(out: &str, what: &str) -> Option<usize> { out.lines().find_map(|x| x.trim().strip_prefix(what)?.trim().parse().ok()) }
/// Failing lines of one file reported on stderr.
fn failures(r: &Ran, file: &str) -> Vec<usize> {
    let mut v: Vec<usize> = r.err.lines().filter(|x| x.contains(" failed: ")).filter_map(|x| x.split_once(&format!("{file}:"))?.1.split(':').next()?.parse().ok()).collect();
    v.sort(); v.dedup(); v
}
fn report(r: &Ran, bad: &[usize], n: usize, file: &str) -> Option<String> {
    let ok = r.code == Some(0);
    if ok != bad.is_empty() { return Some(format!("the script ends with status {:?}, {} of its directives are false (lines {bad:?})", r.code, bad.len())) }
    let got = failures(r, file);
    if got != bad { return Some(format!("failing directives must be on lines {bad:?}, reported {got:?}")) }
    let out = r.text();
    let (total, p, f) = (number(&out, "Total Tests:"), number(&out, "Total Passed:"), number(&out, "Total Failed:"));
    if (total, p, f) != (Some(n), Some(n - bad.len()), Some(bad.len())) { return Some(format!("summary says {total:?} tests, {p:?} passed, {f:?} failed; {n} directives, {} false", bad.len())) }
    None
}

#[derive(Clone, Debug, PartialEq)]
enum Does { Returns(Vec<&'static str>), Traps(&'static str), Exhausts, Errs }
use Does::*;

/// Bodies: (name, params, results, body, what it does).
fn behaviours() -> Vec<(String, String, Does)> {
    let mut v: Vec<(String, String, Does)> = vec![];
    let mut add = |n: &str, sig: &str, body: &str, d: Does| v.push((n.into(), format!("(func (export \"{n}\") {sig} {body})"), d));
    add("nothing", "", "", Returns(vec![]));
    for x in ["i32.const 0", "i32.const 7", "i32.const -1", "i64.const 7", "i64.const -1", "i64.const 4294967303", "f32.const 0", "f32.const -0", "f32.const 1.5", "f32.const inf", "f32.const nan", "f64.const 0", "f64.const -0", "f64.const 1.5", "f64.const -inf", "f64.const nan", "f64.const 1.5000000000000002", "v128.const i32x4 1 2 3 4", "v128.const i64x2 0 0", "v128.const f32x4 1 nan 2 3", "v128.const f64x2 nan 1", "v128.const f32x4 nan nan nan nan", "v128.const f64x2 0 -0"] {
        let ty = &x[..x.find('.').unwrap()];
        add(&format!("r {x}"), &format!("(result {ty})"), &format!("({x})"), Returns(vec![x]));
    }
    add("null func", "(result funcref)", "(ref.null func)", Returns(vec!["ref.null func"]));
    add("null extern", "(result externref)", "(ref.null extern)", Returns(vec!["ref.null extern"]));
    add("pair", "(result i32 i32)", "(i32.const 1) (i32.const 2)", Returns(vec!["i32.const 1", "i32.const 2"]));
    add("mixed", "(result i64 f32 i32)", "(i64.const 1) (f32.const nan) (i32.const 3)", Returns(vec!["i64.const 1", "f32.const nan", "i32.const 3"]));
    add("unreachable", "(result i32)", "unreachable", Traps("unreachable"));
    add("div", "(result i32)", "(i32.div_s (i32.const 1) (i32.const 0))", Traps("integer divide by zero"));
    add("overflow", "", "(drop (i64.div_s (i64.const 0x8000000000000000) (i64.const -1)))", Traps("integer overflow"));
    add("conversion", "", "(drop (i32.trunc_f32_s (f32.const nan)))", Traps("invalid conversion to integer"));
    add("memory", "(result i32)", "(i32.load (i32.const -1))", Traps("out of bounds memory access"));
    add("table", "(result funcref)", "(table.get (i32.const 99))", Traps("out of bounds table access"));
    add("undefined", "", "(call_indirect (type $v) (i32.const 99))", Traps("undefined element"));
    add("uninitialized", "", "(call_indirect (type $v) (i32.const 1))", Traps("uninitialized element"));
    add("mismatch", "", "(drop (call_indirect (type $i) (i32.const 0)))", Traps("indirect call type mismatch"));
    add("recursion", "", "(call $rec)", Exhausts);
    v.push(("missing".into(), String::new(), Errs));
    v.push(("m".into(), "(export \"m\" (memory 0))".into(), Errs));
    v.push(("g".into(), "(export \"g\" (global 0))".into(), Errs));
    v
}
const MESSAGES: &[&str] = &["unreachable", "integer divide by zero", "integer overflow", "invalid conversion to integer", "out of bounds memory access", "out of bounds table access", "undefined element", "uninitialized element", "indirect call type mismatch", "call stack exhausted"];
fn is_nan(x: &str) -> bool { x.starts_with("f") && x.contains("nan") }
/// Does a returned value satisfy an expected pattern? None: not judged.
fn matches(got: &str, want: &str) -> Option<bool> {
    let (gt, wt) = (got.split('.').next().unwrap(), want.split('.').next().unwrap());
    if want.starts_with("either:") { let mut any = false; for w in want[7..].split('|') { any |= matches(got, w)? } return Some(any) }
    if gt != wt { return Some(false) }
    if gt == "f32" || gt == "f64" {
        if is_nan(want) { return Some(is_nan(got)) }
        return Some(got == want)
    }
    if gt == "v128" && (got.contains("nan") || want.contains("nan")) {
        let (a, b): (Vec<&str>, Vec<&str>) = (got.split(' ').skip(1).collect(), want.split(' ').skip(1).collect());
        if a[0] != b[0] { return None }
        return Some(a[1..].iter().zip(&b[1..]).all(|(x, y)| if y.starts_with("nan") { *x == "nan" } else { x == y }))
    }
    if gt == "v128" { return if got == want { Some(true) } else if (got, want) == ("v128.const i64x2 0 0", "v128.const i32x4 0 0 0 0") { Some(true) } else if got == "v128.const f64x2 0 -0" || want == "v128.const f64x2 0 -0" { Some(false) } else { Some(got == want) } }
    Some(got == want)
}
fn pattern(x: &str) -> String { if let Some(r) = x.strip_prefix("either:") { format!("(either {})", r.split('|').map(|y| format!("({y})")).collect::<Vec<_>>().join(" ")) } else { format!("({x})") } }
fn module(b: &[(String, String, Does)]) -> String {
    let f: String = b.iter().filter(|x| !x.1.is_empty()).map(|x| x.1.clone()).collect();
    format!("(module (type $v (func)) (type $i (func (result i32))) (memory 1) (table 2 funcref) (global (mut i32) (i32.const 0)) (elem (i32.const 0) $rec) (func $rec (call $rec) (call $rec)) {f})")
}
fn claims() -> Vec<Vec<&'static str>> {
    let mut v: Vec<Vec<&'static str>> = vec![vec![]];
    for x in ["i32.const 0", "i32.const 7", "i32.const -1", "i32.const 8", "i64.const 7", "i64.const -1", "i64.const 4294967303", "i64.const 0", "f32.const 0", "f32.const -0", "f32.const 1.5", "f32.const inf", "f32.const -inf", "f32.const nan:canonical", "f32.const nan:arithmetic", "f64.const 0", "f64.const -0", "f64.const 1.5", "f64.const -inf", "f64.const 1.5000000000000002", "f64.const nan:canonical", "f64.const nan:arithmetic",
        "v128.const i32x4 1 2 3 4", "v128.const i32x4 1 2 3 5", "v128.const i32x4 0 0 0 0", "v128.const i64x2 0 0", "v128.const f32x4 1 nan:canonical 2 3", "v128.const f32x4 1 nan:arithmetic 2 4", "v128.const f32x4 1 2 2 3", "v128.const f32x4 nan:canonical nan:arithmetic nan:canonical nan:arithmetic", "v128.const f64x2 nan:arithmetic 1", "v128.const f64x2 nan:canonical 2", "v128.const f64x2 0 -0", "ref.null func", "ref.null extern",
        "either:i32.const 7|i32.const 9", "either:i32.const 9|i32.const 7", "either:i32.const 9|i32.const 10", "either:f32.const 1.5|f32.const nan:canonical"] { v.push(vec![x]) }
    for x in [vec!["i32.const 1", "i32.const 2"], vec!["i32.const 2", "i32.const 1"], vec!["i32.const 1", "i32.const 3"], vec!["i32.const 3", "i32.const 2"], vec!["i32.const 1"], vec!["i32.const 1", "i32.const 2", "i32.const 3"], vec!["either:i32.const 1|i32.const 5", "either:i32.const 5|i32.const 2"], vec!["either:i32.const 5|i32.const 6", "i32.const 2"], vec!["i64.const 1", "f32.const nan:arithmetic", "i32.const 3"], vec!["i64.const 1", "f32.const 0", "i32.const 3"], vec!["i64.const 2", "f32.const nan:canonical", "i32.const 3"], vec!["i64.const 1", "f32.const nan:canonical", "i32.const 4"], vec!["i64.const 1", "f64.const nan:canonical", "i32.const 3"]] { v.push(x) }
    v
}
/// Every directive about a call of each behaviour with its truth.
fn calls() -> Vec<(String, Line)> {
    let mut v = vec![];
    for (n, _, d) in behaviours() {
        for cl in claims() {
            let truth = match &d { Returns(g) => if g.len() != cl.len() { Some(false) } else { let m: Vec<Option<bool>> = g.iter().zip(&cl).map(|(a, b)| matches(a, b)).collect(); if m.contains(&Some(false)) { Some(false) } else if m.contains(&None) { None } else { Some(true) } }, _ => Some(false) };
            if let Some(t) = truth { v.push((format!("{n} returns {cl:?}"), (format!("(assert_return (invoke \"{n}\") {})", cl.iter().map(|x| pattern(x)).collect::<Vec<_>>().join(" ")), t))) }
        }
        for m in MESSAGES {
            let truth = match &d { Traps(x) => x == m, Exhausts if *m == "call stack exhausted" => continue, _ => false };
            v.push((format!("{n} traps {m}"), (format!("(assert_trap (invoke \"{n}\") \"{m}\")"), truth)));
        }
        if let Traps(x) = &d { let x = if *x == "undefined element" { "undefined element 99" } else if *x == "uninitialized element" { "uninitialized element 1" } else { x }; v.push((format!("{n} traps {x}, longer"), (format!("(assert_trap (invoke \"{n}\") \"{x}\")"), true))) }
        v.push((format!("{n} exhausts"), (format!("(assert_exhaustion (invoke \"{n}\") \"call stack exhausted\")"), d == Exhausts)));
        v.push((format!("{n} invoked"), (format!("(invoke \"{n}\")"), matches!(d, Returns(_)))));
    }
    v
}
/// Arguments reach the function: (type, literal, what it is).
fn arguments() -> Vec<Line> {
    let vals: &[(&str, &str, &str)] = &[("i32", "i32.const 5", "i32.const 5"), ("i32", "i32.const -2147483648", "i32.const 2147483648"), ("i64", "i64.const -3", "i64.const -3"), ("f32", "f32.const 0x1.8p1", "f32.const 3"), ("f32", "f32.const nan:0x200000", "f32.const nan:arithmetic"), ("f64", "f64.const -0", "f64.const -0"), ("f64", "f64.const 1e300", "f64.const 1e300"), ("v128", "v128.const i8x16 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16", "v128.const i16x8 0x0201 0x0403 0x0605 0x0807 0x0a09 0x0c0b 0x0e0d 0x100f"), ("externref", "ref.extern 3", "ref.extern 3"), ("externref", "ref.extern 0", "ref.extern 0"), ("externref", "ref.null extern", "ref.null extern"), ("funcref", "ref.null func", "ref.null func")];
    let mut v: Vec<Line> = vec![];
    let fs: String = ["i32", "i64", "f32", "f64", "v128", "externref", "funcref"].iter().map(|t| format!("(func (export \"{t}\") (param {t}) (result {t}) (local.get 0))")).collect();
    let two: String = ["i32", "i64", "f32", "f64", "v128", "externref", "funcref"].iter().map(|t| format!("(func (export \"snd {t}\") (param i32 {t}) (result {t} i32) (local.get 1) (local.get 0))")).collect();
    v.push((format!("(module {fs} {two})"), true));
    for (t, a, w) in vals {
        v.push((format!("(assert_return (invoke \"{t}\" ({a})) ({w}))"), true));
        v.push((format!("(assert_return (invoke \"snd {t}\" (i32.const 77) ({a})) ({w}) (i32.const 77))"), true));
        v.push((format!("(assert_return (invoke \"snd {t}\" (i32.const 77) ({a})) (i32.const 77) ({w}))"), *t == "i32" && false));
        for (t2, _, w2) in vals { if t2 == t && w2 != w && !w2.contains("nan") { v.push((format!("(assert_return (invoke \"{t}\" ({a})) ({w2}))"), false)) } }
        for (t2, a2, _) in vals { if t2 != t { v.push((format!("(assert_return (invoke \"{t}\" ({a2})) ({w}))"), false)); v.push((format!("(assert_trap (invoke \"{t}\" ({a2})) \"unreachable\")"), false)) } }
        v.push((format!("(assert_return (invoke \"{t}\") ({w}))"), false));
        v.push((format!("(assert_return (invoke \"{t}\" ({a}) ({a})) ({w}))"), false));
        v.push((format!("(invoke \"{t}\" ({a}))"), true));
        v.push((format!("(invoke \"{t}\")"), false));
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Fate { Good, Invalid, Malformed, Unlinkable, Traps(&'static str) }
fn modules() -> Vec<(&'static str, Fate)> {
    use Fate::{Good, Invalid, Malformed, Unlinkable};
    vec![
        ("(module)", Good), ("(module (func))", Good), ("(module (memory 1) (data (i32.const 65535) \"a\"))", Good), ("(module (import \"spectest\" \"print_i32\" (func (param i32))))", Good), ("(module (import \"spectest\" \"memory\" (memory 1 2)))", Good), ("(module (import \"spectest\" \"global_i32\" (global i32)) (func (export \"e\") (result i32) (global.get 0)))", Good), ("(module (import \"spectest\" \"table\" (table 10 20 funcref)))", Good), ("(module (import \"R\" \"f\" (func (result i32))))", Good), ("(module (func $s) (start $s))", Good), ("(module quote \"(func (export \\\"q\\\"))\")", Good), ("(module binary \"\\00asm\" \"\\01\\00\\00\\00\")", Good),
        ("(module (func (call 1)))", Invalid), ("(module (func (result i32)))", Invalid), ("(module (func (local.get 0) drop))", Invalid), ("(module (func (i32.load (i32.const 0)) drop))", Invalid), ("(module (start 3))", Invalid), ("(module (func (br 4)))", Invalid), ("(module (global i32 (i64.const 1)))", Invalid), ("(module (memory 2 1))", Invalid), ("(module (export \"a\" (func 0)))", Invalid), ("(module (func) (export \"a\" (func 0)) (export \"a\" (func 0)))", Invalid), ("(module (func (i32.add (i32.const 1) (i64.const 1)) drop))", Invalid), ("(module (global i32 (i32.const 0)) (func (global.set 0 (i32.const 1))))", Invalid),
        ("(module quote \"(func\")", Malformed), ("(module quote \"(func (i32.cons 1))\")", Malformed), ("(module quote \"(func (i32.const 0x100000000))\")", Malformed), ("(module binary \"\\00asm\")", Malformed), ("(module binary \"\")", Malformed), ("(module binary \"\\00asm\" \"\\02\\00\\00\\00\")", Malformed), ("(module binary \"\\00asm\" \"\\01\\00\\00\\00\" \"\\03\\02\\01\\00\")", Malformed), ("(module binary \"\\00asm\" \"\\01\\00\\00\\00\" \"\\7f\\00\")", Malformed), ("(module binary \"\\00asm\" \"\\01\\00\\00\\00\" \"\\01\\05\\01\")", Malformed),
        ("(module (import \"spectest\" \"nothing\" (func)))", Unlinkable), ("(module (import \"nowhere\" \"f\" (func)))", Unlinkable), ("(module (import \"spectest\" \"print_i32\" (func (param i64))))", Unlinkable), ("(module (import \"spectest\" \"memory\" (func)))", Unlinkable), ("(module (import \"spectest\" \"memory\" (memory 2)))", Unlinkable), ("(module (import \"spectest\" \"table\" (table 11 funcref)))", Unlinkable), ("(module (import \"spectest\" \"global_i32\" (global i64)))", Unlinkable), ("(module (import \"spectest\" \"global_i32\" (global (mut i32))))", Unlinkable), ("(module (import \"R\" \"g\" (func (result i32))))", Unlinkable),
        ("(module (func $s unreachable) (start $s))", Fate::Traps("unreachable")), ("(module (func $s (drop (i32.div_u (i32.const 1) (i32.const 0)))) (start $s))", Fate::Traps("integer divide by zero")), ("(module (memory 1) (data (i32.const 65536) \"a\"))", Fate::Traps("out of bounds memory access")), ("(module (table 1 funcref) (func $f) (elem (i32.const 1) $f))", Fate::Traps("out of bounds table access")),
    ]
}
/// Directives about modules: (text, holds); messages which the runner leaves alone on purpose are not used here.
fn module_lines() -> Vec<(String, Line)> {
    let mut v: Vec<(String, Line)> = vec![];
    for (m, f) in modules() {
        let mut add = |k: &str, text: String, t: bool| v.push((format!("{k} of {m}"), (text, t)));
        add("module", m.to_string(), f == Fate::Good);
        let named = m.replacen("(module", "(module definition", 1);
        if !m.contains("quote") && !m.contains("binary") { add("definition", named, !matches!(f, Fate::Invalid | Fate::Malformed)); }
        if f != Fate::Malformed { for x in ["unknown function", "unknown memory", "unknown label", "duplicate export name"] { add(&format!("assert_invalid {x}"), format!("(assert_invalid {m} \"{x}\")"), f == Fate::Invalid) } }
        if f != Fate::Invalid { for x in ["unexpected end", "unknown operator", "magic header not detected"] { add(&format!("assert_malformed {x}"), format!("(assert_malformed {m} \"{x}\")"), f == Fate::Malformed) } }
        if !m.contains("quote") {
            for x in ["unknown import", "incompatible import type"] { if f == Fate::Unlinkable || matches!(f, Fate::Good | Fate::Traps(_) | Fate::Invalid) { add(&format!("assert_unlinkable {x}"), format!("(assert_unlinkable {m} \"{x}\")"), f == Fate::Unlinkable) } }
            for x in ["unreachable", "integer divide by zero", "out of bounds memory access", "out of bounds table access"] { add(&format!("assert_trap {x}"), format!("(assert_trap {m} \"{x}\")"), f == Fate::Traps(x)) }
        }
    }
    v
}

// ---- histories over the registry ----
#[derive(Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Reg { cur: Option<usize>, ids: BTreeMap<&'static str, usize>, reg: BTreeMap<&'static str, usize>, insts: Vec<(i32, i32)> }
/// (constant, counter) of each instance; an importing module shows the constant of what it imports.
#[derive(Clone, Copy, Debug)]
enum Act { Mod(Option<&'static str>, i32), Imp(Option<&'static str>, &'static str), Register(&'static str, Option<&'static str>), Inc(Option<&'static str>), Bad }
fn acts() -> Vec<Act> {
    use Act::*;
    vec![Mod(None, 10), Mod(Some("A"), 20), Mod(Some("B"), 30), Mod(Some("x"), 40), Imp(None, "x"), Imp(Some("A"), "A"), Imp(Some("C"), "y"), Register("x", None), Register("x", Some("A")), Register("A", Some("B")), Register("y", Some("A")), Register("A", None), Inc(None), Inc(Some("A")), Inc(Some("x")), Inc(Some("B")), Bad]
}
fn step(r: &mut Reg, a: Act) -> Line {
    let body = |k: i32| format!("(global $n (export \"n\") (mut i32) (i32.const 0)) (func (export \"v\") (result i32) (i32.const {k})) (func (export \"inc\") (result i32) (global.set $n (i32.add (global.get $n) (i32.const 1))) (global.get $n))");
    let id = |n: Option<&str>| n.map(|x| format!("${x} ")).unwrap_or_default();
    let get = |r: &Reg, n: Option<&str>| match n { None => r.cur, Some(x) => r.ids.get(x).copied() };
    match a {
        Act::Mod(n, k) => { r.insts.push((k, 0)); r.cur = Some(r.insts.len() - 1); if let Some(x) = n { r.ids.insert(x, r.insts.len() - 1); } (format!("(module {}{})", id(n), body(k)), true) }
        Act::Imp(n, from) => {
            let text = format!("(module {}(import \"{from}\" \"v\" (func $v (result i32))) (global $n (export \"n\") (mut i32) (i32.const 0)) (func (export \"v\") (result i32) (i32.add (call $v) (i32.const 1))) (func (export \"inc\") (result i32) (global.set $n (i32.add (global.get $n) (i32.const 1))) (global.get $n)))", id(n));
            match r.reg.get(from).copied() { None => (text, false), Some(i) => { let k = r.insts[i].0 + 1; r.insts.push((k, 0)); r.cur = Some(r.insts.len() - 1); if let Some(x) = n { r.ids.insert(x, r.insts.len() - 1); } (text, true) } }
        }
        Act::Register(n, m) => { let text = format!("(register \"{n}\" {})", m.map(|x| format!("${x}")).unwrap_or_default()); match get(r, m) { None => (text, false), Some(i) => { r.reg.insert(n, i); (text, true) } } }
        Act::Inc(m) => match get(r, m) { None => (format!("(assert_return (invoke {}\"inc\") (i32.const 1))", id(m)), false), Some(i) => { r.insts[i].1 += 1; (format!("(assert_return (invoke {}\"inc\") (i32.const {}))", id(m), r.insts[i].1), true) } },
        Act::Bad => ("(assert_invalid (module $A (func (call 1))) \"unknown function\")".into(), true),
    }
}
/// What every name must show now, and that another value is not accepted.
fn probes(r: &Reg) -> Vec<Line> {
    let mut v = vec![];
    for n in [None, Some("A"), Some("B"), Some("x"), Some("C")] {
        let i = match n { None => r.cur, Some(x) => r.ids.get(x).copied() };
        let id = n.map(|x| format!("${x} ")).unwrap_or_default();
        match i {
            None => { v.push((format!("(assert_return (invoke {id}\"v\") (i32.const 10))"), false)); v.push((format!("(assert_return (get {id}\"n\") (i32.const 0))"), false)) }
            Some(i) => { let (k, c) = r.insts[i]; v.push((format!("(assert_return (invoke {id}\"v\") (i32.const {k}))"), true)); v.push((format!("(assert_return (get {id}\"n\") (i32.const {c}))"), true)); v.push((format!("(assert_return (get {id}\"n\") (i32.const {}))", c + 1), false)) }
        }
    }
    for n in ["x", "y", "A", "B"] {
        let want = r.reg.get(n).map(|i| r.insts[*i].0);
        let m = format!("(module $P (import \"{n}\" \"v\" (func $v (result i32))) (func (export \"w\") (result i32) (call $v)))");
        match want {
            None => { v.push((format!("(assert_unlinkable {m} \"unknown import\")"), true)); }
            Some(k) => { v.push((m, true)); v.push((format!("(assert_return (invoke \"w\") (i32.const {k}))"), true)); v.push((format!("(assert_return (invoke $P \"w\") (i32.const {}))", k + 1), false)); }
        }
    }
    v
}

pub fn run(c: &Check) {
    let t = Tool::new("p29");
    let b = behaviours();
    let m = module(&b);
    // (a) each directive alone, then all of them in one script in several orders
    let calls = calls();
    c.bound(format!("calls: {} behaviours, {} directives about them, each alone and in long scripts", b.len(), calls.len()));
    let chunks: Vec<_> = calls.chunks(24).collect();
    c.par(chunks.len(), |i, l| {
        let dir = t.dir();
        for (k, line) in chunks[i] { script(c, l, &t, &dir, &format!("call {k}"), &[(m.clone(), true), line.clone()]); }
        let _ = fs::remove_dir_all(dir);
    });
    c.par(6, |i, l| {
        let dir = t.dir();
        let mut v: Vec<Line> = vec![(m.clone(), true)];
        let lines: Vec<Line> = calls.iter().map(|x| x.1.clone()).collect();
        v.extend(match i { 0 => lines, 1 => lines.into_iter().rev().collect(), 2 => lines.into_iter().filter(|x| x.1).collect(), 3 => lines.into_iter().filter(|x| !x.1).collect(), 4 => { let n = lines.len(); (0..n).map(|k| lines[k * 7 % n].clone()).collect() } _ => arguments() });
        if i == 5 { v.remove(0); }
        script(c, l, &t, &dir, &format!("long script {i}"), &v);
        let _ = fs::remove_dir_all(dir);
    });
    let args = arguments();
    c.par(args.len() - 1, |i, l| { let dir = t.dir(); script(c, l, &t, &dir, &format!("argument {}", args[i + 1].0), &[args[0].clone(), args[i + 1].clone()]); let _ = fs::remove_dir_all(dir); });
    // (b) modules
    let mods = module_lines();
    c.bound(format!("modules: {} modules, {} directives about them", modules().len(), mods.len()));
    let first: Vec<Line> = vec![("(module $R (func (export \"f\") (result i32) (i32.const 1)))".into(), true), ("(register \"R\" $R)".into(), true)];
    c.par(mods.len() + 2, |i, l| {
        let dir = t.dir();
        let mut v = first.clone();
        if i < mods.len() { v.push(mods[i].1.clone()); script(c, l, &t, &dir, &mods[i].0, &v); }
        // a failing or asserted module leaves the current one alone unless it was a module directive
        else if i == mods.len() { for (_, x) in mods.iter().filter(|x| x.1.0.starts_with("(assert")) { v.push(x.clone()); v.push(("(assert_return (invoke \"f\") (i32.const 1))".into(), true)) } script(c, l, &t, &dir, "all module assertions", &v); }
        else { for (_, x) in mods.iter().rev() { v.push(x.clone()); v.push(("(assert_return (invoke $R \"f\") (i32.const 1))".into(), true)) } script(c, l, &t, &dir, "all module directives", &v); }
        let _ = fs::remove_dir_all(dir);
    });
    // assertions which the runner leaves alone: "type mismatch" is recorded as a known finding
    {
        let mut l = Local::default();
        let dir = t.dir();
        script(c, &mut l, &t, &dir, "assert_invalid \"type mismatch\" of a valid module", &[("(assert_invalid (module (func)) \"type mismatch\")".into(), false)]);
        script(c, &mut l, &t, &dir, "assert_invalid \"type mismatch\" of an invalid module", &[("(assert_invalid (module (func (result i32) (i64.const 1))) \"type mismatch\")".into(), true)]);
        script(c, &mut l, &t, &dir, "get as a trap", &[(m.clone(), true), ("(assert_trap (get \"g\") \"unreachable\")".into(), false)]);
        c.merge(l);
    }
    // (c) registry histories
    let acts = acts();
    let depth = c.pick(3, 4);
    let n = acts.len();
    let total: usize = (0..=depth).map(|d| n.pow(d as u32)).sum();
    c.bound(format!("registry: all {total} histories of up to {depth} of {n} directives, every name probed at the end"));
    let jobs = n * n;
    c.par(jobs + 1, |j, l| {
        let dir = t.dir();
        let mut hist: Vec<Vec<usize>> = vec![];
        if j == jobs { hist.push(vec![]); for a in 0..n { hist.push(vec![a]) } } else {
            let p = vec![j / n, j % n];
            hist.push(p.clone());
            let mut level = vec![p];
            for _ in 2..depth { let mut next = vec![]; for h in &level { for a in 0..n { let mut k = h.clone(); k.push(a); next.push(k) } } hist.extend(next.iter().cloned()); level = next; }
        }
        for h in hist {
            if c.stopped() { break }
            let mut r = Reg::default();
            let mut v: Vec<Line> = h.iter().map(|a| step(&mut r, acts[*a])).collect();
            v.extend(probes(&r));
            l.states.insert(hash(&r));
            script(c, l, &t, &dir, &format!("history {:?}", h.iter().map(|a| acts[*a]).collect::<Vec<_>>()), &v);
        }
        let _ = fs::remove_dir_all(dir);
    });
    files(c, &t);
    c.assume("messages of link errors and the payload of expected NaNs are not compared; assert_invalid with \"multiple memories\" and assert_malformed with three messages of encodings made valid by later proposals are left alone by design");
}

/// Several files: which are run, what is reported for each, and the exit status.
fn files(c: &Check, t: &Tool) {
    let good = "(module (func (export \"f\") (result i32) (i32.const 1)))\n(assert_return (invoke \"f\") (i32.const 1))\n(register \"shared\")\n";
    let bad1 = "(module (func (export \"f\") (result i32) (i32.const 1)))\n(assert_return (invoke \"f\") (i32.const 2))\n(assert_return (invoke \"f\") (i32.const 1))\n";
    let bad2 = "(module (func (export \"f\") (result i32) (i32.const 1)))\n(assert_return (invoke \"f\") (i32.const 2))\n\n(assert_trap (invoke \"f\") \"unreachable\")\n";
    let leak = "(assert_unlinkable (module (import \"shared\" \"f\" (func (result i32)))) \"unknown import\")\n";
    let leak2 = "(assert_return (invoke \"f\") (i32.const 1))\n";
    let kinds: Vec<(&str, &str, Option<(usize, Vec<usize>)>)> = vec![("good", good, Some((3, vec![]))), ("bad1", bad1, Some((3, vec![2]))), ("bad2", bad2, Some((3, vec![2, 4]))), ("leak", leak, Some((1, vec![]))), ("leak2", leak2, Some((1, vec![1]))), ("broken", "(module", None), ("nonsense", "(assert_nothing)", None), ("missing", "", None)];
    // every sequence of up to three files, given as paths; and the same as a directory
    let n = kinds.len();
    let depth = c.pick(3, 4);
    let mut seqs: Vec<Vec<usize>> = vec![];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth { let mut next = vec![]; for s in &level { for k in 0..n { let mut x = s.clone(); x.push(k); next.push(x) } } seqs.extend(next.iter().cloned()); level = next; }
    c.bound(format!("files: all {} sequences of up to {depth} of {n} files, as paths and as a directory", seqs.len()));
    let chunks: Vec<_> = seqs.chunks(50).collect();
    c.par(chunks.len(), |i, l| for s in chunks[i] {
        let dir = t.dir();
        fs::create_dir_all(dir.join("d/inner.wast.d")).unwrap();
        let mut paths = vec!["wast".to_string()];
        for (k, x) in s.iter().enumerate() { let f = format!("f{k}_{}.wast", kinds[*x].0); if kinds[*x].0 != "missing" { fs::write(dir.join(&f), kinds[*x].1).unwrap(); fs::write(dir.join("d").join(&f), kinds[*x].1).unwrap(); } paths.push(f) }
        fs::write(dir.join("d/notes.txt"), "not a script").unwrap();
        fs::write(dir.join("d/inner.wast.d/x.wast"), "(module").unwrap();
        for as_dir in [false, true] {
            if as_dir && s.iter().any(|x| kinds[*x].0 == "missing") { continue }
            let args = if as_dir { vec!["wast".to_string(), "d".to_string()] } else { paths.clone() };
            let r = t.run(&dir, &args, b"");
            l.transitions += 1; l.traces += 1;
            l.states.insert(hash(&(s, r.code)));
            let ok = s.iter().all(|x| matches!(&kinds[*x].2, Some((_, f)) if f.is_empty()));
            let names: Vec<&str> = s.iter().map(|x| kinds[*x].0).collect();
            let mut e = None;
            if r.sig.is_some() || r.code == Some(101) { e = Some(format!("crashes: {}", r.show())) } else if (r.code == Some(0)) != ok { e = Some(format!("status {:?}, {}", r.code, if ok { "everything holds" } else { "something fails" })) }
            else if s.iter().all(|x| kinds[*x].2.is_some()) {
                let (n, f) = s.iter().fold((0, 0), |(n, f), x| { let k = kinds[*x].2.as_ref().unwrap(); (n + k.0, f + k.1.len()) });
                let out = r.text();
                let got = (number(&out, "Total Tests:"), number(&out, "Total Passed:"), number(&out, "Total Failed:"));
                if got != (Some(n), Some(n - f), Some(f)) { e = Some(format!("summary {got:?}, {n} directives, {f} of them false")) }
                for (k, x) in s.iter().enumerate() { let file = format!("f{k}_{}.wast", kinds[*x].0); let want = &kinds[*x].2.as_ref().unwrap().1; let got = failures(&r, &file); if got != *want { e = Some(format!("{file}: failures on lines {got:?}, must be {want:?}")) } }
            }
            if let Some(e) = e { c.violation(format!("files {names:?}{}", if as_dir { " as a directory" } else { "" }), format!("tinywasm {}: {e}\n{}", args.join(" "), r.err.chars().take(500).collect::<String>()), format!("{names:?}")) }
        }
        let _ = fs::remove_dir_all(dir);
    });
}
