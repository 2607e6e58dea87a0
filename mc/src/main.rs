//! `mc check <ID> [quick|thorough]`. The exploration runs in a child process, so that an abort of the
//! implementation (stack overflow, allocation abort, illegal access) is reported as a violation.
use mc::report::{Check, Tier, verif_dir};
use std::os::unix::process::ExitStatusExt;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let usage = || -> ! { eprintln!("usage: mc check <ID> [quick|thorough]"); std::process::exit(2) };
    if a.len() < 2 { usage() }
    if a[0] == "prebuild" { mc::cli::binary(); return }
    let Some((id, f)) = mc::props::ALL.iter().find(|(i, _)| *i == a[1]) else { usage() };
    let tier = match a.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
    match a[0].as_str() {
        "run" => {
            mc::run::install_hook();
            mc::batch::start_watchdog(id);
            let c = Check::new(id, tier);
            let code = std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, || { f(&c); c.finish() }).unwrap().join());
            std::process::exit(code.unwrap_or(3));
        }
        "check" => {
            let _ = std::fs::remove_file(verif_dir().join(format!("evidence/{id}.json")));
            let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["run", id, if tier == Tier::Quick { "quick" } else { "thorough" }]).status().expect("spawn");
            match (st.code(), st.signal()) {
                (Some(c @ (0 | 1)), _) => std::process::exit(c),
                (_, Some(sig @ (4 | 6 | 7 | 8 | 11))) => {
                    let rd = verif_dir().join("evidence/replay");
                    let _ = std::fs::create_dir_all(&rd);
                    let p = rd.join(format!("{id}-crash.txt"));
                    let cur = std::fs::read_to_string(verif_dir().join(format!("evidence/replay/{id}-current.txt"))).unwrap_or_default();
                    let _ = std::fs::write(&p, format!("property {id}\nthe process died with signal {sig} while running the implementation\n{cur}\n"));
                    if !verif_dir().join(format!("evidence/{id}.json")).exists() {
                        let _ = std::fs::write(verif_dir().join(format!("evidence/{id}.json")), format!("{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":1,\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0}},\"assumptions\":[],\"wall_s\":0,\"violations\":1}}\n", if tier == Tier::Quick { "quick" } else { "thorough" }));
                    }
                    println!("VIOLATION property={id} replay={}", p.display());
                    println!("  the implementation crashed the process (signal {sig})");
                    std::process::exit(1)
                }
                (Some(3 | 101), _) => {
                    // a step every correct implementation must complete (an `expect` of the scenario) failed
                    let rd = verif_dir().join("evidence/replay");
                    let _ = std::fs::create_dir_all(&rd);
                    let p = rd.join(format!("{id}-abort.txt"));
                    let _ = std::fs::write(&p, format!("property {id}\na step of the scenario which must succeed failed; see the panic message on stderr\n"));
                    println!("VIOLATION property={id} replay={}", p.display());
                    std::process::exit(1)
                }
                (c, s) => { eprintln!("check ended abnormally: code {c:?} signal {s:?}"); std::process::exit(2) }
            }
        }
        _ => usage(),
    }
}
