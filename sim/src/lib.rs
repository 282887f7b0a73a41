#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, dead_code)]
mod alloc;
mod exec;
mod json;
mod orch;
mod scen;
mod seam;
mod shared;
mod sim;
mod tape;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// The command line program's C entry point, where it is linked in.
pub type CMain = unsafe extern "C" fn(libc::c_int, *const *const libc::c_char) -> libc::c_int;
static mut CLI: Option<CMain> = None;

fn cli() -> Option<CMain> {
    unsafe { CLI }
}

fn find(id: &str) -> Option<&'static scen::Scenario> {
    let s = scen::ALL.iter().find(|s| s.id == id)?;
    if s.cli != cli().is_some() {
        return None;
    }
    Some(s)
}

fn no_aslr() {
    unsafe {
        if std::env::var_os("BISIM_NOASLR").is_some() {
            return;
        }
        let p = libc::personality(0xffff_ffff);
        if p == -1 || p & libc::ADDR_NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality(p as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong) == -1 {
            return;
        }
        std::env::set_var("BISIM_NOASLR", "1");
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new("/proc/self/exe")
            .args(std::env::args_os().skip(1))
            .exec();
        eprintln!("bisim: re-exec failed: {}", e);
    }
}

/// Act on the arguments of the process; the exit status.
pub fn entry(cli: Option<CMain>) -> i32 {
    unsafe {
        CLI = cli;
    }
    no_aslr();
    std::panic::set_hook(Box::new(|i| {
        if sim::in_child() {
            let _g = sim::raw_guard();
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let at = i
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            if at.contains("bisim") || at.contains("/sim/src/") || at.starts_with("src/") {
                sim::harness_error(&format!("harness panic: {} at {}", m, at));
            }
            sim::fail("panic", &format!("{} at {}", m, at));
        } else {
            eprintln!("bisim: {}", i);
        }
    }));
    sim::load_known(&std::fs::read_to_string(orch::root().join("KNOWN_FINDINGS.txt")).unwrap_or_default());
    let a: Vec<String> = std::env::args().collect();
    match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(id)) => match find(id) {
            Some(s) => orch::check(s),
            None => {
                eprintln!("no scenario {}", id);
                2
            }
        },
        (Some("run"), Some(id)) => match find(id) {
            Some(s) => {
                let seed = a.get(3).and_then(|v| v.parse().ok()).unwrap_or(1);
                orch::run_seed(s, seed, a.iter().any(|x| x == "--trace"))
            }
            None => 2,
        },
        (Some("survey"), Some(id)) => match find(id) {
            Some(s) => orch::survey(s, a.get(3).and_then(|v| v.parse().ok()).unwrap_or(1000)),
            None => 2,
        },
        (Some("replay"), Some(f)) => orch::replay(f, find),
        _ => {
            eprintln!("usage: bisim check ID | run ID SEED [--trace] | replay FILE");
            2
        }
    }
}
