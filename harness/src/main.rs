

mod mem;
mod opc;
mod pdf;
mod pml;
mod props;
mod report;
mod rng;
mod schema;
mod spec;
mod text;
mod xml;
mod zipx;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

use report::{Ctx, Tier};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::sync::Arc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "conc" {
        // a process of its own for C27: building starts with nothing built before
        std::process::exit(props::conc::worker(&args[2..]));
    }
    if args.len() < 3 {
        eprintln!("usage: vharness PROPERTY quick|thorough|replay [GROUP CASE]");
        std::process::exit(2);
    }
    let prop = args[1].clone();
    let replay = args[2] == "replay";
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1);
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string()));
    let only = if replay && args.len() >= 5 {
        Some((args[3].clone(), u64::from_str_radix(args[4].trim_start_matches("0x"), 16).unwrap()))
    } else {
        None
    };

    if std::env::var("VH_CHILD").is_err() {
        std::process::exit(parent(&prop, &args, &root));
    }

    let scratch = PathBuf::from(std::env::var("VH_SCRATCH").unwrap());
    report::install_panic_hook();
    report::open_notes(&scratch.join("notes"));
    let Some(f) = props::find(&prop) else {
        eprintln!("unknown property {}", prop);
        std::process::exit(2);
    };
    let ctx = Arc::new(Ctx::new(&prop, tier, seed, root, scratch, only));
    // watchdog: a case that burns this much CPU time has broken its progress bound
    let limit_ms = 100_000;
    {
        let ctx = ctx.clone();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                if let Some((g, c)) = ctx.overdue(limit_ms) {
                    ctx.fail(&g, c, format!("no result after {} s of CPU time (cases of this group take milliseconds)", limit_ms / 1000), "");
                    ctx.write_evidence("exploration");
                    let r = ctx.report();
                    std::process::exit(r);
                }
            }
        });
    }
    let c2 = ctx.clone();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || report::guard(|| f(&c2)))
        .unwrap();
    match h.join() {
        Ok(Ok(())) => {}
        Ok(Err((m, l))) => {
            ctx.harness_errors.lock().unwrap().push(format!("check body panicked: {} at {}", m, l));
        }
        Err(_) => ctx.harness_errors.lock().unwrap().push("check thread died".into()),
    }
    if ctx.only.is_none() && std::env::var("VH_NOEVIDENCE").is_err() {
        ctx.write_evidence(props::level(&prop));
    }
    let r = ctx.report();
    std::process::exit(r);
}

/// Run the check in a child so that an abort or a stack overflow is observed, not suffered.
fn parent(prop: &str, args: &[String], root: &std::path::Path) -> i32 {
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", prop, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(scratch.join("tmp")).unwrap();
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe)
        .args(&args[1..])
        .env("VH_CHILD", "1")
        .env("VH_SCRATCH", &scratch)
        .env("TMPDIR", scratch.join("tmp"))
        .env("VERIF_ROOT", root)
        .current_dir(&scratch)
        // libraries write half lines there; keep them off our report lines
        .stderr(std::fs::File::create(scratch.join("stderr")).map(std::process::Stdio::from).unwrap_or_else(|_| std::process::Stdio::null()))
        .status();
    if let Ok(b) = std::fs::read(scratch.join("stderr")) {
        let s = String::from_utf8_lossy(&b);
        for l in s.lines().rev().take(12).collect::<Vec<_>>().into_iter().rev() {
            eprintln!("{}", l.chars().take(600).collect::<String>());
        }
    }
    let code = match st {
        Err(e) => {
            eprintln!("cannot start the worker: {}", e);
            2
        }
        Ok(s) => match (s.code(), s.signal()) {
            (Some(c @ (0 | 1)), _) => c,
            (Some(c), _) => {
                eprintln!("worker ended with {}: inconclusive", c);
                2
            }
            (None, Some(sig)) if sig == libc::SIGSEGV || sig == libc::SIGABRT || sig == libc::SIGBUS || sig == libc::SIGILL || sig == libc::SIGFPE => {
                // find which in-flight case kills the process
                let mut hit = None;
                for (g, c) in report::read_notes(&scratch.join("notes")) {
                    let st = std::process::Command::new(&exe)
                        .args([prop, "replay", &g, &format!("{:#x}", c)])
                        .env("VH_CHILD", "1")
                        .env("VH_SCRATCH", &scratch)
                        .env("TMPDIR", scratch.join("tmp"))
                        .env("VERIF_ROOT", root)
                        .env("VH_NOEVIDENCE", "1")
                        .current_dir(&scratch)
                        .stdout(std::process::Stdio::null())
                        .stderr(std::process::Stdio::null())
                        .status();
                    if let Ok(s) = st
                        && s.signal() == Some(sig) {
                            hit = Some((g, c));
                            break;
                        }
                }
                match hit {
                    Some((g, c)) => {
                        let dir = root.join("replays");
                        let _ = std::fs::create_dir_all(&dir);
                        let p = dir.join(format!("{}-{}-{:x}.txt", prop, g.replace([':', '/', ' '], "_"), c));
                        let _ = std::fs::write(&p, format!("property {}\ngroup {}\ncase {:#x}\nthe process died with signal {}\nreplay: bash run.sh {} replay {} {:#x}\n", prop, g, c, sig, prop, g, c));
                        println!("VIOLATION property={} replay={}", prop, p.display());
                        println!("  {} case {:#x}: process died with signal {} (abort or stack overflow)", g, c, sig);
                        let e = serde_json::json!({"property": prop, "tier": if args[2] == "thorough" {"thorough"} else {"quick"}, "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1), "level": props::level(prop), "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run was cut short by a crash of the library", "samples": [{"group": g, "case": format!("{:#x}", c)}]}, "wall_s": 0.0, "violations": 1});
                        let _ = std::fs::create_dir_all(root.join("evidence"));
                        let _ = std::fs::write(root.join("evidence").join(format!("{}.json", prop)), serde_json::to_string_pretty(&e).unwrap());
                        1
                    }
                    None => {
                        eprintln!("worker died with signal {} but no case reproduces it: inconclusive", sig);
                        2
                    }
                }
            }
            (None, s) => {
                eprintln!("worker killed by signal {:?}: inconclusive", s);
                2
            }
        },
    };
    let _ = std::fs::remove_dir_all(&scratch);
    code
}
