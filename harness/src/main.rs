//! Runtime monitors of the zkp-implementation workspace.
//!
//! zkmon run ID --tier T --seed N --dir VERIF   decides one property
//! zkmon replay FILE                            runs one recorded case again
//! zkmon list                                   the properties and their groups
mod common;
mod core;
mod fri_checks;
mod history_checks;
mod hostile_checks;
mod kzg_checks;
mod meter;
mod nova_checks;
mod nova_model;
mod parser_checks;
mod plonk_checks;
mod plonk_model;
mod rec;
mod small;

#[global_allocator]
static ALLOCATOR: meter::Meter = meter::Meter;

use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::core::{Config, Property, Tier};

fn properties() -> Vec<&'static Property> {
    let mut r = vec![];
    r.extend(kzg_checks::PROPERTIES.iter());
    r.extend(fri_checks::PROPERTIES.iter());
    r.extend(plonk_checks::PROPERTIES.iter());
    r.extend(parser_checks::PROPERTIES.iter());
    r.extend(nova_checks::PROPERTIES.iter());
    r.extend(hostile_checks::PROPERTIES.iter());
    r.extend(history_checks::PROPERTIES.iter());
    r
}

fn find(id: &str) -> &'static Property {
    properties()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| {
            eprintln!("no property {id}");
            std::process::exit(2)
        })
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .cloned()
}

fn tier_of(args: &[String]) -> Tier {
    match opt(args, "--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn seed_of(args: &[String]) -> u64 {
    opt(args, "--seed")
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in properties() {
                let groups: Vec<String> = p
                    .groups
                    .iter()
                    .map(|g| format!("{}:{}", g.name, g.quick))
                    .collect();
                println!("{} {}", p.id, groups.join(" "));
            }
            0
        }
        Some("run") => supervise(&args),
        Some("child") => child(&args),
        Some("case") => one_case(&args),
        Some("replay") => replay(&args),
        Some("op") => {
            core::install_panic_hook();
            history_checks::op_main(&args)
        }
        Some("fresh") => {
            core::install_panic_hook();
            let seed = args[2].parse().expect("seed");
            let r = match args[1].as_str() {
                "srs" => kzg_checks::fresh_strings(),
                _ => plonk_checks::fresh_proofs(seed),
            };
            std::fs::write(&args[3], r.join("\n")).expect("result");
            0
        }
        Some("race") => {
            core::install_panic_hook();
            history_checks::race_main(&args)
        }
        _ => {
            eprintln!("usage: zkmon run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

fn config(args: &[String], id: &str) -> Config {
    let dir = PathBuf::from(opt(args, "--dir").unwrap_or("/verif".into()));
    let tier = tier_of(args);
    let work = PathBuf::from(opt(args, "--work").unwrap_or_else(|| {
        std::env::temp_dir()
            .join(format!("zkmon-{}-{}", id, std::process::id()))
            .display()
            .to_string()
    }));
    let secs = |name: &str, default: u64| {
        Duration::from_secs(
            opt(args, name)
                .and_then(|s| s.parse().ok())
                .unwrap_or(default),
        )
    };
    Config {
        tier,
        seed: seed_of(args),
        evidence: dir.join("evidence").join(format!("{id}.json")),
        replays: dir.join("replays"),
        known: dir.join("known_findings.txt"),
        lines: work.join("lines"),
        journal: work,
        threads: opt(args, "--threads")
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
                    .min(16)
            }),
        deadline: match tier {
            Tier::Quick => secs("--budget", 240),
            Tier::Thorough => secs("--budget", 420),
        },
        stall: secs("--stall", 150),
    }
}

fn child(args: &[String]) -> i32 {
    core::install_panic_hook();
    let prop = find(&args[1]);
    core::run_property(prop, &config(args, prop.id))
}

fn one_case(args: &[String]) -> i32 {
    core::install_panic_hook();
    let prop = find(&args[1]);
    let group = prop
        .groups
        .iter()
        .find(|g| g.name == args[2])
        .expect("group");
    let idx: u64 = args[3].parse().expect("idx");
    let out = core::run_case(prop, group, idx, seed_of(args), tier_of(args));
    if let Some(path) = opt(args, "--lines") {
        let mut s = String::new();
        for v in &out.violations {
            s.push_str(&format!("{}: {}\n", v.key, v.msg));
        }
        for i in &out.inconclusive {
            s.push_str(&format!("inconclusive: {i}\n"));
        }
        s.push_str(&format!("{} evaluations\n", out.evals));
        for (k, v) in &out.counters {
            s.push_str(&format!("{k}: {v}\n"));
        }
        std::fs::write(path, s).expect("lines");
    }
    if out.violations.is_empty() {
        0
    } else {
        1
    }
}

fn spawn(args: &[String]) -> std::io::Result<std::process::Child> {
    let debug = std::env::var_os("ZKMON_DEBUG").is_some();
    let out = || if debug { Stdio::inherit() } else { Stdio::null() };
    Command::new(std::env::current_exe()?)
        .args(args)
        .stdin(Stdio::null())
        .stdout(out())
        .stderr(out())
        .spawn()
}

/// Runs the cases in a child process (the code under test prints, and may abort), and judges an
/// abnormal end: a case that kills its process again when it runs alone is a violation.
fn supervise(args: &[String]) -> i32 {
    let id = args.get(1).cloned().unwrap_or_default();
    let prop = find(&id);
    let work = std::env::temp_dir().join(format!("zkmon-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&work).expect("work directory");
    let mut child_args = args.to_vec();
    child_args[0] = "child".into();
    child_args.extend(["--work".into(), work.display().to_string()]);
    let cfg = config(&child_args, &id);
    let _ = std::fs::remove_file(&cfg.evidence);
    let started = Instant::now();
    let status = spawn(&child_args)
        .and_then(|mut c| c.wait())
        .expect("child process");
    let code = match status.code() {
        Some(code) if cfg.lines.exists() => {
            print!("{}", std::fs::read_to_string(&cfg.lines).unwrap_or_default());
            code
        }
        _ => crashed(prop, args, &cfg, &work, &status.to_string(), started),
    };
    let _ = std::fs::remove_dir_all(&work);
    code
}

fn crashed(
    prop: &Property,
    args: &[String],
    cfg: &Config,
    work: &Path,
    status: &str,
    started: Instant,
) -> i32 {
    println!("note: the monitored process ended abnormally: {status}");
    let mut code = 3;
    for t in 0..cfg.threads {
        let Ok(s) = std::fs::read_to_string(work.join(format!("{t}"))) else {
            continue;
        };
        let Some((group, idx)) = s.split_once(' ') else {
            continue;
        };
        if started.elapsed() > Duration::from_secs(600) {
            break;
        }
        let mut a: Vec<String> = vec![
            "case".into(),
            prop.id.into(),
            group.into(),
            idx.into(),
            "--seed".into(),
            cfg.seed.to_string(),
        ];
        if cfg.tier == Tier::Thorough {
            a.extend(["--tier".into(), "thorough".into()]);
        }
        let Ok(mut c) = spawn(&a) else { continue };
        let begin = Instant::now();
        let end = loop {
            match c.try_wait() {
                Ok(Some(s)) => break Some(s),
                _ if begin.elapsed() > Duration::from_secs(60) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                _ => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        if let Some(s) = end {
            use std::os::unix::process::ExitStatusExt;
            // SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE; a kill from outside decides nothing
            if matches!(s.signal(), Some(6 | 11 | 7 | 4 | 8)) {
                let path = cfg.replays.join(format!("{}-{}-{}-crash.txt", prop.id, group, idx));
                let _ = std::fs::create_dir_all(&cfg.replays);
                let _ = std::fs::write(
                    &path,
                    format!(
                        "property {}\ngroup {}\nidx {}\nseed {}\ntier {}\nkey crash\ntimes 1\n\nthe process ends with {}\n",
                        prop.id, group, idx, cfg.seed,
                        if cfg.tier == Tier::Quick { "quick" } else { "thorough" }, s
                    ),
                );
                println!("VIOLATION property={} replay={}", prop.id, path.display());
                println!("  crash [{group}#{idx}]: {s}");
                code = 1;
                break;
            }
        }
    }
    if code == 3 {
        println!("INCONCLUSIVE property={} {}", prop.id, args.join(" "));
    }
    code
}

fn replay(args: &[String]) -> i32 {
    let text = std::fs::read_to_string(&args[1]).expect("replay file");
    let field = |name: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{name} ")))
            .unwrap_or_default()
            .to_string()
    };
    let lines = std::env::temp_dir().join(format!("zkmon-replay-{}", std::process::id()));
    let a: Vec<String> = vec![
        "case".into(),
        field("property"),
        field("group"),
        field("idx"),
        "--seed".into(),
        field("seed"),
        "--tier".into(),
        field("tier"),
        "--lines".into(),
        lines.display().to_string(),
    ];
    let status = spawn(&a).and_then(|mut c| c.wait()).expect("child process");
    print!("{}", std::fs::read_to_string(&lines).unwrap_or_default());
    let _ = std::fs::remove_file(&lines);
    println!("{status}");
    status.code().unwrap_or(3)
}
