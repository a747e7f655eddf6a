//! mc <PROPERTY> [--replay FILE] [--only SPACE] [--list]
//!
//! The parent process runs the exploration in a child, so that a library call that kills the
//! process (stack exhaustion, abort) is located and reported as a violation too.

use crate::engine::*;
use std::process::{exit, Command};

pub type Check = fn(&mut Ctx);

pub fn main(registry: Vec<(&'static str, Check)>) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("--list") {
        for (p, _) in &registry {
            println!("{}", p);
        }
        return;
    }
    let Some(id) = args.first() else {
        eprintln!("usage: mc PROPERTY [--replay FILE]");
        exit(2)
    };
    let Some((prop, f)) = registry.into_iter().find(|c| c.0 == id) else {
        eprintln!("no check for {}", id);
        exit(2)
    };
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut mode = Mode::Explore;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                let Some((p, t, s, c)) = args.get(i + 1).and_then(|x| parse_replay(x)) else {
                    eprintln!("cannot read the replay file");
                    exit(2)
                };
                if p != prop {
                    eprintln!("the replay file is of {}", p);
                    exit(2)
                }
                tier = t;
                mode = Mode::Replay(s, c);
                i += 1;
            }
            "--only" => {
                mode = Mode::Only(args.get(i + 1).cloned().unwrap_or_default());
                i += 1;
            }
            "--tier" => {
                tier = if args.get(i + 1).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
                i += 1;
            }
            x => {
                eprintln!("unknown argument {}", x);
                exit(2)
            }
        }
        i += 1;
    }
    if std::env::var_os("MC_CHILD").is_some() {
        if let Ok(p) = std::env::var("MC_TRACE") {
            mode = Mode::Trace(std::fs::OpenOptions::new().create(true).write(true).read(true).truncate(true).open(p).expect("trace file"));
        }
        install_panic_hook();
        let mut ctx = Ctx::new(prop, tier, mode);
        f(&mut ctx);
        exit(ctx.finish(&verif_dir()));
    }
    // parent
    let exe = std::env::current_exe().expect("exe");
    let rc = |c: &mut Command| c.status().expect("child").code();
    if let Some(r) = rc(Command::new(&exe).args(&args).env("MC_CHILD", "1")) {
        exit(if r == 0 || r == 1 { r } else { 2 });
    }
    if args.len() > 1 {
        println!("VIOLATION property={} replay={}", prop, args.last().unwrap());
        println!("  the replayed call killed the process");
        exit(1)
    }
    // killed by a signal: find the case by running again with every worker noting what it runs
    eprintln!("the exploration was killed by a signal; locating the case");
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let (tf, nf) = (format!("{}/{}.trace", dir, prop), format!("{}/{}.names", dir, prop));
    let _ = std::fs::remove_file(&nf);
    if let Some(r) = rc(Command::new(&exe).args(&args).env("MC_CHILD", "1").env("MC_TRACE", &tf).env("MC_TRACE_NAMES", &nf)) {
        eprintln!("the second run ended normally ({})", r);
        exit(if r == 1 { 1 } else { 2 })
    }
    let raw = std::fs::read(&tf).unwrap_or_default();
    let names: Vec<(u64, String)> = std::fs::read_to_string(&nf)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split_once(' ').map(|(a, b)| (a.parse().unwrap_or(0), b.to_string())))
        .collect();
    let _ = std::fs::remove_file(&tf);
    let _ = std::fs::remove_file(&nf);
    let Some((last, name)) = names.last().cloned() else {
        eprintln!("no space was started");
        exit(2)
    };
    for c in raw.chunks(16) {
        if c.len() < 16 {
            continue;
        }
        let no = u64::from_le_bytes(c[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(c[8..].try_into().unwrap());
        if no != last || idx == 0 {
            continue;
        }
        let v = Violation { space: name.clone(), case: Case::Index(idx - 1), msg: "the library call kills the process (stack exhaustion or abort)".into(), desc: String::new() };
        let p = replay_path(prop, &name);
        let out = format!("property {}\ntier {}\nspace {}\nindex {}\n", prop, if tier == Tier::Quick { "quick" } else { "thorough" }, name, idx - 1);
        let _ = std::fs::write(&p, out);
        if rc(Command::new(&exe).args([prop, "--replay", &p]).env("MC_CHILD", "1")).is_none() {
            report_violation(prop, tier, &v);
            exit(1)
        }
    }
    // a history search, or the combination of cases kills it
    let v = Violation { space: name.clone(), case: Case::History(0, vec![]), msg: "a library call in this space kills the process (stack exhaustion or abort), twice".into(), desc: String::new() };
    report_violation(prop, tier, &v);
    exit(1)
}
