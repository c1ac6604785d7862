//! onion-verif <property> [--only SUB] | --replay FILE
//! Parent process: runs the search in a child, so that a crash of the code under test
//! (an abort or a segmentation fault in its unsafe parts) is still reported with its case.
#[macro_use]
mod fw;
mod gen;
mod props;
mod refmath;

use fw::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let mut replay = None;
    let mut only = None;
    let mut prop = String::new();
    let mut it = args.iter().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--replay" => {
                let f = it.next().expect("--replay FILE");
                let r: ReplayFile =
                    serde_json::from_str(&std::fs::read_to_string(f).expect("read replay"))
                        .expect("parse replay");
                prop = r.property.clone();
                replay = Some(r);
            }
            "--only" => only = it.next().cloned(),
            "--probe" => {
                props::probe(it.next().unwrap().parse().unwrap());
                return;
            }
            "--history" => {
                props::history_child();
                return;
            }
            p => prop = p.to_string(),
        }
    }
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let Some((id, f)) = props::find(&prop) else {
        eprintln!("unknown property {prop:?}");
        std::process::exit(2);
    };
    if let Ok(dir) = std::env::var("VERIF_CHILD") {
        install_panic_hook();
        let mut ctx = Ctx::new(id, tier, seed, root, PathBuf::from(dir));
        ctx.replay = replay;
        ctx.only = only;
        f(&mut ctx);
        std::process::exit(ctx.finish());
    }
    // parent
    let scratch = std::env::temp_dir().join(format!("onion-verif-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).expect("scratch");
    let limit = Duration::from_secs(
        std::env::var("VERIF_LIMIT_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == Tier::Quick { 840 } else { 6 * 3600 }),
    );
    let run = |extra: &[String], dir: &PathBuf, limit: Duration| -> Option<std::process::ExitStatus> {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(extra)
            .env("VERIF_CHILD", dir)
            .stdin(Stdio::null())
            .spawn()
            .expect("spawn child");
        let t0 = Instant::now();
        loop {
            if let Some(st) = child.try_wait().expect("wait") {
                return Some(st);
            }
            if t0.elapsed() > limit {
                let _ = child.kill();
                let _ = child.wait();
                return None;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    };
    let st = run(&args[1..], &scratch, limit);
    let code = match st {
        None => {
            eprintln!("{id}: time limit reached, no verdict");
            3
        }
        Some(s) => match s.code() {
            Some(c) => c,
            None => {
                // killed by a signal: find a case that does it
                eprintln!("{id}: the code under test ended the process ({s})");
                let mut code = 4;
                for w in 0..WORKERS {
                    let cur = scratch.join(format!("{w}.json"));
                    let Ok(text) = std::fs::read_to_string(&cur) else { continue };
                    let Ok(rf) = serde_json::from_str::<ReplayFile>(&text) else { continue };
                    let dir = scratch.join("re");
                    let _ = std::fs::create_dir_all(&dir);
                    let copy = scratch.join("re.json");
                    let _ = std::fs::write(&copy, &text);
                    let a = vec!["--replay".to_string(), copy.display().to_string()];
                    let again = run(&a, &dir, Duration::from_secs(120));
                    let bad = matches!(&again, Some(s) if s.code().is_none() || s.code() == Some(1));
                    if bad && code == 4 {
                        let p = write_replay(&root, &rf);
                        let ev = serde_json::json!({
                            "property": id, "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
                            "seed": seed, "level": "exploration",
                            "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                                "rule": "run ended by a crash of the code under test; only the crashing case is reported",
                                "samples": [rf.case]},
                            "wall_s": 0.0, "violations": 1});
                        let _ = std::fs::create_dir_all(root.join("evidence"));
                        let _ = std::fs::write(
                            root.join("evidence").join(format!("{id}.json")),
                            serde_json::to_string_pretty(&ev).unwrap(),
                        );
                        println!("{}/{}: the process crashes on this case", rf.property, rf.sub);
                        println!("VIOLATION property={} replay={}", id, p.display());
                        code = 1;
                    }
                }
                code
            }
        },
    };
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}
