mod alpha;
#[cfg(feature = "atomics")]
mod atomics;
mod checks;
mod engine;
#[cfg(feature = "ser")]
mod json;
mod model;
mod proj;
mod refparse;
mod sched;

use engine::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    std::env::var("MC_ROOT").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap())
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn find(id: &str) -> &'static dyn Check {
    match checks::all().into_iter().find(|c| c.id() == id) {
        Some(c) => c,
        None => {
            eprintln!("no such check: {id}");
            std::process::exit(2)
        }
    }
}

fn child(id: &str, tier: &str, dir: &Path) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let check = find(id);
    let e = Engine::new(check, tier, seed(), dir);
    let done = AtomicBool::new(false);
    let r = std::thread::scope(|sc| {
        sc.spawn(|| e.watchdog(&done));
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || check.explore(&e))
            .expect("explorer");
        let r = h.join();
        done.store(true, Relaxed);
        r
    });
    if let Err(p) = r {
        let m = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_default();
        eprintln!("the machinery itself failed: {m}");
        let c = e.finish(&root());
        return if c == 1 { 1 } else { 2 };
    }
    e.finish(&root())
}

/// Runs one case in this process: 0 holds, 1 violated.
fn one(id: &str, kind: &str, payload: &str) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let check = find(id);
    let (k, p) = (kind.to_string(), payload.to_string());
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || run_case(check, &k, &p))
        .expect("thread");
    match h.join().unwrap_or_else(|_| Err("panic".into())) {
        Ok(l) => {
            println!("{id} {kind}: {l}");
            0
        }
        Err(why) => {
            println!("{id} {kind} violated: {why}");
            1
        }
    }
}

/// The processor time of a process, in seconds.
fn cpu_s(pid: u32) -> u64 {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

fn run(id: &str, tier: &str) -> i32 {
    let dir = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let me = std::env::current_exe().expect("own path");
    let st = Command::new(&me).args(["child", id, tier]).arg(&dir).status().expect("child process");
    let code = match st.code() {
        Some(c @ (0 | 1 | 2)) => c,
        other => {
            eprintln!("the exploration ended abnormally ({st}), running its last cases one by one");
            let mut found = 2;
            for w in 0..WORKERS {
                let Some((kind, payload)) = read_slot(&dir.join(format!("slot{w}"))) else { continue };
                let p = write_replay(&root(), id, &kind, &payload, "abnormal end");
                let mut c = Command::new(&me)
                    .arg("replay")
                    .arg(&p)
                    .stdout(Stdio::null())
                    .spawn()
                    .expect("child process");
                let t = Instant::now();
                let bad = loop {
                    match c.try_wait().expect("wait") {
                        Some(s) if s.code() == Some(0) => break None,
                        Some(s) => break Some(format!("ends with {s}")),
                        None if cpu_s(c.id()) > 40 || t.elapsed() > Duration::from_secs(240) => {
                            let _ = c.kill();
                            let _ = c.wait();
                            break Some("does not end".into());
                        }
                        None => std::thread::sleep(Duration::from_millis(20)),
                    }
                };
                match bad {
                    Some(why) => {
                        println!("VIOLATION property={id} replay={}", p.display());
                        println!("  case {kind}: {} {why}", js(&clip(&payload, 600)));
                        found = 1;
                        break;
                    }
                    None => {
                        let _ = std::fs::remove_file(&p);
                    }
                }
            }
            if found == 2 {
                eprintln!("no single case explains the end of the child ({other:?})");
            }
            let ev = root().join("evidence");
            let _ = std::fs::create_dir_all(&ev);
            let _ = std::fs::write(
                ev.join(format!("{id}.json")),
                format!(
                    "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": [\"the exploration ended abnormally\"]}}, \"wall_s\": 0, \"violations\": {}}}\n",
                    js(id), js(tier), seed(), i32::from(found == 1)
                ),
            );
            found
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let code = match s(1) {
        "run" => run(s(2), s(3)),
        "child" => child(s(2), s(3), Path::new(s(4))),
        "replay" => match read_replay(Path::new(s(2))) {
            Some((id, kind, payload)) => one(&id, &kind, &payload),
            None => {
                eprintln!("cannot read {}", s(2));
                2
            }
        },
        "attr" => {
            println!("{:?}", proj::parse_attr(s(2)));
            println!("{:?}", refparse::attr(s(2)));
            0
        }
        "doc" => {
            let t = std::fs::read_to_string(s(2)).expect("file");
            println!("{:#?}", proj::parse(&t, false));
            println!("{:?}", refparse::doc(&t, false));
            0
        }
        "source" => {
            println!("{:?}", alpha::source());
            0
        }
        x => match checks::special(x, &a[2..]) {
            Some(c) => c,
            None => {
                eprintln!("usage: mc run ID quick|thorough | replay FILE | attr TEXT | doc FILE");
                2
            }
        },
    };
    std::process::exit(code);
}
