//! C24: the same behaviour in every build configuration, and a faithful JSON form.
//!
//! This explorer is built once more for each set of features; each build runs the same cases and
//! prints what it observed.
use super::history::{describe, documents, exec, jobs, Job};
use super::text::{edit_at, edit_count, LINE_SAMPLES};
use super::*;
use crate::alpha::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub struct Configs;
pub static C24: Configs = Configs;

/// Features by the crate's and by this explorer's names, and whether overflow checks and debug assertions are on.
const SETS: &[(&str, &str, bool)] = &[
    ("none", "", true),
    ("enhanced_debug", "dbg", true),
    ("serialize", "ser", true),
    ("enhanced_debug,serialize", "dbg,ser", true),
    ("none, without overflow checks and debug assertions", "", false),
    ("enhanced_debug,serialize, without overflow checks and debug assertions", "dbg,ser", false),
];

/// The cases: jobs, edits of attribute and line samples, pairs of attribute samples in a document.
struct Cases {
    parts: Vec<(usize, Box<dyn Fn(usize) -> Job + Send + Sync>)>,
}
impl Cases {
    fn new(thorough: bool) -> Cases {
        let mut parts: Vec<(usize, Box<dyn Fn(usize) -> Job + Send + Sync>)> = vec![];
        parts.push((jobs().len(), Box::new(|i| jobs()[i].clone())));
        let edits = |op: char, v: Vec<String>| -> (usize, Box<dyn Fn(usize) -> Job + Send + Sync>) {
            let mut ends = vec![];
            let mut n = 0;
            for x in &v {
                n += edit_count(x);
                ends.push(n);
            }
            (
                n,
                Box::new(move |i| {
                    let k = ends.partition_point(|e| *e <= i);
                    let at = if k == 0 { i } else { i - ends[k - 1] };
                    Job { op, text: edit_at(&v[k], at) }
                }),
            )
        };
        parts.push(edits('a', samples()));
        parts.push(edits('l', LINE_SAMPLES.iter().map(|x| x.to_string()).collect()));
        let docs = documents();
        let short: Vec<String> = docs.iter().filter(|d| d.len() < if thorough { 5000 } else { 330 }).cloned().collect();
        for op in ['S', 'L', 'M'] {
            parts.push(edits(op, short.clone()));
        }
        let s = samples();
        let n = s.len();
        let step = if thorough { 1 } else { 7 };
        parts.push((
            n * n / step,
            Box::new(move |i| {
                let i = i * step + i % step;
                let (a, b) = (&s[i % n], &s[i / n % n]);
                let h: String = rid_helpers(&[a, b]).iter().map(|x| format!("a={x}\r\n")).collect();
                Job { op: ['L', 'M'][i % 2], text: format!("{HEAD}{MLINE}a={a}\r\na={b}\r\na=foo\r\n{h}") }
            }),
        ));
        Cases { parts }
    }
    fn len(&self) -> usize {
        self.parts.iter().map(|p| p.0).sum()
    }
    fn at(&self, mut i: usize) -> Job {
        for (n, f) in &self.parts {
            if i < *n {
                return f(i);
            }
            i -= n;
        }
        Job { op: 'a', text: String::new() }
    }
}
fn cases(thorough: bool) -> &'static Cases {
    static Q: OnceLock<Cases> = OnceLock::new();
    static T: OnceLock<Cases> = OnceLock::new();
    if thorough {
        T.get_or_init(|| Cases::new(true))
    } else {
        Q.get_or_init(|| Cases::new(false))
    }
}

/// `transcript quick|thorough LO HI`: one line per case with the hash of what was observed, and the JSON faults.
pub fn transcript(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let s = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let c = cases(s(0) == "thorough");
    let (lo, hi): (usize, usize) = (s(1).parse().unwrap_or(0), s(2).parse().unwrap_or(0));
    let mut o = String::new();
    for i in lo..hi {
        let j = c.at(i);
        let r = std::panic::catch_unwind(|| {
            let r = exec(&j);
            (describe(&r), faults(&r))
        });
        let (d, f) = r.unwrap_or_else(|_| ("panic".into(), None));
        if s(3) == "text" {
            o.push_str(&format!("{i} {}\n", js(&d)));
        } else {
            o.push_str(&format!("{i} {:016x}\n", hash(&d)));
        }
        if let Some(f) = f {
            o.push_str(&format!("{i} json {}\n", js(&clip(&f, 2000))));
        }
    }
    print!("{o}");
    0
}
#[cfg(not(feature = "ser"))]
fn faults(_: &super::history::Raw) -> Option<String> {
    None
}
#[cfg(feature = "ser")]
fn faults(r: &super::history::Raw) -> Option<String> {
    use super::history::Raw;
    use crate::json;
    match r {
        Raw::Doc(r, _) => match &**r {
            Ok(s) => json::same(s, &json::sess(s)),
            Err(e) => json::same(e, &json::error(e)),
        },
        Raw::Attr(r, ..) => match &**r {
            Ok(a) => json::same(a, &json::attr(a)),
            Err(_) => Ok(()),
        },
        Raw::Line(r) => match &**r {
            Ok(l) => json::same(l, &json::line(l)),
            Err(e) => json::same(e, &json::error(e)),
        },
    }
    .err()
}

/// Builds the explorer for a set of features; Err is a build failure of the crate under check.
fn build(i: usize) -> Result<PathBuf, String> {
    let root = std::env::var("MC_ROOT").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap());
    let dir = root.join(format!("mc/target/cfg-{i}"));
    let checks: &[&str] = if SETS[i].2 {
        &[]
    } else {
        &["--config", "profile.release.package.webrtc-sdp.overflow-checks=false", "--config", "profile.release.package.webrtc-sdp.debug-assertions=false"]
    };
    let o = Command::new("cargo")
        .args(checks)
        .args(["build", "--release", "--offline", "--no-default-features", "--features", SETS[i].1, "--manifest-path"])
        .arg(root.join("mc/Cargo.toml"))
        .arg("--target-dir")
        .arg(&dir)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("cargo: {e}"))?;
    if !o.status.success() {
        let t = String::from_utf8_lossy(&o.stderr).to_string();
        if t.contains("could not compile `webrtc-sdp`") {
            return Err(format!("the crate does not build: {}", clip(&t, 1500)));
        }
        panic!("the explorer does not build with the features {:?}: {}", SETS[i].0, clip(&t, 3000));
    }
    Ok(dir.join("release/mc"))
}
fn builds() -> &'static Vec<Result<PathBuf, String>> {
    static B: OnceLock<Vec<Result<PathBuf, String>>> = OnceLock::new();
    B.get_or_init(|| {
        std::thread::scope(|s| {
            let h: Vec<_> = (0..SETS.len()).map(|i| s.spawn(move || build(i))).collect();
            h.into_iter().map(|h| h.join().expect("building another configuration")).collect()
        })
    })
}
fn run(b: &PathBuf, args: &[&str]) -> Result<String, String> {
    let o = Command::new(b).arg("transcript").args(args).stderr(Stdio::null()).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("ends with {}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).to_string())
}

impl Check for Configs {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "product of six build configurations (the four feature sets with overflow checks and debug assertions, none and all features without them) with every core job, every single edit of every attribute and line sample and of documents, and \
         pairs of attribute samples in a document: verdict, session, warnings, printed and masked text must be the same in all six builds, and in \
         the three with serialization the JSON text of every session, line, attribute and error must be the expected tree"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["field and variant names in the JSON form are those of the Rust types (the naming the crate's users read)"]
    }
    fn must_see(&self) -> Vec<&'static str> {
        vec!["same-in-all-builds"]
    }
    fn explore(&self, e: &Engine) {
        builds(); // here, so that a slow build does not look like a case that hangs
        e.list("build", "the crate builds with each set of features", (0..SETS.len()).map(|i| i.to_string()).collect());
        if e.violated() {
            return;
        }
        let n = cases(e.thorough()).len();
        let step = 500;
        e.note("cases", format!("{n} per build, {} builds", SETS.len()));
        e.sweep("batch", &format!("batches of {step} cases of the space, in {} builds", SETS.len()), n.div_ceil(step), |i| {
            format!("{} {} {}", e.tier, i * step, ((i + 1) * step).min(n))
        });
    }
    fn decide(&self, kind: &str, x: &str) -> Verdict {
        if kind == "build" {
            let i: usize = x.parse().map_err(|_| "bad case")?;
            return match &builds()[i] {
                Ok(_) => Ok("builds"),
                Err(e) => Err(format!("features {:?}: {e}", SETS[i].0)),
            };
        }
        let args: Vec<&str> = x.split(' ').collect();
        let thorough = args[0] == "thorough";
        let mut first: Vec<String> = vec![];
        for (i, (name, ..)) in SETS.iter().enumerate() {
            let b = builds()[i].as_ref().map_err(|e| e.clone())?;
            let t = run(b, &args)?;
            let show = |l: &str| {
                let n: usize = l.split(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0);
                let j = cases(thorough).at(n);
                (n, format!("operation {} on {}", j.op, js(&clip(&j.text, 600))))
            };
            if let Some(l) = t.lines().find(|l| l.split(' ').nth(1) == Some("json")) {
                return Err(format!("features {name}: {}: {}", show(l).1, l));
            }
            let v: Vec<String> = t.lines().map(|l| l.to_string()).collect();
            trans(v.len() as u64);
            if i == 0 {
                for l in &v {
                    state(l);
                }
                first = v;
                continue;
            }
            if let Some((_, l)) = first.iter().zip(&v).find(|(a, b)| a != b) {
                let (n, what) = show(l);
                let (n, m) = (n.to_string(), (n + 1).to_string());
                let text = |i: usize| run(builds()[i].as_ref().unwrap(), &[args[0], &n, &m, "text"]).unwrap_or_default();
                return Err(format!("{what} gives {} with features {name} and {} with none", clip(&text(i), 1500), clip(&text(0), 1500)));
            }
            if v.len() != first.len() || v.is_empty() {
                return Err("odd number of results".into());
            }
        }
        for _ in &first {
            trace();
        }
        Ok("same-in-all-builds")
    }
}
