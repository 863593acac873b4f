//! Exhaustive exploration engine.
//!
//! A check enumerates a finite set of cases (`sweep`) and decides each of them on the real code.
//! Every case is one execution of the implementation; a case is written to a slot file before it
//! runs, so that the supervising parent process can name the case that killed or hung the child.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Ok(outcome label) or the reason why the property is violated.
pub type Verdict = Result<&'static str, String>;

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    /// What is enumerated, for the evidence.
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn explore(&self, e: &Engine);
    fn decide(&self, kind: &str, payload: &str) -> Verdict;
    /// Outcome labels that must have been seen, else the exploration was vacuous.
    fn must_see(&self) -> Vec<&'static str> {
        vec![]
    }
}

pub const WORKERS: usize = 8;
/// A case that uses this much processor time does not end; on a busy machine the clock says little.
const HANG_MS: u64 = 40_000;
/// Neither does one that takes this long without using it.
const STUCK_MS: u64 = 240_000;
const SHARDS: usize = 64;
const STATE_CAP: usize = 40_000_000;

thread_local! {
    static LOCAL: RefCell<Local> = RefCell::new(Local::default());
}
#[derive(Default)]
struct Local {
    states: Vec<u64>,
    trans: u64,
    traces: u64,
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}
fn my_clock() -> i32 {
    let mut c = 0;
    match unsafe { pthread_getcpuclockid(pthread_self(), &mut c) } {
        0 => c,
        _ => 0,
    }
}
/// The processor time of a thread, in milliseconds.
fn cpu_ms(clock: i32) -> u64 {
    let mut t = [0i64; 2];
    match clock != 0 && unsafe { clock_gettime(clock, &mut t) } == 0 {
        true => t[0] as u64 * 1000 + t[1] as u64 / 1_000_000,
        false => 0,
    }
}

pub fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Records a state (of the model or of the observed implementation) that was reached.
pub fn state<T: Hash + ?Sized>(x: &T) {
    let h = hash(x);
    LOCAL.with(|l| l.borrow_mut().states.push(h));
}
/// Records `n` executed transitions (calls into the implementation).
pub fn trans(n: u64) {
    LOCAL.with(|l| l.borrow_mut().trans += n);
}
/// Records one model trace whose prediction was compared with the implementation.
pub fn trace() {
    LOCAL.with(|l| l.borrow_mut().traces += 1);
}

pub struct Viol {
    pub kind: String,
    pub payload: String,
    pub why: String,
    pub index: usize,
}

pub struct Engine<'a> {
    pub check: &'a dyn Check,
    pub tier: String,
    pub seed: u64,
    slots: Vec<File>,
    started: Vec<AtomicU64>,
    clocks: Vec<AtomicI32>,
    t0: Instant,
    viols: Mutex<Vec<Viol>>,
    stop: AtomicBool,
    states: Vec<Mutex<HashSet<u64>>>,
    nstates: AtomicUsize,
    trans: AtomicU64,
    traces: AtomicU64,
    cases: AtomicU64,
    hist: Mutex<BTreeMap<String, (u64, usize, String)>>,
    sweeps: Mutex<Vec<(String, String, u64)>>,
    notes: Mutex<Vec<(String, String)>>,
    pub deadline: Instant,
}

impl<'a> Engine<'a> {
    pub fn new(check: &'a dyn Check, tier: &str, seed: u64, slot_dir: &Path) -> Engine<'a> {
        let slots = (0..WORKERS)
            .map(|i| {
                File::options()
                    .create(true)
                    .truncate(true)
                    .write(true)
                    .read(true)
                    .open(slot_dir.join(format!("slot{i}")))
                    .expect("slot file")
            })
            .collect();
        Engine {
            check,
            tier: tier.into(),
            seed,
            slots,
            started: (0..WORKERS).map(|_| AtomicU64::new(0)).collect(),
            clocks: (0..WORKERS).map(|_| AtomicI32::new(0)).collect(),
            t0: Instant::now(),
            viols: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            nstates: AtomicUsize::new(0),
            trans: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            cases: AtomicU64::new(0),
            hist: Mutex::new(BTreeMap::new()),
            sweeps: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            deadline: Instant::now() + Duration::from_secs(if tier == "quick" { 240 } else { 660 }),
        }
    }
    /// Level 0 to 2 of the bounds. The quick tier of a check with small spaces starts at level 1.
    fn level(&self) -> usize {
        let cheap = ["C02", "C04", "C07", "C08", "C10", "C11", "C12", "C13", "C18", "C20", "C26"].contains(&self.check.id());
        usize::from(cheap) + usize::from(self.tier == "thorough")
    }
    pub fn thorough(&self) -> bool {
        self.level() > 0
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn pick3<T>(&self, q: T, t: T, d: T) -> T {
        if self.level() > 1 {
            d
        } else {
            self.pick(q, t)
        }
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.notes.lock().unwrap().push((k.into(), v.to_string()));
    }
    pub fn violated(&self) -> bool {
        !self.viols.lock().unwrap().is_empty()
    }
    /// Watches for a case that does not end. Never returns while the exploration runs.
    pub fn watchdog(&self, done: &AtomicBool) {
        let mut seen = vec![(0, 0); WORKERS];
        while !done.load(Relaxed) {
            std::thread::sleep(Duration::from_millis(100));
            let now = self.t0.elapsed().as_millis() as u64;
            for (w, s) in self.started.iter().enumerate() {
                let st = s.load(Relaxed);
                if st == 0 || now < st + 1000 {
                    continue;
                }
                let cpu = cpu_ms(self.clocks[w].load(Relaxed));
                if seen[w].0 != st {
                    seen[w] = (st, cpu);
                }
                if cpu > seen[w].1 + HANG_MS || now > st + STUCK_MS {
                    eprintln!("a case does not end: {} ms, {} ms of them on the processor", now - st, cpu - seen[w].1.min(cpu));
                    std::process::exit(77);
                }
            }
        }
    }
    fn enter(&self, w: usize, kind: &str, payload: &str) {
        let mut b = Vec::with_capacity(8 + kind.len() + payload.len() + 1);
        b.extend_from_slice(&((kind.len() + payload.len() + 1) as u64).to_le_bytes());
        b.extend_from_slice(kind.as_bytes());
        b.push(0);
        b.extend_from_slice(payload.as_bytes());
        let _ = self.slots[w].write_at(&b, 0);
        self.started[w].store(self.t0.elapsed().as_millis() as u64 + 1, Relaxed);
    }
    fn leave(&self, w: usize) {
        self.started[w].store(0, Relaxed);
    }
    fn flush(&self) {
        LOCAL.with(|l| {
            let mut l = l.borrow_mut();
            self.trans.fetch_add(l.trans, Relaxed);
            self.traces.fetch_add(l.traces, Relaxed);
            l.trans = 0;
            l.traces = 0;
            let mut by: Vec<Vec<u64>> = vec![vec![]; SHARDS];
            for h in l.states.drain(..) {
                by[(h % SHARDS as u64) as usize].push(h);
            }
            for (i, v) in by.into_iter().enumerate() {
                if v.is_empty() || self.nstates.load(Relaxed) >= STATE_CAP {
                    continue;
                }
                let mut s = self.states[i].lock().unwrap();
                let b = s.len();
                s.extend(v);
                self.nstates.fetch_add(s.len() - b, Relaxed);
            }
        });
    }
    /// Decides the cases `0..n` of this kind, in parallel, every one of them.
    pub fn sweep(&self, kind: &str, descr: &str, n: usize, gen: impl Fn(usize) -> String + Sync) {
        if self.stop.load(Relaxed) {
            return;
        }
        let next = AtomicUsize::new(0);
        let chunk = (n / (WORKERS * 64)).clamp(1, 512);
        let ran = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for w in 0..WORKERS {
                let (next, gen, ran) = (&next, &gen, &ran);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(sc, move || {
                        self.clocks[w].store(my_clock(), Relaxed);
                        let mut hist: BTreeMap<&'static str, (u64, usize, String)> = BTreeMap::new();
                        loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= n || self.stop.load(Relaxed) {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                let payload = gen(i);
                                self.enter(w, kind, &payload);
                                let r = run_case(self.check, kind, &payload);
                                self.leave(w);
                                match r {
                                    Ok(l) => {
                                        let e = hist.entry(l).or_insert((0, usize::MAX, String::new()));
                                        e.0 += 1;
                                        if i < e.1 {
                                            e.1 = i;
                                            e.2 = payload;
                                        }
                                    }
                                    Err(why) => self.violation(kind, payload, why, i),
                                }
                            }
                            ran.fetch_add(((a + chunk).min(n) - a) as u64, Relaxed);
                            self.flush();
                        }
                        self.clocks[w].store(0, Relaxed);
                        let mut h = self.hist.lock().unwrap();
                        for (l, (c, i, p)) in hist {
                            let e = h
                                .entry(format!("{kind}: {l}"))
                                .or_insert((0, usize::MAX, String::new()));
                            e.0 += c;
                            if i < e.1 {
                                e.1 = i;
                                e.2 = p;
                            }
                        }
                    })
                    .expect("worker");
            }
        });
        let ran = ran.load(Relaxed);
        self.cases.fetch_add(ran, Relaxed);
        self.sweeps.lock().unwrap().push((kind.into(), descr.into(), ran));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("[{:7.2}s] {kind}: {ran} cases", self.t0.elapsed().as_secs_f64());
        }
    }
    pub fn list(&self, kind: &str, descr: &str, cases: Vec<String>) {
        self.sweep(kind, descr, cases.len(), |i| cases[i].clone());
    }
    pub fn violation(&self, kind: &str, payload: String, why: String, index: usize) {
        let mut v = self.viols.lock().unwrap();
        v.push(Viol { kind: kind.into(), payload, why, index });
        if v.len() >= 40 {
            self.stop.store(true, Relaxed);
        }
    }
    /// Writes the evidence and returns the exit code.
    pub fn finish(&self, root: &Path) -> i32 {
        self.flush();
        let mut viols = std::mem::take(&mut *self.viols.lock().unwrap());
        viols.sort_by(|a, b| (a.payload.len(), &a.kind, a.index).cmp(&(b.payload.len(), &b.kind, b.index)));
        let known = load_known(root, self.check.id());
        let mut shown_known: BTreeMap<usize, u64> = BTreeMap::new();
        let mut real = vec![];
        for v in viols {
            match known.iter().position(|k| k.matches(&v.kind, &v.payload)) {
                Some(i) => *shown_known.entry(i).or_default() += 1,
                None => real.push(v),
            }
        }
        for i in shown_known.keys() {
            println!("KNOWN-FINDING: property={} {}", self.check.id(), known[*i].text);
        }
        let hist = self.hist.lock().unwrap();
        let mut code = 0;
        let mut extra = vec![];
        for v in real.iter().take(10) {
            let p = write_replay(root, self.check.id(), &v.kind, &v.payload, &v.why);
            println!("VIOLATION property={} replay={}", self.check.id(), p.display());
            println!("  case {}: {}", v.kind, show(&v.payload));
            println!("  {}", v.why);
            code = 1;
        }
        if code == 0 {
            for l in self.check.must_see() {
                if !hist.keys().any(|k| k.ends_with(&format!(": {l}"))) {
                    eprintln!("vacuous exploration: no case had the outcome '{l}'");
                    extra.push(format!("missing outcome {l}"));
                    code = 2;
                }
            }
        }
        let nstates = self.nstates.load(Relaxed);
        let mut j = String::new();
        j.push_str("{\n");
        j.push_str(&format!("  \"property\": {},\n", js(self.check.id())));
        j.push_str(&format!("  \"tier\": {},\n  \"seed\": {},\n", js(&self.tier), self.seed));
        j.push_str("  \"level\": \"model_checking\",\n  \"coverage\": {\n");
        j.push_str(&format!("    \"states\": {nstates},\n"));
        j.push_str(&format!("    \"transitions\": {},\n", self.trans.load(Relaxed)));
        j.push_str(&format!(
            "    \"traces_validated_against_impl\": {},\n",
            self.traces.load(Relaxed)
        ));
        j.push_str(&format!("    \"cases\": {},\n", self.cases.load(Relaxed)));
        j.push_str(&format!("    \"exhaustive\": {},\n", code == 0 && real.is_empty()));
        j.push_str(&format!("    \"rule\": {},\n", js(self.check.rule())));
        j.push_str("    \"sweeps\": [\n");
        let sw = self.sweeps.lock().unwrap();
        for (i, (k, d, n)) in sw.iter().enumerate() {
            j.push_str(&format!(
                "      {{\"kind\": {}, \"space\": {}, \"cases\": {}}}{}\n",
                js(k),
                js(d),
                n,
                if i + 1 < sw.len() { "," } else { "" }
            ));
        }
        j.push_str("    ],\n    \"outcomes\": {");
        let o: Vec<String> = hist.iter().map(|(k, v)| format!("{}: {}", js(k), v.0)).collect();
        j.push_str(&o.join(", "));
        j.push_str("},\n    \"notes\": {");
        let o: Vec<String> =
            self.notes.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", js(k), js(v))).collect();
        j.push_str(&o.join(", "));
        j.push_str("},\n    \"samples\": [\n");
        let sm: Vec<String> = hist
            .iter()
            .map(|(k, v)| format!("      {}", js(&format!("{k} <- {}", clip(&v.2, 300)))))
            .collect();
        j.push_str(&sm.join(",\n"));
        j.push_str("\n    ]\n  },\n");
        let a: Vec<String> = self.check.assumptions().iter().map(|x| js(x)).collect();
        j.push_str(&format!("  \"assumptions\": [{}],\n", a.join(", ")));
        j.push_str(&format!("  \"wall_s\": {:.3},\n", self.t0.elapsed().as_secs_f64()));
        j.push_str(&format!("  \"violations\": {}\n}}\n", real.len()));
        let ev = root.join("evidence");
        let _ = std::fs::create_dir_all(&ev);
        if let Err(e) = std::fs::write(ev.join(format!("{}.json", self.check.id())), j) {
            eprintln!("cannot write the evidence: {e}");
            return 2;
        }
        println!(
            "{} {}: {} cases, {} states, {} transitions, {} traces compared, {} violations, {:.1} s",
            self.check.id(),
            self.tier,
            self.cases.load(Relaxed),
            nstates,
            self.trans.load(Relaxed),
            self.traces.load(Relaxed),
            real.len(),
            self.t0.elapsed().as_secs_f64()
        );
        code
    }
}

pub fn run_case(check: &dyn Check, kind: &str, payload: &str) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| check.decide(kind, payload))) {
        Ok(v) => v,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

pub fn js(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn clip(x: &str, n: usize) -> String {
    if x.chars().count() <= n {
        x.to_string()
    } else {
        format!("{}…({} bytes)", x.chars().take(n).collect::<String>(), x.len())
    }
}
fn show(x: &str) -> String {
    format!("{:?}", clip(x, 600))
}

pub fn write_replay(root: &Path, id: &str, kind: &str, payload: &str, why: &str) -> PathBuf {
    let d = root.join("replays");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{id}-{:016x}.case", hash(&(kind, payload))));
    let _ = std::fs::write(&p, format!("{id}\n{kind}\n{}\n{payload}", why.replace('\n', " ")));
    p
}
pub fn read_replay(p: &Path) -> Option<(String, String, String)> {
    let t = std::fs::read_to_string(p).ok()?;
    let mut i = t.splitn(4, '\n');
    let (id, kind, _, payload) = (i.next()?, i.next()?, i.next()?, i.next()?);
    Some((id.into(), kind.into(), payload.into()))
}

/// The case in a slot file, as left by a dead child.
pub fn read_slot(p: &Path) -> Option<(String, String)> {
    let b = std::fs::read(p).ok()?;
    let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
    let b = b.get(8..8 + n)?;
    let z = b.iter().position(|x| *x == 0)?;
    Some((String::from_utf8(b[..z].to_vec()).ok()?, String::from_utf8(b[z + 1..].to_vec()).ok()?))
}

pub struct Known {
    kind: String,
    payload: String,
    pub text: String,
}
impl Known {
    fn matches(&self, kind: &str, payload: &str) -> bool {
        self.kind == kind && self.payload == payload
    }
}
/// known_findings.txt: `known: property=<id> kind=<kind> case=<escaped payload> :: <text>`
pub fn load_known(root: &Path, id: &str) -> Vec<Known> {
    let mut out = vec![];
    let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) else { return out };
    for l in t.lines() {
        let Some(r) = l.strip_prefix(&format!("known: property={id} kind=")) else { continue };
        let Some((kind, r)) = r.split_once(" case=") else { continue };
        let Some((case, text)) = r.split_once(" :: ") else { continue };
        out.push(Known {
            kind: kind.into(),
            payload: case.replace("\\n", "\n").replace("\\r", "\r"),
            text: text.into(),
        });
    }
    out
}
