//! Exhaustive enumeration engine: worker processes, confirmation, replay, evidence.
use crate::session::{take_panics, Session};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
const CASE_LIMIT_S: u64 = 100;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}

/// What a run covered, and what failed in the current case.
#[derive(Default)]
pub struct Rec {
    pub executions: u64,
    pub transitions: u64,
    pub validated: u64,
    pub nontrivial: u64,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
    pub fails: Vec<Fail>,
}

impl Rec {
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>) {
        if self.fails.len() < 40 {
            self.fails.push(Fail { key: key.into(), msg: msg.into() });
        }
    }
    pub fn state<T: Hash>(&mut self, t: &T) {
        self.states.insert(hash(t));
    }
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(hash(t));
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    /// Compares expected with actual.
    pub fn eq(&mut self, key: impl Into<String>, what: &str, want: &Value, got: &Value) -> bool {
        self.validated += 1;
        if want != got {
            self.fail(key, format!("{what}: expected {want}, got {got}"));
            return false;
        }
        true
    }
}

/// State of one worker: a scratch directory and a reusable session.
pub struct World {
    pub dir: PathBuf,
    pub session: Option<Session>,
    pub uses: u32,
    pub max_uses: u32,
    pub history: Vec<Value>,
    pub extra: BTreeMap<String, Value>,
    pub ready: bool,
}

impl World {
    pub fn new(dir: PathBuf) -> World {
        World {
            dir,
            session: None,
            uses: 0,
            max_uses: 300,
            history: vec![],
            extra: BTreeMap::new(),
            ready: false,
        }
    }
    pub fn reset(&mut self) {
        self.session = None;
        self.uses = 0;
        self.history.clear();
        self.extra.clear();
        self.ready = false;
        clean(&self.dir);
    }
    pub fn path(&self, rel: &str) -> PathBuf {
        self.dir.join(rel)
    }
    pub fn uri(&self, rel: &str) -> String {
        tower_lsp::lsp_types::Url::from_file_path(self.dir.join(rel))
            .unwrap()
            .to_string()
    }
    pub fn write(&self, rel: &str, text: &str) {
        let p = self.dir.join(rel);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, text).unwrap();
    }
    pub fn options(&self, lang: &str) -> Value {
        json!({"templates": self.dir.join("templates").to_str().unwrap(),
               "backend": [self.dir.join("src").to_str().unwrap()], "lang": lang})
    }
    /// Writes the workspace once (per reset) and hands out a session that is renewed after
    /// `max_uses` cases.
    pub fn with_session(
        &mut self,
        files: &[(&str, &str)],
        make: impl Fn(&World) -> Session,
    ) -> Session {
        if !self.ready {
            fs::create_dir_all(self.dir.join("templates")).unwrap();
            fs::create_dir_all(self.dir.join("src")).unwrap();
            for (p, t) in files {
                self.write(p, t);
            }
            self.ready = true;
        }
        if self.uses >= self.max_uses {
            self.session = None;
            self.uses = 0;
            let last = self.history.pop();
            self.history.clear();
            self.history.extend(last);
        }
        self.uses += 1;
        match self.session.take() {
            Some(s) => s,
            None => make(self),
        }
    }
    pub fn give_back(&mut self, s: Session) {
        if !s.wedged {
            self.session = Some(s);
        }
    }
}

/// Empties a scratch directory.
pub fn clean(dir: &Path) {
    assert!(dir.to_str().unwrap().contains("/jlsp-mc-"));
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                let _ = fs::remove_dir_all(p);
            } else {
                let _ = fs::remove_file(p);
            }
        }
    }
}

pub trait Check {
    fn id(&self) -> &'static str;
    /// Calls `f` with every case of the bounded space, simplest first.
    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value));
    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec);
    /// What is enumerated and what the bounds are, for the evidence file.
    fn bounds(&self, tier: Tier) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    fn workers(&self) -> usize {
        WORKERS
    }
}

fn run_case(check: &dyn Check, w: &mut World, case: &Value, rec: &mut Rec) -> Vec<Fail> {
    take_panics();
    rec.fails.clear();
    rec.executions += 1;
    w.history.push(case.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check.run(w, case, rec)));
    let panics = take_panics();
    if r.is_err() {
        let p = panics.join("; ");
        // The oracle or the harness itself must never panic.
        eprintln!("harness panic on case {case}: {p}");
        std::process::exit(90);
    }
    let mut fails = std::mem::take(&mut rec.fails);
    if let Some(s) = w.session.as_ref() {
        if s.wedged {
            w.session = None;
        }
    }
    if !panics.is_empty() {
        w.session = None;
        fails.push(Fail {
            key: format!("panic {case}"),
            msg: format!("the server panicked: {}", panics.join("; ")),
        });
    }
    fails
}

pub struct Known {
    pub lines: Vec<(String, String, String)>, // property, key, what
}

impl Known {
    pub fn load() -> Known {
        let p = root().join("KNOWN_FINDINGS.txt");
        let mut lines = vec![];
        for l in fs::read_to_string(p).unwrap_or_default().lines() {
            let Some(rest) = l.strip_prefix("finding: property=") else { continue };
            let Some((prop, rest)) = rest.split_once(" key=") else { continue };
            let Some((key, what)) = rest.split_once(" what=") else { continue };
            lines.push((prop.to_string(), key.to_string(), what.to_string()));
        }
        Known { lines }
    }
    pub fn has(&self, prop: &str, key: &str) -> bool {
        let k = flat(key);
        self.lines.iter().any(|l| l.0 == prop && l.1 == k)
    }
}

/// A key on one line.
pub fn flat(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

static CASE_START: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CASE_START.load(Ordering::Relaxed);
        if s != 0 && now_ms().saturating_sub(s) > CASE_LIMIT_S * 1000 {
            unsafe { libc::_exit(97) }
        }
    });
}

fn limit_memory(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// Re-runs a history in a fresh world; returns the failures of its last case.
fn replay_history(check: &dyn Check, dir: &Path, history: &[Value]) -> Vec<Fail> {
    let mut w = World::new(dir.to_path_buf());
    w.reset();
    w.max_uses = 1_000_000;
    let mut rec = Rec::default();
    let mut last = vec![];
    for c in history {
        CASE_START.store(now_ms(), Ordering::Relaxed);
        last = run_case(check, &mut w, c, &mut rec);
        CASE_START.store(0, Ordering::Relaxed);
    }
    w.reset();
    last
}

pub fn worker(check: &dyn Check, tier: Tier, i: usize, n: usize, dir: &Path, deadline: u64) {
    limit_memory(8 << 30);
    watchdog();
    let known = Known::load();
    let mut w = World::new(dir.join("w"));
    fs::create_dir_all(&w.dir).unwrap();
    w.dir = fs::canonicalize(&w.dir).unwrap();
    let mut rec = Rec::default();
    let mut out_violations: Vec<Value> = vec![];
    let mut known_seen: BTreeMap<String, String> = BTreeMap::new();
    let mut hist_file = fs::File::create(dir.join("history")).unwrap();
    let mut hist_gen = 0usize;
    let started = Instant::now();
    let mut total = 0u64;
    let mut capped = false;
    let sample_every = [0u64, 3, 17, 257, 4099];
    check.enumerate(tier, &mut |case: Value| {
        let idx = total;
        total += 1;
        if capped || idx % n as u64 != i as u64 || out_violations.len() >= 3 {
            return;
        }
        if started.elapsed().as_secs() > deadline {
            capped = true;
            return;
        }
        if w.history.len() < hist_gen || w.history.is_empty() {
            hist_file = fs::File::create(dir.join("history")).unwrap();
        }
        hist_gen = w.history.len();
        let mut line = case.to_string();
        line.push('\n');
        let _ = hist_file.write_all(line.as_bytes());
        CASE_START.store(now_ms(), Ordering::Relaxed);
        let t0 = Instant::now();
        let fails = run_case(check, &mut w, &case, &mut rec);
        CASE_START.store(0, Ordering::Relaxed);
        if std::env::var("MC_SLOW").is_ok() && t0.elapsed().as_millis() > 1000 {
            eprintln!("slow {:?} {case}", t0.elapsed());
        }
        if sample_every.contains(&(idx / n as u64)) && rec.samples.len() < 4 {
            rec.samples.push(case.clone());
        }
        if fails.is_empty() {
            return;
        }
        let mut fresh = vec![];
        for f in fails {
            if known.has(check.id(), &f.key) {
                known_seen.insert(flat(&f.key), f.msg);
            } else {
                fresh.push(f);
            }
        }
        if fresh.is_empty() {
            return;
        }
        // Confirm in a fresh world; shrink the history that is needed.
        let hist = w.history.clone();
        let cdir = dir.join("confirm");
        let _ = fs::create_dir_all(&cdir);
        let cdir = fs::canonicalize(&cdir).unwrap();
        let mut found = None;
        let len = hist.len();
        let mut tries: Vec<Vec<Value>> = vec![vec![case.clone()]];
        if len >= 2 {
            tries.push(hist[len - 2..].to_vec());
        }
        if len >= 3 {
            tries.push(hist.clone());
        }
        for h in tries {
            let f: Vec<Fail> = replay_history(check, &cdir, &h)
                .into_iter()
                .filter(|f| !known.has(check.id(), &f.key))
                .collect();
            if !f.is_empty() {
                found = Some((h, f));
                break;
            }
        }
        w.reset();
        match found {
            Some((h, f)) => out_violations.push(json!({
                "history": h,
                "fails": f.iter().map(|f| json!({"key": f.key, "msg": f.msg})).collect::<Vec<_>>()
            })),
            None => {
                eprintln!(
                    "not reproducible: case {case}: {}",
                    fresh.iter().map(|f| f.msg.clone()).collect::<Vec<_>>().join(" | ")
                );
                std::process::exit(91);
            }
        }
    });
    w.reset();
    let dump = |p: &str, s: &HashSet<u64>| {
        let mut b = Vec::with_capacity(s.len() * 8);
        for x in s {
            b.extend_from_slice(&x.to_le_bytes());
        }
        fs::write(dir.join(p), b).unwrap();
    };
    dump("states", &rec.states);
    dump("outcomes", &rec.outcomes);
    let r = json!({
        "executions": rec.executions, "transitions": rec.transitions, "validated": rec.validated,
        "nontrivial": rec.nontrivial, "samples": rec.samples, "counters": rec.counters,
        "violations": out_violations, "known": known_seen, "total": total, "capped": capped,
    });
    fs::write(dir.join("result"), r.to_string()).unwrap();
}

fn scratch() -> PathBuf {
    let p = std::env::temp_dir().join(format!("jlsp-mc-{}", std::process::id()));
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).unwrap();
    fs::canonicalize(&p).unwrap()
}

fn read_hashes(p: &Path, into: &mut HashSet<u64>) {
    if let Ok(b) = fs::read(p) {
        for c in b.chunks_exact(8) {
            into.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

pub fn write_replay(id: &str, history: &[Value], fails: &Value, k: usize) -> PathBuf {
    let d = root().join("evidence").join("replay");
    fs::create_dir_all(&d).unwrap();
    let p = d.join(format!("{id}-{k}.json"));
    let v = json!({"property": id, "history": history, "fails": fails});
    fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    p
}

/// The whole check; returns the exit code.
pub fn check(check: &dyn Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let id = check.id();
    let n = check.workers();
    let dir = scratch();
    let exe = std::env::current_exe().unwrap();
    let deadline: u64 = std::env::var("MC_DEADLINE_S")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 420 } else { 3000 });
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut kids = vec![];
    for i in 0..n {
        let d = dir.join(format!("{i}"));
        fs::create_dir_all(&d).unwrap();
        let k = Command::new(&exe)
            .args(["worker", id, tier_s, &i.to_string(), &n.to_string()])
            .arg(&d)
            .arg(deadline.to_string())
            .stdin(Stdio::null())
            .spawn()
            .unwrap();
        kids.push((i, d, k));
    }
    let mut all = Rec::default();
    let mut violations: Vec<Value> = vec![];
    let mut known_seen: BTreeMap<String, String> = BTreeMap::new();
    let mut broken = vec![];
    let (mut total, mut capped) = (0u64, false);
    for (i, d, mut k) in kids {
        let st = k.wait().unwrap();
        if st.success() {
            let r: Value =
                serde_json::from_str(&fs::read_to_string(d.join("result")).unwrap()).unwrap();
            all.executions += r["executions"].as_u64().unwrap();
            all.transitions += r["transitions"].as_u64().unwrap();
            all.validated += r["validated"].as_u64().unwrap();
            all.nontrivial += r["nontrivial"].as_u64().unwrap();
            total = total.max(r["total"].as_u64().unwrap());
            capped |= r["capped"].as_bool().unwrap();
            for (k, v) in r["counters"].as_object().unwrap() {
                all.count(k, v.as_u64().unwrap());
            }
            if i < 2 {
                all.samples.extend(r["samples"].as_array().unwrap().iter().cloned());
            }
            for v in r["violations"].as_array().unwrap() {
                violations.push(v.clone());
            }
            for (k, v) in r["known"].as_object().unwrap() {
                known_seen.insert(k.clone(), v.as_str().unwrap().to_string());
            }
            read_hashes(&d.join("states"), &mut all.states);
            read_hashes(&d.join("outcomes"), &mut all.outcomes);
            continue;
        }
        let code = st.code();
        if matches!(code, Some(90) | Some(91)) {
            broken.push(format!("worker {i} stopped with {st}"));
            continue;
        }
        // The process under check died or hung: confirm on the recorded history.
        let hist: Vec<Value> = fs::read_to_string(d.join("history"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| serde_json::from_str(l).ok())
            .collect();
        let mut confirmed = None;
        let mut tries = vec![];
        if let Some(l) = hist.last() {
            tries.push(vec![l.clone()]);
        }
        tries.push(hist.clone());
        for h in tries {
            let f = dir.join("one.json");
            fs::write(&f, json!({"property": id, "history": h}).to_string()).unwrap();
            let st = Command::new(&exe)
                .arg("replay")
                .arg(&f)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .unwrap();
            if st.code() != Some(0) && st.code() != Some(1) {
                confirmed = Some((h, st));
                break;
            }
        }
        match confirmed {
            Some((h, st)) => violations.push(json!({
                "history": h,
                "fails": [{"key": "process", "msg": format!(
                    "the server process {} on this input",
                    if st.code() == Some(97) { "hung".to_string() } else { format!("died ({st})") })}],
            })),
            None => broken.push(format!("worker {i} stopped with {st}, not reproducible")),
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let known = Known::load();
    for (p, k, what) in &known.lines {
        if p == id && known_seen.contains_key(k) {
            println!("KNOWN-FINDING: property={id} {what} [{k}]");
        }
    }
    let mut code = 0;
    let mut printed = HashSet::new();
    for (k, v) in violations.iter().enumerate() {
        let p = write_replay(id, v["history"].as_array().unwrap(), &v["fails"], k);
        if printed.len() < 5 {
            println!("VIOLATION property={id} replay={}", p.display());
            for f in v["fails"].as_array().unwrap().iter().take(4) {
                println!("  {}", f["msg"].as_str().unwrap_or("").chars().take(1500).collect::<String>());
            }
            if let Some(c) = v["history"].as_array().unwrap().last() {
                println!("  case: {}", c.to_string().chars().take(1500).collect::<String>());
            }
            printed.insert(k);
        }
        code = 1;
    }
    let mut assumptions = check.assumptions();
    assumptions.push("a clock that only advances when every task is idle stands for real time".into());
    let ev = json!({
        "property": id, "tier": tier_s,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|v| v.parse::<i64>().ok()).unwrap_or(0),
        "level": "model_checking",
        "coverage": {
            "states": all.states.len(), "transitions": all.transitions,
            "traces_validated_against_impl": all.executions,
            "comparisons_with_reference": all.validated,
            "distinct_nontrivial": all.nontrivial,
            "distinct_outcomes": all.outcomes.len(),
            "cases_in_space": total,
            "exhaustive": !capped && violations.is_empty() && broken.is_empty(),
            "bounds": check.bounds(tier),
            "rule": check.bounds(tier),
            "counters": all.counters,
            "samples": all.samples,
            "known_findings_seen": known_seen.len(),
        },
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    fs::create_dir_all(root().join("evidence")).unwrap();
    fs::write(
        root().join("evidence").join(format!("{id}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "{id}: {} cases ({} in space{}), {} states, {} transitions, {} comparisons, {} outcomes, {:.1}s",
        all.executions, total, if capped { ", capped" } else { "" }, all.states.len(),
        all.transitions, all.validated, all.outcomes.len(), t0.elapsed().as_secs_f64()
    );
    if code == 0 && !broken.is_empty() {
        for b in &broken {
            eprintln!("error: {b}");
        }
        code = 3;
    }
    code
}

/// Replays a recorded violation: exit 1 and its failures, or 0 when it no longer fails.
pub fn replay(check: &dyn Check, v: &Value) -> i32 {
    limit_memory(8 << 30);
    watchdog();
    let dir = scratch();
    let d = dir.join("w");
    fs::create_dir_all(&d).unwrap();
    let h = v["history"].as_array().cloned().unwrap_or_default();
    let fails = replay_history(check, &d, &h);
    let _ = fs::remove_dir_all(&dir);
    for f in &fails {
        println!("{}\n   key: {}", f.msg, flat(&f.key));
    }
    if fails.is_empty() {
        println!("the recorded history passes");
        0
    } else {
        1
    }
}
