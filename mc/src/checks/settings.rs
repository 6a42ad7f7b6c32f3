//! C17: after any history, reading the workspace anew gives what a fresh server says of the same
//! settings, files and open documents.
use super::observe::{answers, difference};
use crate::engine::{clean, Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;

pub struct Settings;

const OPS: [&str; 24] = [
    "reset", "config 1", "config 0", "open t", "change t", "close t", "open u", "change u", "close u", "open r",
    "change r", "close r", "disk t", "rm t", "disk v", "rm v", "disk r", "rm r", "config 2", "config 3", "config 4",
    "config 5", "wait", "save t",
];

/// Settings; %a is the workspace. The last two are no settings, they leave the earlier ones.
const CONFIGS: [&str; 6] = [
    r#"{"templates":"%a/T","backend":["%a/S"],"lang":"rust"}"#,
    r#"{"templates":"%a/T2","backend":["%a/S2"],"lang":"python"}"#,
    r#"{"templates":"./T","backend":["./S","./S3"],"lang":"rust","hide_undefined":true}"#,
    r#"{"templates":"%a/T","backend":["%a/S3"],"lang":"rust","hide_undefined":false}"#,
    r#"{"templates":7}"#,
    "null",
];

/// Name, file, text on disk, later text on disk, text when opened, changed text.
const DOCS: [(&str, &str, Option<&str>, &str, &str, &str); 6] = [
    (
        "t", "T/t.html",
        Some("{% set dt = 1 %}{{ du }}{{ dv }}{{ dw }}{{ br }}{{ bq }}{{ }}{% include 'v.html' %}"),
        "{{ dv }}{% macro mt(p) %}{{ p }}{{ }}{% endmacro %}",
        "{% set at = 1 %}{{ du }}{{ dt }}{{ dv }}{{ dw }}{{ br }}{{ bq }}{{ nr }}{{ }}{% include 'v.html' %}{% include 'u.html' %}",
        "{% include 'v.html' %}{% set bt = 1 %}{{ dt }}{{ du }}{{ cu }}{{ dx }}{{ mr }}{{ }}",
    ),
    (
        "u", "T/u.html", None, "",
        "{% set du = 1 %}{{ dt }}{{ at }}{{ bt }}{{ mt }}{{ dv }}{{ }}{% include 't.html' %}{% include 'w.html' %}",
        "é{% set cu = 1 %}{{ at }}{{ dw }}{{ bq }}{{ }}",
    ),
    ("v", "T/v.html", None, "{% set dv = 1 %}{{ at }}", "", ""),
    ("w", "T2/w.html", Some("{% set dw = 1 %}{{ dt }}{{ bq }}{{ br }}"), "", "", ""),
    (
        "r", "S/r.rs", Some("fn f() { context!(br); }"), "fn f() { context!(dx); get_template(\"v.html\"); }",
        "fn f() { context!(nr); get_template(\"v.html\"); }", "fn f() { context!(mr); }",
    ),
    ("q", "S2/q.py", Some("render(bq=1)"), "", "", ""),
];

/// What counts for the answers: texts on disk, texts of open documents, settings in force.
#[derive(Clone)]
struct State {
    disk: BTreeMap<usize, String>,
    open: Vec<(usize, String)>,
    config: Option<usize>,
}

impl State {
    fn start(configured: bool) -> State {
        let disk = (0..DOCS.len()).filter_map(|i| DOCS[i].2.map(|t| (i, t.to_string()))).collect();
        State { disk, open: vec![], config: configured.then_some(0) }
    }
    fn key(&self) -> String {
        format!("{:?} {:?} {:?}", self.disk, self.open, self.config)
    }
    fn is_open(&self, i: usize) -> Option<usize> {
        self.open.iter().position(|o| o.0 == i)
    }
    /// None if the operation makes no sense now.
    fn apply(&mut self, op: &str) -> Option<()> {
        let Some((verb, what)) = op.split_once(' ') else { return Some(()) };
        if verb == "config" {
            let k = what.parse::<usize>().unwrap();
            if k < 4 {
                self.config = Some(k);
            }
            return Some(());
        }
        let i = DOCS.iter().position(|d| d.0 == what).unwrap();
        match verb {
            "open" => {
                if self.is_open(i).is_some() {
                    return None;
                }
                self.open.push((i, DOCS[i].4.to_string()));
            }
            "change" => {
                let k = self.is_open(i)?;
                if self.open[k].1 == DOCS[i].5 {
                    return None;
                }
                self.open[k].1 = DOCS[i].5.to_string();
            }
            "close" => {
                let k = self.is_open(i)?;
                self.open.remove(k);
            }
            "save" => {
                self.is_open(i)?;
            }
            "disk" => {
                if self.disk.get(&i).is_some_and(|t| t == DOCS[i].3) {
                    return None;
                }
                self.disk.insert(i, DOCS[i].3.to_string());
            }
            "rm" => {
                self.disk.remove(&i)?;
            }
            _ => unreachable!(),
        }
        Some(())
    }
}

fn legal(ops: &[&str], configured: bool) -> bool {
    let mut s = State::start(configured);
    ops.iter().all(|o| s.apply(o).is_some()) && s.config.is_some()
}

fn configuration(w: &World, k: usize) -> Value {
    serde_json::from_str(&CONFIGS[k].replace("%a", w.dir.to_str().unwrap())).unwrap()
}

fn put(w: &World, s: &State) {
    for d in ["T", "T2", "S", "S2", "S3"] {
        fs::create_dir_all(w.path(d)).unwrap();
    }
    w.write("S3/x.rs", "fn f() { context!(bq); }");
    for (i, d) in DOCS.iter().enumerate() {
        match s.disk.get(&i) {
            Some(t) => w.write(d.1, t),
            None => {
                let _ = fs::remove_file(w.path(d.1));
            }
        }
    }
}

/// Everything said of all documents.
fn see(w: &World, s: &mut Session, st: &State) -> Value {
    s.settle(300);
    let mut all = vec![];
    for (i, d) in DOCS.iter().enumerate() {
        let uri = w.uri(d.1);
        let text = st.is_open(i).map(|k| st.open[k].1.clone()).or(st.disk.get(&i).cloned()).unwrap_or_default();
        let diags = norm_diags(s.inbox.diags.get(&uri).map_or(&[], |v| v));
        let sy = norm_symbols(&s.symbols(&uri));
        let a = answers(s, &uri, &text, 7);
        let n = text.find("'v.html").map(|p| pos_of(&text, p + 2));
        let code = match n {
            Some((l, c)) => s.action(&uri, l, c),
            None => json!(null),
        };
        all.push(json!({"document": d.1, "diagnostics": diags, "symbols": sy, "answers": a, "actions": code}));
    }
    Value::from(all)
}

fn fresh(w: &World, st: &State, client: Option<&str>) -> Value {
    let options = configuration(w, st.config.unwrap());
    let mut s = Session::new(Opts { options, client, initialized: true });
    for (i, text) in &st.open {
        s.open(&w.uri(DOCS[*i].1), text);
    }
    s.settle(300);
    // Now that all are known, each is looked at again.
    // Files of the backend are only looked at when open.
    for (i, d) in DOCS.iter().enumerate() {
        if d.1.ends_with(".html") || st.is_open(i).is_some() {
            s.save(&w.uri(d.1));
        }
    }
    s.settle(300);
    see(w, &mut s, st)
}

impl Check for Settings {
    fn id(&self) -> &'static str {
        "C17"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        let depth = if th { 4 } else { 3 };
        for n in 0..=depth {
            let mut idx = vec![0; n];
            loop {
                let ops: Vec<&str> = idx.iter().map(|i| OPS[*i]).collect();
                for configured in [true, false] {
                    // The quick tier leaves out some of the longest.
                    let rare = |o: &&str| ["wait", "save t", "config 4", "config 5"].contains(o);
                    if !th && n == depth && (!configured || ops.iter().any(|o| rare(o))) {
                        continue;
                    }
                    let mut ops = ops.clone();
                    let last = ops.last().copied().unwrap_or("");
                    if !last.starts_with("config") && last != "reset" {
                        ops.push(if configured { "reset" } else { "config 0" });
                    }
                    if !legal(&ops, configured) {
                        continue;
                    }
                    // Both kinds of clients where it is cheap.
                    for vscode in [true, false] {
                        if n < 3 || vscode == (idx.iter().sum::<usize>() % 2 == 0) {
                            f(json!({"configured": configured, "vscode": vscode, "ops": ops}));
                        }
                    }
                }
                let Some(k) = (0..n).rev().find(|k| idx[*k] + 1 < OPS.len()) else { break };
                idx[k] += 1;
                for j in k + 1..n {
                    idx[j] = 0;
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        format!(
            "every legal history of <={} of {} operations ({}){}, started with settings or without, followed by a reset (or the \
             settings) unless it ends with one; with a client of either kind (histories of full length with one of the two). \
             All six documents are then compared in diagnostics, symbols, code actions, and hover, definition and completion \
             at seven positions, with a fresh server. A case is non-trivial if its state differs from that at the start.",
            if tier == Tier::Thorough { 4 } else { 3 },
            OPS.len(),
            OPS.join(", "),
            if tier == Tier::Thorough { "" } else { ", without the last four kinds and always with settings in the longest" }
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let last = w.history.pop();
        w.history.clear();
        w.history.extend(last);
        let configured = case["configured"] == true;
        let client = (case["vscode"] == true).then_some("Visual Studio Code");
        let before = std::env::current_dir().ok();
        clean(&w.dir);
        let mut st = State::start(configured);
        put(w, &st);
        std::env::set_current_dir(&w.dir).unwrap();
        let options = if configured { configuration(w, 0) } else { Value::Null };
        let mut s = Session::new(Opts { options, client, initialized: true });
        for op in case["ops"].as_array().unwrap() {
            let op = op.as_str().unwrap();
            st.apply(op).unwrap();
            let (verb, what) = op.split_once(' ').unwrap_or((op, ""));
            let doc = DOCS.iter().position(|d| d.0 == what);
            let uri = doc.map(|i| w.uri(DOCS[i].1)).unwrap_or_default();
            match verb {
                "reset" => {
                    s.command("reset_variables");
                }
                "config" => s.notify(
                    "workspace/didChangeConfiguration",
                    json!({"settings": configuration(w, what.parse().unwrap())}),
                ),
                "open" => s.open(&uri, DOCS[doc.unwrap()].4),
                "change" => s.change(&uri, json!([{"text": DOCS[doc.unwrap()].5}])),
                "close" => s.close(&uri),
                "save" => s.save(&uri),
                "wait" => s.settle(250),
                _ => put(w, &st),
            }
            // The files are read before the next operation.
            s.settle(1);
            rec.transitions += 1;
            rec.state(&(st.key(), s.inbox.published.len()));
        }
        let got = see(w, &mut s, &st);
        let k = format!("{} {}", st.key(), case["vscode"]);
        let want = match w.extra.get(&k) {
            Some(v) => v.clone(),
            None => {
                let v = fresh(w, &st, client);
                // The directory differs only by worker, the answers stay the same.
                w.extra.insert(k, v.clone());
                v
            }
        };
        for (a, b) in want.as_array().unwrap().iter().zip(got.as_array().unwrap()) {
            rec.validated += 4;
            if a["actions"] != b["actions"] {
                rec.fail(
                    format!("{case} {} actions", a["document"]),
                    format!("{}: code actions: expected {}, got {}", a["document"], a["actions"], b["actions"]),
                );
            } else if a != b {
                rec.fail(format!("{case} {}", a["document"]), format!("{}: {}", a["document"], difference(a, b)));
            }
        }
        if s.wedged {
            rec.fail(format!("{case} wedged"), "a request was not answered");
        }
        rec.outcome(&want.to_string().replace(w.dir.to_str().unwrap(), ""));
        if st.key() != State::start(configured).key() {
            rec.nontrivial += 1;
        }
        std::env::set_current_dir(before.unwrap_or("/".into())).unwrap();
        clean(&w.dir);
    }
}
