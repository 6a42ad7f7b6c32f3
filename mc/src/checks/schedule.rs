//! C03: whatever the order in which the tasks of the server run, and however slow the client
//! reads, every request is answered as if the messages had been handled one by one.
use super::meaning::{BACKEND, OTHER};
use super::observe::*;
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::Session;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

pub struct Schedules;

/// One execution's choices: how many tasks could run at each step, and which did.
#[derive(Default)]
pub struct Trace {
    pub widths: Vec<usize>,
    pub diverged: bool,
}

/// Runs `f` with the given departures from the default schedule.
pub fn scheduled<R>(deviations: &[(usize, usize)], f: impl FnOnce() -> R) -> (R, Trace) {
    let trace = Rc::new(RefCell::new(Trace::default()));
    let t = trace.clone();
    let devs: Vec<(usize, usize)> = deviations.to_vec();
    tokio::mc::set_chooser(Some(Box::new(move |n| {
        let mut t = t.borrow_mut();
        let step = t.widths.len();
        t.widths.push(n);
        match devs.iter().find(|d| d.0 == step) {
            Some(d) if d.1 < n => d.1,
            Some(_) => {
                t.diverged = true;
                0
            }
            None => 0,
        }
    })));
    let r = f();
    tokio::mc::set_chooser(None);
    let trace = std::mem::take(&mut *trace.borrow_mut());
    (r, trace)
}

/// Every schedule with up to `bound` departures from the default; returns how many.
pub fn explore(
    bound: usize,
    limit: usize,
    run: &mut dyn FnMut(&[(usize, usize)]) -> (Trace, bool),
) -> (usize, usize, bool) {
    let mut stack = vec![vec![]];
    let (mut n, mut steps) = (0, 0);
    while let Some(devs) = stack.pop() {
        if n >= limit {
            return (n, steps, false);
        }
        let (t, go_on) = run(&devs);
        n += 1;
        steps += t.widths.len();
        if !go_on {
            return (n, steps, true);
        }
        // A wake-up left over from an earlier execution moved the step: what ran is a schedule
        // all the same, but nothing is built on it.
        if devs.len() == bound || t.diverged {
            continue;
        }
        let from = devs.last().map_or(0, |d: &(usize, usize)| d.0 + 1);
        for i in (from..t.widths.len()).rev() {
            for alt in (1..t.widths[i]).rev() {
                let mut d = devs.clone();
                d.push((i, alt));
                stack.push(d);
            }
        }
    }
    (n, steps, true)
}

const OPS: [&str; 12] = [
    "open t", "change t", "symbols t", "complete t", "save t", "change u", "symbols u", "reset", "close t", "hover t",
    "goto u", "config",
];

const T: &str = "{% set a = 1 %}{{ a }}{{ u }}";
const U: &str = "{{ b }}{% block k %}{{ v }}{% endblock %}";

fn uris(w: &World) -> (String, String) {
    (w.uri("templates/t.html"), w.uri("templates/u.html"))
}

/// A message of a program; the text of a change depends on its place in it.
fn message(w: &World, op: &str, k: usize) -> (&'static str, Value, bool) {
    let (t, u) = uris(w);
    let at = |uri: &str, c: usize| Session::at(uri, 0, c);
    let ins = |uri: &str, text: String| {
        json!({"textDocument": {"uri": uri, "version": k}, "contentChanges": [
            {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "text": text}]})
    };
    match op {
        "open t" => (
            "textDocument/didOpen",
            json!({"textDocument": {"uri": t, "languageId": "x", "version": k, "text": T}}),
            false,
        ),
        "change t" => ("textDocument/didChange", ins(&t, format!("{{{{ c{k} }}}}")), false),
        "change u" => ("textDocument/didChange", ins(&u, format!("{{% set s{k} = 1 %}}")), false),
        "symbols t" => ("textDocument/documentSymbol", json!({"textDocument": {"uri": t}}), true),
        "symbols u" => ("textDocument/documentSymbol", json!({"textDocument": {"uri": u}}), true),
        "complete t" => {
            let mut p = at(&t, 18);
            p["context"] = json!({"triggerKind": 1});
            ("textDocument/completion", p, true)
        }
        "hover t" => ("textDocument/hover", at(&t, 18), true),
        "goto u" => ("textDocument/definition", at(&u, 3), true),
        "save t" => ("textDocument/didSave", json!({"textDocument": {"uri": t}}), false),
        "close t" => ("textDocument/didClose", json!({"textDocument": {"uri": t}}), false),
        "reset" => ("workspace/executeCommand", json!({"command": "reset_variables", "arguments": []}), true),
        "config" => (
            "workspace/didChangeConfiguration",
            json!({"settings": {"templates": w.path("templates").to_str().unwrap(),
                "backend": [w.path("src").to_str().unwrap()], "lang": "rust"}}),
            false,
        ),
        _ => unreachable!(),
    }
}

fn prepare(w: &mut World) {
    if !w.ready {
        w.write("templates/other.html", OTHER);
        w.write("src/main.rs", BACKEND);
        w.ready = true;
    }
}

fn new(w: &World, pipe: usize) -> Session {
    let mut s = Session::piped(pipe);
    s.request("initialize", json!({"capabilities": {}, "initializationOptions": w.options("rust")}));
    s.notify("initialized", json!({}));
    s.settle(10);
    s
}

/// Both documents as the server sees them, and nothing left behind.
fn end(w: &World, s: &mut Session) -> Value {
    let (t, u) = uris(w);
    s.settle(3000);
    let mut out = vec![];
    for uri in [&t, &u] {
        let d = s.inbox.diags.get(uri).map(|d| norm_diags(d));
        out.push(json!([d, norm_symbols(&s.symbols(uri))]));
    }
    s.settle(1);
    Value::from(out)
}

fn start_state(w: &World, s: &mut Session) {
    let (t, u) = uris(w);
    s.close(&t);
    s.open(&u, U);
    s.settle(500);
    s.inbox = Default::default();
}

fn norm_answer(v: &Value) -> Value {
    match v {
        Value::Array(a) if a.first().is_some_and(|x| x.get("label").is_some()) => norm_items(v),
        v => v.clone(),
    }
}

impl Check for Schedules {
    fn id(&self) -> &'static str {
        "C03"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        let n = OPS.len();
        let prog = |p: &[usize]| p.iter().map(|k| OPS[*k]).collect::<Vec<_>>();
        // Long bursts against the channels, a client that reads late, and small pipes.
        let sizes: Vec<usize> = if th { (1..=130).collect() } else { vec![1, 3, 19, 20, 21, 49, 50, 51, 52, 75, 101, 130] };
        for &size in &sizes {
            for op in ["change t", "save t", "symbols t", "open t", "close t"] {
                for (pipe, slow) in [(1 << 22, 0), (128, 0), (128, 500), (4096, 2000)] {
                    f(json!({"flood": op, "n": size, "pipe": pipe, "slow": slow}));
                }
            }
        }
        for size in if th { (1..=60).collect::<Vec<usize>>() } else { vec![1, 2, 10, 51, 60] } {
            for op in ["reset", "config"] {
                for (pipe, slow) in [(1 << 22, 0), (128, 500)] {
                    f(json!({"flood": op, "n": size, "pipe": pipe, "slow": slow}));
                }
            }
        }
        // A code action is asked for as soon as the diagnostic is there that it belongs to.
        for how in ["open", "save", "change", "close", "reset", "start"] {
            for n in [1, 2, 40] {
                for pipe in [1 << 22, 128] {
                    let bound = if n == 40 { 0 } else { 1 + th as usize };
                    f(json!({"seen": how, "n": n, "bound": bound, "pipe": pipe}));
                }
            }
        }
        // Short programs under every schedule.
        let mut programs: Vec<Vec<usize>> = vec![vec![0]];
        for a in 0..n {
            programs.push(vec![0, a]);
        }
        for a in 0..n {
            for b in 0..n {
                programs.push(vec![0, a, b]);
            }
        }
        for p in &programs {
            f(json!({"p": prog(p), "bound": if th { 3 } else { 2 }, "pipe": 1 << 22, "slow": 0, "budget": 128}));
        }
        for p in &programs {
            f(json!({"p": prog(p), "bound": if th { 2 } else { 1 }, "pipe": 64, "slow": 300, "budget": 128}));
            f(json!({"p": prog(p), "bound": 1, "pipe": 1 << 22, "slow": 0, "budget": 1}));
            f(json!({"p": prog(p), "bound": 1, "pipe": 64, "slow": 0, "budget": 3}));
        }
        for a in 0..n {
            for b in 0..n {
                for c in 0..n {
                    if a < 7 || th {
                        f(json!({"p": prog(&[0, a, b, c]), "bound": 1, "pipe": 1 << 22, "slow": 0, "budget": 128}));
                    }
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        let th = tier == Tier::Thorough;
        format!(
            "every program of <=3 (4: one departure) of {} messages sent at once, under every schedule of the server's \
             tasks with <= {} departures from the default order (<=1 for a slow client with a pipe of 64 bytes, and for \
             cooperative budgets of 1 and 3); code actions asked for as soon as the diagnostics they belong to are read, for 1, 2 and 40 documents; bursts of up to 130 equal messages against the channels with pipes of 128 \
             bytes to 4 MiB and a client that reads at once, after 0.5 s or after 2 s. Oracle: every request is answered once, as when \
             the messages are sent one by one; afterwards diagnostics and symbols are the same. Non-trivial: \
             a schedule with at least one departure.",
            OPS.len(), if th { 3 } else { 2 }
        )
    }

    fn assumptions(&self) -> Vec<String> {
        vec!["tasks switch only at await points: the server runs on one thread here, and its tasks share no memory, only channels".into()]
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        if let Some(how) = case["seen"].as_str() {
            return seen(w, case, how, rec);
        }
        prepare(w);
        let pipe = case["pipe"].as_u64().unwrap() as usize;
        let slow = case["slow"].as_u64().unwrap();
        let mut msgs = vec![];
        if let Some(op) = case["flood"].as_str() {
            msgs.push(message(w, "open t", 0));
            for k in 0..case["n"].as_u64().unwrap() as usize {
                msgs.push(message(w, op, k));
            }
            if op != "close t" {
                msgs.push(message(w, "symbols t", 0));
            }
            msgs.push(message(w, "symbols u", 0));
        } else {
            for (k, op) in case["p"].as_array().unwrap().iter().enumerate() {
                msgs.push(message(w, op.as_str().unwrap(), k));
            }
        }
        // One by one. Reading the workspace again takes a turn of its own in the queue, so a
        // request sent right behind it may be answered before it: both answers are right.
        let mut s = match w.session.take() {
            Some(s) => s,
            None => new(w, 1 << 22),
        };
        let rescans = |m: &str| m.ends_with("executeCommand") || m.ends_with("didChangeConfiguration");
        let mut want = vec![];
        let mut want_end = Value::Null;
        for late in [false, true] {
            if late && !msgs.iter().any(|m| rescans(m.0)) {
                break;
            }
            start_state(w, &mut s);
            let mut at_once = vec![];
            for (m, p, request) in &msgs {
                if late && rescans(m) {
                    if *request {
                        at_once.push(Value::Null);
                    }
                } else if *request {
                    at_once.push(norm_answer(&s.request(m, p.clone())));
                } else {
                    s.notify(m, p.clone());
                }
                s.settle(1);
            }
            if !late {
                want_end = end(w, &mut s);
            }
            want.push(at_once);
        }
        if s.wedged {
            rec.fail(format!("one by one {case}"), "a request was not answered when the messages came one by one");
            return;
        }
        s.inbox = Default::default();
        w.session = Some(s);
        let first = w.history.pop();
        w.history.clear();
        w.history.extend(first);
        // All at once, under every schedule.
        tokio::mc::set_budget(case["budget"].as_u64().unwrap_or(128) as u8);
        let bound = case["bound"].as_u64().unwrap_or(0) as usize;
        let mut s = None;
        let (n, steps, all) = explore(bound, 200_000, &mut |devs| {
            let mut session = s.take().unwrap_or_else(|| new(w, pipe));
            start_state(w, &mut session);
            let (ids, trace) = scheduled(devs, || session.burst(&msgs, slow));
            let mut fine = true;
            let key = format!("schedule {devs:?} of {case}");
            if session.wedged {
                let none = ids.iter().filter(|i| !session.inbox.responses.contains_key(i)).count();
                rec.fail(key, format!("{none} of {} requests were never answered (schedule {devs:?})", ids.len()));
                return (trace, false);
            }
            let mut got = vec![];
            for id in &ids {
                let r = &session.inbox.responses[id];
                if r.len() != 1 {
                    rec.fail(key.clone(), format!("a request was answered {} times", r.len()));
                    fine = false;
                }
                got.push(norm_answer(&r[0]["result"]));
            }
            rec.validated += 1;
            rec.outcome(&format!("{got:?}"));
            let right = |k: usize| want.iter().any(|w| w[k] == got[k]);
            if !(0..got.len()).all(right) {
                rec.fail(key.clone(), format!(
                    "answers under schedule {devs:?}: expected {}, got {}", Value::from(want[0].clone()), Value::from(got)));
                fine = false;
            }
            let got_end = end(w, &mut session);
            rec.outcome(&got_end.to_string());
            if got_end != want_end {
                rec.fail(key, format!("afterwards, under schedule {devs:?}: expected {want_end}, got {got_end}"));
                fine = false;
            }
            rec.state(&(case.to_string(), devs));
            if trace.diverged {
                rec.count("departures that did not apply", 1);
            }
            if !devs.is_empty() {
                rec.nontrivial += 1;
            }
            if !session.wedged {
                s = Some(session);
            }
            (trace, fine)
        });
        tokio::mc::set_budget(128);
        rec.transitions += steps as u64;
        rec.count("schedules", n as u64);
        if !all {
            rec.count("programs cut at 200000 schedules", 1);
        }
    }
}

/// What is published can be acted on at once: documents with missing templates, and for each
/// diagnostic, as soon as it is read, the code action is asked for.
fn seen(w: &mut World, case: &Value, how: &str, rec: &mut Rec) {
    let n = case["n"].as_u64().unwrap() as usize;
    let pipe = case["pipe"].as_u64().unwrap() as usize;
    let root = format!("seen{n}");
    let text = |k: usize| format!("é{{% include 'no{k}.html' %}}\n{{{{ a }}}}{{% extends 'x/no{k}.html' %}}");
    let files: Vec<String> = (0..n).map(|k| format!("{root}/t{k}.html")).collect();
    for (k, file) in files.iter().enumerate() {
        w.write(file, &text(k));
    }
    let options = json!({"templates": w.path(&root).to_str().unwrap(), "backend": [w.path("seen").to_str().unwrap()], "lang": "rust"});
    w.write("seen/main.rs", "");
    let uris: Vec<String> = files.iter().map(|f| w.uri(f)).collect();
    let (runs, steps, _) = explore(case["bound"].as_u64().unwrap() as usize, 5_000, &mut |devs| {
        let mut s = Session::piped(pipe);
        s.request("initialize", json!({"capabilities": {}, "initializationOptions": options}));
        if how != "start" {
            s.notify("initialized", json!({}));
            s.settle(10);
        }
        let (save, change, close) = (how == "save", how == "change", how == "close");
        if save || change || close {
            for (k, uri) in uris.iter().enumerate() {
                let first = if save { String::new() } else { text(k) };
                s.open(uri, &first);
                s.settle(300);
                if save {
                    s.change(uri, json!([{"text": text(k)}]));
                } else if close {
                    s.change(uri, json!([{"text": ""}]));
                    s.settle(300);
                }
            }
        }
        s.inbox = Default::default();
        let mut bad = vec![];
        let ((), trace) = scheduled(devs, || {
            match how {
                "start" => s.notify("initialized", json!({})),
                "reset" => {
                    s.command("reset_variables");
                }
                _ => {
                    for (k, uri) in uris.iter().enumerate() {
                        match how {
                            "open" => s.open(uri, &text(k)),
                            "save" => s.save(uri),
                            "close" => s.close(uri),
                            _ => s.change(uri, json!([{"text": format!("{}{}", "\n".repeat(k + 1), text(k))}])),
                        }
                    }
                }
            }
            let mut left = uris.clone();
            let mut from = 0;
            while !left.is_empty() {
                let Some((uri, diags)) = s.see(&mut from) else {
                    bad.push(format!("nothing is published for {left:?}"));
                    break;
                };
                if !left.contains(&uri) {
                    continue;
                }
                left.retain(|u| *u != uri);
                for d in diags.iter().filter(|d| d["message"] == "Template not found") {
                    let at = &d["range"]["start"];
                    let place = |k: &str| at[k].as_u64().unwrap() as usize;
                    let got = s.action(&uri, place("line"), place("character") + 1);
                    rec.validated += 1;
                    rec.outcome(&(got.to_string().len()));
                    if !got.as_array().is_some_and(|a| a.iter().any(|a| a["edit"].is_object())) {
                        bad.push(format!("no action to create the template of {d} in {uri}: {got}"));
                    }
                }
                if diags.iter().filter(|d| d["message"] == "Template not found").count() != 2 {
                    bad.push(format!("two missing templates in {uri}, but {}", Value::from(diags)));
                }
            }
        });
        rec.state(&(case.to_string(), devs));
        rec.nontrivial += 1;
        if !bad.is_empty() {
            rec.fail(format!("seen {case} {devs:?}"), format!("as soon as diagnostics are published, schedule {devs:?}: {}", bad.join("; ")));
        }
        (trace, bad.is_empty())
    });
    rec.transitions += steps as u64;
    rec.count("schedules", runs as u64);
}
