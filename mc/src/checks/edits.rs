//! C01: what the server says about a document depends on its text, not on how it came about.
use super::meaning::core;
use super::observe::*;
use super::space::*;
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};
use std::collections::HashMap;

pub struct Edits;

/// Short documents with every kind of token, line break and character width.
pub const BASES: [&str; 14] = [
    "{{ a }}",
    "{% set a = 1 %}{{ a }}",
    "{% if a %}{{ b }}{% endif %}",
    "é{% set a=1 %}\n{{ a }}",
    "😀{{ d }}\r\n{{ b }}😀",
    "{% for a in b %}\n{{ a }}\n{% endfor %}",
    "<p>{# a #}</p>\n",
    "{% block a %}{% endblock %}",
    "{% include 'x' %}",
    "{{ a|upper }}{{ d.x }}",
    "{% macro a(b) %}{{ b }}",
    "\r\né\n{{ a }}\n",
    "{% with a=1 %}{% set b %}😀{% endset %}",
    "",
];
pub const INSERTS: [&str; 10] = ["", "a", "{{ a }}", "{%", "%}", "\n", "é", "😀", "'", "{% set b=1 %}\r\n"];

const RUST: [&str; 3] = [
    "fn f() {\n context! { b => 1, a };\n}\n",
    "fn é() { jinja.add_global(\"a\", 1); }",
    "fn f() { let t = env.get_template(\"x.html\"); }\n",
];
const RUST_INS: [&str; 8] = ["", "c", "{", "}", "\"", "\n", "é😀", " => "];
const PYTHON: [&str; 2] = [
    "def f():\n    return render_template('x', a=1)\n",
    "jinja_env.globals['a'] = 1\nget_template(\"é.html\")\n",
];
const PY_INS: [&str; 8] = ["", "c", "(", "'", ", d=2", "\n", "é😀", "]"];

fn kind_of(case: &Value) -> &str {
    case["k"].as_str().unwrap_or("t")
}

fn single(t: &str, ins: &[&str], reach: usize, f: &mut dyn FnMut(usize, usize, &str)) {
    let b = boundaries(t);
    for (i, &x) in b.iter().enumerate() {
        for (j, &y) in b.iter().enumerate().skip(i) {
            if j - i > reach && j + 1 != b.len() {
                continue;
            }
            for s in ins {
                if x != y || !s.is_empty() {
                    f(x, y, s);
                }
            }
        }
    }
}

fn menu(t: &str, few: bool) -> Vec<(usize, usize, &'static str)> {
    let j = joints(t);
    let mut v = vec![];
    for w in j.windows(2) {
        v.push((w[0], w[1], ""));
    }
    let ins: &[&'static str] = if few { &["a", "%}", "é\n"] } else { &["a", "{{ ", "%}", "é\n", "{% set a=1 %}"] };
    for &x in &j {
        for s in ins {
            v.push((x, x, *s));
        }
    }
    v
}

fn edit(t: &str, e: (usize, usize, &str)) -> String {
    format!("{}{}{}", &t[..e.0], e.2, &t[e.1..])
}

impl Check for Edits {
    fn id(&self) -> &'static str {
        "C01"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        // 1. one edit: every range and insertion
        for b in BASES {
            single(b, &INSERTS, if th { 99 } else { 3 }, &mut |x, y, s| f(json!({"t": b, "e": [[x, y, s]]})));
        }
        for b in RUST {
            single(b, &RUST_INS, if th { 99 } else { 1 }, &mut |x, y, s| f(json!({"k": "rs", "t": b, "e": [[x, y, s]]})));
        }
        for b in PYTHON {
            single(b, &PY_INS, if th { 99 } else { 1 }, &mut |x, y, s| f(json!({"k": "py", "t": b, "e": [[x, y, s]]})));
        }
        // 2. positions behind the end of a line or of the document stand for the end
        for b in BASES {
            for (x, y, s) in menu(b, false) {
                f(json!({"t": b, "e": [[x, y, s]], "over": true}));
            }
        }
        // 3. two edits, sent together or one by one or with a pause
        for b in BASES {
            for e in menu(b, !th) {
                let t1 = edit(b, e);
                for e2 in menu(&t1, !th) {
                    f(json!({"t": b, "e": [e, e2], "ways": if th { 3 } else { 2 }}));
                }
            }
        }
        // 4. three edits on the shortest documents
        for b in &BASES[..if th { 3 } else { 1 }] {
            for e in menu(b, true) {
                let t1 = edit(b, e);
                for e2 in menu(&t1, true) {
                    let t2 = edit(&t1, e2);
                    for e3 in menu(&t2, true) {
                        f(json!({"t": b, "e": [e, e2, e3], "how": "each"}));
                    }
                }
            }
        }
        // 5. a template typed, or deleted, character by character
        let mut typed = vec![];
        sequences(&[], &core(), 2, &mut |s| typed.push(s.to_vec()));
        for s in &typed {
            for style in if th { vec![0, 1, 2, 4] } else { vec![0] } {
                let d = build(s, style, if th { 2 } else { 0 }, 0);
                f(json!({"t": "", "type": d.text}));
                f(json!({"t": d.text, "erase": true}));
            }
        }
        for b in BASES {
            for m in joints(b) {
                f(json!({"t": b, "type": "{% set d = a %}é{{ d.x }}\n", "at": m}));
                f(json!({"t": b, "type": "{% set d = a %}é{{ d.x }}\n", "at": m, "how": "batch"}));
            }
        }
        // Many changes in one notification: everything typed or erased at once, the same text put
        // in or something taken away at many places, from either end.
        for s in &typed {
            let d = build(s, 0, 1, 0);
            f(json!({"t": "", "type": d.text, "how": "batch"}));
            f(json!({"t": d.text, "erase": true, "how": "batch"}));
        }
        let many = |t: &str, all: &str| json!({"t": t, "type": all.repeat(60), "how": "batch"});
        f(many("", "{{ a }}é\n{% set a=b %}"));
        f(many("{% set a=1 %}", "{{ a }}😀"));
        for b in BASES {
            let j = joints(b);
            for ins in ["a", "é\n", "{{ b }}", " "] {
                let mut es: Vec<Value> = j.iter().rev().map(|&x| json!([x, x, ins])).collect();
                f(json!({"t": b, "e": es, "ways": 2}));
                es = j.iter().enumerate().map(|(i, x)| (x + i * ins.len(), ins)).map(|(x, s)| json!([x, x, s])).collect();
                f(json!({"t": b, "e": es, "ways": 2}));
            }
            for odd in [0, 1] {
                let es: Vec<Value> = j.windows(2).rev().skip(odd).step_by(2).map(|w| json!([w[0], w[1], ""])).collect();
                f(json!({"t": b, "e": es, "ways": 2}));
            }
        }
        // 6. replacing the whole text, alone and among other edits
        let whole = [Value::Null, json!("{{ a }}"), json!("é{% set a=1 %}\n{{ a }}")];
        for b in BASES {
            for x in &whole {
                for y in &whole {
                    let mut es = vec![];
                    for (v, ins) in [(x, "a"), (y, "{{ b }}")] {
                        es.push(match v {
                            Value::Null => json!([0, 0, ins]),
                            v => json!([v]),
                        });
                    }
                    f(json!({"t": b, "e": es, "ways": 2}));
                    es.reverse();
                    f(json!({"t": b, "e": es, "ways": 2}));
                }
            }
        }
        // 7. opened before, with another text
        for a in BASES {
            for b in BASES {
                for how in ["reopen", "close"] {
                    f(json!({"t": b, "before": a, "how": how, "e": []}));
                    f(json!({"t": b, "before": a, "how": how, "e": [[0, 0, "{{ a }}\n"]]}));
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        let th = tier == Tier::Thorough;
        format!(
            "{} templates, {} Rust and {} Python sources; one edit of every range (up to {} characters, or to the end) \
             and {} insertions; every pair (and, on the shortest, triple) of edits between tokens, sent in one \
             notification or several; every template of <=2 constructs typed and erased character by character, in many notifications and in one (up to 1300 changes), edits at all joints of a document at once; \
             full-text changes among others; every pair of successive texts of a reopened document. Every \
             reached text is compared with the same text opened in another session: diagnostics, symbols, and the \
             answers at up to 10 places where tokens meet. Non-trivial: the text was edited.",
            BASES.len(), RUST.len(), PYTHON.len(), if th { 99 } else { 3 }, INSERTS.len()
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let ways = case["ways"].as_u64().unwrap_or(0) as usize;
        if ways == 0 {
            return self.one(w, case, case["how"].as_str().unwrap_or("each"), rec);
        }
        for how in &["each", "batch", "pause"][..ways] {
            self.one(w, case, how, rec);
        }
    }
}

impl Edits {
    fn one(&self, w: &mut World, case: &Value, how: &str, rec: &mut Rec) {
        let k = kind_of(case);
        let (lang, name) = match k {
            "rs" => ("rust", "src/t.rs"),
            "py" => ("python", "src/t.py"),
            _ => ("rust", "templates/t.html"),
        };
        let uri = w.uri(name);
        let mut pair = Pair::take(w, lang);
        let s = &mut pair.a;
        if let Some(b) = case["before"].as_str() {
            s.open(&uri, b);
            if how == "close" {
                s.close(&uri);
            }
        }
        let mut text = case["t"].as_str().unwrap().to_string();
        s.open(&uri, &text);
        rec.transitions += 1;
        let mut steps: Vec<(Option<(usize, usize)>, String)> = vec![];
        if let Some(t) = case["type"].as_str() {
            let mut at = case["at"].as_u64().unwrap_or(0) as usize;
            for c in t.chars() {
                steps.push((Some((at, at)), c.to_string()));
                at += c.len_utf8();
            }
        } else if case["erase"] == true {
            let b = boundaries(&text);
            for x in b.windows(2).rev() {
                steps.push((Some((x[0], x[1])), String::new()));
            }
        } else {
            for e in case["e"].as_array().unwrap() {
                match e[0].as_str() {
                    Some(t) => steps.push((None, t.to_string())),
                    None => steps.push((
                        Some((e[0].as_u64().unwrap() as usize, e[1].as_u64().unwrap() as usize)),
                        e[2].as_str().unwrap().to_string(),
                    )),
                }
            }
        }
        if !steps.is_empty() {
            rec.nontrivial += 1;
        }
        let watch = case["type"].is_string() || case["erase"] == true;
        let mut batch = vec![];
        for (i, (r, ins)) in steps.iter().enumerate() {
            let change = match r {
                None => {
                    text = ins.clone();
                    json!({"text": ins})
                }
                Some((x, y)) => {
                    let mut range = range_of(&text, *x, *y);
                    if case["over"] == true {
                        for (k, at) in [("start", *x), ("end", *y)] {
                            if at == text.len() {
                                range[k] = json!({"line": 1000, "character": 3});
                            } else if text[at..].starts_with(['\r', '\n']) && !text[..at].ends_with('\r') {
                                range[k]["character"] = json!(1000);
                            }
                        }
                    }
                    text = edit(&text, (*x, *y, ins));
                    json!({"range": range, "text": ins})
                }
            };
            rec.transitions += 1;
            if how == "batch" {
                batch.push(change);
                continue;
            }
            s.change(&uri, json!([change]));
            if how == "pause" {
                s.settle(250);
            }
            if watch && i + 1 != steps.len() && i % 2 == 0 {
                s.settle(300);
                let got = json!([norm_diags(s.inbox.diags.get(&uri).map_or(&[], |v| v)), norm_symbols(&s.symbols(&uri))]);
                let want = reference(&mut pair.b, &mut pair.memo, &uri, &text, 0);
                let want = json!([want["diagnostics"], want["symbols"]]);
                rec.state(&text);
                rec.eq(format!("typing {case} {text:?}"), &format!("at {text:?}"), &want, &got);
            }
        }
        if !batch.is_empty() {
            s.change(&uri, Value::from(batch));
        }
        let step = if steps.len() == 1 { 10 } else { 4 };
        let got = observe(s, &uri, &text, step);
        let want = reference(&mut pair.b, &mut pair.memo, &uri, &text, step);
        rec.state(&text);
        rec.outcome(&got.to_string());
        rec.validated += 1;
        if want != got {
            rec.fail(format!("history {how} {case}"), format!("the text is {text:?} now, but {}", difference(&want, &got)));
        }
        s.close(&uri);
        pair.give_back(w, lang);
    }
}

/// Two sessions over the same workspace, and what the second said about texts.
pub struct Pair {
    pub a: Session,
    pub b: Session,
    pub memo: HashMap<(String, usize), Value>,
    uses: u32,
}

thread_local! {
    static PAIRS: std::cell::RefCell<HashMap<String, Pair>> = Default::default();
}

impl Pair {
    pub fn take(w: &mut World, lang: &str) -> Pair {
        if !w.ready {
            PAIRS.with(|p| p.borrow_mut().clear());
            w.write("templates/other.html", super::meaning::OTHER);
            w.write(if lang == "python" { "src/main.py" } else { "src/main.rs" }, "");
            w.write("src/main.rs", super::meaning::BACKEND);
            w.write("src/main.py", "render(b=1)\n");
            w.ready = true;
        }
        if let Some(p) = PAIRS.with(|p| p.borrow_mut().remove(lang)) {
            if p.uses < 200 && !p.a.wedged && !p.b.wedged {
                return p;
            }
            // Histories only matter while the first session lives.
            let last = w.history.pop();
            w.history.clear();
            w.history.extend(last);
        }
        let new = |w: &World| Session::new(Opts { options: w.options(lang), client: None, initialized: true });
        Pair { a: new(w), b: new(w), memo: HashMap::new(), uses: 0 }
    }
    pub fn give_back(mut self, _: &World, lang: &str) {
        self.uses += 1;
        for s in [&mut self.a, &mut self.b] {
            s.inbox.published.clear();
            s.inbox.responses.clear();
        }
        PAIRS.with(|p| p.borrow_mut().insert(lang.to_string(), self));
    }
}

/// What a session says that was given this text at once.
pub fn reference(s: &mut Session, memo: &mut HashMap<(String, usize), Value>, uri: &str, text: &str, step: usize) -> Value {
    let k = (text.to_string(), step);
    if let Some(v) = memo.get(&k) {
        return v.clone();
    }
    s.open(uri, text);
    let v = observe(s, uri, text, step);
    s.close(uri);
    if memo.len() > 3000 {
        memo.clear();
    }
    memo.insert(k, v.clone());
    v
}
