//! C12: a template name is reported exactly when there is no such file. C13: what a template
//! name and an expression lead to: definition, code actions, and what follows from them.
use super::observe::boundaries;
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Dim {
    Missing,
    Leads,
}

pub struct Imports(pub Dim);

/// Q is a template name, L a string that is none.
const TEMPLATE: [&str; 26] = [
    "{% extends Q %}", "{% include Q %}", "{% import Q as m %}", "{% from Q import m %}", "{%- include Q -%}",
    "{%\ninclude\n\tQ\n%}", "{% include Q with context %}", "{% from Q import m, n %}",
    "{% from Q import m as n, o with context %}", "{% import Q as m without context %}", "{% include [Q, Q] %}",
    "{% block z %}{% include Q %}{% endblock %}", "{{ L }}", "{# {% include L %} #}", "L", "{% set z = L %}",
    "{% if true == L %}{% include Q %}{% endif %}", "{% include (Q) %}", "{% include [(Q), Q,] ignore missing %}",
    "{% include Q if 1 else Q %}", "{% include L ~ '.x' %}", "{% extends 'y/' + L %}", "{% from L|default(L) import m %}",
    "{% import L.format(1) as m %}", "{% include [L ~ '.x', Q, L|lower, m(L), m[(L)]] %}", "{% include ( L % 1 ) with context %}",
];
const RUST: [&str; 18] = [
    "jinja.get_template(Q);", "render_jinja(Q)", "self.env.get_template(Q).unwrap()", "a.b().render_jinja(Q, 1)",
    "render_jinja(state, Q)", "let x = (render_jinja(Q), get_template(Q));", "render_jinja(Q, get_template(Q))",
    "if let Ok(t) = env\n.get_template(\n\tQ\n) {}", "render(L)", "let s = L;", "// get_template(L)",
    "get_templates(L)", "get_template(name)", "/* render_jinja(L) */",
    "get_template(&format!(L))", "get_template(concat!(L, \"x\"))", "get_template(&names[L])", "render_jinja(f(L), g(L)(L))",
];
const PYTHON: [&str; 20] = [
    "t = env.get_template(Q)", "get_template(Q)", "x = render_jinja(Q, a=1)", "x = [env.get_template(Q), get_template(Q)]",
    "x = jinja.get_template(Q).render(a=1)", "def f():\n    return render_jinja(\n        Q,\n    )", "x = render_jinja(req, Q)",
    "class A:\n    def g(self):\n        self.t = self.env.get_template(Q)",
    "x = L", "# get_template(L)", "f(L)", "get_templates(L)", "get_template(name)",
    "env.get_template(rQ)", "x = [get_template(uQ), render_jinja(RQ)]", "get_template(f'no{a}.html')", "get_template(L % 1)",
    "get_template(L + '.x')", "get_template(L.format(1))", "get_template(a[L], f(L))",
];

fn kinds(lang: &str) -> &'static [&'static str] {
    match lang {
        "html" => &TEMPLATE,
        "rs" => &RUST,
        _ => &PYTHON,
    }
}

const FILES: [&str; 14] = [
    "a.html", "sub/b.j2", "sub/deep/c.html", "é x.jinja", "it's.html", "sub/😀.html", "100%.html", "q \"x\".html",
    "a#b.html", "c?d.html", "e%20f.html", "x {y}/z z.html", "x{#y.html", "{{z}}.html",
];
const NAMES: [&str; 25] = [
    "a.html", "missing.html", "sub/b.j2", "sub/missing.html", "é x.jinja", "sub/deep/c.html", "it's.html", "",
    "sub", "A.html", "a.htm", "b.j2", "sub/😀.html", "100%.html",
    "q \"x\".html", "a#b.html", "c?d.html", "e%20f.html", "x {y}/z z.html", "x{#y.html", "{{z}}.html", "its.html", "a%23b.html",
    "e f.html", "a\"b.html",
];

struct Name {
    name: String,
    start: usize,
    end: usize,
}

struct Source {
    text: String,
    names: Vec<Name>,
}

const GAPS: [&str; 3] = ["", "é😀 ", "\r\n"];

fn source(lang: &str, items: &[(usize, &str, &str)], gap: &str) -> Source {
    let mut s = Source { text: String::new(), names: vec![] };
    let comment = |text: &mut String| match lang {
        "html" => text.push_str(gap),
        "rs" if !gap.is_empty() => {
            text.push_str("/*");
            text.push_str(gap);
            text.push_str("*/");
        }
        "py" if !gap.trim().is_empty() => {
            text.push_str("'''");
            text.push_str(gap);
            text.push_str("'''\n");
        }
        _ => text.push_str(if gap.is_empty() { "" } else { "\n" }),
    };
    comment(&mut s.text);
    for (i, (kind, name, quote)) in items.iter().enumerate() {
        if lang == "rs" {
            s.text.push_str(&format!("fn f{i}() {{ "));
        }
        for c in kinds(lang)[*kind].chars() {
            match c {
                'Q' => {
                    let start = s.text.len();
                    s.text.push_str(&format!("{quote}{name}{quote}"));
                    s.names.push(Name { name: name.to_string(), start, end: s.text.len() });
                }
                'L' => s.text.push_str(&format!("{quote}{name}{quote}")),
                c => s.text.push(c),
            }
        }
        if lang == "rs" {
            s.text.push_str("\n}\n");
        } else if lang == "py" {
            s.text.push('\n');
        }
        comment(&mut s.text);
    }
    s
}

fn of_names(d: &[Value]) -> Vec<Value> {
    norm_diags(d)
        .into_iter()
        .filter(|d| {
            !matches!(d["message"].as_str(), Some("Undefined variable" | "Variable is defined in other file."))
        })
        .collect()
}

impl Source {
    fn missing(&self, files: &BTreeSet<String>) -> Vec<Value> {
        sorted(
            self.names
                .iter()
                .filter(|n| !files.contains(&n.name))
                .map(|n| json!({"message": "Template not found", "severity": 2, "range": range_of(&self.text, n.start, n.end)}))
                .collect(),
        )
    }
}

fn uri_of(w: &World, lang: &str) -> String {
    w.uri(&match lang {
        "html" => "templates/t.html".to_string(),
        l => format!("src/t.{l}"),
    })
}

fn session(w: &mut World, lang: &str) -> Session {
    let backend = if lang == "py" { "python" } else { "rust" };
    if w.extra.get("lang") != Some(&json!(backend)) {
        w.session = None;
        w.uses = 0;
        let last = w.history.pop();
        w.history.clear();
        w.history.extend(last);
    }
    w.extra.insert("lang".into(), json!(backend));
    let files: Vec<(String, &str)> = FILES.iter().map(|f| (format!("templates/{f}"), "")).collect();
    let files: Vec<(&str, &str)> = files.iter().map(|f| (f.0.as_str(), f.1)).collect();
    w.with_session(&files, |w| Session::new(Opts { options: w.options(backend), client: None, initialized: true }))
}

impl Check for Imports {
    fn id(&self) -> &'static str {
        if self.0 == Dim::Missing {
            "C12"
        } else {
            "C13"
        }
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        let leads = self.0 == Dim::Leads;
        let quotes = |lang: &str, name: &str| -> Vec<&'static str> {
            if name.contains('"') {
                // Rust would need another way to write it.
                if lang == "rs" { vec![] } else { vec!["'"] }
            } else if lang == "rs" || name.contains('\'') {
                vec!["\""]
            } else {
                vec!["\"", "'"]
            }
        };
        for lang in ["html", "rs", "py"] {
            for kind in 0..kinds(lang).len() {
                for name in NAMES {
                    for quote in quotes(lang, name) {
                        for gap in GAPS {
                            f(json!({"lang": lang, "gap": gap, "items": [[kind, name, quote]]}));
                        }
                    }
                }
            }
            let few = if th { &NAMES[..] } else { &NAMES[..if leads { 2 } else { 5 }] };
            for k1 in 0..kinds(lang).len() {
                for k2 in 0..kinds(lang).len() {
                    for n1 in few {
                        for n2 in few {
                            let (Some(q1), Some(q2)) = (quotes(lang, n1).first().copied(), quotes(lang, n2).last().copied()) else {
                                continue;
                            };
                            f(json!({"lang": lang, "gap": GAPS[(k1 + k2) % 3], "items": [[k1, n1, q1], [k2, n2, q2]]}));
                        }
                    }
                    if th {
                        for k3 in 0..kinds(lang).len() {
                            for bits in 0..8 {
                                let n = |i: usize| few[bits >> i & 1]; // two names without quotes
                                f(json!({"lang": lang, "gap": "", "items": [[k1, n(0), "\""], [k2, n(1), "\""], [k3, n(2), "\""]]}));
                            }
                        }
                    }
                }
            }
        }
        // Histories of files and of the document.
        let ops = OPS.len();
        let depth = match (th, leads) {
            (true, _) => 6,
            (false, _) => 5,
        };
        for lang in ["html", "rs"] {
            let depth = if lang == "html" { depth } else { depth - 1 };
            for n in 1..=depth {
                let mut h = vec![0usize; n];
                'all: loop {
                    if sensible(&h) {
                        f(json!({"lang": lang, "hist": h.iter().map(|o| OPS[*o]).collect::<Vec<_>>()}));
                    }
                    for i in (0..n).rev() {
                        h[i] += 1;
                        if h[i] < ops {
                            continue 'all;
                        }
                        h[i] = 0;
                    }
                    break;
                }
            }
        }
        if leads {
            let all: Vec<usize> = (0..super::space::BASIC).collect();
            super::space::sequences(&[], &all, if th { 3 } else { 2 }, &mut |s| {
                for gap in 0..super::space::GAPS.len() {
                    f(json!({"ops": s.iter().map(|o| super::space::OPS[*o]).collect::<Vec<_>>(), "style": gap, "gap": gap}));
                }
            });
            for e in super::space::expressions(1) {
                f(json!({"e": e, "at": 0, "style": 0, "gap": 0}));
                f(json!({"e": e, "at": 1, "style": 2, "gap": 2}));
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        let th = tier == Tier::Thorough;
        let mut b = format!(
            "every import ({} ways in templates, {} in Rust, {} in Python, those included that only look like one) of each of {} \
             names (with {} of them on disk) in both quotes and {} kinds of surrounding text; every pair of imports (thorough: \
             triples) of some of these names; every history of <={} operations out of {:?} without a repetition that does nothing.",
            TEMPLATE.len(), RUST.len(), PYTHON.len(), NAMES.len(), FILES.len(), GAPS.len(), if th { 6 } else { 5 }, OPS
        );
        if self.0 == Dim::Leads {
            b += " At every position of such a document, definition and code actions are compared with what is on disk; each offered \
                  new template is created, and what is said of its name is looked at again after 1.5 s. At every position of every \
                  sequence of constructs and expression (bounds as in C10, smaller), commands are offered in expressions only.";
        }
        b + " Every case but those without a template name is non-trivial."
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        if case["hist"].is_array() {
            return self.history(w, case, rec);
        }
        if !case["items"].is_array() {
            return self.commands(w, case, rec);
        }
        let lang = case["lang"].as_str().unwrap();
        let items: Vec<(usize, &str, &str)> = case["items"]
            .as_array()
            .unwrap()
            .iter()
            .map(|i| (i[0].as_u64().unwrap() as usize, i[1].as_str().unwrap(), i[2].as_str().unwrap()))
            .collect();
        let src = source(lang, &items, case["gap"].as_str().unwrap());
        let mut files: BTreeSet<String> = FILES.iter().map(|f| f.to_string()).collect();
        let uri = uri_of(w, lang);
        let mut s = session(w, lang);
        rec.state(&src.text);
        if !src.names.is_empty() {
            rec.nontrivial += 1;
        }
        s.open(&uri, &src.text);
        s.settle(1);
        rec.transitions += 1;
        let key = format!("{} {:?}", self.id(), src.text);
        let check = |s: &mut Session, rec: &mut Rec, files: &BTreeSet<String>, when: &str| {
            let got = of_names(&s.inbox.diags.get(&uri).cloned().unwrap_or_default());
            let want = src.missing(files);
            rec.outcome(&(want.len(), lang));
            rec.eq(key.clone(), &format!("template names of {:?} {when}", src.text), &json!(want), &json!(got));
        };
        if self.0 == Dim::Missing {
            check(&mut s, rec, &files, "when opened");
        } else {
            self.positions(w, lang, &src, &uri, &mut s, &files, rec);
            // Create what is offered, and look again.
            if let Some(n) = src.names.iter().find(|n| !files.contains(&n.name) && ok_name(&n.name)) {
                let (l, c) = pos_of(&src.text, n.start + 1);
                let a = s.action(&uri, l, c);
                if let Some(p) = self.created(w, &a, rec, &key) {
                    std::fs::write(&p, "").unwrap();
                    files.insert(n.name.clone());
                    s.settle(1500);
                    check(&mut s, rec, &files, "1.5 s after the template was created");
                    let to = s.goto(&uri, l, c);
                    rec.eq(key.clone(), "definition of the created template", &json!(w.uri(&format!("templates/{}", n.name))), &to["uri"]);
                    std::fs::remove_file(&p).unwrap();
                }
            }
        }
        s.close(&uri);
        s.settle(1500);
        s.inbox = Default::default();
        w.give_back(s);
    }
}

/// A name a file can be created for.
fn ok_name(n: &str) -> bool {
    !n.is_empty() && n != "sub"
}

const OPS: [&str; 8] = ["mk a", "rm a", "dir a", "mk b", "save", "edit", "wait", "create"];

/// Leaves out histories with a step that changes nothing.
fn sensible(h: &[usize]) -> bool {
    let name = |o: usize| OPS[o];
    let mut a = 1; // 0 none, 1 file, 2 directory
    let mut b = false;
    let mut looks = 0;
    for (i, &o) in h.iter().enumerate() {
        match name(o) {
            "mk a" if a == 1 => return false,
            "mk a" => a = 1,
            "rm a" if a == 0 => return false,
            "rm a" => a = 0,
            "dir a" if a == 2 => return false,
            "dir a" => a = 2,
            "mk b" if b => return false,
            "mk b" => b = true,
            "wait" if i > 0 && name(h[i - 1]) == "wait" => return false,
            _ => looks += 1,
        }
    }
    // Something has to be looked at in the end.
    looks > 0 && matches!(name(*h.last().unwrap()), "save" | "edit" | "wait" | "create")
}

impl Imports {
    /// The file the offered action creates.
    fn created(&self, w: &World, a: &Value, rec: &mut Rec, key: &str) -> Option<std::path::PathBuf> {
        let uri = a[0]["edit"]["documentChanges"][0]["uri"].as_str().unwrap_or("").to_string();
        let path = tower_lsp::lsp_types::Url::parse(&uri).ok().and_then(|u| u.to_file_path().ok());
        match path {
            Some(p) if p.starts_with(w.dir.join("templates")) && !p.to_str().unwrap_or("..").contains("..") => {
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                Some(p)
            }
            _ => {
                rec.fail(key, format!("no file to create below the template directory in {a}"));
                None
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn positions(&self, w: &World, lang: &str, src: &Source, uri: &str, s: &mut Session, files: &BTreeSet<String>, rec: &mut Rec) {
        let root = w.uri("templates/");
        for at in boundaries(&src.text) {
            let (l, c) = pos_of(&src.text, at);
            let key = format!("C13 {:?} {at}", src.text);
            let what = |k: &str| format!("{k} at {l}:{c} in {:?}", src.text);
            let to = s.goto(uri, l, c);
            let actions = s.action(uri, l, c);
            rec.transitions += 2;
            let n = src.names.iter().find(|n| n.start <= at && at <= n.end);
            match n {
                Some(n) if n.start < at && at < n.end => {
                    let file = w.uri(&format!("templates/{}", n.name));
                    if files.contains(&n.name) {
                        let zero = json!({"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}});
                        rec.eq(key.clone(), &what("definition"), &json!({"uri": file, "range": zero}), &to);
                        rec.eq(key, &what("code actions"), &Value::Null, &actions);
                    } else {
                        if !(to.is_null() || to == json!([])) {
                            rec.fail(key.clone(), format!("{}: expected nothing, got {to}", what("definition")));
                        }
                        if n.name.is_empty() {
                            rec.eq(key, &what("code actions"), &Value::Null, &actions);
                        } else if ok_name(&n.name) {
                            let got: Vec<Value> = actions
                                .as_array()
                                .into_iter()
                                .flatten()
                                .map(|a| json!([a["title"], a["kind"], a["edit"]["documentChanges"]]))
                                .collect();
                            let want = json!([["Generate new template", "quickfix", [
                                {"kind": "create", "uri": file, "options": {"overwrite": false, "ignoreIfExists": true}}]]]);
                            rec.eq(key, &what("code actions"), &want, &json!(got));
                        }
                    }
                }
                // Right before or behind the quotes.
                Some(_) => {}
                None => {
                    if to.to_string().contains(&root) && !to.to_string().contains(uri) {
                        rec.fail(key.clone(), format!("{} leads to a template: {to}", what("definition")));
                    }
                    if lang != "html" && !actions.is_null() {
                        rec.fail(key, format!("{}: {actions}", what("code actions")));
                    } else if actions.to_string().contains("Generate") {
                        rec.fail(key, format!("{} outside of names: {actions}", what("code actions")));
                    }
                }
            }
        }
        rec.validated += 1;
    }

    /// Commands are offered in expressions and nowhere else.
    fn commands(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let d = super::meaning::doc(case);
        let uri = w.uri("templates/t.html");
        let mut s = session(w, "html");
        rec.state(&d.text);
        if !d.exprs.is_empty() {
            rec.nontrivial += 1;
        }
        s.open(&uri, &d.text);
        for at in boundaries(&d.text) {
            let inside = d.exprs.iter().any(|e| e.0 + 2 <= at && at + 2 <= e.1);
            let touching = d.exprs.iter().any(|e| e.0 <= at && at <= e.1);
            let (l, c) = pos_of(&d.text, at);
            // Nor at the names of members.
            if touching && !inside || d.refs.iter().any(|r| r.end < at && at < r.chain_end) {
                continue;
            }
            // At and before the first name of an expression nothing is promised.
            if inside && d.refs.iter().any(|r| r.in_expr && r.start >= at && d.exprs.iter().any(|e| e.0 <= at && at <= e.1 && e.0 <= r.start && r.end <= e.1)) {
                continue;
            }
            let a = s.action(&uri, l, c);
            rec.transitions += 1;
            let got: Vec<Value> =
                a.as_array().into_iter().flatten().map(|a| json!([a["title"], a["command"]["command"]])).collect();
            let want = if inside {
                json!([["Reset variables", "reset_variables"], ["Warn about unused", "warn"]])
            } else {
                json!([])
            };
            rec.outcome(&inside);
            rec.eq(format!("C13 {:?} {at}", d.text), &format!("code actions at {l}:{c} in {:?}", d.text), &want, &json!(got));
        }
        s.close(&uri);
        s.settle(2);
        s.inbox = Default::default();
        w.give_back(s);
    }

    fn history(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let lang = case["lang"].as_str().unwrap();
        let ops: Vec<&str> = case["hist"].as_array().unwrap().iter().map(|o| o.as_str().unwrap()).collect();
        let uri = uri_of(w, lang);
        let mut s = session(w, lang);
        let mut files: BTreeSet<String> = FILES.iter().map(|f| f.to_string()).collect();
        let k = if lang == "html" { [1, 2, 0] } else { [0, 1, 2] };
        let texts = [
            source(lang, &[(k[0], "a.html", "\"")], ""),
            source(lang, &[(k[0], "new/b.html", "\""), (k[1], "a.html", "\"")], "é😀 "),
            source(lang, &[(k[2], "a.html", "\""), (k[1], "new/b.html", "\""), (k[0], "gone.html", "\"")], ""),
        ];
        let a = w.path("templates/a.html");
        let b = w.path("templates/new/b.html");
        let gone = |p: &std::path::Path| {
            let _ = std::fs::remove_file(p);
            let _ = std::fs::remove_dir(p);
        };
        let mut text = 0;
        // What is shown, and when it is looked at again.
        let mut shown = texts[0].missing(&files);
        let mut now = 0u64;
        let mut edit_due: Option<u64> = None;
        let mut create_due: Vec<u64> = vec![];
        s.open(&uri, &texts[0].text);
        s.settle(1);
        now += 1;
        rec.nontrivial += 1;
        let mut did: Vec<std::path::PathBuf> = vec![];
        for (i, op) in ops.iter().enumerate() {
            rec.transitions += 1;
            match *op {
                "mk a" => {
                    gone(&a);
                    std::fs::write(&a, "").unwrap();
                    files.insert("a.html".into());
                }
                "rm a" => {
                    gone(&a);
                    files.remove("a.html");
                }
                "dir a" => {
                    gone(&a);
                    std::fs::create_dir(&a).unwrap();
                    files.remove("a.html");
                }
                "mk b" => {
                    std::fs::create_dir_all(b.parent().unwrap()).unwrap();
                    std::fs::write(&b, "").unwrap();
                    files.insert("new/b.html".into());
                }
                "save" => {
                    s.save(&uri);
                    shown = texts[text].missing(&files);
                }
                "edit" => {
                    text = (text + 1) % texts.len();
                    s.change(&uri, json!([{"text": texts[text].text}]));
                    edit_due = Some(now + 200);
                }
                "create" => {
                    // At every name: an action is offered where a missing one is shown.
                    if edit_due.is_none() {
                        for n in &texts[text].names {
                            let at = pos_of(&texts[text].text, n.start + 2);
                            let r = range_of(&texts[text].text, n.start, n.end);
                            let offered = shown.iter().any(|d| d["range"] == r);
                            let got = s.action(&uri, at.0, at.1);
                            let key = format!("C12 {case} {i}");
                            rec.validated += 1;
                            if got.is_null() == offered {
                                rec.fail(key.clone(), format!("code actions for {:?} after {:?}: {got}", n.name, &ops[..=i]));
                            } else if offered {
                                create_due.push(now + 1400);
                                if let Some(p) = self.created(w, &got, rec, &key) {
                                    // Like an editor does: only if nothing is there.
                                    if !p.exists() {
                                        std::fs::write(&p, "").unwrap();
                                        did.push(p);
                                        files.insert(n.name.clone());
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
            let pass = if *op == "wait" { 1450 } else { 2 };
            s.settle(pass);
            now += pass;
            if edit_due.is_some_and(|t| t <= now) {
                edit_due = None;
                shown = texts[text].missing(&files);
            }
            if create_due.iter().any(|t| *t <= now) {
                create_due.retain(|t| *t > now);
                shown = texts[text].missing(&files);
            }
            rec.state(&(text, &files, shown.len(), edit_due.map(|t| t - now), create_due.len()));
            rec.outcome(&shown.len());
            let got = of_names(&s.inbox.diags.get(&uri).cloned().unwrap_or_default());
            rec.eq(format!("C12 {case} {i}"), &format!("template names after {:?}", &ops[..=i]), &json!(shown), &json!(got));
        }
        for p in did {
            gone(&p);
        }
        gone(&b);
        gone(b.parent().unwrap());
        gone(&a);
        std::fs::write(&a, "").unwrap();
        s.close(&uri);
        s.settle(1500);
        s.inbox = Default::default();
        w.give_back(s);
    }
}
