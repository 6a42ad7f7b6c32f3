//! C24: however an editor escapes a URI, it is the same document. Every way of mixing spellings over
//! the messages of a document's life.
use super::observe::norm_items;
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};

pub struct Spelling;

const NAMES: [&str; 8] = ["plain", "a b", "é😀", "[id] (1)", "100%", "a#b?c", "x'y@z+~,", "%41{}|^"];
const SPELLINGS: [&str; 6] = ["url", "upper", "lower", "letters", "few", "host"];

/// The URI of an absolute path, in one of the spellings that mean the same.
fn spell(path: &str, how: &str) -> String {
    let mut out = String::from(if how == "host" { "file://localhost" } else { "file://" });
    if how == "url" {
        return tower_lsp::lsp_types::Url::from_file_path(path).unwrap().to_string();
    }
    let mut letters = 0;
    for c in path.chars() {
        let plain = c == '/' || c.is_ascii_alphanumeric() || "-._~".contains(c);
        let esc = match how {
            // Only what has a meaning in URIs, or what no URI may have.
            "few" => "%#?".contains(c),
            "letters" => {
                letters += 1;
                !plain || c != '/' && letters % 3 == 0
            }
            _ => !plain,
        };
        let mut buf = [0; 4];
        for b in c.encode_utf8(&mut buf).bytes() {
            match (esc, how) {
                (true, "lower") => out += &format!("%{b:02x}"),
                (true, _) => out += &format!("%{b:02X}"),
                _ => {}
            }
        }
        if !esc {
            out.push(c);
        }
    }
    out
}

/// The path that a URI stands for.
fn unspell(uri: &str) -> String {
    let rest = uri.strip_prefix("file://localhost").or(uri.strip_prefix("file://")).unwrap_or(uri);
    let b = rest.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = rest.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok());
        match (b[i], hex) {
            (b'%', Some(x)) => {
                out.push(x);
                i += 3;
            }
            (c, _) => {
                out.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&out).to_string()
}

fn paths(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::from(sorted(a.iter().map(paths).collect())),
        Value::Object(o) => o
            .iter()
            .map(|(k, v)| {
                let v = match v.as_str() {
                    Some(s) if s.starts_with("file://") => json!(unspell(s)),
                    _ => paths(v),
                };
                (k.clone(), v)
            })
            .collect::<serde_json::Map<_, _>>()
            .into(),
        v => v.clone(),
    }
}

/// On disk, when opened, changed.
const TEMPLATE: [&str; 3] = [
    "{% set old = 1 %}",
    "{% set one = 1 %}{{ one }}{{ }}{% include 'u.html' %}{% include 'zz.html' %}",
    "é{% set two = 1 %}{{ two }}{{ }}{% include 'u.html' %}{% include 'zz.html' %}",
];
const RUST: [&str; 3] = [
    "fn f() { context!(old); }",
    "fn f() { context!(one); get_template(\"u.html\"); get_template(\"zz.html\"); }",
    "fn é() { context!(two); get_template(\"u.html\"); get_template(\"zz.html\"); }",
];
const PYTHON: [&str; 3] = [
    "render(old=1)",
    "render(one=1)\nget_template(\"u.html\")\nget_template(\"zz.html\")\n",
    "é = 1\nrender(two=1)\nget_template(\"u.html\")\nget_template(\"zz.html\")\n",
];
const WORDS: [&str; 3] = ["old", "one", "two"];

fn kind(k: &str) -> (&'static str, &'static str, &'static [&'static str; 3], &'static str) {
    match k {
        "t" => ("templates", "html", &TEMPLATE, "rust"),
        "rs" => ("src", "rs", &RUST, "rust"),
        _ => ("src", "py", &PYTHON, "python"),
    }
}

/// Everything that can be asked of the document, in one spelling.
fn ask(s: &mut Session, uri: &str, text: &str) -> Value {
    let mut out = vec![];
    let mut places = vec![];
    for word in ["one", "two", "{{ }", "u.html", "zz.html"] {
        places.extend(text.match_indices(word).map(|m| m.0 + if word == "{{ }" { 3 } else { 1 }));
    }
    for at in places {
        let (l, c) = pos_of(text, at);
        let (h, g, a) = (s.hover(uri, l, c), s.goto(uri, l, c), s.action(uri, l, c));
        out.push(json!([at, h, paths(&g), norm_items(&s.complete(uri, l, c)), paths(&a)]));
    }
    let y = Value::from(norm_symbols(&s.symbols(uri)));
    json!({"answers": out, "symbols": y})
}

impl Check for Spelling {
    fn id(&self) -> &'static str {
        "C24"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        for k in ["t", "rs", "py"] {
            for name in NAMES {
                // Opened, changed, saved, asked, closed.
                let n = SPELLINGS.len();
                for mut code in 0..n.pow(5) {
                    let mut v = vec![];
                    for _ in 0..5 {
                        v.push(SPELLINGS[code % n]);
                        code /= n;
                    }
                    let mut kinds = v.clone();
                    kinds.sort();
                    kinds.dedup();
                    if kinds.len() <= if th { 5 } else { 2 } && (!th || k == "t" || kinds.len() <= 3) {
                        f(json!({"kind": k, "name": name, "by": v}));
                    }
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        format!(
            "a template, a Rust and a Python file under {} names each (spaces, brackets, signs that URIs give a meaning \
             to, any UTF-8 width); {} spellings of their URI (as the url crate does it, everything escaped in upper \
             or lower case, letters escaped too, only the necessary escaped, with 'localhost'); every way of giving \
             at most {} different ones to opening, changing, saving, asking and closing. After each step the \
             published diagnostics of the document, and what another template knows of its names, are compared with \
             the model, the answers with those to the first spelling.",
            NAMES.len(), SPELLINGS.len(), if tier == Tier::Thorough { "five (three for Rust and Python)" } else { "two" }
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let (dir, ext, texts, lang) = kind(case["kind"].as_str().unwrap());
        let name = case["name"].as_str().unwrap();
        let by: Vec<&str> = case["by"].as_array().unwrap().iter().map(|b| b.as_str().unwrap()).collect();
        let file = format!("{dir}/{name}.{ext}");
        // All files are found at the start, one session for each language.
        let key = format!("lang {lang}");
        if w.extra.get("lang") != Some(&json!(lang)) {
            w.session = None;
            w.uses = 0;
            w.extra.insert("lang".into(), json!(lang));
        }
        if !w.ready {
            for k in ["t", "rs", "py"] {
                let (dir, ext, texts, _) = kind(k);
                for n in NAMES {
                    w.write(&format!("{dir}/{n}.{ext}"), &texts[0].replace("old", "other"));
                }
            }
            w.write("templates/u.html", "");
            w.ready = true;
        }
        let _ = key;
        // Only this file has the name.
        w.write(&file, texts[0]);
        let mut s = w.with_session(&[], |w| {
            Session::new(Opts { options: w.options(lang), client: None, initialized: true })
        });
        s.command("reset_variables");
        s.settle(20);
        let path = w.path(&file).to_str().unwrap().to_string();
        let uri = |how: &str| spell(&path, how);
        let u = w.uri("templates/u.html");
        let look = "{{ old }}{{ one }}{{ two }}";
        s.open(&u, look);
        s.settle(5);
        rec.nontrivial += 1;
        for (step, how) in by.iter().enumerate() {
            let what = ["opening", "changing", "saving", "asking", "closing"][step];
            let text = texts[match step {
                0 => 1,
                4 => 0,
                _ => 2,
            }];
            let id = uri(how);
            s.inbox.published.clear();
            match step {
                0 => s.open(&id, text),
                1 => {
                    // The difference is a range, so that both must speak of the same text.
                    let (a, b) = diff(texts[1], texts[2]);
                    let (z, y) = (texts[1].len() - b, texts[2].len() - b);
                    s.change(&id, json!([{"range": range_of(texts[1], a, z), "text": &texts[2][a..y]}]));
                }
                2 => s.save(&id),
                3 => {
                    let got = ask(&mut s, &id, text);
                    let memo = format!("{lang} {file}");
                    if !w.extra.contains_key(&memo) {
                        // A server that was told everything in one spelling.
                        let mut f = Session::new(Opts { options: w.options(lang), client: None, initialized: true });
                        f.open(&u, look);
                        f.open(&uri("url"), text);
                        f.settle(250);
                        let v = ask(&mut f, &uri("url"), text);
                        w.extra.insert(memo.clone(), v);
                    }
                    rec.outcome(&got.to_string());
                    rec.eq(format!("{file} {:?} answers", &by[..=step]), &format!("answers for {id}, after {:?}", &by[..=step]), &w.extra[&memo].clone(), &got);
                }
                _ => s.close(&id),
            }
            s.settle(230);
            rec.transitions += 1;
            rec.state(&(&file, &by[..=step]));
            let place = format!("{file} by {:?}", &by[..=step]);
            if step < 3 {
                let got: Vec<Vec<Value>> =
                    s.inbox.published.iter().filter(|p| unspell(&p.0) == path).map(|p| norm_diags(&p.1)).collect();
                let mut want = vec![];
                let at = text.find("zz.html").unwrap();
                want.push(json!({"message": "Template not found", "severity": 2, "range": range_of(text, at - 1, at + 8)}));
                rec.eq(
                    format!("{place} diagnostics"), &format!("diagnostics of {place} after {what}"),
                    &Value::from(norm_diags(&want)), &got.last().map_or(Value::Null, |v| Value::from(v.clone())),
                );
            }
            // What others know of it.
            s.save(&u);
            s.settle(5);
            let mut want = vec![];
            for word in WORDS {
                let at = look.find(word).unwrap();
                let known = text.contains(word);
                let m = if known { "Variable is defined in other file." } else { "Undefined variable" };
                want.push(json!({"message": m, "severity": if known { 3 } else { 2 }, "range": range_of(look, at, at + 3)}));
            }
            let got = s.inbox.diags.get(&u).map_or(vec![], |v| norm_diags(v));
            rec.eq(
                format!("{place} known"), &format!("what {look} knows of {place} after {what}"),
                &Value::from(norm_diags(&want)), &Value::from(got),
            );
        }
        s.close(&u);
        w.write(&file, &texts[0].replace("old", "other"));
        s.settle(5);
        s.inbox = Default::default();
        w.give_back(s);
    }
}

/// How much two texts share at both ends.
fn diff(old: &str, new: &str) -> (usize, usize) {
    let mut a = 0;
    for (x, y) in old.chars().zip(new.chars()) {
        if x != y {
            break;
        }
        a += x.len_utf8();
    }
    let mut z = 0;
    for (x, y) in old[a..].chars().rev().zip(new[a..].chars().rev()) {
        if x != y {
            break;
        }
        z += x.len_utf8();
    }
    (a, z)
}
