//! C23: an editor that sends exactly what the server announced it wants sees what is true. Every
//! history of editor actions, for every kind of client and settings; what the editor sends, and in
//! which units it counts, is read off the answer to `initialize`.
use super::observe::{answers, difference};
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::Session;
use serde_json::{json, Value};

pub struct Announced;

const CLIENTS: [&str; 4] = ["", "Visual Studio Code", "Neovim", "utf-8"];
const OPTIONS: [&str; 4] = ["rust", "python", "hidden", "files"];
const T: &str = "templates/t.html";
const U: &str = "templates/u.html";

fn texts() -> [Doc; 4] {
    let mut v = [Doc::new(PLAIN), Doc::new(PLAIN), Doc::new(PLAIN), Doc::new(PLAIN)];
    v[0].lit("<p>");
    v[0].expr("$x");
    v[0].expr("$y");
    v[1].lit("é😀");
    v[1].set("x", "1");
    v[1].lit("😀");
    v[1].expr("$x");
    v[1].expr("$back");
    v[1].import("include", "u.html", '\'');
    v[2].for_("y", None, "$x");
    v[2].lit("é\r\né");
    v[2].expr("$y.m");
    v[2].close();
    v[2].expr("$w");
    // The other document.
    v[3].expr("$x");
    v[3].expr("$y");
    v[3].set("w", "1");
    v
}

/// What an editor offers of itself.
fn hello(client: &str, options: &Value) -> Value {
    let mut p = json!({"capabilities": {}});
    match client {
        "" => {}
        "utf-8" => p["capabilities"] = json!({"general": {"positionEncodings": ["utf-8", "utf-32", "utf-16"]}}),
        c => p["clientInfo"] = json!({"name": c}),
    }
    if !options.is_null() {
        p["initializationOptions"] = options.clone();
    }
    p
}

/// The part of an editor that keeps the server up to date.
struct Editor {
    open_close: bool,
    /// 0 nothing, 1 the whole text, 2 what changed.
    change: u64,
    save: bool,
    save_text: bool,
    will_save: bool,
    units: String,
    announced: Value,
}

impl Editor {
    fn new(answer: &Value) -> Editor {
        let c = &answer["capabilities"];
        let sync = &c["textDocumentSync"];
        let old = sync.as_u64();
        let save = &sync["save"];
        Editor {
            open_close: old.map_or(sync["openClose"] == json!(true), |k| k > 0),
            change: old.or(sync["change"].as_u64()).unwrap_or(0),
            save: old.is_some_and(|k| k > 0) || save == &json!(true) || save.is_object(),
            save_text: save["includeText"] == json!(true),
            will_save: sync["willSave"] == json!(true),
            units: c["positionEncoding"].as_str().unwrap_or("utf-16").to_string(),
            announced: c.clone(),
        }
    }

    fn provides(&self, what: &str) -> bool {
        let p = &self.announced[what];
        p == &json!(true) || p.is_object()
    }

    fn position(&self, text: &str, at: usize) -> Value {
        let line = text[..at].matches('\n').count();
        let row = &text[text[..at].rfind('\n').map_or(0, |i| i + 1)..at];
        let c = match self.units.as_str() {
            "utf-8" => row.len(),
            "utf-32" => row.chars().count(),
            _ => row.encode_utf16().count(),
        };
        json!({"line": line, "character": c})
    }

    fn open(&self, s: &mut Session, uri: &str, text: &str) {
        if self.open_close {
            s.open(uri, text);
        }
    }
    fn close(&self, s: &mut Session, uri: &str) {
        if self.open_close {
            s.close(uri);
        }
    }
    fn change(&self, s: &mut Session, uri: &str, old: &str, new: &str) {
        let (a, z) = ends(old, new);
        let range = json!({"start": self.position(old, a), "end": self.position(old, old.len() - z)});
        self.change_at(s, uri, new, &range, &new[a..new.len() - z]);
    }
    fn change_at(&self, s: &mut Session, uri: &str, new: &str, range: &Value, put: &str) {
        match self.change {
            0 => {}
            1 => s.change(uri, json!([{"text": new}])),
            _ => s.change(uri, json!([{"range": range, "text": put}])),
        }
    }
    fn save(&self, s: &mut Session, uri: &str, text: &str) {
        if self.will_save {
            s.notify("textDocument/willSave", json!({"textDocument": {"uri": uri}, "reason": 1}));
        }
        if self.save {
            let mut p = json!({"textDocument": {"uri": uri}});
            if self.save_text {
                p["text"] = text.into();
            }
            s.notify("textDocument/didSave", p);
        }
    }
}

/// How much two texts share at both ends.
fn ends(old: &str, new: &str) -> (usize, usize) {
    let mut a = 0;
    for (x, y) in old.chars().zip(new.chars()) {
        if x != y {
            break;
        }
        a += x.len_utf8();
    }
    // Never between the two characters of a line break.
    if old[..a].ends_with('\r') {
        a -= 1;
    }
    let mut z = 0;
    for (x, y) in old[a..].chars().rev().zip(new[a..].chars().rev()) {
        if x != y {
            break;
        }
        z += x.len_utf8();
    }
    if old[..old.len() - z].ends_with('\r') || new[..new.len() - z].ends_with('\r') {
        z = 0;
    }
    (a, z)
}

fn options(w: &World, how: &str) -> Value {
    let dir = |d: &str| w.path(d).to_str().unwrap().to_string();
    let mut o = json!({"templates": dir("templates"), "backend": [dir("src")], "lang": "rust"});
    match how {
        "python" => {
            o["backend"] = json!([dir("py")]);
            o["lang"] = json!("python");
        }
        "hidden" => o["hide_undefined"] = json!(true),
        "files" => return Value::Null,
        _ => {}
    }
    o
}

/// The settings that the working directory of the workers gives are no good, they name no
/// templates: what comes of nothing is only what single documents say.
fn known(how: &str) -> bool {
    how != "files"
}

fn legal(open: bool, op: &str) -> bool {
    match op {
        "open" => !open,
        "edit 0" | "edit 1" | "edit 2" | "save" | "close" => open,
        _ => true,
    }
}

const OPS: [&str; 9] = ["open", "edit 0", "edit 1", "edit 2", "save", "close", "look", "reset_variables", "warn"];

fn histories(len: usize, f: &mut dyn FnMut(&[&'static str])) {
    fn rec(cur: &mut Vec<&'static str>, open: bool, text: &str, len: usize, f: &mut dyn FnMut(&[&'static str])) {
        if cur.len() == len {
            return f(cur);
        }
        for o in OPS {
            if !legal(open, o) || o == text {
                continue;
            }
            cur.push(o);
            let now = match o {
                "open" => true,
                "close" => false,
                _ => open,
            };
            let t = if o.starts_with("edit") { o } else if o == "close" || o == "open" { "" } else { text };
            rec(cur, now, t, len, f);
            cur.pop();
        }
    }
    rec(&mut vec![], false, "", len, f)
}

impl Check for Announced {
    fn id(&self) -> &'static str {
        "C23"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        for client in CLIENTS {
            for o in OPTIONS {
                let deep = client.is_empty() && o == "rust";
                let n = if th { 4 } else { 3 } + deep as usize * if th { 2 } else { 1 };
                f(json!({"client": client, "options": o, "typed": true}));
                histories(n, &mut |h| {
                    // Without settings, it is left open which other files are known.
                    if known(o) || !h.contains(&"look") {
                        f(json!({"client": client, "options": o, "h": h}));
                    }
                });
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        let n = if tier == Tier::Thorough { 4 } else { 3 };
        format!(
            "{} kinds of client (no name, two names, one that would rather count bytes), {} settings (Rust, Python, \
             undefined names hidden, none at all); every history of {n} actions (one more, in the thorough tier two, with the first client \
             and settings) out of {}: open, change to one of three texts, save (the file too), close, a look into \
             another document that uses the same names, and each command that is announced. The editor tells the \
             server of an action if, and in the way, the server announced: opening and closing, whole texts or \
             ranges in the announced units, saving with or without the text. After each action, at rest, diagnostics \
             and symbols are compared with the model, answers of every kind that is announced with those of a server \
             that was simply given the text. Typing: lists are asked for after characters that were announced only.",
            CLIENTS.len(), OPTIONS.len(), OPS.len()
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let docs = texts();
        let client = case["client"].as_str().unwrap();
        let how = case["options"].as_str().unwrap();
        let first = docs[0].text.clone();
        if !w.ready {
            for (p, t) in [
                (T, first.as_str()),
                (U, docs[3].text.as_str()),
                ("src/main.rs", "fn f() { context!(back); }\n"),
                ("py/app.py", "render(back=1)\n"),
            ] {
                w.write(p, t);
            }
            w.ready = true;
        }
        w.write(T, &first);
        let uris = [w.uri(T), w.uri(U)];
        let opts = options(w, how);
        let mut s = Session::raw();
        let answer = s.request("initialize", hello(client, &opts));
        let ed = Editor::new(&answer);
        s.notify("initialized", json!({}));
        s.settle(10);
        rec.nontrivial += 1;
        if case["typed"] == json!(true) {
            return typed(&mut s, &ed, &uris[0], rec, client, how);
        }
        let h: Vec<&str> = case["h"].as_array().unwrap().iter().map(|o| o.as_str().unwrap()).collect();
        let mut open = false;
        let mut shown = 0;
        let mut disk = 0;
        for (i, op) in h.iter().enumerate() {
            let key = format!("{client:?} {how} {:?}", &h[..=i]);
            let mut look = false;
            match *op {
                "open" => {
                    open = true;
                    ed.open(&mut s, &uris[0], &docs[shown].text);
                }
                "close" => {
                    open = false;
                    shown = disk;
                    ed.close(&mut s, &uris[0]);
                }
                "save" => {
                    disk = shown;
                    w.write(T, &docs[disk].text);
                    ed.save(&mut s, &uris[0], &docs[disk].text);
                }
                "look" => {
                    look = true;
                    ed.open(&mut s, &uris[1], &docs[3].text);
                }
                e if e.starts_with("edit") => {
                    let k: usize = e[5..].parse().unwrap();
                    ed.change(&mut s, &uris[0], &docs[shown].text, &docs[k].text);
                    shown = k;
                }
                c => {
                    let listed = ed.announced["executeCommandProvider"]["commands"].as_array().cloned().unwrap_or_default();
                    if listed.contains(&json!(c)) {
                        let got = s.request("workspace/executeCommand", json!({"command": c, "arguments": []}));
                        rec.eq(format!("{key} command"), "the answer to an announced command", &Value::Null, &got);
                    }
                }
            }
            s.settle(250);
            rec.transitions += 1;
            rec.state(&(client, how, open, shown, disk, look));
            let mut which = vec![];
            if open {
                which.push((0, shown, 3));
            }
            if look {
                which.push((1, 3, shown));
            }
            for (d, k, other) in which {
                view(w, &mut s, &ed, &uris, &docs, (d, k, other), how, client, &key, rec, open);
            }
            if look {
                ed.close(&mut s, &uris[1]);
                s.settle(250);
            }
            if s.wedged {
                rec.fail(format!("{key} wedged"), format!("no answer any more after {:?}", &h[..=i]));
                return;
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn view(
    w: &mut World, s: &mut Session, ed: &Editor, uris: &[String; 2], docs: &[Doc; 4], at: (usize, usize, usize),
    how: &str, client: &str, key: &str, rec: &mut Rec, open: bool,
) {
    let (d, k, other) = at;
    let doc = &docs[k];
    let name = [T, U][d];
    let mut ext = vec![];
    if known(how) {
        for def in docs[other].defs.iter().filter(|d| d.kind != Kind::Block) {
            ext.push(Ext { name: def.name.clone(), uri: uris[1 - d].clone(), range: Value::Null, backend: false });
        }
    }
    if known(how) {
        ext.push(Ext { name: "back".into(), uri: String::new(), range: Value::Null, backend: true });
    }
    let mut want = doc.lint(&ext);
    if how == "hidden" {
        want.clear();
    }
    if !known(how) {
        for t in &doc.tpls {
            want.push(json!({"message": "Template not found", "severity": 2, "range": doc.range(t.start, t.end)}));
        }
    }
    let want = Value::from(norm_diags(&want));
    let got = s.inbox.diags.get(&uris[d]).map_or(json!([]), |v| Value::from(norm_diags(v)));
    rec.outcome(&got.to_string());
    rec.eq(format!("{key} diagnostics"), &format!("diagnostics of {name} after {key}"), &want, &got);
    if ed.provides("documentSymbolProvider") {
        let got = Value::from(norm_symbols(&s.symbols(&uris[d])));
        rec.eq(format!("{key} symbols"), &format!("symbols of {name} after {key}"), &Value::from(doc.symbols()), &got);
    }
    let asked = ["hoverProvider", "definitionProvider", "completionProvider", "codeActionProvider"];
    if !asked.iter().all(|p| ed.provides(p)) {
        return;
    }
    let memo = format!("{client} {how} {d} {k} {other} {}", d == 1 && open);
    if !w.extra.contains_key(&memo) {
        // The file of t holds what counts, or it is open.
        let mut f = Session::raw();
        f.request("initialize", hello(client, &options(w, how)));
        f.notify("initialized", json!({}));
        f.settle(10);
        if d == 1 && open {
            f.open(&uris[0], &docs[other].text);
        }
        f.open(&uris[d], &doc.text);
        f.settle(250);
        let v = answers(&mut f, &uris[d], &doc.text, 12);
        w.extra.insert(memo.clone(), Value::from(v));
        rec.count("reference servers", 1);
    }
    let want = json!({"answers": w.extra[&memo]});
    let got = json!({"answers": answers(s, &uris[d], &doc.text, 12)});
    rec.validated += 1;
    if want != got {
        rec.fail(format!("{key} answers"), format!("answers for {name} after {key}: {}", difference(&want, &got)));
    }
}

/// What stands before the cursor, what is typed there, what stands behind it (editors close what
/// is opened by themselves), and something that must come up by itself at the end.
const TYPED: [(&str, &str, &str, &str); 10] = [
    ("{% set abc = 1 %}{{", " ", "}}", "abc"),
    ("😀{% macro abc(pq) %}{{", " ", "}}{% endmacro %}", "pq"),
    ("{% set abc = 1 %}{{ abc ", "| ", "}}", "upper"),
    ("é{% if abc ", "is ", "%}{% endif %}", "defined"),
    ("{% include ", "\"", "\" %}", "u.html"),
    ("é\r\n😀{% extends ", "\"", "\" %}", "u.html"),
    ("{% set abc = 1 %}", "{{", "}}", "abc"),
    ("é\n", "{%", "", "for1"),
    ("{{ a }}", "{% ", "", "for1"),
    ("{{ a }}é", "{%-", "", "for1"),
];

fn typed(s: &mut Session, ed: &Editor, uri: &str, rec: &mut Rec, client: &str, how: &str) {
    let triggers: Vec<String> = ed.announced["completionProvider"]["triggerCharacters"]
        .as_array()
        .into_iter()
        .flatten()
        .filter_map(|t| t.as_str().map(String::from))
        .collect();
    for (before, new, after, label) in TYPED {
        let mut last = None;
        let mut text = format!("{before}{after}");
        ed.open(s, uri, &text);
        for (i, c) in new.char_indices() {
            let at = before.len() + i;
            let old = std::mem::replace(&mut text, format!("{before}{}{after}", &new[..i + c.len_utf8()]));
            let place = ed.position(&old, at);
            ed.change_at(s, uri, &text, &json!({"start": place, "end": place}), &c.to_string());
            if triggers.iter().any(|t| *t == c.to_string()) {
                let end = at + c.len_utf8();
                let mut p = json!({"textDocument": {"uri": uri}, "position": ed.position(&text, end)});
                p["context"] = json!({"triggerKind": 2, "triggerCharacter": c.to_string()});
                last = Some((end, s.request("textDocument/completion", p)));
            }
        }
        s.settle(250);
        ed.close(s, uri);
        s.settle(250);
        rec.transitions += new.len() as u64;
        let text = format!("{before}{new}<cursor>{after}");
        if how == "files" && label == "u.html" {
            continue;
        }
        // What else is in the list is not looked at here.
        let got = last.filter(|l| l.0 == before.len() + new.len()).map(|l| l.1);
        rec.outcome(&got.as_ref().map(|g| g.as_array().map(|a| a.len())));
        rec.validated += 1;
        if !got.as_ref().is_some_and(|g| g.as_array().into_iter().flatten().any(|i| i["label"] == label)) {
            rec.fail(
                format!("{client:?} {how} typed {text:?}"),
                format!(
                    "after typing {text:?}, with lists asked for after {triggers:?} only, {label:?} should be offered: {}",
                    got.map_or("no list asked for".to_string(), |g| g.to_string().chars().take(200).collect())
                ),
            );
        }
    }
}
