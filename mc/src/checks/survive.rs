//! C02: no text, position or message makes the server panic, hang, stay silent or stop working.
use super::meaning::{BACKEND, OTHER};
use crate::engine::{Check, Rec, Tier, World};
use crate::session::{Opts, Session};
use serde_json::{json, Value};

pub struct Survive;

pub const FRAGMENTS: [&str; 22] = [
    "{{", "}}", "{%", "%}", "a", " ", "'", "\"", "|", ".", "set ", "é", "\n", "{#", "include ", "block ",
    "😀", "(", "is ", "=", "\r", "-",
];

/// Messages an editor can send; `%t` is a template, `%r` a Rust source, `%p` a Python source.
const MESSAGES: [&str; 62] = [
    r#"{"m":"textDocument/didOpen","p":{"textDocument":{"uri":"%t","languageId":"x","version":1,"text":"{% set a = 1 %}{{ a }}"}}}"#,
    r#"{"m":"textDocument/didChange","p":{"textDocument":{"uri":"%t","version":2},"contentChanges":[{"range":{"start":{"line":0,"character":3},"end":{"line":0,"character":9}},"text":"é"}]}}"#,
    r#"{"m":"textDocument/didClose","p":{"textDocument":{"uri":"%t"}}}"#,
    r#"{"m":"textDocument/didSave","p":{"textDocument":{"uri":"%t"}}}"#,
    r#"{"m":"textDocument/hover","q":1,"p":{"textDocument":{"uri":"%t"},"position":{"line":0,"character":18}}}"#,
    r#"{"m":"textDocument/definition","q":1,"p":{"textDocument":{"uri":"%t"},"position":{"line":0,"character":18}}}"#,
    r#"{"m":"textDocument/completion","q":1,"p":{"textDocument":{"uri":"%t"},"position":{"line":0,"character":18},"context":{"triggerKind":1}}}"#,
    r#"{"m":"textDocument/documentSymbol","q":1,"p":{"textDocument":{"uri":"%t"}}}"#,
    r#"{"m":"textDocument/codeAction","q":1,"p":{"textDocument":{"uri":"%t"},"range":{"start":{"line":0,"character":18},"end":{"line":0,"character":18}},"context":{"diagnostics":[]}}}"#,
    r#"{"m":"workspace/executeCommand","q":1,"p":{"command":"reset_variables","arguments":[]}}"#,
    r#"{"m":"workspace/didChangeConfiguration","p":{"settings":{"templates":"%T","backend":["%S"],"lang":"python"}}}"#,
    r#"{"m":"initialized","p":{}}"#,
    r#"{"wait":250}"#,
    r#"{"m":"textDocument/didOpen","p":{"textDocument":{"uri":"%t","languageId":"x","version":1,"text":"é\r\n{% include 'zz' %}{% for"}}}"#,
    r#"{"m":"textDocument/didChange","p":{"textDocument":{"uri":"%t","version":2},"contentChanges":[{"text":"{{ d }}"}]}}"#,
    r#"{"m":"textDocument/didChange","p":{"textDocument":{"uri":"%t","version":2},"contentChanges":[]}}"#,
    r#"{"m":"textDocument/didChange","p":{"textDocument":{"uri":"%t","version":2},"contentChanges":[{"range":{"start":{"line":9,"character":9},"end":{"line":0,"character":1}},"text":"{{ a"},{"range":{"start":{"line":4294967295,"character":4294967295},"end":{"line":4294967295,"character":4294967295}},"text":"😀"}]}}"#,
    r#"{"m":"textDocument/didOpen","p":{"textDocument":{"uri":"%r","languageId":"rust","version":1,"text":"fn f() { context! { b => 1 }; get_template(\"zz\"); "}}}"#,
    r#"{"m":"textDocument/didChange","p":{"textDocument":{"uri":"%r","version":2},"contentChanges":[{"range":{"start":{"line":0,"character":0},"end":{"line":0,"character":20}},"text":"é\""}]}}"#,
    r#"{"m":"textDocument/didClose","p":{"textDocument":{"uri":"%r"}}}"#,
    r#"{"m":"textDocument/didSave","p":{"textDocument":{"uri":"%r"}}}"#,
    r#"{"m":"textDocument/hover","q":1,"p":{"textDocument":{"uri":"%r"},"position":{"line":0,"character":45}}}"#,
    r#"{"m":"textDocument/definition","q":1,"p":{"textDocument":{"uri":"%r"},"position":{"line":0,"character":45}}}"#,
    r#"{"m":"textDocument/completion","q":1,"p":{"textDocument":{"uri":"%r"},"position":{"line":0,"character":45},"context":{"triggerKind":2,"triggerCharacter":"\""}}}"#,
    r#"{"m":"textDocument/documentSymbol","q":1,"p":{"textDocument":{"uri":"%r"}}}"#,
    r#"{"m":"textDocument/codeAction","q":1,"p":{"textDocument":{"uri":"%r"},"range":{"start":{"line":0,"character":45},"end":{"line":0,"character":45}},"context":{"diagnostics":[]}}}"#,
    r#"{"m":"textDocument/didOpen","p":{"textDocument":{"uri":"%p","languageId":"python","version":1,"text":"render(a=1)\njinja_env.globals['b']\nget_template('zz')"}}}"#,
    r#"{"m":"textDocument/documentSymbol","q":1,"p":{"textDocument":{"uri":"%p"}}}"#,
    r#"{"m":"textDocument/didOpen","p":{"textDocument":{"uri":"untitled:Untitled-1","languageId":"x","version":1,"text":"{{ a }}"}}}"#,
    r#"{"m":"textDocument/didOpen","p":{"textDocument":{"uri":"untitled:Untitled.html","languageId":"x","version":1,"text":"{{ a }}{% include 'zz' %}"}}}"#,
    r#"{"m":"textDocument/didChange","p":{"textDocument":{"uri":"untitled:Untitled.html","version":2},"contentChanges":[{"text":"{{ d }}"}]}}"#,
    r#"{"m":"textDocument/didClose","p":{"textDocument":{"uri":"untitled:Untitled.html"}}}"#,
    r#"{"m":"textDocument/definition","q":1,"p":{"textDocument":{"uri":"untitled:Untitled.html"},"position":{"line":0,"character":3}}}"#,
    r#"{"m":"textDocument/didOpen","p":{"textDocument":{"uri":"http://host/x.html?q=1#f","languageId":"x","version":1,"text":"{{ a }}"}}}"#,
    r#"{"m":"textDocument/completion","q":1,"p":{"textDocument":{"uri":"http://host/x.html?q=1#f"},"position":{"line":0,"character":3}}}"#,
    r#"{"m":"textDocument/didOpen","p":{"textDocument":{"uri":"http://host/y.html","languageId":"x","version":1,"text":"{{ a }}{% include \"zz\" %}"}}}"#,
    r#"{"m":"textDocument/didClose","p":{"textDocument":{"uri":"http://host/y.html"}}}"#,
    r#"{"m":"textDocument/didOpen","p":{"textDocument":{"uri":"%T/n.txt","languageId":"x","version":1,"text":"{{ a }}"}}}"#,
    r#"{"m":"textDocument/didOpen","p":{"textDocument":{"uri":"file:///.html","languageId":"x","version":1,"text":"{{ a }}"}}}"#,
    r#"{"m":"textDocument/hover","q":1,"p":{"textDocument":{"uri":"file:///none.html"},"position":{"line":0,"character":0}}}"#,
    r#"{"m":"textDocument/definition","q":1,"p":{"textDocument":{"uri":"file:///none.html"},"position":{"line":0,"character":0}}}"#,
    r#"{"m":"textDocument/completion","q":1,"p":{"textDocument":{"uri":"file:///none.html"},"position":{"line":0,"character":0},"context":{"triggerKind":3}}}"#,
    r#"{"m":"textDocument/documentSymbol","q":1,"p":{"textDocument":{"uri":"file:///none.html"}}}"#,
    r#"{"m":"textDocument/codeAction","q":1,"p":{"textDocument":{"uri":"file:///none.html"},"range":{"start":{"line":0,"character":0},"end":{"line":9,"character":0}},"context":{"diagnostics":[]}}}"#,
    r#"{"m":"textDocument/didChange","p":{"textDocument":{"uri":"file:///none.html","version":2},"contentChanges":[{"text":"x"}]}}"#,
    r#"{"m":"textDocument/didSave","p":{"textDocument":{"uri":"file:///none.html"}}}"#,
    r#"{"m":"textDocument/didClose","p":{"textDocument":{"uri":"file:///none.html"}}}"#,
    r#"{"m":"textDocument/codeAction","q":1,"p":{"textDocument":{"uri":"%t"},"range":{"start":{"line":1,"character":14},"end":{"line":1,"character":14}},"context":{"diagnostics":[]}}}"#,
    r#"{"m":"textDocument/completion","q":1,"p":{"textDocument":{"uri":"%t"},"position":{"line":1,"character":14},"context":{"triggerKind":1}}}"#,
    r#"{"m":"workspace/executeCommand","q":1,"p":{"command":"warn","arguments":[]}}"#,
    r#"{"m":"workspace/executeCommand","q":1,"p":{"command":"nothing","arguments":[1,{}]}}"#,
    r#"{"m":"workspace/didChangeConfiguration","p":{"settings":null}}"#,
    r#"{"m":"workspace/didChangeConfiguration","p":{"settings":{"templates":1}}}"#,
    r#"{"m":"workspace/didChangeConfiguration","p":{"settings":{"templates":"%T/nowhere","backend":[],"lang":"rust"}}}"#,
    r#"{"m":"workspace/didChangeConfiguration","p":{"settings":{"templates":"","backend":["%S"],"lang":"rust","hide_undefined":true}}}"#,
    r#"{"m":"workspace/didChangeConfiguration","p":{"settings":{"templates":"%T","backend":["%S"],"lang":"perl"}}}"#,
    r#"{"m":"textDocument/hover","q":1,"p":{"textDocument":{}}}"#,
    r#"{"m":"textDocument/references","q":1,"p":{"textDocument":{"uri":"%t"},"position":{"line":0,"character":0},"context":{"includeDeclaration":true}}}"#,
    r#"{"m":"no/suchRequest","q":1,"p":{}}"#,
    r#"{"m":"no/suchNotification","p":{}}"#,
    r#"{"m":"$/cancelRequest","p":{"id":1}}"#,
    r#"{"m":"workspace/didChangeWatchedFiles","p":{"changes":[]}}"#,
];

/// Lifecycle messages, used in sequences from a server that was just started.
const LIFE: [&str; 5] = [
    r#"{"m":"initialize","q":1,"p":{"capabilities":{},"initializationOptions":{"templates":"%T","backend":["%S"],"lang":"rust"}}}"#,
    r#"{"m":"initialize","q":1,"p":{"capabilities":{},"clientInfo":{"name":"Visual Studio Code"}}}"#,
    r#"{"m":"initialize","q":1,"p":{"capabilities":{},"initializationOptions":{"lang":7}}}"#,
    r#"{"m":"shutdown","q":1}"#,
    r#"{"m":"initialized","p":{}}"#,
];

fn fill(w: &World, m: &str) -> Value {
    let m = m
        .replace("%t", &w.uri("templates/t.html"))
        .replace("%r", &w.uri("src/t.rs"))
        .replace("%p", &w.uri("src/t.py"))
        .replace("%T", w.path("templates").to_str().unwrap())
        .replace("%S", w.path("src").to_str().unwrap());
    let m = m.replace("\"uri\":\"/", "\"uri\":\"file:///");
    serde_json::from_str(&m).unwrap()
}

fn message(k: usize) -> &'static str {
    if k < MESSAGES.len() {
        MESSAGES[k]
    } else {
        LIFE[k - MESSAGES.len()]
    }
}

/// Sends a message; requests of a running server are awaited.
fn send(s: &mut Session, m: &Value) -> Option<i64> {
    if let Some(t) = m["wait"].as_u64() {
        s.settle(t);
        return None;
    }
    let name = m["m"].as_str().unwrap();
    if m["q"] == 1 {
        s.request_full(name, m["p"].clone());
        return Some(s.next_id);
    }
    s.notify(name, m["p"].clone());
    None
}

/// A server with any history takes a configuration and answers about a new document.
fn alive(w: &World, s: &mut Session, configured: bool, key: &str, rec: &mut Rec) {
    if s.wedged {
        rec.fail(key, "a request was not answered");
        return;
    }
    let uri = w.uri("templates/probe.html");
    if !configured {
        s.notify("workspace/didChangeConfiguration", json!({"settings": w.options("rust")}));
        s.settle(1);
    }
    s.open(&uri, "{% set p = 1 %}{{ q }}");
    let sym = s.symbols(&uri);
    s.settle(1);
    let d = s.inbox.diags.get(&uri).map_or(0, |d| d.len());
    s.close(&uri);
    rec.validated += 1;
    if s.wedged || sym.as_array().map_or(0, |a| a.len()) != 1 || d != 1 {
        rec.fail(key, format!("the server no longer works: symbols {sym}, {d} diagnostics of a new document"));
    }
    s.inbox.diags.remove(&uri);
}

fn texts(len: usize, alphabet: usize, f: &mut dyn FnMut(&[usize])) {
    let mut cur = vec![];
    fn rec(cur: &mut Vec<usize>, left: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
        if left == 0 {
            return f(cur);
        }
        for k in 0..n {
            cur.push(k);
            rec(cur, left - 1, n, f);
            cur.pop();
        }
    }
    for l in 0..=len {
        rec(&mut cur, l, alphabet, f);
    }
}

impl Check for Survive {
    fn id(&self) -> &'static str {
        "C02"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        let text = |t: &[usize]| t.iter().map(|k| FRAGMENTS[*k]).collect::<String>();
        texts(3, FRAGMENTS.len(), &mut |t| f(json!({"text": text(t)})));
        if th {
            texts(4, FRAGMENTS.len(), &mut |t| {
                if t.len() == 4 {
                    f(json!({"text": text(t)}))
                }
            });
        }
        for b in super::edits::BASES {
            f(json!({"text": b, "ranges": true}));
            f(json!({"text": b, "vscode": true}));
        }
        for t in [
            "fn f() { get_template(\"\nx\"); }", "context!{é => \"\"", "jinja.add_global(\"", "fn 😀() { x.render_jinja(\"a\", context!{ a, ..b }) }",
        ] {
            f(json!({"text": t, "file": "src/t.rs", "ranges": true}));
        }
        // sequences of messages to a running server
        let n = MESSAGES.len();
        for a in 0..n {
            f(json!({"seq": [a]}));
        }
        for a in 0..n {
            for b in 0..n {
                f(json!({"seq": [a, b]}));
            }
        }
        let few = if th { n } else { 20 };
        for a in 0..few {
            for b in 0..few {
                for c in 0..few {
                    f(json!({"seq": [a, b, c]}));
                }
            }
        }
        // and to one that was just started, with the messages of its life cycle
        let all = n + LIFE.len();
        let some: Vec<usize> = (0..15).chain([17, 20, 33, 38, 50, 51, 54, 57]).chain(n..all).collect();
        for &a in &some {
            f(json!({"raw": [a]}));
            for &b in &some {
                if a >= n || b >= n || th {
                    f(json!({"raw": [a, b]}));
                }
            }
        }
        for a in n..all {
            for b in n..all {
                for &c in &some {
                    f(json!({"raw": [a, b, c]}));
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        let th = tier == Tier::Thorough;
        format!(
            "every text of <={} of {} fragments, with hover, definition, completion and code action at every position in \
             and around it (beyond line ends, beyond the last line, inside surrogate pairs, 2^32-1); every range, \
             reversed ones too, as a change of {} documents; every sequence of <=2 of {} messages and <=3 of {} sent to \
             a running server; sequences of <=3 messages from its start with initialize, initialized and shutdown \
             anywhere. Oracle: no panic, exactly one answer per request, and afterwards a new document gets its \
             symbols and diagnostics. Every case is non-trivial.",
            if th { 4 } else { 3 }, FRAGMENTS.len(), super::edits::BASES.len(), MESSAGES.len(),
            if th { MESSAGES.len() } else { 20 }
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        rec.nontrivial += 1;
        let key = format!("survive {case}");
        if let Some(t) = case["text"].as_str() {
            let file = case["file"].as_str().unwrap_or("templates/t.html");
            let vscode = case["vscode"] == true;
            let mut s = if vscode {
                w.session = None;
                w.uses = 0;
                Session::new(Opts { options: w.options("rust"), client: Some("Visual Studio Code"), initialized: true })
            } else {
                take(w)
            };
            self.positions(w, &mut s, file, t, case["ranges"] == true, &key, rec);
            if !vscode {
                w.give_back(s);
            }
            return;
        }
        let (seq, raw) = match case["seq"].as_array() {
            Some(a) => (a, false),
            None => (case["raw"].as_array().unwrap(), true),
        };
        let mut s = if raw { Session::raw() } else { take(w) };
        let first = s.next_id;
        let mut asked = vec![];
        for k in seq {
            let m = fill(w, message(k.as_u64().unwrap() as usize));
            rec.transitions += 1;
            asked.extend(send(&mut s, &m));
            if s.wedged {
                break;
            }
        }
        rec.state(&case.to_string());
        if raw && !s.wedged {
            let life: Vec<u64> = seq.iter().map(|k| k.as_u64().unwrap()).collect();
            let n = MESSAGES.len() as u64;
            if !life.contains(&(n + 3)) {
                if !life.iter().any(|k| (n..n + 3).contains(k)) {
                    s.request("initialize", json!({"capabilities": {}, "initializationOptions": w.options("rust")}));
                }
                s.notify("initialized", json!({}));
                s.settle(1);
                alive(w, &mut s, false, &key, rec);
            }
        } else {
            let same = seq.iter().all(|k| !MESSAGES[k.as_u64().unwrap() as usize].contains("didChangeConf"));
            alive(w, &mut s, same, &key, rec);
        }
        for id in asked {
            let n = s.inbox.responses.get(&id).map_or(0, |r| r.len());
            rec.outcome(&s.inbox.responses.get(&id).map(|r| format!("{:?}", r[0].get("error"))));
            if n != 1 {
                rec.fail(key.clone(), format!("request {} of the sequence was answered {n} times", id - first));
            }
        }
        s.inbox = Default::default();
        if !raw {
            for f in ["templates/t.html", "src/t.rs", "src/t.py"] {
                let u = w.uri(f);
                s.close(&u);
            }
            s.close("untitled:Untitled.html");
            s.close("http://host/y.html");
            s.close("file:///.html");
            s.settle(1);
            w.give_back(s);
        }
    }
}

fn take(w: &mut World) -> Session {
    w.with_session(
        &[("templates/other.html", OTHER), ("src/main.rs", BACKEND), ("src/main.py", "render(b=1)\n")],
        |w| Session::new(Opts { options: w.options("rust"), client: None, initialized: true }),
    )
}

impl Survive {
    #[allow(clippy::too_many_arguments)]
    fn positions(&self, w: &World, s: &mut Session, file: &str, t: &str, ranges: bool, key: &str, rec: &mut Rec) {
        let uri = w.uri(file);
        s.open(&uri, t);
        s.settle(1);
        rec.state(&t);
        let lines: Vec<&str> = t.split('\n').collect();
        let mut at = vec![];
        for (l, line) in lines.iter().enumerate() {
            for c in 0..=line.encode_utf16().count() + 1 {
                at.push((l, c));
            }
        }
        let big = u32::MAX as usize;
        at.extend([(lines.len(), 0), (0, big), (big, 0), (big, big)]);
        for &(l, c) in &at {
            let h = s.hover(&uri, l, c);
            s.goto(&uri, l, c);
            let i = s.complete(&uri, l, c);
            s.action(&uri, l, c);
            rec.transitions += 4;
            rec.outcome(&(h.is_null(), i.as_array().map(|a| a.len())));
            if s.wedged {
                rec.fail(key, format!("no answer at {l}:{c} in {t:?}"));
                return;
            }
        }
        s.symbols(&uri);
        if ranges {
            for &(l1, c1) in &at {
                for &(l2, c2) in &at {
                    for ins in ["", "é{{"] {
                        s.open(&uri, t);
                        s.change(&uri, json!([{"range": {"start": {"line": l1, "character": c1},
                            "end": {"line": l2, "character": c2}}, "text": ins}]));
                        s.symbols(&uri);
                        rec.transitions += 1;
                        if s.wedged {
                            rec.fail(key, format!("no answer after a change of {l1}:{c1}-{l2}:{c2} in {t:?}"));
                            return;
                        }
                    }
                }
            }
            s.settle(300);
        }
        s.inbox.responses.clear();
        alive(w, s, true, key, rec);
        s.close(&uri);
        s.inbox = Default::default();
    }
}
