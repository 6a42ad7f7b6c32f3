//! C20: asking changes nothing. Every ordered pair (and some longer sequences) of requests, each
//! answer compared with the one a fresh server gives; files and diagnostics stay as they are.
use super::observe::{joints, norm_items, norm_locations};
use crate::engine::{hash, Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

pub struct Asking;

const FILES: [(&str, &str); 12] = [
    ("templates/a.html", "{% set a = 1 %}{{ a }}{{ b|upper }}"),
    ("templates/b.html", "{% for a, b in d %}{{ a }}{% endfor %}\n{{ a }}"),
    ("templates/c.html", "{% extends 'a.html' %}{% include \"none.html\" %}"),
    ("templates/d.html", "é😀{% macro d(a) %}\r\n{{ a.x }}{% endmacro %}{{ d() }}{{ }}"),
    ("templates/e.html", "{% if a is defined %}{{ u }}{% else %}{{ '' }}{% endif %}{{ x"),
    ("templates/f.html", "{% block a %}{{ super() }}{% endblock a %}{% "),
    ("templates/g.html", "{% with a=b, d=1 %}{{ d | ca }}{% endwith %}{{ a is od"),
    ("templates/h.html", "{% import 'b.html' as b %}{% from 'no/ne.html' import a %}{{ b."),
    ("templates/i.html", ""),
    ("src/main.rs", "fn f() {\n    render(context! { b => 1 });\n    env.get_template(\"a.html\");\n    env.get_template(\"none.html\");\n}\n"),
    ("src/x.rs", "fn g() {\n    jinja.add_global(\"u\", 1);\n    env.get_template(\"\");\n}\n"),
    ("templates/j.html", "{# a #}{% raw %}{{ a }}{% endraw %}{% filter lower %}{{ b }}{% endfilter %}"),
];

/// (file, kind of request, offset)
type Ask = (usize, &'static str, usize);
const KINDS: [&str; 4] = ["hover", "definition", "completion", "action"];

fn asks(file: usize) -> Vec<Ask> {
    let mut v = vec![(file, "symbols", 0)];
    for kind in KINDS {
        for at in joints(FILES[file].1) {
            v.push((file, kind, at));
        }
    }
    v
}

/// A few of them, one of each kind at each third of the file.
fn few(file: usize) -> Vec<Ask> {
    let j = joints(FILES[file].1);
    let mut v = vec![(file, "symbols", 0)];
    for kind in KINDS {
        let mut at = vec![j[j.len() / 3], j[j.len() * 2 / 3], j[j.len() - 1]];
        at.dedup();
        v.extend(at.into_iter().map(|a| (file, kind, a)));
    }
    v
}

fn ask(w: &World, s: &mut Session, a: Ask) -> Value {
    let (file, kind, at) = a;
    let uri = w.uri(FILES[file].0);
    let (l, c) = pos_of(FILES[file].1, at);
    let got = match kind {
        "symbols" => Value::from(norm_symbols(&s.symbols(&uri))),
        "hover" => s.hover(&uri, l, c),
        "definition" => norm_locations(&s.goto(&uri, l, c)),
        "completion" => norm_items(&s.complete(&uri, l, c)),
        _ => s.action(&uri, l, c),
    };
    s.inbox.responses.clear();
    // Lists of filters and tests are long.
    if got.to_string().len() > 400 {
        json!({"hash": hash(&got.to_string()), "begins": got.to_string().chars().take(80).collect::<String>()})
    } else {
        got
    }
}

fn disk(dir: &Path, out: &mut BTreeMap<String, String>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            out.insert(p.display().to_string(), "directory".into());
            disk(&p, out);
        } else {
            out.insert(p.display().to_string(), std::fs::read_to_string(&p).unwrap_or_default());
        }
    }
}

fn session(w: &mut World) -> Session {
    w.with_session(&FILES, |w| {
        let mut s = Session::new(Opts { options: w.options("rust"), client: None, initialized: true });
        for f in FILES {
            s.open(&w.uri(f.0), f.1);
        }
        s.settle(300);
        s
    })
}

impl Check for Asking {
    fn id(&self) -> &'static str {
        "C20"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        let name = |a: &Ask| json!([a.0, a.1, a.2]);
        // Every request of every file, before every request of the same file, and before some of
        // every other.
        for file in 0..FILES.len() {
            for first in asks(file) {
                for other in 0..FILES.len() {
                    let how = if other == file || th { "all" } else { "few" };
                    f(json!({"first": [name(&first)], "file": other, "how": how}));
                }
            }
        }
        // Pairs before some of the same file and of the next.
        for file in 0..FILES.len() {
            for x in few(file) {
                for other in [file, (file + 1) % FILES.len()] {
                    for y in few(other) {
                        f(json!({"first": [name(&x), name(&y)], "file": file, "how": if th { "all" } else { "few" }}));
                    }
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        format!(
            "{} open documents (templates complete and unfinished, Rust files); every request (symbols, hover, definition, completion, \
             code action wherever two tokens meet) before {} of the requests of every document, every pair of some requests before {} \
             others; each second answer compared with that of a fresh server; files and diagnostics looked at after each case. Every \
             case is non-trivial: it compares answers.",
            FILES.len(),
            if tier == Tier::Thorough { "each" } else { "each of its own document and some" },
            if tier == Tier::Thorough { "all" } else { "some" }
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let mut s = session(w);
        let file = case["file"].as_u64().unwrap() as usize;
        let all = case["how"] == "all";
        let then = if all { asks(file) } else { few(file) };
        let first: Vec<Ask> = case["first"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| {
                let kind = a[1].as_str().unwrap();
                let kind = KINDS.iter().find(|k| **k == kind).copied().unwrap_or("symbols");
                (a[0].as_u64().unwrap() as usize, kind, a[2].as_u64().unwrap() as usize)
            })
            .collect();
        if !w.extra.contains_key("disk") {
            let mut d = BTreeMap::new();
            disk(&w.dir, &mut d);
            w.extra.insert("disk".into(), json!(d));
            w.extra.insert("diags".into(), json!(s.inbox.diags));
        }
        s.inbox.published.clear();
        rec.nontrivial += 1;
        for t in then {
            // A fresh server's answer.
            let key = format!("{} {} {}", t.0, t.1, t.2);
            if !w.extra.contains_key(&key) {
                let mut f = Session::new(Opts { options: w.options("rust"), client: None, initialized: true });
                for f2 in FILES {
                    f.open(&w.uri(f2.0), f2.1);
                }
                f.settle(300);
                // Each of these is asked once of a server nobody has asked this before.
                for a in if all { asks(file) } else { few(file) } {
                    let v = ask(w, &mut f, a);
                    w.extra.entry(format!("{} {} {}", a.0, a.1, a.2)).or_insert(v);
                }
            }
            let want = w.extra[&key].clone();
            for a in &first {
                ask(w, &mut s, *a);
                rec.transitions += 1;
            }
            let got = ask(w, &mut s, t);
            rec.transitions += 1;
            rec.state(&(&first, t));
            rec.outcome(&got.to_string());
            rec.eq(
                format!("{first:?} then {key}"),
                &format!("{} at {} of {} after {first:?}", t.1, t.2, FILES[t.0].0),
                &want,
                &got,
            );
        }
        if !s.inbox.published.is_empty() {
            rec.fail(format!("{first:?} published"), format!("diagnostics were published because of {first:?}: {:?}", s.inbox.published));
        }
        if json!(s.inbox.diags) != w.extra["diags"] {
            rec.fail(format!("{first:?} diagnostics"), format!("diagnostics changed because of {first:?}"));
        }
        let mut d = BTreeMap::new();
        disk(&w.dir, &mut d);
        if json!(d) != w.extra["disk"] {
            rec.fail(format!("{first:?} files"), format!("files changed because of {first:?}"));
        }
        w.give_back(s);
    }
}
