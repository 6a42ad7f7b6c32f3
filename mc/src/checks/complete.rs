//! C10: which kind of completion is offered where. C11: accepting an item does what it says.
use super::meaning::{BACKEND, OTHER};
use super::space::*;
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};

pub const FILTERS: [&str; 38] = [
    "abs", "attr", "batch", "bool", "capitalize", "default", "dictsort", "escape", "first", "float", "indent", "int",
    "items", "join", "last", "length", "list", "lower", "map", "max", "min", "pprint", "rejectattr", "reject",
    "replace", "reverse", "round", "safe", "selectattr", "select", "slice", "sort", "title", "tojson", "trim",
    "unique", "upper", "urlencode",
];
pub const TESTS: [&str; 31] = [
    "boolean", "defined", "divisibleby", "endingwith", "eq", "even", "false", "filter", "float", "ge", "gt", "in",
    "integer", "iterable", "le", "lower", "lt", "mapping", "ne", "none", "number", "odd", "safe", "sameas",
    "sequence", "startingwith", "string", "test", "true", "undefined", "upper",
];
/// Snippets and what they become with their placeholders accepted as they are.
pub const SNIPPETS: [&str; 11] =
    ["for1", "for2", "with", "set1", "set2", "include", "from", "import", "extends", "if1", "if2"];

#[derive(PartialEq, Eq, Debug, Clone, Copy, Hash)]
pub enum Kind {
    Nothing,
    Filters,
    Tests,
    Snippets,
    /// Variables of some file, maybe none.
    Names,
    Other,
}

fn labels(v: &Value) -> Vec<String> {
    let mut l: Vec<String> = v
        .as_array()
        .map(|a| a.iter().map(|i| i["label"].as_str().unwrap_or("?").to_string()).collect())
        .unwrap_or_default();
    l.sort();
    l
}

fn same(l: &[String], list: &[&str]) -> bool {
    let mut list = list.to_vec();
    list.sort();
    l.iter().map(|s| s.as_str()).eq(list)
}

pub fn kind_of(v: &Value) -> Kind {
    let l = labels(v);
    if v.is_null() {
        Kind::Nothing
    } else if same(&l, &FILTERS) {
        Kind::Filters
    } else if same(&l, &TESTS) {
        Kind::Tests
    } else if same(&l, &SNIPPETS) {
        Kind::Snippets
    } else if v.as_array().is_some_and(|a| a.iter().all(|i| matches!(i["kind"].as_u64(), Some(3 | 5 | 6)))) {
        Kind::Names
    } else {
        Kind::Other
    }
}

/// What the place `at` of a complete template asks for; None where nothing is promised.
fn wanted(d: &Doc, at: usize) -> Option<&'static [Kind]> {
    for f in d.refs.iter().filter(|r| r.role == Role::Filter) {
        let pipe = d.text[..f.start].trim_end();
        if !pipe.ends_with('|') {
            // The filter of a filter block.
            if f.start <= at && at <= f.end {
                return None;
            }
            continue;
        }
        if pipe.len() <= at && at <= f.start {
            return Some(&[Kind::Filters]);
        }
        if pipe.len() - 1 <= at && at <= f.end {
            return None;
        }
    }
    for t in d.refs.iter().filter(|r| r.role == Role::Test) {
        // From the `is` on.
        // `in` and `filter` are keywords of the grammar: the rest of the tag says nothing definite.
        let end = match &d.text[t.start..t.end] {
            "in" | "filter" => d.text[t.end..].find('}').map_or(t.end, |n| t.end + n),
            _ => t.end,
        };
        if d.text[..t.start].rfind("is").unwrap_or(0) <= at && at <= end {
            return None;
        }
    }
    // Names of templates are for C11.
    for name in ["'other.html'", "\"other.html\""] {
        if d.text.match_indices(name).any(|(n, _)| n <= at && at <= n + name.len()) {
            return None;
        }
    }
    if d.texts.iter().chain(&d.comments).any(|t| t.0 < at && at < t.1) {
        return Some(&[Kind::Nothing]);
    }
    if d.exprs.iter().any(|e| e.0 + 2 <= at && at <= e.1 - 2) {
        return Some(&[Kind::Names, Kind::Nothing]);
    }
    if d.tags.iter().any(|t| t.0 + 3 <= at && at + 3 <= t.1) {
        return Some(&[Kind::Names, Kind::Nothing]);
    }
    Some(&[Kind::Names, Kind::Nothing])
}

pub struct Contexts;

fn session(w: &mut World) -> Session {
    w.with_session(&[("templates/other.html", OTHER), ("src/main.rs", BACKEND)], |w| {
        Session::new(Opts { options: w.options("rust"), client: None, initialized: true })
    })
}

impl Check for Contexts {
    fn id(&self) -> &'static str {
        "C10"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        let all: Vec<usize> = (0..BASIC).collect();
        let case = |s: &[usize], style: usize, gap: usize| json!({"ops": s.iter().map(|o| OPS[*o]).collect::<Vec<_>>(), "style": style, "gap": gap});
        sequences(&[], &all, if th { 3 } else { 2 }, &mut |s| {
            for style in 0..STYLES.len() {
                for gap in 0..GAPS.len() {
                    if th || s.len() < 2 || gap == style % GAPS.len() {
                        f(case(s, style, gap));
                    }
                }
            }
        });
        let whole: Vec<usize> = (0..OPS.len()).collect();
        sequences(&[], &whole, 2, &mut |s| {
            if s.iter().any(|o| *o >= BASIC) {
                for style in 0..STYLES.len() {
                    if th || s.len() < 2 || style == (s[0] + s[1]) % STYLES.len() {
                        f(case(s, style, style % GAPS.len()));
                    }
                }
            }
        });
        for e in expressions(1) {
            for at in 0..PLACES {
                for style in 0..STYLES.len() {
                    let every = if e.contains(['@', '?']) { 3 } else { 6 };
                    if !th && style % every != at % every {
                        continue;
                    }
                    f(json!({"e": e, "at": at, "style": style, "gap": style % GAPS.len()}));
                }
            }
        }
        for e in expressions(2) {
            // The quick tier leaves out expressions with more than two filters or objects in them.
            if th || e.matches('@').count() == 2 && !e.contains(['{', '[', '"', '.']) {
                f(json!({"e": e, "at": 0, "style": 0, "gap": 2}));
            }
            if th || e.contains('?') && e.contains('@') {
                f(json!({"e": e, "at": 1, "style": 0, "gap": 2}));
            }
        }
        // A filter or a test still to be written.
        for e in expressions(1) {
            for at in 0..6 {
                for style in 0..if th { 5 } else { 2 } {
                    if !th && at % 2 != style {
                        continue;
                    }
                    f(json!({"hole": "|", "e": e, "at": at, "style": style, "gap": 0}));
                    f(json!({"hole": "is", "e": e, "at": at, "style": style, "gap": 2}));
                }
            }
        }
        // A tag just begun behind a template.
        sequences(&[], &all, if th { 3 } else { 2 }, &mut |s| {
            for gap in 0..GAPS.len() {
                for tail in ["{%", "{% ", "{%-", "{%\n"] {
                    f(json!({"ops": s.iter().map(|o| OPS[*o]).collect::<Vec<_>>(), "style": 0, "gap": gap, "tail": tail}));
                }
            }
        });
    }

    fn bounds(&self, tier: Tier) -> String {
        let th = tier == Tier::Thorough;
        format!(
            "every position of every sequence of <={} of {} constructs in {} ways of writing x {} kinds of text (fewer combinations in the quick tier), of every expression \
             nested 1 deep in {} places (2 deep with filters or tests), of every such expression followed by a pipe or an 'is' still \
             without a name, and the end of every sequence of <={} constructs followed by a tag just begun. \
             Lists of filters ({}), tests ({}) and snippets ({}) are compared name by name. A case is non-trivial if a position of \
             it asks for filters, tests or snippets.",
            if th { 3 } else { 2 }, OPS.len(), STYLES.len(), GAPS.len(), PLACES, if th { 3 } else { 2 },
            FILTERS.len(), TESTS.len(), SNIPPETS.len()
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let uri = w.uri("templates/t.html");
        let mut s = session(w);
        let n = |k: &str| case[k].as_u64().unwrap_or(0) as usize;
        let mut d;
        // Positions and what they ask for.
        let mut ask: Vec<(usize, &'static [Kind])> = vec![];
        if let Some(h) = case["hole"].as_str() {
            let st = STYLES[n("style")];
            let e = case["e"].as_str().unwrap();
            d = Doc::new(st);
            d.lit(GAPS[n("gap")]);
            let mark = format!("{e}{}", if h == "|" { "|" } else { " is " });
            place(&mut d, n("at"), &mark);
            // The place behind the pipe or the "is": the mark ends with it.
            let from = if n("at") == 0 { d.exprs[0].0 } else { d.tags[0].0 };
            let _ = from;
            let src = {
                let mut x = Doc::new(st);
                x.src(&mark);
                x.text
            };
            let Some(i) = d.text.find(&src) else { panic!("no {src:?} in {:?}", d.text) };
            let end = i + src.len();
            if h == "|" {
                ask.push((end, &[Kind::Filters]));
            } else if n("at") != 0 && !st.sp.contains('\n') {
                ask.push((end, &[Kind::Tests]));
            }
            // Nothing of it is left in the text behind the tag.
            for t in d.texts.iter().filter(|t| t.0 >= end) {
                for at in super::observe::boundaries(&d.text).into_iter().filter(|at| t.0 < *at && *at < t.1) {
                    ask.push((at, &[Kind::Nothing]));
                }
            }
        } else {
            d = super::meaning::doc(case);
            if let Some(t) = case["tail"].as_str() {
                d.text.push_str(t);
                let end = d.text.len();
                ask.push((end, &[Kind::Snippets]));
            } else {
                for at in super::observe::boundaries(&d.text) {
                    if let Some(k) = wanted(&d, at) {
                        ask.push((at, k));
                    }
                }
            }
        }
        s.open(&uri, &d.text);
        rec.state(&d.text);
        rec.transitions += 1;
        if ask.iter().any(|a| !a.1.contains(&Kind::Nothing)) {
            rec.nontrivial += 1;
        }
        for (at, want) in ask {
            let (l, c) = d.pos(at);
            let got = s.complete(&uri, l, c);
            rec.transitions += 1;
            rec.validated += 1;
            let k = kind_of(&got);
            rec.outcome(&k);
            // An empty list offers nothing either.
            let k2 = if got == json!([]) { Kind::Nothing } else { k };
            if !want.contains(&k) && !want.contains(&k2) {
                rec.fail(
                    format!("context {:?} {at}", d.text),
                    format!("completion at {l}:{c} in {:?}: expected {want:?}, got {k:?} {:?}", d.text, labels(&got)),
                );
            }
        }
        s.inbox = Default::default();
        w.give_back(s);
    }
}

// ---- C11 ----------------------------------------------------------------------------------

pub struct Accept;

const FILES: [&str; 6] =
    ["base.html", "sub/base.html", "sub/é x.jinja", "a.j2", "sub/deep/b.html", "sub.html"];
const TYPED: [&str; 9] = ["", "b", "base", "sub", "sub/", "sub/é", "zz", "html", "base.html"];
pub const KINDS: [&str; 12] = [
    "{% extends Q %}", "{% include Q %}", "{% import Q as m %}", "{% from Q import m %}", "{%- include Q -%}",
    "{%\ninclude\n\tQ\n%}", "{% include Q ignore missing %}", "x{% include Q %}é",
    "fn f() { let t = jinja.get_template(Q); }", "fn f() { render_jinja(Q) }", "def f():\n    render_jinja(Q, 1)\n",
    "t = env.get_template(Q)\n",
];
const NAMES: [&str; 7] = ["item", "items", "it", "x", "i2", "total", "Item"];

pub fn lang_of(kind: &str) -> &'static str {
    if kind.starts_with("fn") {
        "rs"
    } else if kind.starts_with('{') || kind.starts_with('x') {
        "html"
    } else {
        "py"
    }
}

fn expand(snippet: &str) -> String {
    // ${1:name} becomes name, $1 becomes x.
    let mut out = String::new();
    let mut cs = snippet.chars().peekable();
    while let Some(c) = cs.next() {
        if c != '$' {
            out.push(c);
        } else if cs.peek() == Some(&'{') {
            let body: String = cs.by_ref().skip(1).take_while(|c| *c != '}').collect();
            out.push_str(body.split_once(':').map_or("x", |b| b.1));
        } else {
            while cs.peek().is_some_and(|c| c.is_ascii_digit()) {
                cs.next();
            }
            out.push('x');
        }
    }
    out
}

impl Check for Accept {
    fn id(&self) -> &'static str {
        "C11"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        for client in ["other", "Visual Studio Code"] {
            for (k, kind) in KINDS.iter().enumerate() {
                for quote in ["\"", "'"] {
                    if quote == "'" && lang_of(kind) == "rs" {
                        continue;
                    }
                    for typed in TYPED {
                        if typed.contains("é") && lang_of(kind) != "html" && !th {
                            continue;
                        }
                        for before in ["", "é😀 ", "\n\n"] {
                            if !before.is_empty() && lang_of(kind) == "py" && before != "\n\n" {
                                continue;
                            }
                            f(json!({"client": client, "import": k, "quote": quote, "typed": typed, "before": before}));
                        }
                    }
                }
            }
            for n in 1..=if th { 3 } else { 2 } {
                // Defined names, and every beginning of a name.
                let mut sets = vec![vec![]];
                for _ in 0..n {
                    let mut next = vec![];
                    for s in &sets {
                        for name in NAMES {
                            if !s.contains(&name) {
                                let mut s2: Vec<&str> = s.clone();
                                s2.push(name);
                                next.push(s2);
                            }
                        }
                    }
                    sets = next;
                }
                for set in sets {
                    for word in ["i", "it", "item", "items", "I", "zz", "x"] {
                        for gap in 0..GAPS.len() {
                            for form in ["{{ W }}", "{{W}}", "{{- W -}}", "{{ f(W, 1) }}", "{{ W + W }}"] {
                                f(json!({"client": client, "defs": set, "word": word, "gap": gap, "form": form}));
                            }
                        }
                    }
                }
            }
            for gap in 0..GAPS.len() {
                for body in ["", "<p>", "{% if a %}", "{{ a }}", "{# x #}", "{% block b %}é{% endblock %}\n"] {
                    for tail in ["{%", "{%-"] {
                        f(json!({"client": client, "snippet": body, "gap": gap, "tail": tail}));
                    }
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        format!(
            "for both kinds of clients: every cursor in a template name of {} beginnings in {} kinds of imports (template, Rust, \
             Python), quotes and texts before it, with {} templates on disk; every cursor in a word of 7 in 5 forms after every \
             ordered set of <={} of {} definitions and {} kinds of text; every snippet behind 6 templates. Each offered item is \
             accepted: the text must become the one expected, a template name must then be found and lead to its file, and a \
             snippet must leave no diagnostics but undefined names and templates.",
            TYPED.len(), KINDS.len(), FILES.len(), if tier == Tier::Thorough { 3 } else { 2 }, NAMES.len(), GAPS.len()
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let client = case["client"].as_str().unwrap().to_string();
        let kind = case["import"].as_u64().map(|k| KINDS[k as usize]);
        let lang = if kind.is_some_and(|k| lang_of(k) == "py") { "python" } else { "rust" };
        let tag = json!([client, lang]);
        if w.extra.get("kind") != Some(&tag) {
            w.session = None;
            w.uses = 0;
            let first = w.history.pop();
            w.history.clear();
            w.history.extend(first);
        }
        let files: Vec<(String, &str)> = FILES.iter().map(|f| (format!("templates/{f}"), "")).collect();
        let files: Vec<(&str, &str)> = files.iter().map(|f| (f.0.as_str(), f.1)).collect();
        let mut s = w.with_session(&files, |w| {
            Session::new(Opts { options: w.options(lang), client: Some(&client), initialized: true })
        });
        w.extra.insert("kind".into(), tag);
        if let Some(kind) = kind {
            self.import(w, case, kind, &mut s, rec);
        } else if case["defs"].is_array() {
            self.word(w, case, &mut s, rec);
        } else {
            self.snippet(w, case, &mut s, rec);
        }
        s.inbox = Default::default();
        w.give_back(s);
    }
}

/// Visual Studio Code gets the name as an additional edit (it would drop items whose edit does not
/// fit the word at the cursor), other editors get an insert and a replace range.
fn suits(case: &Value, got: &Value, key: &str, what: &str, rec: &mut Rec) {
    let vscode = case["client"] == "Visual Studio Code";
    for i in got.as_array().into_iter().flatten() {
        let additional = i["additionalTextEdits"].as_array().is_some_and(|a| !a.is_empty());
        if additional != vscode || i["textEdit"]["range"].is_object() != vscode {
            rec.fail(key.to_string(), format!("{what}: not in the form {} needs: {i}", case["client"]));
        }
    }
}

impl Accept {
    fn import(&self, w: &World, case: &Value, kind: &str, s: &mut Session, rec: &mut Rec) {
        let g = |k: &str| case[k].as_str().unwrap();
        let (q, typed) = (g("quote"), g("typed"));
        let before = g("before");
        let before = if lang_of(kind) == "rs" && !before.is_empty() { format!("/*{before}*/") } else { before.to_string() };
        let text = format!("{before}{}", kind.replace('Q', &format!("{q}{typed}{q}")));
        let lit = text.find(&format!("{q}{typed}{q}")).unwrap();
        let uri = w.uri(&match lang_of(kind) {
            "html" => "templates/t.html".to_string(),
            l => format!("src/t.{l}"),
        });
        s.open(&uri, &text);
        rec.state(&text);
        rec.nontrivial += 1;
        // t.html itself is a template once it is open.
        let mut all: Vec<&str> = FILES.to_vec();
        if lang_of(kind) == "html" {
            all.push("t.html");
        }
        for at in super::observe::boundaries(typed) {
            let (l, c) = pos_of(&text, lit + 1 + at);
            let got = s.complete(&uri, l, c);
            rec.transitions += 1;
            rec.validated += 1;
            let key = format!("import {text:?} {at}");
            let what = format!("completion at {l}:{c} in {text:?}");
            let have = labels(&got);
            // What is typed up to the cursor; the last character of it may not count yet, and
            // what is behind the cursor may count as well.
            let less = typed[..at].char_indices().next_back().map_or("", |(i, _)| &typed[..i]);
            let sets = [&typed[..at], less, typed].map(|p| {
                let mut v: Vec<String> = all.iter().filter(|f| f.contains(p)).map(|f| f.to_string()).collect();
                v.sort();
                v
            });
            if !sets.contains(&have) {
                rec.fail(key.clone(), format!("{what}: expected templates {:?}, got {have:?} {got}", sets[0]));
                continue;
            }
            rec.outcome(&have);
            suits(case, &got, &key, &what, rec);
            for i in got.as_array().into_iter().flatten() {
                let label = i["label"].as_str().unwrap();
                let expected = format!("{}\"{label}\"{}", &text[..lit], &text[lit + 2 + typed.len()..]);
                for replace in [true, false] {
                    let edited = accept(&text, i, replace);
                    if edited.as_ref() != Ok(&expected) {
                        rec.fail(key.clone(), format!("{what}: accepting '{label}' gives {edited:?}, expected {expected:?}"));
                    }
                }
                // The name written is found and leads to the file.
                s.change(&uri, json!([{"text": expected}]));
                let (l, c) = pos_of(&expected, lit + 1);
                let to = s.goto(&uri, l, c);
                if to["uri"] != json!(w.uri(&format!("templates/{label}"))) && label != "t.html" {
                    rec.fail(key.clone(), format!("{what}: after accepting '{label}', definition leads to {to}"));
                }
                s.save(&uri);
                s.settle(1);
                let d = s.inbox.diags.get(&uri).cloned().unwrap_or_default();
                if label != "t.html" && d.iter().any(|d| d["message"] == "Template not found") {
                    rec.fail(key.clone(), format!("{what}: after accepting '{label}': {d:?}"));
                }
                s.change(&uri, json!([{"text": text}]));
            }
        }
        s.close(&uri);
        s.settle(300);
    }

    fn word(&self, w: &World, case: &Value, s: &mut Session, rec: &mut Rec) {
        let word = case["word"].as_str().unwrap();
        let defs: Vec<&str> = case["defs"].as_array().unwrap().iter().map(|d| d.as_str().unwrap()).collect();
        let mut d = Doc::new(PLAIN);
        let gap = GAPS[case["gap"].as_u64().unwrap() as usize];
        d.lit(gap);
        for n in &defs {
            d.set(n, "1");
            d.lit(gap);
        }
        let form = case["form"].as_str().unwrap();
        let start = d.text.len() + form.find('W').unwrap();
        let text = format!("{}{}", d.text, form.replace('W', word));
        let uri = w.uri("templates/t.html");
        s.open(&uri, &text);
        rec.state(&text);
        for at in 1..=word.len() {
            let typed = &word[..at];
            let (l, c) = pos_of(&text, start + at);
            let got = s.complete(&uri, l, c);
            rec.transitions += 1;
            rec.validated += 1;
            let key = format!("word {text:?} {at}");
            let what = format!("completion at {l}:{c} in {text:?}");
            let mut want: Vec<String> = defs.iter().filter(|n| n.starts_with(typed)).map(|n| n.to_string()).collect();
            want.sort();
            rec.outcome(&want);
            let have = labels(&got);
            if have != want {
                rec.fail(key.clone(), format!("{what}: expected {want:?}, got {have:?}"));
                continue;
            }
            if !want.is_empty() {
                rec.nontrivial += 1;
            }
            suits(case, &got, &key, &what, rec);
            for i in got.as_array().into_iter().flatten() {
                let label = i["label"].as_str().unwrap();
                let expected = format!("{}{label}{}", &text[..start], &text[start + word.len()..]);
                for replace in [true, false] {
                    let edited = accept(&text, i, replace);
                    if edited.as_ref() != Ok(&expected) {
                        rec.fail(key.clone(), format!("{what}: accepting '{label}' gives {edited:?}, expected {expected:?}"));
                    }
                }
            }
        }
        s.close(&uri);
    }

    fn snippet(&self, w: &World, case: &Value, s: &mut Session, rec: &mut Rec) {
        let gap = GAPS[case["gap"].as_u64().unwrap() as usize];
        let head = format!("{gap}{}{gap}", case["snippet"].as_str().unwrap());
        let text = format!("{head}{}", case["tail"].as_str().unwrap());
        let uri = w.uri("templates/t.html");
        s.open(&uri, &text);
        rec.state(&text);
        rec.nontrivial += 1;
        let (l, c) = pos_of(&text, text.len());
        let got = s.complete(&uri, l, c);
        let what = format!("completion at {l}:{c} in {text:?}");
        rec.transitions += 1;
        rec.validated += 1;
        if kind_of(&got) != Kind::Snippets {
            rec.fail(format!("snippet {text:?}"), format!("{what}: no snippets, {:?}", labels(&got)));
            return;
        }
        let mut plain = symbols_of(s, &uri, &head, rec);
        for i in got.as_array().into_iter().flatten() {
            let label = i["label"].as_str().unwrap();
            let key = format!("snippet {text:?} {label}");
            if case["client"] == "Visual Studio Code" {
                // This client inserts what it finds without an edit: the label.
                continue;
            }
            let mut i2 = i.clone();
            i2["textEdit"]["newText"] = json!(expand(i["textEdit"]["newText"].as_str().unwrap_or("?")));
            let new = match accept(&text, &i2, true) {
                Ok(t) => t,
                Err(e) => {
                    rec.fail(key, format!("{what}: accepting {label}: {e}"));
                    continue;
                }
            };
            if !new.starts_with(&text) {
                rec.fail(key, format!("{what}: accepting {label} changes what was there: {new:?}"));
                continue;
            }
            // It defines what it says, and what was there is as before.
            let adds: &[&str] = match label {
                "for1" => &["i"],
                "for2" => &["key", "value"],
                "set1" => &["key"],
                "set2" => &["data"],
                "with" => &["x"],
                _ => &[],
            };
            let mut want = plain.clone();
            want.extend(adds.iter().map(|a| a.to_string()));
            want.sort();
            let mut have = symbols_of(s, &uri, &new, rec);
            have.sort();
            // A with without a value defines nothing yet.
            plain.sort();
            if have != want && !(label == "with" && have == plain) {
                rec.fail(key, format!("{what}: after accepting {label}, {new:?} defines {have:?}, expected {want:?}"));
            }
            rec.outcome(&have);
        }
        s.close(&uri);
    }
}

fn symbols_of(s: &mut Session, uri: &str, text: &str, rec: &mut Rec) -> Vec<String> {
    s.open(uri, text);
    rec.transitions += 1;
    norm_symbols(&s.symbols(uri)).iter().map(|x| x["name"].as_str().unwrap_or("?").to_string()).collect()
}
