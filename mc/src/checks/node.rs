//! C21: the Node bindings. Every template of a bounded space, embedded somewhere in another file,
//! through the real bindings in a real Node process, against the reference model.
use super::meaning::{documentation, small};
use super::space::*;
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Bindings;

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

fn start() -> Node {
    let root = crate::engine::root();
    let mut child = Command::new("node")
        .arg(root.join("node/driver.cjs"))
        .arg(root.join("target/node/jinja.node"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("node");
    let (to, from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
    Node { child, to, from: BufReader::new(from) }
}

/// The results of all calls, on a new object or the last one, or None if the process ended.
fn call(fresh: bool, calls: &[Value]) -> Option<Vec<Value>> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(start);
        let sent = writeln!(node.to, "{}", json!({"fresh": fresh, "calls": calls})).is_ok();
        let mut line = String::new();
        if sent && node.from.read_line(&mut line).is_ok_and(|len| len > 0) {
            return serde_json::from_str(&line).ok();
        }
        let mut dead = n.take().unwrap();
        let _ = dead.child.kill();
        let _ = dead.child.wait();
        None
    })
}

fn kind_of(k: Kind) -> u64 {
    match k {
        Kind::ForKey => 0,
        Kind::ForValue => 1,
        Kind::Set => 3,
        Kind::With => 4,
        Kind::Macro => 5,
        Kind::Param => 6,
        Kind::Block => 7,
    }
}

/// Where a template lies in its file: name of the file, number of the template, line and column.
const PLACES_IN_FILE: [(&str, u64, u64, u64); 4] =
    [("file:///w/flow.py", 0, 0, 0), ("file:///w/flow.py", 3, 7, 0), ("file:///a%20b/%C3%A9%5Bid%5D.yaml", 1, 12, 5), ("file:///templates/x.txt", 21, 1000, 40)];

/// Python in the file, chains of names in `<` and `>`.
const PYTHON: [&str; 20] = [
    "<a.b>", "x = <a.b>", "f(<a.b>, <a.b.c>)", "<a.b.c> = <a.b>", "if <a.b>:\n    <a.b.c>", "[<a.b>, a, b]", "print(\"a.b é😀\")",
    "# a.b é", "<a.b>[<a.x>]", "@<a.b>\ndef g(a, b):\n    return <a.b>", "é = <a.x>; <a.b>", "for i in <a.b>:\n    pass", "import a.b",
    "y = lambda: <a.b>", "<ab.b>, <a.bc>, <c.a.b>", "z = not <a.b> and \"é😀\" == <a.b>", "w = {\"a.b\": <a.b>}", "class C:\n    é = <a.x.y>",
    "f(a=<a.b>)", "<self.a.b>",
];
const PYTHON_HINTS: [&[&str]; 4] = [&["a.b"], &["a.b.c", "a.x"], &["a.x.y", "a", "b"], &["a.b", "c.a.b", "x.a.b", "a.bc", "self.a"]];

/// What a template still being written ends with.
const ENDS: [&str; 6] = ["{{", "{{ ", "{{ a|", "{{ a |", "{{ a", "{% if a|"];
const HINTS: [&[&str]; 5] = [&["a"], &["a.x"], &["b", "a.x.y"], &["d", "u"], &["a", "b.c", "a.x"]];
const EXPR_PLACES: usize = 4;

fn document(case: &Value) -> Doc {
    let n = |k: &str| case[k].as_u64().unwrap_or(0) as usize;
    let mut d = Doc::new(STYLES[n("style")]);
    let column = PLACES_IN_FILE[n("at")].3 as usize;
    d.lit(&" ".repeat(column));
    let gap = GAPS[n("gap")];
    d.lit(gap);
    if let Some(e) = case["e"].as_str() {
        place(&mut d, n("place"), e);
        d.lit(gap);
    }
    for o in case["ops"].as_array().into_iter().flatten() {
        put(&mut d, op(o.as_str().unwrap()));
        d.lit(gap);
    }
    d.lit(case["end"].as_str().unwrap_or(""));
    d
}

/// What a call is expected to give.
enum Want {
    Any,
    Nothing,
    /// Equal, after lists are sorted.
    Is(Value),
    /// All of the first, and nothing but the second.
    Between(Vec<Value>, Vec<Value>),
    /// Kind and name, and the range of the name.
    Hover(String, Value),
    Documentation(Role, String, Value),
    /// One of the hints of that name.
    Hint(String),
    Names(Vec<(String, String)>),
    Links,
    Filters,
}

struct Script {
    calls: Vec<Value>,
    wants: Vec<(String, Want)>,
}

impl Script {
    fn ask(&mut self, what: String, call: Value, want: Want) {
        self.calls.push(call);
        self.wants.push((what, want));
    }
}

fn moved(d: &Doc, a: usize, b: usize, line: u64) -> Value {
    let p = |o: usize| {
        let (l, c) = d.pos(o);
        json!({"line": l as u64 + line, "character": c})
    };
    json!({"start": p(a), "end": p(b)})
}

/// Everything that can be asked about the template, as it should be answered.
fn questions(d: &Doc, case: &Value, hints: &[&str], s: &mut Script) {
    let (file, id, line, _) = PLACES_IN_FILE[case["at"].as_u64().unwrap_or(0) as usize];
    let uri = tower_lsp::lsp_types::Url::parse(&format!("file:///home/{file}.{id}.jinja")).unwrap().to_string();
    let mut defs: Vec<Value> = d
        .defs
        .iter()
        .map(|v| {
            let r = moved(d, v.start, v.end, line);
            json!({"name": v.name, "identifierType": kind_of(v.kind), "start": r["start"], "end": r["end"]})
        })
        .collect();
    defs = sorted(defs);
    s.ask("variables".into(), json!(["getVariables", uri, line]), Want::Is(Value::from(defs)));
    let hinted = |name: &str| hints.iter().any(|h| *h == name || h.starts_with(&format!("{name}.")));
    let mut asked = std::collections::HashSet::new();
    for r in &d.refs {
        if !asked.insert(r.start) || r.role == Role::Arg || r.role == Role::Var && BUILTIN.contains(&r.name.as_str()) {
            continue;
        }
        for at in [r.start, r.end - 1] {
            let (l, c) = d.pos(at);
            let pos = json!({"line": l as u64 + line, "character": c});
            let hover = json!(["hover", id, file, line, pos]);
            let goto = json!(["gotoDefinition", id, file, line, pos]);
            let what = format!("'{}' at {}:{c}", r.name, l as u64 + line);
            let range = moved(d, r.start, r.end, line);
            match r.role {
                Role::Filter => s.ask(format!("hover on {what}"), hover, Want::Documentation(r.role, r.name.clone(), range)),
                Role::Var => {
                    let def = d.resolve(&r.name, at);
                    let known = hinted(&r.name);
                    let want = match def {
                        _ if known => Want::Hint(r.name.clone()),
                        Some(def) => Want::Hover(format!("{}\n\n---\n**{}**", def.kind.detail(), r.name), range),
                        None => Want::Nothing,
                    };
                    s.ask(format!("hover on {what}"), hover, want);
                    let want = match def {
                        Some(def) => {
                            Want::Is(json!([{"uri": file, "range": moved(d, def.start, def.end, line), "isBackend": false, "name": ""}]))
                        }
                        None if known => Want::Links,
                        None => Want::Nothing,
                    };
                    s.ask(format!("definition of {what}"), goto, want);
                }
                Role::Test | Role::Block | Role::Arg => {}
            }
        }
    }
    for e in d.exprs.iter().filter(|e| e.2) {
        let (l, c) = d.pos(e.0 + 3);
        let pos = json!({"line": l as u64 + line, "character": c});
        let mut names: Vec<(String, String)> = vec![];
        for v in d.visible(e.0 + 3) {
            if !names.iter().any(|n| n.0 == v.name) {
                names.push((v.name.clone(), v.kind.detail().to_string()));
            }
        }
        let want = if hints.is_empty() { Want::Names(names) } else { Want::Any };
        s.ask(format!("completion at {}:{c}", l as u64 + line), json!(["complete", id, file, line, pos]), want);
    }
    if let Some(text) = case["end"].as_str() {
        let (l, c) = d.pos(d.text.len());
        let pos = json!({"line": l as u64 + line, "character": c});
        let want = if text.ends_with('|') { Want::Filters } else { Want::Any };
        s.ask(format!("completion at {}:{c}", l as u64 + line), json!(["complete", id, file, line, pos]), want);
    }
    // Above and behind the template.
    if line > 0 {
        for method in ["hover", "gotoDefinition", "complete"] {
            let pos = json!({"line": line - 1, "character": 0});
            s.ask(format!("{method} above the template"), json!([method, id, file, line, pos]), Want::Nothing);
        }
    }
    for method in ["hover", "gotoDefinition", "complete"] {
        let pos = json!({"line": line + 500, "character": 3});
        s.ask(format!("{method} behind the template"), json!([method, id, file, line, pos]), Want::Any);
    }
}

/// The links of a template: the uses that are hints, without and with the definitions of that name.
fn links(d: &Doc, hints: &[&str], line: u64) -> (Vec<Value>, Vec<Value>) {
    let (mut uses, mut all) = (vec![], vec![]);
    for r in d.refs.iter().filter(|r| matches!(r.role, Role::Var | Role::Block | Role::Arg)) {
        let chain = &d.text[r.start..r.chain_end];
        for _ in hints.iter().filter(|h| **h == chain) {
            let p = moved(d, r.start, r.chain_end, line);
            let link = json!({"start": p["start"], "end": p["end"], "name": r.name, "identifierType": 11});
            if r.role == Role::Var && !d.defs.iter().any(|v| v.start == r.start) {
                uses.push(link.clone());
            }
            all.push(link);
        }
    }
    (uses, all)
}

fn sort(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::from(sorted(a.clone())),
        v => v.clone(),
    }
}

fn judge(want: &Want, got: &Value, hints: &[&str]) -> Result<(), String> {
    let nothing = got.is_null() || *got == json!([]);
    if got.get("thrown").is_some() {
        return Err(format!("an exception: {got}"));
    }
    match want {
        Want::Any => Ok(()),
        Want::Nothing if nothing => Ok(()),
        Want::Nothing => Err(format!("expected nothing, got {got}")),
        Want::Is(v) if *v == sort(got) || nothing && *v == json!([]) => Ok(()),
        Want::Is(v) => Err(format!("expected {v}, got {got}")),
        Want::Between(least, most) => {
            let mut got = got.as_array().cloned().unwrap_or_default();
            let mut take = |v: &Value| got.iter().position(|g| g == v).map(|i| got.remove(i));
            if least.iter().all(|v| take(v).is_some()) && {
                let mut more = most.clone();
                for v in least {
                    more.remove(more.iter().position(|m| m == v).unwrap());
                }
                got.iter().all(|g| more.contains(g))
            } {
                return Ok(());
            }
            Err(format!("expected {}, got {}", json!(least), json!(got)))
        }
        Want::Hover(text, range) if got["value"] == *text && got["range"] == *range => Ok(()),
        Want::Hover(text, range) => Err(format!("expected {text:?} at {range}, got {got}")),
        Want::Documentation(role, name, range) => {
            if documentation(*role, name).is_some_and(|t| got["value"] == t) && got["range"] == *range {
                return Ok(());
            }
            Err(format!("expected the documentation of {name} at {range}, got {got}"))
        }
        Want::Hint(name) => {
            let ok = |h: &&&str| **h == name || h.starts_with(&format!("{name}."));
            if hints.iter().filter(ok).any(|h| got["value"] == format!("about {h}")) {
                return Ok(());
            }
            Err(format!("expected what the hint says, got {got}"))
        }
        Want::Names(names) => {
            let mut have: Vec<(String, String)> = vec![];
            for i in got.as_array().into_iter().flatten() {
                if i["completionType"] != 1 || i["kind"] != 0 {
                    return Err(format!("an item of another kind: {i}"));
                }
                have.push((i["label"].as_str().unwrap_or("?").into(), i["description"].as_str().unwrap_or("?").into()));
            }
            // One of the visible definitions gives the description.
            let mut a: Vec<&String> = have.iter().map(|h| &h.0).collect();
            let mut b: Vec<&String> = names.iter().map(|h| &h.0).collect();
            a.sort();
            b.sort();
            if a == b {
                Ok(())
            } else {
                Err(format!("expected {b:?}, got {a:?}"))
            }
        }
        Want::Filters => {
            let mut have: Vec<&str> = got.as_array().into_iter().flatten().filter_map(|i| i["label"].as_str()).collect();
            have.sort_unstable();
            let mut all = super::complete::FILTERS;
            all.sort_unstable();
            if have == all && got.as_array().unwrap().iter().all(|i| i["completionType"] == 0 && i["kind"] == 1) {
                return Ok(());
            }
            Err(format!("expected the filters, got {have:?}"))
        }
        Want::Links => {
            let ok = got.as_array().is_some_and(|a| !a.is_empty() && a.iter().all(|l| l["isBackend"] == true));
            if ok {
                Ok(())
            } else {
                Err(format!("expected links to the backend, got {got}"))
            }
        }
    }
}

/// Every sequence of up to `n` of these.
fn sequences_of(all: &[usize], n: usize, f: &mut dyn FnMut(&[usize])) {
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        level = level.iter().flat_map(|s| all.iter().map(|o| [s.clone(), vec![*o]].concat())).collect();
        level.iter().for_each(|s| f(s));
    }
}

/// Links in Python: the chains of names that are hints.
fn python(w: &World, case: &Value, rec: &mut Rec) {
    let at = case["at"].as_u64().unwrap() as usize;
    let (file, id, line, _) = PLACES_IN_FILE[at];
    let hints = PYTHON_HINTS[case["hints"].as_u64().unwrap() as usize];
    let (mut text, mut chains) = (String::new(), vec![]);
    for o in case["py"].as_array().unwrap() {
        let mut start = 0;
        for c in PYTHON[o.as_u64().unwrap() as usize].chars() {
            match c {
                '<' => start = text.len(),
                '>' => chains.push((start, text.len())),
                c => text.push(c),
            }
        }
        text.push('\n');
    }
    rec.state(&(&text, at, hints));
    let mut want = vec![];
    for (start, end) in chains {
        for _ in hints.iter().filter(|h| **h == &text[start..end]) {
            let p = |o: usize| {
                let (l, c) = pos_of(&text, o);
                json!({"line": l as u64 + line, "character": c})
            };
            want.push(json!({"start": p(start), "end": p(end), "name": text[start..end], "identifierType": 11}));
        }
    }
    if !want.is_empty() {
        rec.nontrivial += 1;
    }
    let actions: Vec<Value> = hints.iter().map(|h| json!({"name": h, "description": "d"})).collect();
    let calls = [
        json!(["saveLinkHint", actions]),
        json!(["addOne", id, file, text, line, "py"]),
        json!(["removeTempLinkHint"]),
        json!(["addOne", id, file, text, line, "py"]),
        json!(["deleteAll", file]),
    ];
    rec.transitions += calls.len() as u64;
    let Some(got) = call(w.history.len() <= 1, &calls) else {
        rec.fail("the process ended", format!("the Node process ended on {}", Value::from(calls.to_vec())));
        return;
    };
    for (k, want) in [(1, Want::Is(Value::from(sorted(want)))), (3, Want::Is(json!([])))] {
        rec.validated += 1;
        rec.outcome(&got[k].to_string());
        if let Err(e) = judge(&want, &got[k], hints) {
            rec.fail(format!("links of {text:?} {at} {hints:?}"), format!("links of {text:?} (place {at}, hints {hints:?}): {e}"));
        }
    }
}

impl Check for Bindings {
    fn id(&self) -> &'static str {
        "C21"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        let names = |s: &[usize]| s.iter().map(|o| OPS[*o]).collect::<Vec<_>>();
        let all: Vec<usize> = (0..OPS.len()).collect();
        for at in 0..PLACES_IN_FILE.len() {
            sequences(&[], &all, 2, &mut |s| f(json!({"ops": names(s), "at": at})));
        }
        for gap in 1..GAPS.len() {
            sequences(&[], &all, if th { 2 } else { 1 }, &mut |s| f(json!({"ops": names(s), "at": 2, "gap": gap, "style": gap})));
        }
        sequences(&[], &small(), if th { 5 } else { 4 }, &mut |s| {
            if s.len() > 2 {
                f(json!({"ops": names(s), "at": 1}))
            }
        });
        for e in expressions(1) {
            for place in 0..EXPR_PLACES {
                f(json!({"e": e, "place": place, "at": 2, "gap": 2}));
            }
        }
        let statements: Vec<usize> = (0..PYTHON.len()).collect();
        for h in 0..PYTHON_HINTS.len() {
            for at in 0..PLACES_IN_FILE.len() {
                sequences_of(&statements, if th { 3 } else { 2 }, &mut |s| f(json!({"py": s, "hints": h, "at": at})));
            }
        }
        for end in ENDS {
            for at in 0..PLACES_IN_FILE.len() {
                sequences(&[], &small(), if th { 3 } else { 2 }, &mut |s| f(json!({"ops": names(s), "at": at, "gap": at % 3, "end": end})));
            }
        }
        // Links to the backend.
        for h in 0..HINTS.len() {
            for e in expressions(1) {
                f(json!({"e": e, "place": 0, "at": 2, "gap": 2, "hints": h}));
            }
            sequences(&[], &all, if th { 2 } else { 1 }, &mut |s| f(json!({"ops": names(s), "at": 1, "gap": 2, "hints": h})));
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        let th = tier == Tier::Thorough;
        format!(
            "every legal sequence of <=2 of {} constructs at {} places of a file (number of the template, line, column), of <={} of {} \
             scoping constructs, of <={} constructs with {} kinds of surrounding text, every expression nested 1 deep in {EXPR_PLACES} \
             places, and with each of {} sets of hints, and with {} unfinished ends; after each: variables, hover and definition of every name, completion in empty \
             expressions, positions above and behind, the same again after the hints are removed and for a second template, and nothing \
             after all are deleted; links in every sequence of <={} of {} Python statements with each of {} sets of hints. A case is non-trivial if the template has a name.",
            OPS.len(), PLACES_IN_FILE.len(), if th { 5 } else { 4 }, small().len(), if th { 2 } else { 1 }, GAPS.len() - 1, HINTS.len(), ENDS.len(), if th { 3 } else { 2 }, PYTHON.len(), PYTHON_HINTS.len()
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        if w.history.len() > 200 || NODE.with(|n| n.borrow().is_none()) {
            let last = w.history.pop();
            w.history.clear();
            w.history.extend(last);
        }
        if case["py"].is_array() {
            return python(w, case, rec);
        }
        let d = document(case);
        let at = case["at"].as_u64().unwrap_or(0) as usize;
        let (file, id, line, column) = PLACES_IN_FILE[at];
        let content = &d.text[column as usize..];
        rec.state(&(&d.text, at, case["hints"].as_u64()));
        if !d.refs.is_empty() {
            rec.nontrivial += 1;
        }
        let mut s = Script { calls: vec![], wants: vec![] };
        let hints: &[&str] = case["hints"].as_u64().map_or(&[], |h| HINTS[h as usize]);
        let add = |text: &str| json!(["addOne", id, file, text, line, "jinja", column]);
        // An earlier version of the template and another template of the same file leave nothing.
        s.ask("an earlier version".into(), add("{% set b = 1 %}\n{{ b }}"), Want::Is(json!([])));
        s.ask("deletion".into(), json!(["deleteAll", file]), Want::Nothing);
        if !hints.is_empty() {
            let actions: Vec<Value> = hints.iter().map(|h| json!({"name": h, "description": format!("about {h}")})).collect();
            s.ask("hints".into(), json!(["saveLinkHint", actions]), Want::Nothing);
            let (uses, all) = links(&d, hints, line);
            s.ask("links".into(), add(content), Want::Between(uses, all));
            questions(&d, case, hints, &mut s);
            s.ask("hints removed".into(), json!(["removeTempLinkHint"]), Want::Nothing);
        }
        s.ask("links".into(), add(content), Want::Is(json!([])));
        questions(&d, case, &[], &mut s);
        // Another template of the file does not know the names of this one, nor is a file of a
        // longer name deleted with it.
        let (id2, line2) = (id + 1, line + 40);
        let one = |id: u64, file: &str, text: &str, line: u64| json!(["addOne", id, file, text, line, "jinja"]);
        s.ask("another template".into(), one(id2, file, "{{ a }}{{ b }}{{ d }}{% set q = 1 %}{{ q }}", line2), Want::Is(json!([])));
        for column in [3, 10, 17] {
            let pos = json!({"line": line2, "character": column});
            s.ask("definition in another template".into(), json!(["gotoDefinition", id2, file, line2, pos]), Want::Nothing);
        }
        let pos = |c: u64| json!({"line": line2, "character": c});
        let there = json!([{"uri": file, "range": {"start": pos(28), "end": pos(29)}, "isBackend": false, "name": ""}]);
        s.ask("definition of its own".into(), json!(["gotoDefinition", id2, file, line2, pos(39)]), Want::Is(there));
        questions(&d, case, &[], &mut s);
        let longer = format!("{file}2");
        s.ask("a file of a longer name".into(), one(id, &longer, "{% set q = 1 %}", line), Want::Is(json!([])));
        s.ask("deletion".into(), json!(["deleteAll", file]), Want::Nothing);
        let end = Doc::new(PLAIN);
        questions(&end, &json!({"at": case["at"]}), &[], &mut s);
        let key = |id: u64, file: &str| tower_lsp::lsp_types::Url::parse(&format!("file:///home/{file}.{id}.jinja")).unwrap().to_string();
        s.ask("another template, deleted".into(), json!(["getVariables", key(id2, file), line2]), Want::Nothing);
        let pos = |c: u64| json!({"line": line, "character": c});
        let q = json!([{"name": "q", "identifierType": 3, "start": pos(7), "end": pos(8)}]);
        s.ask("a file of a longer name, not deleted".into(), json!(["getVariables", key(id, &longer), line]), Want::Is(q));
        s.ask("deletion".into(), json!(["deleteAll", longer]), Want::Nothing);
        let uses = rec.transitions;
        rec.transitions = uses + s.calls.len() as u64;
        let Some(got) = call(w.history.len() <= 1, &s.calls) else {
            rec.fail("the process ended", format!("the Node process ended on {}", Value::from(s.calls.clone())));
            return;
        };
        for ((what, want), got) in s.wants.iter().zip(&got) {
            rec.validated += 1;
            rec.outcome(&got.to_string());
            if let Err(e) = judge(want, got, hints) {
                rec.fail(format!("{what} {:?} {at} {hints:?}", d.text), format!("{what} of {:?} (place {at}, hints {hints:?}): {e}", d.text));
            }
        }
    }
}
