//! C05 lint, C06 symbols, C07 definition, C08 hover, C09 variable completion: every template of
//! the bounded spaces, opened in the real server, against the reference model.
use super::complete::{FILTERS, TESTS};
use super::space::*;
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Dim {
    Lint,
    Symbols,
    Goto,
    Hover,
    Complete,
}

pub struct Meaning(pub Dim);

pub const OTHER: &str = "{% set d = 1 %}\n{% block blk %}{% endblock %}";
pub const BACKEND: &str = "fn main() {\n    let c = context! { b => 1 };\n}\n";

pub fn ext(w: &World) -> Vec<Ext> {
    vec![
        Ext {
            name: "b".into(),
            uri: w.uri("src/main.rs"),
            range: range_of(BACKEND, BACKEND.find("b =>").unwrap(), BACKEND.find("b =>").unwrap() + 1),
            backend: true,
        },
        Ext { name: "d".into(), uri: w.uri("templates/other.html"), range: range_of(OTHER, 7, 8), backend: false },
    ]
}

pub fn session(w: &mut World) -> Session {
    w.with_session(
        &[("templates/other.html", OTHER), ("src/main.rs", BACKEND)],
        |w| Session::new(Opts { options: w.options("rust"), client: None, initialized: true }),
    )
}

/// The document of a case.
pub fn doc(case: &Value) -> Doc {
    let n = |k: &str| case[k].as_u64().unwrap_or(0) as usize;
    if let Some(e) = case["e"].as_str() {
        return expr_doc(e, n("at"), n("style"), n("gap"), n("names"));
    }
    if let Some(what) = case["big"].as_str() {
        return big(what, n("n"), case["nested"] == true, n("gap"));
    }
    if let Some(what) = case["many"].as_str() {
        return many(what, n("n"));
    }
    let ops: Vec<usize> =
        case["ops"].as_array().unwrap().iter().map(|o| op(o.as_str().unwrap())).collect();
    build(&ops, n("style"), n("gap"), n("names"))
}

fn seq_case(ops: &[usize], style: usize, gap: usize) -> Value {
    json!({"ops": ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>(), "style": style, "gap": gap})
}

/// Alphabet without the constructs that only carry text.
pub fn core() -> Vec<usize> {
    (0..BASIC).filter(|o| !matches!(OPS[*o], "text" | "comment")).collect()
}

/// Fewer constructs, for deeper sequences.
pub fn small() -> Vec<usize> {
    ["{{a}}", "{{b}}", "set a", "close", "for a in b", "if a", "else", "with a=b", "macro a(b)", "block a"]
        .iter()
        .map(|n| op(n))
        .collect()
}

pub fn enumerate_space(tier: Tier, everywhere: bool, f: &mut dyn FnMut(Value)) {
    let all: Vec<usize> = (0..BASIC).collect();
    let t = tier == Tier::Thorough;
    // 1. every sequence over all constructs
    sequences(&[], &all, if t { 4 } else { 3 }, &mut |s| f(seq_case(s, 0, 0)));
    // 2. deeper sequences over the scoping constructs
    sequences(&[], &small(), if t { 6 } else { 5 }, &mut |s| {
        if s.len() > 3 {
            f(seq_case(s, 0, 0))
        }
    });
    // 3. other starting points
    for p in prefixes() {
        sequences(&p, &core(), if t { 3 } else { 2 }, &mut |s| f(seq_case(s, 0, 0)));
    }
    // 4. ways of writing the same, and text of every UTF-8 length around
    for style in 0..STYLES.len() {
        for gap in 0..GAPS.len() {
            if style == 0 && gap == 0 {
                continue;
            }
            sequences(&[], &core(), if t { 3 } else { 2 }, &mut |s| f(seq_case(s, style, gap)));
        }
    }
    // 5. expressions in every place
    for e in expressions(if t { 2 } else { 1 }) {
        for at in 0..PLACES {
            f(json!({"e": e, "at": at, "style": 0, "gap": 0}));
            if t {
                f(json!({"e": e, "at": at, "style": 2, "gap": 2}));
            }
        }
    }
    // 6. other names
    for names in 1..NAMES.len() {
        let named = |mut c: Value| {
            c["names"] = json!(names);
            c
        };
        sequences(&[], &core(), if t { 3 } else { 2 }, &mut |s| f(named(seq_case(s, 0, 0))));
        for p in prefixes() {
            sequences(&p, &core(), 1, &mut |s| f(named(seq_case(s, 0, 0))));
        }
        for e in expressions(1) {
            f(named(json!({"e": e, "at": 0, "style": 0, "gap": 0})));
            if t {
                f(named(json!({"e": e, "at": 4, "style": 0, "gap": 0})));
            }
        }
    }
    // 7. the rarer constructs
    let whole: Vec<usize> = (0..OPS.len()).collect();
    let rare = |s: &[usize]| s.iter().any(|o| *o >= BASIC);
    sequences(&[], &whole, if t { 3 } else { 2 }, &mut |s| {
        for style in 0..STYLES.len() {
            if rare(s) {
                f(seq_case(s, style, style % GAPS.len()));
            }
        }
    });
    for p in prefixes() {
        sequences(&p, &whole, 2, &mut |s| {
            if rare(s) {
                f(seq_case(s, 0, 0))
            }
        });
    }
    // 8. rarer expressions
    for (k, e) in rare_expressions(t).into_iter().enumerate() {
        for at in (0..PLACES).filter(|at| !(matches!(at, 1 | 3 | 5) && e.starts_with('-'))) {
            // In some of the places where a case takes longer.
            if !t && !everywhere && at != 0 && at % 4 != k % 4 {
                continue;
            }
            f(json!({"e": e, "at": at, "style": 0, "gap": 0}));
        }
    }
    // 9. templates of a size
    for what in BIG {
        for nested in [false, true] {
            for gap in 0..GAPS.len() {
                for n in 5..=if t { 60 } else { 20 } {
                    f(json!({"big": what, "n": n, "nested": nested, "gap": gap}));
                }
                f(json!({"big": what, "n": 70, "nested": nested, "gap": gap}));
            }
        }
    }
    for what in MANY {
        for n in (1..=16).chain(if t { vec![31, 32, 33, 64, 100, 256, 300, 400] } else { vec![33, 64, 100, 300] }) {
            f(json!({"many": what, "n": n}));
        }
    }
    if !t {
        for e in expressions(2) {
            f(json!({"e": e, "at": 0, "style": 0, "gap": 0}));
        }
    }
}

pub fn space_bounds(tier: Tier) -> String {
    let (a, b, c) = if tier == Tier::Thorough { (4, 6, 3) } else { (3, 5, 2) };
    format!(
        "every legal sequence of <={a} of {} constructs (names from {{a,b,d}}, unclosed ones included); \
         every sequence of <={b} of the {} scoping constructs; every sequence of <={c} constructs after \
         each of {} starting points, and in each of {} ways of writing x {} kinds of surrounding text; \
         every expression of {} shapes over {} atoms nested 1 (quick) or 2 deep in {} places, 2 deep in \
         {{{{ }}}}; every sequence of <={c} constructs and every expression nested 1 deep with {} other sets of names (digits, \
         underscores, beginnings of each other, words that begin with keywords, names of filters and tests); every sequence \
         of <={c} constructs with at least one of {} rarer ones in {} ways of writing, and after each of the starting points; every expression with one of {} rarer shapes or {} rarer atoms \
         in every place (C05, thorough; else in {{{{ }}}} and two or three of the others); each of {} constructs repeated and nested 5 to {} and 70 times in each kind of text, and 1 to 300 names \
         at once in {} ways. A case is \
         non-trivial if the template has a name to resolve.",
        BASIC, small().len(), prefixes().len(), STYLES.len(), GAPS.len(), SHAPES.len(),
        ATOMS.len(), PLACES, NAMES.len() - 1, OPS.len() - BASIC, STYLES.len(), SHAPES2.len(), ATOMS2.len(), BIG.len(),
        if tier == Tier::Thorough { 60 } else { 20 }, MANY.len()
    )
}

/// The documentation of a filter or a test: the text the repository keeps for it.
pub fn documentation(role: Role, name: &str) -> Option<String> {
    let src = "/repo/jinja-lsp/src";
    let file = if role == Role::Filter {
        format!("{src}/filter/md/filters/{name}.md")
    } else {
        format!("{src}/template_tests/md/is_{name}.md")
    };
    std::fs::read_to_string(file).ok()
}

impl Check for Meaning {
    fn id(&self) -> &'static str {
        match self.0 {
            Dim::Lint => "C05",
            Dim::Symbols => "C06",
            Dim::Goto => "C07",
            Dim::Hover => "C08",
            Dim::Complete => "C09",
        }
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        enumerate_space(tier, self.0 == Dim::Lint, f);
        if self.0 == Dim::Hover {
            // Every filter and every test.
            for at in 0..PLACES {
                for style in 0..STYLES.len() {
                    for name in FILTERS {
                        f(json!({"e": format!("$a|@{name}"), "at": at, "style": style, "gap": 2}));
                    }
                    for name in TESTS {
                        f(json!({"e": format!("$a is ?{name}"), "at": at, "style": style, "gap": 2}));
                    }
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        space_bounds(tier)
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let d = doc(case);
        let ext = ext(w);
        let uri = w.uri("templates/t.html");
        let mut s = session(w);
        s.open(&uri, &d.text);
        s.settle(1);
        rec.transitions += 1;
        rec.state(&d.text);
        if d.refs.iter().any(|r| r.role == Role::Var) {
            rec.nontrivial += 1;
        }
        let key = |what: &str| format!("{what} {:?}", d.text);
        match self.0 {
            Dim::Lint => {
                let got = norm_diags(s.inbox.diags.get(&uri).map_or(&[], |v| v));
                let want = norm_diags(&d.lint(&ext));
                rec.outcome(&want.len());
                rec.outcome(&got.iter().map(|g| g["message"].to_string()).collect::<Vec<_>>());
                let (want, got) = (Value::from(want), Value::from(got));
                rec.eq(key("lint"), &format!("diagnostics of {:?}", d.text), &want, &got);
                if !s.inbox.diags.contains_key(&uri) {
                    rec.fail(key("lint"), format!("no diagnostics were published for {:?}", d.text));
                }
            }
            Dim::Symbols => {
                let got = s.symbols(&uri);
                rec.transitions += 1;
                let want = Value::from(d.symbols());
                rec.outcome(&want.as_array().unwrap().len());
                rec.outcome(&d.defs.iter().map(|d| d.kind.symbol()).collect::<Vec<_>>());
                let got = Value::from(norm_symbols(&got));
                rec.eq(key("symbols"), &format!("symbols of {:?}", d.text), &want, &got);
            }
            Dim::Goto => self.goto(&d, &ext, &uri, &mut s, rec),
            Dim::Hover => self.hover(&d, &ext, &uri, &mut s, rec),
            Dim::Complete => self.complete(&d, &ext, &uri, &mut s, rec),
        }
        s.inbox.responses.clear();
        s.inbox.published.clear();
        w.give_back(s);
    }
}

impl Meaning {
    fn offsets(a: usize, b: usize) -> Vec<usize> {
        let mut v = vec![a];
        if b - a > 1 {
            v.push(b - 1);
        }
        v
    }

    pub fn goto(&self, d: &Doc, ext: &[Ext], uri: &str, s: &mut Session, rec: &mut Rec) {
        for r in &d.refs {
            if !matches!(r.role, Role::Var | Role::Arg) || BUILTIN.contains(&r.name.as_str()) {
                continue;
            }
            if r.role == Role::Arg {
                continue;
            }
            for at in Self::offsets(r.start, r.end) {
                let (l, c) = d.pos(at);
                let got = s.goto(uri, l, c);
                rec.transitions += 1;
                let (want, got) = match d.resolve(&r.name, at) {
                    Some(def) => {
                        rec.outcome(&def.kind.detail());
                        (json!({"uri": uri, "range": d.range(def.start, def.end)}), got)
                    }
                    None => {
                        let e: Vec<Value> = ext
                            .iter()
                            .filter(|e| e.name == r.name)
                            .map(|e| json!({"uri": e.uri, "range": e.range}))
                            .collect();
                        rec.outcome(&e.len());
                        let got = match got {
                            Value::Null => json!([]),
                            Value::Array(a) => Value::from(sorted(a)),
                            g => g,
                        };
                        (Value::from(sorted(e)), got)
                    }
                };
                rec.eq(
                    format!("goto {:?} {at}", d.text),
                    &format!("definition of '{}' at {l}:{c} in {:?}", r.name, d.text),
                    &want,
                    &got,
                );
            }
        }
        // Literal text defines nothing.
        for t in d.texts.iter().take(2) {
            let (l, c) = d.pos(d.inside(t));
            if t.1 - t.0 < 2 {
                continue;
            }
            let got = s.goto(uri, l, c);
            if !(got.is_null() || got == json!([])) {
                rec.fail(format!("goto-text {:?}", d.text), format!("a definition in plain text at {l}:{c} of {:?}: {got}", d.text));
            }
        }
    }

    pub fn hover(&self, d: &Doc, ext: &[Ext], uri: &str, s: &mut Session, rec: &mut Rec) {
        for r in &d.refs {
            if r.role == Role::Arg || r.role == Role::Var && BUILTIN.contains(&r.name.as_str()) {
                continue;
            }
            if r.role == Role::Test && ["in", "filter"].contains(&r.name.as_str()) {
                continue; // keywords
            }
            for at in Self::offsets(r.start, r.end) {
                let (l, c) = d.pos(at);
                let got = s.hover(uri, l, c);
                rec.transitions += 1;
                rec.validated += 1;
                let key = format!("hover {:?} {at}", d.text);
                let what = format!("hover on '{}' at {l}:{c} in {:?}", r.name, d.text);
                match r.role {
                    Role::Filter | Role::Test => {
                        rec.outcome(&r.name);
                        let want = documentation(r.role, &r.name);
                        let got_text = got["contents"]["value"].as_str();
                        let titled = r.role == Role::Test
                            || got_text.is_some_and(|s| s.starts_with(&format!("**{}**", r.name)));
                        if want.as_deref() != got_text || !titled {
                            rec.fail(key, format!("{what}: expected the documentation of {:?} {}, got {got}", r.role, r.name));
                        }
                    }
                    Role::Block => {
                        if !got.is_null() {
                            rec.fail(key, format!("{what}: a block is not a variable, got {got}"));
                        }
                    }
                    _ => {
                        let want = match d.resolve(&r.name, at) {
                            Some(def) => Some(def.kind.detail()),
                            None => ext.iter().find(|e| e.name == r.name).map(|_| "Backend variable"),
                        };
                        rec.outcome(&want);
                        let g = got["contents"]["value"].as_str();
                        if g != want || (want.is_none() && !got.is_null()) {
                            rec.fail(key, format!("{what}: expected {want:?}, got {got}"));
                        }
                    }
                }
            }
        }
        for t in d.texts.iter().take(2) {
            if t.1 - t.0 < 2 {
                continue;
            }
            let (l, c) = d.pos(d.inside(t));
            let got = s.hover(uri, l, c);
            if !got.is_null() {
                rec.fail(format!("hover-text {:?}", d.text), format!("a hover in plain text at {l}:{c} of {:?}: {got}", d.text));
            }
        }
    }

    pub fn complete(&self, d: &Doc, ext: &[Ext], uri: &str, s: &mut Session, rec: &mut Rec) {
        let ask = |at: usize, prefix: Option<(&str, usize, usize)>, rec: &mut Rec, s: &mut Session| {
            let (l, c) = d.pos(at);
            let got = s.complete(uri, l, c);
            rec.transitions += 1;
            rec.validated += 1;
            let key = format!("complete {:?} {at}", d.text);
            let what = format!("completion at {l}:{c} in {:?}", d.text);
            let Some(items) = got.as_array() else {
                rec.fail(key, format!("{what}: no items, {got}"));
                return;
            };
            // Names of the template, each once, with the kind of one visible definition.
            let mut want: Vec<String> = vec![];
            let vis = d.visible(at);
            for v in &vis {
                if prefix.is_none_or(|p| v.name.starts_with(p.0)) && !want.contains(&v.name) {
                    want.push(v.name.clone());
                }
            }
            want.sort();
            let mut have = vec![];
            let mut backend = vec![];
            for i in items {
                let label = i["label"].as_str().unwrap_or("?").to_string();
                if i["detail"] == "Backend variable" {
                    backend.push(label);
                    continue;
                }
                if !vis.iter().any(|v| v.name == label && i["detail"] == v.kind.detail() && i["kind"] == v.kind.item()) {
                    rec.fail(key.clone(), format!("{what}: '{label}' offered as {} {}", i["detail"], i["kind"]));
                }
                if let Some((_, a, b)) = prefix {
                    // Accepting it replaces the name being written, and nothing else.
                    let e = &i["textEdit"];
                    let mut edited = apply(&d.text, &e["replace"], e["newText"].as_str().unwrap_or("?"));
                    let expected = format!("{}{}{}", &d.text[..a], label, &d.text[b..]);
                    if edited == expected {
                        edited = apply(&d.text, &e["insert"], e["newText"].as_str().unwrap_or("?"));
                    }
                    if edited != expected {
                        rec.fail(key.clone(), format!("{what}: accepting '{label}' gives {edited:?}"));
                    }
                }
                have.push(label);
            }
            have.sort();
            rec.outcome(&want);
            if have != want {
                rec.fail(key.clone(), format!("{what}: expected {want:?}, got {have:?}"));
            }
            backend.sort();
            let mut b: Vec<String> = ext.iter().filter(|e| e.backend).map(|e| e.name.clone()).collect();
            b.sort();
            if backend != b {
                rec.fail(key, format!("{what}: expected backend variables {b:?}, got {backend:?}"));
            }
        };
        for e in d.exprs.iter().filter(|e| e.2) {
            ask(e.0 + 3, None, rec, s);
        }
        for r in &d.refs {
            if r.role != Role::Var || !r.in_expr || BUILTIN.contains(&r.name.as_str()) {
                continue;
            }
            // Only a name without members is being written.
            if r.chain_end == r.end && !d.text[r.end..].starts_with('|') {
                ask(r.end, Some((&r.name, r.start, r.end)), rec, s);
            }
        }
    }
}
