//! C18: what one file defines, the others know. Two templates and a backend file, each with one
//! of several texts, in every order of opening and after changes, against the reference model
//! with the definitions of the other files.
use super::meaning::{Dim, Meaning};
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};

pub struct Across;

const TEMPLATES: usize = 9;

fn template(k: usize) -> Doc {
    let mut d = Doc::new(PLAIN);
    match k {
        0 => {
            d.expr("$a");
            d.expr("$b");
            d.expr("$d");
        }
        1 => {
            d.set("a", "1");
            d.expr("$b");
            d.expr("$d");
            d.expr("$a");
        }
        2 => {
            d.for_("b", None, "$a");
            d.expr("$b");
            d.close();
            d.expr("$b");
            d.empty_expr();
        }
        3 => {
            d.macro_("d", &[("a", None)]);
            d.expr("$a");
            d.close();
            d.expr("$a");
            d.expr("$d($b)");
        }
        4 => {
            d.block("a", false);
            d.expr("$a");
            d.close();
            d.expr("$a|@upper");
        }
        5 => {
            d.lit("é\r\n");
            d.set("a", "1");
            d.lit("\r\n😀");
            d.set("a", "$b");
            d.expr("$a.x");
            d.empty_expr();
        }
        6 => d.lit("a b d\n"),
        7 => {
            d.if_("$a");
            d.set("b", "1");
            d.else_();
            d.expr("$b");
            d.close();
            d.with(&[("d", "$b")]);
            d.close();
            d.expr("$d");
        }
        8 => {
            d.set_block("d");
            d.expr("$a");
            d.close();
            d.expr("$d");
            d.expr("$b");
            d.set("b", "$d");
        }
        _ => unreachable!(),
    }
    d
}

const RUST: [&str; 5] = [
    "fn main() {}\n",
    "fn main() {\n    let c = context! { $a => 1 };\n}\n",
    "fn f() {\n    // é😀\n    render(context! { $b => 1, $a => 2 });\n    let c = context! { $d };\n}\n",
    "fn main() {\n    jinja.add_global(\"$d\", 1); jinja.add_function(\"$b\", f);\n}\n",
    "fn main() {\r\n    let a = 1;\r\n    let s = \"😀\"; let c = context! { $b => 1 };\r\n}\r\n",
];
const PYTHON: [&str; 5] = [
    "pass\n",
    "x = render($a=1)\n",
    "def f():\n    # é😀\n    return render_template('x', $b=1, $a=2) + render($d=1)\n",
    "jinja_env.globals['$d'] = 1; jinja_env.filters['$b'] = f\n",
    "a = 1\r\ns = '😀'; c = render($b=a)\r\n",
];

/// Text, and the name and range of each variable.
fn backend(lang: &str, k: usize) -> (String, Vec<(String, Value)>) {
    let marked = if lang == "rust" { RUST[k] } else { PYTHON[k] };
    let text = marked.replace('$', "");
    let mut vars = vec![];
    for (n, (at, _)) in marked.match_indices('$').enumerate() {
        let start = at - n;
        // In Rust, the range includes the quotes of a string.
        let (a, b) = if lang == "rust" && text[..start].ends_with('"') && "'\"".contains(&text[start - 1..start]) { (start - 1, start + 2) } else { (start, start + 1) };
        vars.push((text[start..start + 1].to_string(), range_of(&text, a, b)));
    }
    (text, vars)
}

const NAMES: [&str; 2] = ["templates/t.html", "templates/u/v.jinja"];

struct Files {
    lang: String,
    uris: [String; 3],
    /// Which text each file has; None: no file.
    now: [Option<usize>; 3],
    hide: bool,
    diags: [Option<Vec<Value>>; 2],
}

impl Files {
    fn text(&self, d: usize, k: usize) -> String {
        if d < 2 {
            template(k).text
        } else {
            backend(&self.lang, k).0
        }
    }

    /// What the others define.
    fn ext(&self, d: usize) -> Vec<Ext> {
        let mut out = vec![];
        if let (Some(k), true) = (self.now[1 - d], d < 2) {
            let o = template(k);
            for def in o.defs.iter().filter(|d| d.kind != Kind::Block) {
                out.push(Ext {
                    name: def.name.clone(),
                    uri: self.uris[1 - d].clone(),
                    range: o.range(def.start, def.end),
                    backend: false,
                });
            }
        }
        if let Some(k) = self.now[2] {
            for (name, range) in backend(&self.lang, k).1 {
                out.push(Ext { name, uri: self.uris[2].clone(), range, backend: true });
            }
        }
        out
    }

    fn put(&mut self, d: usize, k: usize) {
        self.now[d] = Some(k);
        if d < 2 {
            let lint = if self.hide { vec![] } else { template(k).lint(&self.ext(d)) };
            self.diags[d] = Some(norm_diags(&lint));
        }
    }
}

impl Across {
    fn look(&self, f: &Files, s: &mut Session, key: &str, rec: &mut Rec) {
        for d in 0..2 {
            let Some(k) = f.now[d] else { continue };
            let doc = template(k);
            let uri = &f.uris[d];
            let got = norm_diags(s.inbox.diags.get(uri).map_or(&[], |v| v));
            rec.outcome(&got.iter().map(|d| d["severity"].to_string()).collect::<String>());
            rec.eq(
                format!("diagnostics {key}"),
                &format!("diagnostics of {:?} {key}", NAMES[d]),
                &Value::from(f.diags[d].clone().unwrap_or_default()),
                &Value::from(got),
            );
            let before = rec.fails.len();
            let ext = f.ext(d);
            rec.outcome(&ext.len());
            Meaning(Dim::Goto).goto(&doc, &ext, uri, s, rec);
            Meaning(Dim::Hover).hover(&doc, &ext, uri, s, rec);
            Meaning(Dim::Complete).complete(&doc, &ext, uri, s, rec);
            for fail in &mut rec.fails[before..] {
                fail.key = format!("{} {key}", fail.key);
                fail.msg = format!("{} ({key})", fail.msg);
            }
        }
    }
}

impl Check for Across {
    fn id(&self) -> &'static str {
        "C18"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        for lang in ["rust", "python"] {
            for a in 0..TEMPLATES {
                for b in 0..TEMPLATES {
                    for c in 0..RUST.len() {
                        for order in orders {
                            f(json!({"lang": lang, "texts": [a, b, c], "order": order, "hide": false}));
                        }
                        f(json!({"lang": lang, "texts": [a, b, c], "order": orders[0], "hide": true}));
                        if th || a <= b && (a + b + c) % 3 == 0 {
                            f(json!({"lang": lang, "texts": [a, b, c], "order": [], "hide": false}));
                        }
                        // One change (thorough: two).
                        let steps: Vec<[usize; 2]> = (0..3)
                            .flat_map(|d| (0..if d == 2 { RUST.len() } else { TEMPLATES }).map(move |k| [d, k]))
                            .filter(|[d, k]| [a, b, c][*d] != *k)
                            .collect();
                        for x in &steps {
                            f(json!({"lang": lang, "texts": [a, b, c], "order": orders[0], "hide": false, "changes": [x]}));
                            if !th {
                                continue;
                            }
                            for y in &steps {
                                if x != y {
                                    f(json!({"lang": lang, "texts": [a, b, c], "order": orders[4], "hide": false, "changes": [x, y]}));
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        let th = tier == Tier::Thorough;
        format!(
            "two templates of {TEMPLATES} texts each (uses, definitions of every kind, in and out of scope) and a Rust or Python file of {} \
             texts: every combination, opened in each of 6 orders, {} found on disk when the server starts, and with each {} of a \
             document to each other text; with and without hide_undefined. Diagnostics after each step, definition, hover and completion \
             of every name of both templates at the end. A case is non-trivial if a template uses a name another file defines.",
            RUST.len(), if th { "all" } else { "a quarter of them" }, if th { "one and two changes" } else { "change" }
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let lang = case["lang"].as_str().unwrap().to_string();
        let hide = case["hide"] == true;
        let texts: Vec<usize> = case["texts"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
        let order: Vec<usize> = case["order"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
        let source = if lang == "rust" { "src/main.rs" } else { "src/main.py" };
        let uris = [w.uri(NAMES[0]), w.uri(NAMES[1]), w.uri(source)];
        let mut f = Files { lang: lang.clone(), uris: uris.clone(), now: [None; 3], hide, diags: [None, None] };
        let make = |w: &World| {
            let mut o = w.options(&lang);
            o["hide_undefined"] = json!(hide);
            Session::new(Opts { options: o, client: None, initialized: true })
        };
        let disk = order.is_empty();
        let slot = format!("{lang} {hide}");
        if disk || w.extra.get("slot").is_some_and(|v| *v != json!(slot)) {
            w.reset();
        }
        w.extra.insert("slot".into(), json!(if disk { "disk" } else { &slot }));
        let key = case.to_string();
        rec.state(&key);
        let mut s;
        if disk {
            for (d, name) in [NAMES[0], NAMES[1], source].iter().enumerate() {
                w.write(name, &f.text(d, texts[d]));
                f.now[d] = Some(texts[d]);
            }
            for d in 0..2 {
                f.put(d, texts[d]);
            }
            s = make(w);
            s.settle(10);
            rec.transitions += 1;
        } else {
            s = w.with_session(&[("src/empty.txt", "")], make);
            for &d in &order {
                s.open(&uris[d], &f.text(d, texts[d]));
                s.settle(1);
                f.put(d, texts[d]);
                rec.transitions += 1;
            }
        }
        if (0..2).any(|d| {
            let ext = f.ext(d);
            template(texts[d]).refs.iter().any(|r| r.role == Role::Var && ext.iter().any(|e| e.name == r.name))
        }) {
            rec.nontrivial += 1;
        }
        for c in case["changes"].as_array().into_iter().flatten() {
            let (d, k) = (c[0].as_u64().unwrap() as usize, c[1].as_u64().unwrap() as usize);
            s.change(&uris[d], json!([{"text": f.text(d, k)}]));
            s.settle(300);
            f.put(d, k);
            rec.transitions += 1;
        }
        self.look(&f, &mut s, &key, rec);
        if disk {
            w.reset();
            return;
        }
        for &d in &order {
            s.close(&uris[d]);
        }
        s.settle(250);
        s.inbox = Default::default();
        w.give_back(s);
    }
}
