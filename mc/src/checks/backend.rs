//! C14, C15: the variables and template names of Rust and Python files.
use super::observe::boundaries;
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};

pub struct BackendFiles(pub &'static str);

/// `$a` and `$"a"`: a variable of the backend. `%a`: a name in a macro, which may count as one.
/// `@"a"`: a template name. `!a`: a name that is none of these. `Z` stands for nested code.
const RUST: [&str; 33] = [
    "let c = context! { $a => 1 };",
    "let c = context!($a, $b);",
    "let c = context![ $a => \"!x\", $b => [1, 2] ];",
    "render(&t, context! { $a => context! { $b => 1 }, $c });",
    "let c = minijinja::context! { $b => %user.%name };",
    "jinja.add_global($\"a\", 1);",
    "jinja.add_filter($\"b\", !f);",
    "jinja.add_function($\"c\", |x| !x);",
    "jinja.add_global($\"a b.c-é\", 1);",
    "jinja\n    .add_global(\n        $\"c\",\n        1,\n    );",
    "let t = env.get_template(@\"x.html\").unwrap();",
    "self.render_jinja(@\"y/é.html\", context! { $a => 1 });",
    "render_jinja(@\"x.html\");",
    "// context! { !a => 1 } jinja.add_global(\"!b\", 1)\n",
    "/* jinja.add_global(\"!a\", 1); */",
    "let s = \"context! { !a => 1 }\";",
    "let s = r#\"jinja.add_global(\"!b\", 1)\"#;",
    "let !a = !b;",
    "!a.!b(!c, \"!x\");",
    "jinja.render(\"!x\");",
    "fn !a(!b: u8) {}",
    "println!(\"!a {}\", 1);",
    "let c = context! {\n    $a => true, // !b\n    $b => %None::<%u8>,\n};",
    "match 1 { _ => context! { $b => 'x' } };",
    "!cache.add_global(\"!a\", 1);",
    "!env.jinja().add_filter(\"!b\", !f);",
    "jinja.add_template(\"!a\", \"!b\"); jinja.remove_global(\"!c\");",
    "add_global(\"!a\", 1); !x::add_function(\"!b\", 2);",
    "env.get_templates(\"!x\"); env.template(\"!y\");",
    "!context(!a, \"!b\"); let _ = !context2 { !c: 1 };",
    "let c = || { Z };",
    "if let Some(!x) = !y { Z } else { Z };",
    "f(async move { Z }.await)?;",
];
const RUST_PLACES: [&str; 5] = [
    "fn main() { Z }",
    "impl !A { #[test] pub async fn !g(&self) -> Result<(), ()> { Z } }",
    "mod !m { use std::!x; fn !g<'a, T: Into<u8>>() { Z } }",
    "#[get(\"/\")]\nasync fn !h() -> impl Into<u8> { Z }\nstruct !S { !a: u8 }",
    "const C: u8 = 1;\ntrait !T { fn !g() { loop { Z } } }",
];

const PYTHON: [&str; 34] = [
    "jinja_env.globals[$'a'] = 1",
    "jinja_env.globals[$\"b\"] = !f",
    "jinja_env.filters[$'c'] = lambda !x: !x",
    "x = jinja_env.globals[$'a']",
    "render_template('!x.html', $a=1, $b='!y')",
    "render($c=1)",
    "x = templates.render('!x', $a=[1, 2])",
    "x = app.render_template(\n    '!x',\n    $b=1,  # !c\n    $a={'!k': !v},\n)",
    "x = render($a=t.render($b=1), $c=2)",
    "x = render($b=f(!a=1), **!c)",
    "x = render(*!a, $c=1 if !b else 2)",
    "t = env.get_template(@'x.html')",
    "t = env.get_template(@\"y/é.html\")",
    "x = render_jinja(@'x.html', !a=1)",
    "t = env.get_template(r@\"y.html\")",
    "t = env.get_template(f\"{!a}/!y.html\")",
    "# render(!a=1)",
    "s = 'render(!a=1)'",
    "s = '''jinja_env.globals[\"!b\"] = 1'''",
    "!a = !b",
    "f(!a=1, !b=2)",
    "other.globals['!a'] = 1",
    "jinja_env.tests['!b'] = 1",
    "renders(!a=1)",
    "x['!a'] = globals['!b']",
    "x = [render($a=i) for i in y if i]",
    "x = pre_render(!a=1) + t.prerender_template(!b=2)",
    "x = render_all(!a=1) + t.renderer(!c=2)",
    "other.filters['!a'] = my_jinja_env.globals['!b']",
    "jinja_env.my_globals['!a'] = jinja_env.globals_x['!b']",
    "x = env.get_templates('!x') + prerender_jinja('!y')",
    "if x:\n    Z\nelse:\n    Z",
    "with f() as g:\n    Z",
    "try:\n    Z\nexcept E as e:\n    pass",
];
const PYTHON_PLACES: [&str; 5] = [
    "Z",
    "def !f(!a, !b=1):\n    Z",
    "class !A(!B):\n    !c: int = 1\n    async def !g(self):\n        Z",
    "@app.get('/')\ndef !h():\n    '''doc render(!a=1)'''\n    Z\n    return 1",
    "import !x\nfrom !y import !z\nif __name__ == '__main__':\n    Z",
];
const GAPS: [&str; 3] = ["", "é😀", "\r\n"];

#[derive(Default)]
struct Code {
    text: String,
    /// Name, start and end.
    vars: Vec<(String, usize, usize)>,
    may: Vec<(String, usize, usize)>,
    tpls: Vec<(String, usize, usize)>,
}

/// Puts `inner` in place of every Z, with its indentation.
fn nest(outer: &str, inner: &str) -> String {
    let mut out = String::new();
    for line in outer.split_inclusive('\n') {
        let indent: String = line.chars().take_while(|c| *c == ' ').collect();
        let inner = inner.replace('\n', &format!("\n{indent}"));
        out.push_str(&line.replace('Z', &inner));
    }
    out
}

fn code(lang: &str, marked: &str) -> Code {
    let mut c = Code::default();
    let cs: Vec<char> = marked.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let m = cs[i];
        let next = cs.get(i + 1).copied().unwrap_or(' ');
        let word = |c: char| c.is_alphanumeric() || c == '_';
        if !"$%@!".contains(m) || !(word(next) && m != '@' || "\"'".contains(next) && "$@".contains(m)) {
            c.text.push(m);
            i += 1;
            continue;
        }
        i += 1;
        let mut name = String::new();
        let start = c.text.len();
        let mut range = (start, start);
        if word(next) {
            while i < cs.len() && word(cs[i]) {
                name.push(cs[i]);
                i += 1;
            }
            c.text.push_str(&name);
            range.1 = c.text.len();
        } else {
            c.text.push(next);
            i += 1;
            while cs[i] != next {
                name.push(cs[i]);
                i += 1;
            }
            i += 1;
            c.text.push_str(&name);
            c.text.push(next);
            range.1 = c.text.len();
            if lang == "python" && m == '$' {
                range = (range.0 + 1, range.1 - 1);
            }
        }
        match m {
            '$' => c.vars.push((name, range.0, range.1)),
            '%' => c.may.push((name, range.0, range.1)),
            '@' => c.tpls.push((name, range.0, range.1)),
            _ => {}
        }
    }
    c
}

const USES: [&str; 11] = ["a", "b", "c", "f", "g", "h", "x", "y", "k", "user", "z"];

impl BackendFiles {
    fn ops(&self) -> &'static [&'static str] {
        if self.0 == "rust" {
            &RUST
        } else {
            &PYTHON
        }
    }
    fn places(&self) -> &'static [&'static str] {
        if self.0 == "rust" {
            &RUST_PLACES
        } else {
            &PYTHON_PLACES
        }
    }
    fn build(&self, ops: &[usize], place: usize, gap: &str) -> Code {
        let py = self.0 == "python";
        let comment = match (py, gap) {
            (_, "") => String::new(),
            (true, "\r\n") => "\n".into(),
            (true, g) => format!("'''{g}'''\n"),
            (false, g) => format!("/*{g}*/ "),
        };
        // Nested code takes in what follows it.
        let mut body = String::new();
        for &o in ops.iter().rev() {
            let op = self.ops()[o];
            body = if op.contains('Z') {
                let inner = if body.is_empty() { if py { "pass".to_string() } else { String::new() } } else { body };
                format!("{comment}{}", nest(op, &inner))
            } else if body.is_empty() {
                format!("{comment}{op}")
            } else {
                format!("{comment}{op}\n{body}")
            };
        }
        if body.is_empty() || py && body.trim().starts_with('#') && !body.trim().contains('\n') {
            body = if py { format!("{body}\npass") } else { body };
        }
        let mut text = nest(self.places()[place], &format!("{}\n", body.trim_end()));
        text.push('\n');
        if gap == "\r\n" {
            text = text.replace('\n', "\r\n");
        }
        code(self.0, &text)
    }
}

impl Check for BackendFiles {
    fn id(&self) -> &'static str {
        if self.0 == "rust" {
            "C14"
        } else {
            "C15"
        }
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        let n = self.ops().len();
        for place in 0..self.places().len() {
            for gap in GAPS {
                let mut put = |ops: &[usize]| f(json!({"place": place, "gap": gap, "ops": ops.iter().map(|o| self.ops()[*o]).collect::<Vec<_>>()}));
                put(&[]);
                for a in 0..n {
                    put(&[a]);
                    for b in 0..n {
                        put(&[a, b]);
                        if th || gap.is_empty() && place < 2 {
                            for c in 0..n {
                                put(&[a, b, c]);
                            }
                        }
                    }
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        format!(
            "every sequence of <=2 (in two of the places and thorough: 3) of {} statements (calls, macros, assignments, look-alikes in comments, \
             strings and names, blocks that take in what follows) in {} places and {} kinds of surrounding text and line ends. \
             For each: completion in an empty expression, diagnostics, definition and hover of {} names used in a template, symbols, \
             diagnostics and template names of the file itself. Non-trivial if the file has a variable or a template name{}.",
            self.ops().len(), self.places().len(), GAPS.len(), USES.len(), if tier == Tier::Thorough { "" } else { "" }
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let lang = self.0;
        let ops: Vec<usize> = case["ops"]
            .as_array()
            .unwrap()
            .iter()
            .map(|o| self.ops().iter().position(|x| Some(*x) == o.as_str()).unwrap())
            .collect();
        let c = self.build(&ops, case["place"].as_u64().unwrap() as usize, case["gap"].as_str().unwrap());
        let file = w.uri(if lang == "rust" { "src/m.rs" } else { "src/m.py" });
        let tpl = w.uri("templates/t.html");
        let mut s = w.with_session(&[("templates/x.html", "")], |w| {
            Session::new(Opts { options: w.options(lang), client: None, initialized: true })
        });
        rec.state(&c.text);
        if !c.vars.is_empty() || !c.tpls.is_empty() {
            rec.nontrivial += 1;
        }
        let key = format!("{} {:?}", self.id(), c.text);
        s.open(&file, &c.text);
        // The file itself.
        let range = |v: &(String, usize, usize)| range_of(&c.text, v.1, v.2);
        let syms = s.symbols(&file);
        let all: Vec<Value> = norm_symbols(&syms).iter().map(|x| json!([x["name"], x["kind"], x["range"]])).collect();
        let mut want: Vec<Value> = c.vars.iter().map(|v| json!([v.0, 13, range(v)])).collect();
        want.extend(c.tpls.iter().map(|v| json!([v.0, 1, range(v)])));
        let may: Vec<Value> = c.may.iter().map(|v| json!([v.0, 13, range(v)])).collect();
        let got: Vec<Value> = all.into_iter().filter(|x| !may.contains(x)).collect();
        rec.outcome(&want.len());
        rec.eq(key.clone(), &format!("symbols of {:?}", c.text), &json!(sorted(want)), &json!(sorted(got)));
        // A template that uses all names.
        let mut text = String::from("{{ }}");
        let mut at = vec![];
        for u in USES {
            text.push_str("{{ ");
            at.push(text.len());
            text.push_str(u);
            text.push_str(" }}");
        }
        s.open(&tpl, &text);
        s.settle(1);
        let missing: Vec<Value> = sorted(
            c.tpls
                .iter()
                .filter(|t| t.0 != "x.html")
                .map(|t| json!({"message": "Template not found", "severity": 2, "range": range(t)}))
                .collect(),
        );
        let got = norm_diags(s.inbox.diags.get(&file).map_or(&[][..], |d| d));
        rec.eq(key.clone(), &format!("diagnostics of {:?}", c.text), &json!(missing), &json!(got));
        let list = s.complete(&tpl, 0, 3);
        let mut offered: Vec<String> = vec![];
        for i in list.as_array().into_iter().flatten() {
            if i["detail"] != "Backend variable" {
                rec.fail(key.clone(), format!("completion offers {i} for {:?}", c.text));
            }
            offered.push(i["label"].as_str().unwrap_or("?").into());
        }
        offered.sort();
        offered.dedup();
        let offered: Vec<String> =
            offered.into_iter().filter(|o| c.vars.iter().any(|v| v.0 == *o) || !c.may.iter().any(|v| v.0 == *o)).collect();
        let mut want: Vec<String> = c.vars.iter().map(|v| v.0.clone()).collect();
        want.sort();
        want.dedup();
        rec.eq(key.clone(), &format!("variables offered for {:?}", c.text), &json!(want), &json!(offered));
        let diags = norm_diags(s.inbox.diags.get(&tpl).map_or(&[][..], |d| d));
        for (u, at) in USES.iter().zip(&at) {
            rec.transitions += 3;
            let known: Vec<&(String, usize, usize)> =
                c.vars.iter().filter(|v| v.0.split('.').next() == Some(u)).collect();
            if known.is_empty() && c.may.iter().any(|v| v.0 == *u) {
                continue;
            }
            let r = range_of(&text, *at, at + u.len());
            let d: Vec<&Value> = diags.iter().filter(|d| d["range"] == r).collect();
            let want = if known.is_empty() {
                json!([{"message": "Undefined variable", "severity": 2, "range": r}])
            } else {
                json!([{"message": "Variable is defined in other file.", "severity": 3, "range": r}])
            };
            rec.eq(key.clone(), &format!("diagnostic of '{u}' for {:?}", c.text), &want, &json!(d));
            let (l, ch) = pos_of(&text, at + 1);
            let to = s.goto(&tpl, l, ch);
            let want = sorted(known.iter().map(|v| json!({"uri": file, "range": range(v)})).collect());
            let got = sorted(to.as_array().cloned().unwrap_or_default());
            rec.eq(key.clone(), &format!("definition of '{u}' for {:?}", c.text), &json!(want), &json!(got));
            let h = s.hover(&tpl, l, ch);
            let want = if known.is_empty() { Value::Null } else { json!("Backend variable") };
            rec.eq(key.clone(), &format!("hover of '{u}' for {:?}", c.text), &want, &h["contents"]["value"]);
        }
        // Nothing is a template name but those.
        for at in boundaries(&c.text) {
            let Some(t) = c.tpls.iter().find(|t| t.1 < at && at < t.2) else { continue };
            let (l, ch) = pos_of(&c.text, at);
            let to = s.goto(&file, l, ch);
            let want = if t.0 == "x.html" { json!(w.uri("templates/x.html")) } else { Value::Null };
            rec.transitions += 1;
            rec.eq(key.clone(), &format!("definition at {l}:{ch} in {:?}", c.text), &want, &to["uri"]);
        }
        s.close(&file);
        s.close(&tpl);
        s.settle(1);
        s.inbox = Default::default();
        w.give_back(s);
    }
}
