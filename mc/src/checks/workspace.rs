//! C16: the settings in force and the files known after a start, for every combination of
//! settings files, settings of the editor, directories and kinds of files.
use crate::engine::{clean, Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};
use std::fs;
use std::path::Path;

pub struct Workspace;

/// What a settings file can hold; %n is the number of the file. The flag tells whether the
/// settings of it count.
const TOML: [(&str, bool); 17] = [
    ("<absent>", false),
    ("", false),
    ("[package]\nname = \"x\"\nversion = \"0.1.0\"\n", false),
    ("[jinja-lsp]\ntemplates = \"./t%n\"\nbackend = [\"./s%n\"]\nlang = \"rust\"\n", true),
    ("[jinja-lsp\ntemplates = \"./t%n\"\n", false),
    ("[jinja-lsp]\ntemplates = \"./t%n\"\nbackend = [\"./s%n\"]\n", false),
    ("[package]\nname = \"x\"\n\n[jinja-lsp]\nlang = \"rust\"\nbackend = [\"s%n\"]\ntemplates = \"t%n\"\n\n[dependencies]\ntokio = { version = \"1\", features = [\"full\"] }\n", true),
    ("<directory>", false),
    ("<bytes>", false),
    ("templates = \"./t%n\"\nbackend = [\"./s%n\"]\nlang = \"rust\"\n", false),
    ("[tool.jinja-lsp]\ntemplates = \"./t%n\"\nbackend = [\"./s%n\"]\nlang = \"rust\"\n", false),
    ("[jinja-lsp]\ntemplates = \"%a/t%n\"\nbackend = [\"%a/s%n\"]\nlang = \"rust\"\nhide_undefined = false\n", true),
    ("[jinja-lsp]\r\ntemplates = './t%n'\r\nbackend = []\r\nlang = 'python'\r\n", true),
    ("[jinja-lsp]\ntemplates = \"./t%n\"\nbackend = \"./s%n\"\nlang = \"rust\"\n", false),
    ("# jinja-lsp\n[jinja-lsp] # x\ntemplates = \"./t%n/\"\nbackend = [\"./s%n/\",]\nlang = \"rust\"\nhide_undefined = true\n", true),
    ("jinja-lsp = { templates = \"./t%n\", backend = [\"./s%n\"], lang = \"rust\" }\n", true),
    ("[jinja-lsp]\ntemplates = \"\"\"./t%n\"\"\"\nbackend = [\"./s%n\"]\nlang = \"rust\"\n[jinja-lsp.more]\nx = 1\n", true),
];

const FILES: [&str; 3] = ["pyproject.toml", "Cargo.toml", "jinja-lsp.toml"];

/// What the editor gives; the flag tells whether it counts.
const EDITOR: [(&str, bool); 9] = [
    ("null", false),
    (r#"{"templates":"./t3","backend":["./s3"],"lang":"rust"}"#, true),
    (r#"{"templates":"./t3","backend":["./s3"]}"#, false),
    (r#"{"lang":7}"#, false),
    ("{}", false),
    (r#"{"templates":"%a/t3","backend":["%a/s3"],"lang":"python","more":[1]}"#, true),
    (r#"{"templates":"t3","backend":[],"lang":"rust","hide_undefined":true}"#, true),
    (r#"{"templates":"t3","backend":"./s3","lang":"rust"}"#, false),
    (r#"{"templates":"./t3","backend":["./s3"],"lang":"rust","hide_undefined":null}"#, true),
];

/// What can be below a directory of templates or of the backend. `{}` stands for the number of
/// the entry; the last column tells the kind of file it is.
const ENTRIES: [(&str, char); 57] = [
    ("a{}.html", 't'),
    ("b{}.jinja", 't'),
    ("c{}.j2", 't'),
    ("d{}.rs", 'b'),
    ("e{}.py", 'p'),
    ("f{}.txt", '-'),
    ("g{}.htm", '-'),
    ("h{}.HTML", '-'),
    ("i{}.jinja2", '-'),
    ("j{}", '-'),
    ("k{}.html.bak", '-'),
    ("l{}.min.html", 't'),
    ("html", '-'),
    (".html", '-'),
    (".m{}.html", 't'),
    (".hidden/n{}.html", 't'),
    ("sub/o{}.html", 't'),
    ("sub/deep/er/p{}.j2", 't'),
    ("sub/q{}.rs", 'b'),
    ("dir{}.html/r{}.jinja", 't'),
    ("s{}.html/", 'd'),
    ("node_modules/t{}.html", 't'),
    ("target/u{}.html", 't'),
    ("v {}.html", 't'),
    ("wé😀{}.html", 't'),
    ("x%20{}.html", 't'),
    ("y#{}.html", 't'),
    ("z?{}.html", 't'),
    ("ä b/c\"{}.html", 't'),
    ("tab\t{}.html", 't'),
    ("brace{{}}.html", 't'),
    ("aa{}.html", 'n'),
    ("bb{}.rs", 'n'),
    ("cc{}.html", 'e'),
    ("dd{}.html", 's'),
    ("ee{}.rs", 'e'),
    ("ff{}.rs", 's'),
    ("sub/gg{}.html", 'n'),
    ("hh{}.html.rs", 'b'),
    ("ii{}.rs.html", 't'),
    ("jj {}/kk é.rs", 'b'),
    ("ll{}.html~", '-'),
    ("mm{}.html", 'l'),
    ("nn{}.rs", 'x'),
    ("oo{}.html", 'x'),
    ("pp{}.html", 'c'),
    ("[id]{}.html", 't'),
    ("q'(r),=&;@!$*+:~^|{}.html", 't'),
    ("s [é]{}.rs", 'b'),
    ("same.html", 't'),
    ("sub/same.html", 't'),
    ("sub/deep/same.html", 't'),
    ("same.j2", 't'),
    (DEEP_HTML, 't'),
    (DEEP_RS, 'b'),
    (LONG, 't'),
    ("rr{}.html", 'L'),
];

const DEEP_HTML: &str = "1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/16/17/18/19/20/21/22/23/24/25/26/27/28/29/30/31/32/33/34/35/36/37/38/39/40/tt{}.html";
const DEEP_RS: &str = "1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/16/17/18/19/20/21/22/23/24/25/26/27/28/29/30/31/32/33/34/35/36/37/38/39/40/uu{}.rs";
const LONG: &str = "long/name_of_a_template_that_is_as_long_as_file_systems_allow_____________________________________________________________________________________________________________________________________________________________________{}.html";
/// So many files of each kind lie in one directory.
const MANY: usize = 150;

/// Ways to say where the templates and the backend are: the directory of the templates, those of
/// the backend, what is written in the settings for them, and the language. %a is the workspace.
const LAYOUTS: [(&str, &[&str], &str, &[&str], &str); 16] = [
    ("t", &["s"], "%a/t", &["%a/s"], "rust"),
    ("t", &["s"], "./t", &["./s"], "rust"),
    ("t", &["s"], "t/", &["s/"], "python"),
    ("t", &["s"], "%a/x/../t", &["./x/../s"], "rust"),
    ("t", &["s"], "t", &["s", "./s", "s"], "rust"),
    ("t", &["t"], "t", &["t"], "rust"),
    ("s/t", &["s"], "s/t", &["s"], "rust"),
    ("t", &["t/s"], "t", &["t/s"], "python"),
    ("t", &["s", "s2"], "t", &["s", "s2"], "rust"),
    ("t é", &["s %41"], "t é", &["s %41"], "rust"),
    ("t", &[], "t", &[], "rust"),
    ("t", &["s"], "t/.", &["./././s/."], "python"),
    ("t", &["s", "s/deep"], "t", &["s/deep", "s"], "rust"),
    ("t.html", &["s.rs"], "t.html", &["s.rs"], "rust"),
    ("t", &["."], "t", &["."], "rust"),
    (".", &["s"], ".", &["s"], "rust"),
];

/// The URI an editor gives a path: as the server spells it, with all escaped that can be, in
/// capital or small letters.
fn spell(path: &str, how: u64) -> String {
    let mut s = "file://".to_string();
    for b in path.bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'~' | b'/' => s.push(b as char),
            b'[' | b']' | b'\'' | b'(' | b')' | b',' | b'=' | b'&' | b';' | b'@' | b'!' | b'$' | b'*' | b'+' | b':' if how == 0 => s.push(b as char),
            _ if how == 2 => s.push_str(&format!("%{b:02x}")),
            _ => s.push_str(&format!("%{b:02X}")),
        }
    }
    s
}

/// The path that the server means.
fn path_of(uri: &str) -> String {
    let u = tower_lsp::lsp_types::Url::parse(uri).unwrap();
    if u.query().is_some() || u.fragment().is_some() {
        return format!("<{uri}>");
    }
    u.to_file_path().map_or(format!("<{uri}>"), |p| p.to_str().unwrap_or("<bytes>").to_string())
}

fn range(a: usize, b: usize) -> Value {
    json!({"start": {"line": 0, "character": a}, "end": {"line": 0, "character": b}})
}

/// The text of a template that defines `d_name` and uses `u_name`, which nothing defines.
fn template(name: &str) -> String {
    format!("{{% set d_{name} = u_{name} %}}")
}

fn template_diags(name: &str, hide: bool) -> Value {
    let a = format!("{{% set d_{name} = ").len();
    if hide {
        return json!([]);
    }
    json!([{"message": "Undefined variable", "range": range(a, a + 2 + name.len()), "severity": 2}])
}

impl Workspace {
    fn settings(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let a = w.dir.to_str().unwrap().to_string();
        for i in 0..4 {
            fs::create_dir_all(w.path(&format!("s{i}"))).unwrap();
            w.write(&format!("t{i}/f.html"), &template(&format!("n{i}")));
            w.write(&format!("s{i}/f.rs"), &format!("fn f() {{ context!(b_{i}); }}"));
        }
        let mut force = None;
        for (i, f) in FILES.iter().enumerate() {
            let (text, counts) = TOML[case["files"][i].as_u64().unwrap() as usize];
            match text {
                "<absent>" => {}
                "<directory>" => fs::create_dir_all(w.path(f)).unwrap(),
                "<bytes>" => fs::write(
                    w.path(f),
                    [b"[jinja-lsp]\ntemplates = \"./t".as_slice(), i.to_string().as_bytes(), b"\"\nbackend = []\nlang = \"rust\" # \xff\n"].concat(),
                )
                .unwrap(),
                _ => w.write(f, &text.replace("%n", &i.to_string()).replace("%a", &a)),
            }
            if counts && force.is_none() {
                let ends = !text.contains("lang = \"rust\"") || text.contains("backend = []");
                force = Some((i, text.contains("hide_undefined = true"), ends));
            }
        }
        let (text, counts) = EDITOR[case["editor"].as_u64().unwrap() as usize];
        if counts {
            force = Some((3, text.contains(":true"), text.contains("python") || text.contains("[]")));
        }
        let options: Value = serde_json::from_str(&text.replace("%a", &a)).unwrap();
        let mut s = Session::new(Opts { options, client: None, initialized: true });
        let key = case.to_string();
        let want: Vec<(String, Value)> = match force {
            Some((i, hide, _)) => vec![(format!("{a}/t{i}/f.html"), template_diags(&format!("n{i}"), hide))],
            None => vec![],
        };
        compare(&mut s, &want, &key, rec);
        let warned = s.inbox.logs.iter().any(|l| l["type"] == 2);
        rec.eq(format!("{key} warning"), "a warning that there are no settings", &json!(force.is_none()), &json!(warned));
        // Which backend is known.
        if let Some((i, hide, none)) = force {
            let uri = w.uri(&format!("t{i}/probe.html"));
            s.open(&uri, "{{ b_0 }}{{ b_1 }}{{ b_2 }}{{ b_3 }}");
            s.settle(1);
            let d = said(&s, &uri);
            let mut want = vec![];
            for j in 0..4 {
                let (m, l) = match i == j && !none {
                    true => ("Variable is defined in other file.", 3),
                    false => ("Undefined variable", 2),
                };
                if !hide {
                    want.push(json!({"message": m, "range": range(j * 9 + 3, j * 9 + 6), "severity": l}));
                }
            }
            rec.eq(format!("{key} backend"), "diagnostics of a template that uses the backends", &Value::from(norm_diags(&want)), &Value::from(d));
        }
        rec.state(&force);
        rec.outcome(&force);
        if force.is_some() && case["files"].as_array().unwrap().iter().filter(|k| **k != 0).count() > 0 {
            rec.nontrivial += 1;
        }
    }

    fn files(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let a = w.dir.to_str().unwrap().to_string();
        let (t, s, wt, ws, lang) = LAYOUTS[case["layout"].as_u64().unwrap() as usize];
        fs::create_dir_all(w.path("x")).unwrap();
        fs::create_dir_all(w.path(t)).unwrap();
        for d in s {
            fs::create_dir_all(w.path(d)).unwrap();
        }
        // Which files the server has to know: path, name, whether it is a template.
        let mut known: Vec<(String, String, bool)> = vec![];
        let mut names: Vec<String> = vec![];
        let inside = |p: &Path, d: &str| p.starts_with(w.path(d)) || d == ".";
        for (i, e) in case["entries"].as_array().unwrap().iter().enumerate() {
            let (rel, kind) = ENTRIES[e[0].as_u64().unwrap() as usize];
            let place = e[1].as_u64().unwrap() as usize;
            let top = match place {
                0 => t,
                1 => s.first().copied().unwrap_or("elsewhere"),
                2 => s.get(1).copied().unwrap_or("elsewhere"),
                _ => "elsewhere",
            };
            let path = match top {
                "." => w.dir.clone(),
                _ => w.path(top),
            }
            .join(rel.replace("{}", &i.to_string()));
            if kind == 'd' {
                fs::create_dir_all(&path).unwrap();
                continue;
            }
            let name = format!("e{i}");
            names.push(name.clone());
            fs::create_dir_all(path.parent().unwrap()).unwrap();
            let is_backend = matches!(rel.rsplit('.').next(), Some("rs" | "py"));
            let text = match (is_backend, rel.ends_with("rs")) {
                (true, true) => format!("fn f() {{ context!(d_{name}); }}"),
                (true, false) => format!("render(d_{name}=1)"),
                _ => template(&name),
            };
            // Settings tell the language of the backend; files of the other one are left open.
            match kind {
                'n' => fs::write(&path, [text.as_bytes(), b"\xff\xfe"].concat()).unwrap(),
                'e' => fs::write(&path, "").unwrap(),
                's' => std::os::unix::fs::symlink(w.path("nowhere"), &path).unwrap(),
                'l' => fs::write(&path, format!("{text}{}", "\n<p>é</p>".repeat(1_000))).unwrap(),
                'L' => fs::write(&path, format!("{text}{}", "\n<p>é{</p>".repeat(30_000))).unwrap(),
                'x' => fs::write(&path, format!("\u{feff}{text}")).unwrap(),
                'c' => fs::write(&path, format!("{text}\r\n\r{{% if")).unwrap(),
                _ => fs::write(&path, text).unwrap(),
            }
            let readable = !matches!(kind, 'n' | 's' | '-' | 'e');
            let scanned = inside(&path, t) || s.iter().any(|d| inside(&path, d));
            if scanned && kind == 'e' && !is_backend {
                known.push((path.to_str().unwrap().to_string(), String::new(), true));
            }
            if scanned && readable {
                known.push((path.to_str().unwrap().to_string(), name, !is_backend));
            }
        }
        for i in 0..case["many"].as_u64().unwrap_or(0) as usize {
            let of = if case["many_backend"] == true { s[0] } else { t };
            let dir = if of == "." { w.dir.clone() } else { w.path(of) };
            let name = format!("m{i}");
            let (path, text) = match (case["many_backend"] == true, lang) {
                (true, "rust") => (dir.join(format!("m{i}.rs")), format!("fn f() {{ context!(d_{name}); }}")),
                (true, _) => (dir.join(format!("m{i}.py")), format!("render(d_{name}=1)")),
                _ => (dir.join(format!("m{i}.html")), template(&name)),
            };
            fs::write(&path, text).unwrap();
            known.push((path.to_str().unwrap().to_string(), name.clone(), case["many_backend"] != true));
            names.push(name);
        }
        let options = json!({"templates": wt.replace("%a", &a),
            "backend": ws.iter().map(|d| d.replace("%a", &a)).collect::<Vec<_>>(), "lang": lang});
        let mut se = Session::new(Opts { options, client: None, initialized: true });
        let key = case.to_string();
        let mut want: Vec<(String, Value)> = vec![];
        for (p, n, template) in &known {
            if *template {
                let mut d = if n.is_empty() { json!([]) } else { template_diags(n, false) };
                if p.contains("/oo") {
                    // A byte order mark comes first.
                    for k in ["start", "end"] {
                        let c = d[0]["range"][k]["character"].as_u64().unwrap();
                        d[0]["range"][k]["character"] = json!(c + 1);
                    }
                }
                want.push((p.clone(), d));
            }
        }
        compare(&mut se, &want, &key, rec);
        // A template that uses what they define knows where that is, once.
        let how = case["spelling"].as_u64().unwrap();
        let uri = spell(&format!("{a}/{t}/probe.html").replace("/./", "/"), how);
        let text: String = names.iter().map(|n| format!("{{{{ d_{n} }}}}")).collect();
        se.open(&uri, &text);
        se.settle(1);
        let got = said(&se, &uri);
        let mut want = vec![];
        let mut at = 0;
        for n in &names {
            let r = range(at + 3, at + 5 + n.len());
            let def = known.iter().find(|k| k.1 == *n);
            let (m, l) = match def {
                Some(_) => ("Variable is defined in other file.", 3),
                None => ("Undefined variable", 2),
            };
            want.push(json!({"message": m, "range": r, "severity": l}));
            let g = norm_locations(&se.goto(&uri, 0, at + 4));
            let expected = match def {
                Some((p, n, template)) => {
                    let from = match (template, p.ends_with("rs")) {
                        (true, _) => "{% set ".len(),
                        (false, true) => "fn f() { context!(".len(),
                        _ => "render(".len(),
                    } + (p.contains("/oo") || p.contains("/nn")) as usize;
                    json!([{"uri": p, "range": range(from, from + 2 + n.len())}])
                }
                None => json!([]),
            };
            rec.eq(format!("{key} definition {n}"), "definition from another template", &expected, &g);
            at += 8 + n.len();
        }
        rec.eq(format!("{key} probe"), "diagnostics of a template that uses them", &Value::from(norm_diags(&want)), &Value::from(got));
        // Opened as an editor names it, no file is known twice.
        for (p, n, _) in &known {
            let u = spell(p, how);
            let text = fs::read_to_string(p).unwrap();
            se.open(&u, &text);
            let sy = se.symbols(&u);
            let some = if n.is_empty() { 0 } else { 1 };
            rec.eq(format!("{key} symbols {p}"), "number of symbols", &json!(some), &json!(sy.as_array().map_or(0, |a| a.len())));
        }
        let mut at = 0;
        for n in &names {
            if known.iter().any(|k| k.1 == *n) {
                let g = se.goto(&uri, 0, at + 4);
                rec.eq(format!("{key} again {n}"), "number of definitions once open", &json!(1), &json!(g.as_array().map_or(0, |a| a.len())));
            }
            at += 8 + n.len();
        }
        rec.state(&key);
        rec.outcome(&(known.len(), known.iter().filter(|k| k.2).count(), names.len()));
        if !known.is_empty() {
            rec.nontrivial += 1;
        }
        rec.transitions += se.sent;
    }
}

fn norm_locations(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::from(sorted(
            a.iter().map(|l| json!({"uri": path_of(l["uri"].as_str().unwrap()), "range": l["range"]})).collect(),
        )),
        Value::Null => json!([]),
        v => v.clone(),
    }
}

/// What was said of a file last, however its URI is spelt.
fn said(s: &Session, uri: &str) -> Vec<Value> {
    let p = path_of(uri);
    norm_diags(s.inbox.published.iter().rev().find(|d| path_of(&d.0) == p).map_or(&[], |d| &d.1))
}

/// Exactly the templates have been diagnosed.
fn compare(s: &mut Session, want: &[(String, Value)], key: &str, rec: &mut Rec) {
    let mut w: Vec<Value> = want.iter().map(|(u, d)| json!([u, norm_diags(d.as_array().unwrap())])).collect();
    let mut g: Vec<Value> = s.inbox.diags.iter().map(|(u, d)| json!([path_of(u), norm_diags(d)])).collect();
    // Whether a file without any is told about is left open.
    let bare = |x: &Value| x[1].as_array().unwrap().is_empty();
    w.retain(|x| !bare(x));
    g.retain(|x| !bare(x));
    rec.eq(format!("{key} diagnostics"), "diagnostics after the start", &Value::from(sorted(w)), &Value::from(sorted(g)));
}

impl Check for Workspace {
    fn id(&self) -> &'static str {
        "C16"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        // The simplest first: one settings file.
        let few = [0, 1, 3, 4, 6, 9, 11];
        for k in 0..TOML.len() {
            for i in 0..3 {
                for e in 0..EDITOR.len() {
                    let mut files = [0; 3];
                    files[i] = k;
                    f(json!({"files": files, "editor": e}));
                }
            }
        }
        for a in 0..TOML.len() {
            for b in 0..TOML.len() {
                for c in 0..TOML.len() {
                    let quick = [a, b, c].iter().all(|k| few.contains(k)) || [a, b, c].iter().any(|k| *k == 0);
                    if !th && !quick || [a, b, c].iter().filter(|k| **k != 0).count() < 2 {
                        continue;
                    }
                    for e in 0..if th { EDITOR.len() } else { 2 } {
                        f(json!({"files": [a, b, c], "editor": e}));
                    }
                }
            }
        }
        let n = ENTRIES.len();
        for l in 0..LAYOUTS.len() {
            f(json!({"layout": l, "entries": [], "spelling": 0}));
            f(json!({"layout": l, "entries": [], "spelling": l % 3, "many": MANY}));
            if !LAYOUTS[l].1.is_empty() {
                f(json!({"layout": l, "entries": [], "spelling": l % 3, "many": MANY, "many_backend": true}));
            }
            for i in 0..n {
                for p in 0..4 {
                    for spelling in 0..3 {
                        if fits(l, i, p) && (th || (l + i + p) % 3 == spelling || !ENTRIES[i].0.is_ascii() || ENTRIES[i].0.contains('(')) {
                            f(json!({"layout": l, "entries": [[i, p]], "spelling": spelling}));
                        }
                    }
                }
            }
        }
        for i in 0..n {
            for j in 0..n {
                for l in 0..LAYOUTS.len() {
                    for p in 0..4 {
                        for q in 0..4 {
                            if !(fits(l, i, p) && fits(l, j, q)) || i == j && !ENTRIES[i].0.contains("{}") {
                                continue;
                            }
                            if !th && (i > j || (i + 3 * j + 5 * p + 7 * q) % (2 * LAYOUTS.len()) != l) {
                                continue;
                            }
                            f(json!({"layout": l, "entries": [[i, p], [j, q]], "spelling": (i + q) % 3}));
                        }
                    }
                }
            }
        }
        if th {
            for i in 0..n {
                for j in i..n {
                    for k in j..n {
                        let l = (i + 3 * j + 5 * k) % LAYOUTS.len();
                        let e = [[i, k % 3], [j, i % 3], [k, j % 3]];
                        let numbered = |i: usize| ENTRIES[i].0.contains("{}");
                        if e.iter().all(|x| fits(l, x[0], x[1])) && (i != j || numbered(i)) && (j != k || numbered(j)) {
                            f(json!({"layout": l, "entries": e, "spelling": k % 3}));
                        }
                    }
                }
            }
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        let th = tier == Tier::Thorough;
        format!(
            "settings: {} variants of each of the three files {} x {} variants of what the editor gives{}; files: every {} pair of {} kinds of files, each in the \
             template directory, the backend directories or elsewhere, {} {} layouts of these directories{}; {} files of one kind in one directory of each layout; URIs of the editor in three spellings. A case is non-trivial \
             if settings are found next to another file, or some file has to be known.",
            TOML.len(),
            if th { "(all combinations)" } else { "(all pairs of them, triples of the first 7)" },
            EDITOR.len(),
            if th { "" } else { " (2 with two or more files)" },
            if th { "ordered" } else { "unordered" },
            ENTRIES.len(),
            if th { "in each of" } else { "half of them each in one of" },
            LAYOUTS.len(),
            if th { "; every unordered triple in one layout" } else { "" },
            MANY,
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        // Every case has a directory of its own, so the history of a case is the case alone.
        let last = w.history.pop();
        w.history.clear();
        w.history.extend(last);
        clean(&w.dir);
        let before = std::env::current_dir().ok();
        std::env::set_current_dir(&w.dir).unwrap();
        if case.get("files").is_some() {
            self.settings(w, case, rec);
        } else {
            self.files(w, case, rec);
        }
        std::env::set_current_dir(before.unwrap_or("/".into())).unwrap();
        clean(&w.dir);
    }
}

/// Whether an entry means something definite there.
fn fits(l: usize, i: usize, p: usize) -> bool {
    let (_, s, _, _, lang) = LAYOUTS[l];
    let rel = ENTRIES[i].0;
    // A backend file of another language is left open.
    if rel.ends_with(".py") && lang == "rust" || rel.ends_with(".rs") && lang == "python" {
        return false;
    }
    if p == 1 && s.is_empty() || p == 2 && s.len() < 2 {
        return false;
    }
    true
}
