//! C22: text put between the constructs of a template changes nothing but positions.
//!
//! No model is needed: the answers for the template without the text, with their positions moved,
//! are the oracle for the template with it.
use super::meaning::session;
use super::observe::{joints, norm_locations};
use super::space::*;
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::Session;
use serde_json::{json, Value};

/// Everything the template language takes as plain text (or as a comment).
pub const TEXTS: [&str; 47] = [
    " ", "\n", "\r\n", "\t", "a", "a b d", "if a", "'", "\"", "'a\"", "`", "\\", "$a", "(a", "a)", "[a", "|upper", ".a",
    "#", "##", "}", "}}", "%", "%}", "-%}", "#}", "&nbsp;", "<p class=\"a\">", "<!-- a -->",
    "<script>if (a) { b() } else if (d) return;</script>", "<style>a { b: 100% }</style>", "{ a }", "{ {a} }",
    "é", "\u{1F600}", "e\u{301}", "\u{2028}", "\u{FEFF}", "\u{200D}\u{1F468}", "100%", "endfor", "set a = 1",
    "{# {{ b }} {% set b = 1 %} #}", "{# ' \" }} %} #}", "{# # it's #1 {{ a }} ##}",
    "{% raw %}{{ b }}{% set a = 1 %}{# {% endif %}{% endraw %}", "<a href=\"#",
];

/// Very long texts, for the shortest templates.
fn long(k: usize) -> String {
    match k {
        0 => "x".repeat(66_000),
        1 => "\n".repeat(66_000),
        2 => "é\u{1F600}\r\n".repeat(9_000),
        3 => "{# a #}\n".repeat(2_000),
        4 => "<p>a</p>".repeat(5_000),
        _ => unreachable!(),
    }
}
const LONG: usize = 5;

pub struct Between;

/// Where the text goes: behind the first `k` constructs.
struct Parts {
    text: String,
    cuts: Vec<usize>,
}

fn parts(case: &Value) -> Parts {
    let ops: Vec<usize> = case["ops"].as_array().unwrap().iter().map(|o| op(o.as_str().unwrap())).collect();
    let mut d = Doc::new(STYLES[case["style"].as_u64().unwrap() as usize]);
    let mut cuts = vec![0];
    for o in ops {
        put(&mut d, o);
        cuts.push(d.text.len());
    }
    cuts.dedup();
    Parts { text: d.text, cuts }
}

/// The same with every position replaced by the offset it has without the inserted texts.
fn moved(v: &Value, uri: &str, text: &str, inserted: &[(usize, usize)]) -> Value {
    let at = |p: &Value| -> Value {
        let (l, c) = (p["line"].as_u64().unwrap_or(0) as usize, p["character"].as_u64().unwrap_or(0) as usize);
        let o = offset_of(text, l, c);
        if pos_of(text, o) != (l, c) {
            return json!(format!("no such position {l}:{c}"));
        }
        let mut back = 0;
        for (start, len) in inserted {
            if o >= start + len {
                back += len;
            } else if o > *start {
                return json!(format!("inside of the text, at {l}:{c}"));
            }
        }
        json!(o - back)
    };
    match v {
        Value::Array(a) => a.iter().map(|x| moved(x, uri, text, inserted)).collect(),
        Value::Object(m) => {
            if m.get("uri").is_some_and(|u| u != uri) {
                return v.clone();
            }
            if m.contains_key("line") && m.contains_key("character") {
                return at(v);
            }
            m.iter().map(|(k, x)| (k.clone(), moved(x, uri, text, inserted))).collect()
        }
        v => v.clone(),
    }
}

fn list(v: Value) -> Value {
    match v {
        Value::Array(a) => Value::from(sorted(a)),
        v => v,
    }
}

/// (what was asked, answer) in terms of the template without the texts.
fn observe(
    s: &mut Session,
    uri: &str,
    text: &str,
    asked: &[usize],
    inserted: &[(usize, usize)],
    rec: &mut Rec,
) -> Vec<(String, Value)> {
    s.inbox.diags.remove(uri);
    s.open(uri, text);
    s.settle(1);
    let m = |v: &Value| moved(v, uri, text, inserted);
    let mut out = vec![];
    let d = Value::from(norm_diags(s.inbox.diags.get(uri).map_or(&[], |v| v)));
    out.push(("diagnostics".into(), list(m(&d))));
    let sy = Value::from(norm_symbols(&s.symbols(uri)));
    out.push(("symbols".into(), list(m(&sy))));
    rec.transitions += 2;
    for &at in asked {
        let mut o = at;
        for (start, len) in inserted {
            if o > *start {
                o += len;
            }
        }
        let (l, c) = pos_of(text, o);
        let h = s.hover(uri, l, c);
        out.push((format!("hover at {at}"), m(&h)));
        let g = s.goto(uri, l, c);
        out.push((format!("definition at {at}"), norm_locations(&m(&g))));
        let i = s.complete(uri, l, c);
        let items = |v: &Value| {
            v.as_array().map_or(v.clone(), |a| {
                a.iter().map(|i| json!([i["label"], i["detail"], i["kind"], i["textEdit"], i["additionalTextEdits"]])).collect()
            })
        };
        out.push((format!("completion at {at}"), list(m(&items(&i)))));
        rec.transitions += 3;
    }
    s.inbox.responses.clear();
    s.inbox.published.clear();
    out
}

/// (offset in the template, text) put there.
fn with(p: &Parts, what: &[(usize, &str)]) -> (String, Vec<(usize, usize)>) {
    let mut out = p.text.clone();
    let mut inserted = vec![];
    let mut grown = 0;
    for (cut, t) in what {
        out.insert_str(cut + grown, t);
        inserted.push((cut + grown, t.len()));
        grown += t.len();
    }
    (out, inserted)
}

impl Check for Between {
    fn id(&self) -> &'static str {
        "C22"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let t = tier == Tier::Thorough;
        let case = |s: &[usize], style: usize, k: &str| json!({"ops": s.iter().map(|o| OPS[*o]).collect::<Vec<_>>(), "style": style, "texts": k});
        let whole: Vec<usize> = (0..OPS.len()).collect();
        let some: Vec<usize> = (0..BASIC).filter(|o| !matches!(OPS[*o], "text" | "comment")).collect();
        sequences(&[], &whole, 1, &mut |s| f(case(s, 0, "long")));
        sequences(&[], &whole[..if t { OPS.len() } else { 39 }], 2, &mut |s| {
            let mut c = case(s, 0, "each");
            c["some"] = json!(!t && s.len() > 1);
            f(c)
        });
        sequences(&[], &whole, if t { 2 } else { 1 }, &mut |s| {
            let mut c = case(s, 0, "pairs");
            c["all"] = json!(t);
            f(c)
        });
        for style in 1..STYLES.len() {
            sequences(&[], &whole, if t { 2 } else { 1 }, &mut |s| f(case(s, style, "each")));
        }
        for p in prefixes() {
            sequences(&p, &some, if t { 2 } else { 1 }, &mut |s| f(case(s, 0, "each")));
        }
        if t {
            sequences(&[], &some, 3, &mut |s| f(case(s, 0, "each")));
        }
    }

    fn bounds(&self, tier: Tier) -> String {
        let t = tier == Tier::Thorough;
        format!(
            "every legal sequence of <=2 of {} constructs (quick: of 39), of <={} of them in {} ways of writing, {} more behind each of {} starting points{}; \
             {} texts at each boundary between constructs (quick: of two, only the texts that end with a special character) and at all of them at once, {} pairs of texts at every two boundaries (<={} constructs), \
             {} texts of up to 66,000 characters or lines (<=1 construct); hover, definition and completion asked wherever two tokens meet. \
             A case is non-trivial if the template has a diagnostic or a symbol.",
            OPS.len(), if t { 2 } else { 1 }, STYLES.len(), if t { 2 } else { 1 }, prefixes().len(),
            if t { ", <=3 of the basic ones" } else { "" },
            TEXTS.len(), if t { TEXTS.len() * TEXTS.len() } else { TEXTS.len() * (TEXTS.len() + 1) / 2 }, if t { 2 } else { 1 }, LONG
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let p = parts(case);
        let uri = w.uri("templates/t.html");
        let mut s = session(w);
        let asked: Vec<usize> = joints(&p.text).into_iter().filter(|j| !p.cuts.contains(j)).collect();
        let base = observe(&mut s, &uri, &p.text, &asked, &[], rec);
        rec.state(&p.text);
        if base[0].1 != json!([]) || base[1].1 != json!([]) {
            rec.nontrivial += 1;
        }
        rec.outcome(&base[0].1.to_string());
        rec.outcome(&base[1].1.to_string());
        let mut look = |what: &[(usize, &str)], s: &mut Session, rec: &mut Rec| {
            let (text, inserted) = with(&p, what);
            rec.state(&text);
            let few: Vec<usize>;
            let asked = if text.len() > 5000 {
                few = asked.iter().copied().take(4).collect();
                &few
            } else {
                &asked
            };
            let got = observe(s, &uri, &text, asked, &inserted, rec);
            for (b, g) in base.iter().zip(&got) {
                rec.validated += 1;
                if b.1 != g.1 {
                    let shown: String = text.chars().take(300).collect();
                    rec.fail(
                        format!("{} {:?} {what:.60?}", b.0, p.text),
                        format!("{} of {:?}, with the text {:.60?} put in: expected {}, got {} (whole text {shown:?})", b.0, p.text, what, b.1, g.1),
                    );
                    return;
                }
            }
        };
        match case["texts"].as_str().unwrap() {
            "each" => {
                for t in TEXTS {
                    let alone = case["some"] != true || p.cuts.len() < 2 || "#%{}'\"|\\\n<".contains(&t[t.len() - t.chars().last().unwrap().len_utf8()..]);
                    for &cut in p.cuts.iter().filter(|_| alone) {
                        look(&[(cut, t)], &mut s, rec);
                    }
                    let all: Vec<(usize, &str)> = p.cuts.iter().map(|c| (*c, t)).collect();
                    if all.len() > 1 {
                        look(&all, &mut s, rec);
                    }
                }
            }
            "pairs" => {
                for (i, a) in p.cuts.iter().enumerate() {
                    for b in &p.cuts[i + 1..] {
                        for (i, x) in TEXTS.iter().enumerate() {
                            for y in &TEXTS[if case["all"] == true { 0 } else { i }..] {
                                look(&[(*a, x), (*b, y)], &mut s, rec);
                            }
                        }
                    }
                }
            }
            _ => {
                for k in 0..LONG {
                    let t = long(k);
                    for &cut in &p.cuts {
                        look(&[(cut, &t)], &mut s, rec);
                    }
                }
            }
        }
        w.give_back(s);
    }
}
