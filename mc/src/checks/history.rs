//! C04: diagnostics and symbols of every open document follow its edits, whatever happens to
//! other documents meanwhile. Timed histories against a small state machine.
use crate::engine::{Check, Rec, Tier, World};
use crate::model::*;
use crate::session::{Opts, Session};
use serde_json::{json, Value};

pub struct Histories;

/// The texts of two documents; names cross from one to the other.
fn texts(k: usize) -> [Doc; 3] {
    let mut v = [Doc::new(PLAIN), Doc::new(PLAIN), Doc::new(PLAIN)];
    let (x, y) = if k == 0 { ("x", "y") } else { ("y", "x") };
    v[0].expr(&format!("${x}"));
    v[0].lit("\n");
    v[0].expr(&format!("${y}"));
    v[1].set(x, "1");
    v[1].lit("é");
    v[1].expr(&format!("${x}"));
    v[1].expr(&format!("${y}"));
    v[2].block(y, false);
    v[2].set(y, &format!("${x}"));
    v[2].close();
    v[2].expr(&format!("${y}"));
    v
}

/// t is a file as well, u only exists in the editor.
const NAMES: [&str; 2] = ["templates/t.html", "templates/u.html"];

#[derive(Clone)]
struct State {
    open: [bool; 2],
    /// Which text the editor shows; None: neither open nor a file.
    text: [Option<usize>; 2],
    /// Which text the definitions are taken from.
    known: [Option<usize>; 2],
    /// When the last change is due.
    due: [Option<u64>; 2],
    /// The change that is due has been taken note of by a save or a close, so that it need not
    /// be looked at again.
    seen: [bool; 2],
    /// What may be shown; nothing before the first refresh.
    diags: [Vec<Vec<Value>>; 2],
    now: u64,
}

/// The file of t holds its second text.
const ON_DISK: [Option<usize>; 2] = [Some(1), None];

struct Model<'a> {
    docs: [[Doc; 3]; 2],
    uris: [String; 2],
    other: &'a [Ext],
}

impl Model<'_> {
    fn start(&self) -> State {
        State {
            open: [false; 2],
            text: ON_DISK,
            known: ON_DISK,
            due: [None; 2],
            seen: [false; 2],
            diags: [vec![], vec![]],
            now: 0,
        }
    }

    fn refresh(&self, s: &mut State, d: usize) {
        s.known[d] = s.text[d];
        let o = 1 - d;
        let mut ext: Vec<Ext> = self.other.to_vec();
        if let Some(k) = s.known[o] {
            for def in &self.docs[o][k].defs {
                if def.kind != Kind::Block {
                    ext.push(Ext { name: def.name.clone(), uri: self.uris[o].clone(), range: Value::Null, backend: false });
                }
            }
        }
        let now = match s.text[d] {
            Some(k) => norm_diags(&self.docs[d][k].lint(&ext)),
            None => vec![],
        };
        let again = s.seen[d] && s.due[d].is_some_and(|t| t <= s.now);
        if !again {
            s.diags[d].clear();
        }
        s.diags[d].push(now);
    }

    fn pass(&self, s: &mut State, ms: u64) {
        s.now += ms;
        let mut late: Vec<(u64, usize)> =
            (0..2).filter_map(|d| s.due[d].filter(|t| *t <= s.now).map(|t| (t, d))).collect();
        late.sort();
        for (_, d) in late {
            self.refresh(s, d);
            s.due[d] = None;
        }
    }

    fn step(&self, s: &mut State, op: &str) {
        if let Some(ms) = op.strip_prefix("wait ") {
            return self.pass(s, ms.parse().unwrap());
        }
        let d = op[op.len() - 1..].parse::<usize>().unwrap();
        match &op[..op.len() - 2] {
            "open" => {
                s.open[d] = true;
                s.text[d] = Some(0);
                s.seen[d] = false;
                self.refresh(s, d);
                s.seen[d] = true;
            }
            "save" => {
                s.seen[d] = false;
                self.refresh(s, d);
                s.seen[d] = true;
            }
            "close" => {
                s.open[d] = false;
                s.text[d] = ON_DISK[d];
                s.seen[d] = false;
                self.refresh(s, d);
                s.seen[d] = true;
            }
            e => {
                let k: usize = e.strip_prefix("edit ").unwrap().parse().unwrap();
                s.text[d] = Some(k);
                s.due[d] = Some(s.now + 200);
                s.seen[d] = false;
            }
        }
        self.pass(s, 1);
    }
}

fn legal(open: &[bool; 2], op: &str) -> bool {
    if op.starts_with("wait") {
        return true;
    }
    let d = op[op.len() - 1..].parse::<usize>().unwrap();
    op.starts_with("open") != open[d]
}

fn alphabet(small: bool) -> Vec<String> {
    let mut v = vec![];
    for d in 0..2 {
        for op in ["open", "save", "close", "edit 0", "edit 1", "edit 2"] {
            if small && matches!((op, d), ("edit 0", _) | ("save", 1) | ("edit 2", 0)) {
                continue;
            }
            v.push(format!("{op} {d}"));
        }
    }
    v.push("wait 120".into());
    v.push("wait 230".into());
    v
}

fn histories(ops: &[String], len: usize, f: &mut dyn FnMut(&[String])) {
    fn rec(cur: &mut Vec<String>, open: &mut [bool; 2], ops: &[String], len: usize, f: &mut dyn FnMut(&[String])) {
        if cur.len() == len {
            f(cur);
            return;
        }
        for o in ops {
            // Two waits on end, or a wait at the start, add nothing.
            if o.starts_with("wait") && cur.last().is_none_or(|l| l.starts_with("wait")) {
                continue;
            }
            if !legal(open, o) {
                continue;
            }
            let before = *open;
            if let Some(d) = o.strip_prefix("open ").or(o.strip_prefix("close ")) {
                let d: usize = d.parse().unwrap();
                open[d] = !open[d];
            }
            cur.push(o.clone());
            rec(cur, open, ops, len, f);
            cur.pop();
            *open = before;
        }
    }
    rec(&mut vec![], &mut [false; 2], ops, len, f)
}

impl Check for Histories {
    fn id(&self) -> &'static str {
        "C04"
    }

    fn enumerate(&self, tier: Tier, f: &mut dyn FnMut(Value)) {
        let th = tier == Tier::Thorough;
        for how in ["whole", "part"] {
            histories(&alphabet(false), if th { 6 } else { 5 }, &mut |h| f(json!({"h": h, "how": how})));
        }
        histories(&alphabet(true), if th { 8 } else { 7 }, &mut |h| f(json!({"h": h, "how": "part"})));
    }

    fn bounds(&self, tier: Tier) -> String {
        let th = tier == Tier::Thorough;
        format!(
            "every history of {} operations out of {} (open, change to one of 3 texts, save, close, of a document that is a \
             file and of one that is not; waits of 120 and 230 ms), changes made by full text and by ranges; every history of \
             {} operations out of {}. After every operation, the last diagnostics of each document without a change \
             younger than 200 ms are compared with the model, at the end the symbols too. Every case is non-trivial: \
             it has at least one refresh.",
            if th { 6 } else { 5 }, alphabet(false).len(), if th { 8 } else { 7 }, alphabet(true).len()
        )
    }

    fn run(&self, w: &mut World, case: &Value, rec: &mut Rec) {
        let docs = [texts(0), texts(1)];
        let uris = [w.uri(NAMES[0]), w.uri(NAMES[1])];
        let t = docs[0][1].text.clone();
        let mut s = w.with_session(&[(NAMES[0], &t), ("src/main.rs", "")], |w| {
            Session::new(Opts { options: w.options("rust"), client: None, initialized: true })
        });
        let other: Vec<Ext> = vec![];
        let m = Model { docs, uris: uris.clone(), other: &other };
        let mut st = m.start();
        // The server may know more than it needs to, but never something else.
        s.inbox.diags.clear();
        let how = case["how"].as_str().unwrap();
        let h: Vec<&str> = case["h"].as_array().unwrap().iter().map(|o| o.as_str().unwrap()).collect();
        for (i, op) in h.iter().enumerate() {
            if let Some(ms) = op.strip_prefix("wait ") {
                s.settle(ms.parse().unwrap());
            } else {
                let d: usize = op[op.len() - 1..].parse().unwrap();
                let uri = &uris[d];
                match &op[..op.len() - 2] {
                    "open" => s.open(uri, &m.docs[d][0].text),
                    "save" => s.save(uri),
                    "close" => s.close(uri),
                    e => {
                        let new = &m.docs[d][e[5..].parse::<usize>().unwrap()].text;
                        let old = &m.docs[d][st.text[d].unwrap()].text;
                        s.change(uri, if how == "whole" { json!([{"text": new}]) } else { parts(old, new) });
                    }
                }
                s.settle(1);
            }
            m.step(&mut st, op);
            rec.transitions += 1;
            rec.state(&(&st.text, &st.known, &st.open, st.due.map(|d| d.map(|d| d - st.now)), format!("{:?}", st.diags)));
            for d in 0..2 {
                let want = &st.diags[d];
                if want.is_empty() || st.due[d].is_some() && !st.seen[d] {
                    continue;
                }
                let got = s.inbox.diags.get(&uris[d]).map(|v| norm_diags(v));
                rec.validated += 1;
                if !got.as_ref().is_some_and(|g| want.contains(g)) {
                    rec.fail(
                        format!("history {:?} {how}", &h[..=i]),
                        format!(
                            "diagnostics of {} after {:?}: expected {}, got {}",
                            NAMES[d], &h[..=i], Value::from(want.concat()), got.map_or(json!("none published"), Value::from)
                        ),
                    );
                }
            }
        }
        rec.nontrivial += 1;
        // What is still due comes by itself.
        s.settle(250);
        m.pass(&mut st, 250);
        for d in 0..2 {
            let want = &st.diags[d];
            if !want.is_empty() {
                let got = s.inbox.diags.get(&uris[d]).map(|v| norm_diags(v)).unwrap_or_default();
                rec.outcome(&format!("{got:?}"));
                rec.validated += 1;
                if !want.contains(&got) {
                    rec.fail(
                        format!("history {h:?} {how} end"),
                        format!("diagnostics of {} 250 ms after {h:?}: expected {}, got {}", NAMES[d],
                            Value::from(want.concat()), Value::from(got)),
                    );
                }
            }
            if let (Some(k), true) = (st.text[d], st.open[d]) {
                let got = Value::from(norm_symbols(&s.symbols(&uris[d])));
                rec.eq(
                    format!("history {h:?} {how} symbols"),
                    &format!("symbols of {} 250 ms after {h:?}", NAMES[d]),
                    &Value::from(m.docs[d][k].symbols()),
                    &got,
                );
            }
        }
        for d in 0..2 {
            if st.open[d] {
                s.close(&uris[d]);
            }
        }
        s.settle(250);
        s.inbox = Default::default();
        w.give_back(s);
    }
}

/// The edit an editor sends: what lies between the common ends.
fn parts(old: &str, new: &str) -> Value {
    let a = old.char_indices().zip(new.chars()).find(|((_, x), y)| x != y).map_or(old.len().min(new.len()), |((i, _), _)| i);
    let z = old[a..].chars().rev().zip(new[a..].chars().rev()).take_while(|(x, y)| x == y).map(|(c, _)| c.len_utf8()).sum::<usize>();
    json!([{"range": range_of(old, a, old.len() - z), "text": &new[a..new.len() - z]}])
}
