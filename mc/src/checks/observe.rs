//! Everything an editor can see of one document.
use crate::model::*;
use crate::session::Session;
use serde_json::{json, Value};

/// Char boundaries of a text.
/// An editor never splits a line break.
pub fn boundaries(t: &str) -> Vec<usize> {
    (0..=t.len())
        .filter(|&i| t.is_char_boundary(i) && !(t[..i].ends_with('\r') && t[i..].starts_with('\n')))
        .collect()
}

/// A completion as sorted (label, detail, edits).
pub fn norm_items(v: &Value) -> Value {
    let Some(a) = v.as_array() else { return v.clone() };
    // Filters, tests and snippets are long lists.
    let items = a
        .iter()
        .map(|i| json!([i["label"], i["detail"], i["kind"], i["textEdit"], i["additionalTextEdits"]]))
        .collect();
    Value::from(sorted(items))
}

pub fn norm_locations(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::from(sorted(a.clone())),
        v => v.clone(),
    }
}

/// Places where tokens meet, never inside of a line break.
pub fn joints(t: &str) -> Vec<usize> {
    let class = |c: char| match c {
        c if c.is_alphanumeric() => 0,
        ' ' => 1,
        '\n' | '\r' => 2,
        '{' => 3,
        '}' => 4,
        '%' => 5,
        _ => 6,
    };
    let mut v = vec![0];
    let mut last = None;
    for (i, c) in t.char_indices() {
        if last.is_some_and(|l| l != class(c)) {
            v.push(i);
        }
        last = Some(class(c));
    }
    v.push(t.len());
    v.dedup();
    v
}

/// Answers at the places where tokens meet, at most `most` of them.
pub fn answers(s: &mut Session, uri: &str, text: &str, most: usize) -> Vec<Value> {
    let js = joints(text);
    let n = js.len().min(most);
    let mut out = vec![];
    for k in 0..n {
        let at = js[if n == 1 { 0 } else { k * (js.len() - 1) / (n - 1) }];
        let (l, c) = pos_of(text, at);
        let h = s.hover(uri, l, c);
        let g = norm_locations(&s.goto(uri, l, c));
        let i = norm_items(&s.complete(uri, l, c));
        let a = s.action(uri, l, c);
        out.push(json!([at, h, g, i, a]));
    }
    s.inbox.responses.clear();
    out
}

/// Diagnostics, symbols and answers of a document, once nothing happens any more.
pub fn observe(s: &mut Session, uri: &str, text: &str, most: usize) -> Value {
    s.settle(300);
    let d = norm_diags(s.inbox.diags.get(uri).map_or(&[], |v| v));
    let sy = norm_symbols(&s.symbols(uri));
    let a = answers(s, uri, text, most);
    json!({"diagnostics": d, "symbols": sy, "answers": a})
}

/// Where two observations differ, in words.
pub fn difference(want: &Value, got: &Value) -> String {
    for k in ["diagnostics", "symbols"] {
        if want[k] != got[k] {
            return format!("{k}: expected {}, got {}", want[k], got[k]);
        }
    }
    let (a, b) = (want["answers"].as_array().unwrap(), got["answers"].as_array().unwrap());
    for (x, y) in a.iter().zip(b) {
        for (i, what) in [(1, "hover"), (2, "definition"), (3, "completion"), (4, "code action")] {
            if x[i] != y[i] {
                return format!("{what} at byte {}: expected {}, got {}", x[0], x[i], y[i]);
            }
        }
    }
    format!("{} answers expected, {} given", a.len(), b.len())
}
