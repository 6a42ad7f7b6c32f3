//! The reference model: a template is built from abstract constructs, and the builder records
//! what every name in it means. Nothing here looks at the implementation.
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    ForKey,
    ForValue,
    Set,
    With,
    Macro,
    Param,
    Block,
}

impl Kind {
    pub fn detail(self) -> &'static str {
        match self {
            Kind::ForKey => "For loop key",
            Kind::ForValue => "For loop value",
            Kind::Set => "Set variable",
            Kind::With => "With variable",
            Kind::Macro => "Macro",
            Kind::Param => "Macro parameter",
            Kind::Block => "Template block",
        }
    }
    /// LSP SymbolKind.
    pub fn symbol(self) -> u64 {
        match self {
            Kind::ForKey | Kind::ForValue | Kind::Set | Kind::With => 13,
            Kind::Macro => 12,
            Kind::Param => 8,
            Kind::Block => 2,
        }
    }
    /// LSP CompletionItemKind.
    pub fn item(self) -> u64 {
        match self {
            Kind::ForKey | Kind::ForValue | Kind::Set | Kind::With => 6,
            Kind::Macro => 3,
            Kind::Param => 5,
            Kind::Block => 9,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    pub scope: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Var,
    Filter,
    Test,
    /// Name of a block, at its start or its end.
    Block,
    /// Name of a keyword argument.
    Arg,
}

#[derive(Clone, Debug)]
pub struct Ref {
    pub name: String,
    pub start: usize,
    pub end: usize,
    pub chain_end: usize,
    pub role: Role,
    pub in_expr: bool,
}

#[derive(Clone, Debug)]
pub struct Tpl {
    pub name: String,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug)]
struct Frame {
    closer: &'static str,
    scope: Option<usize>,
    has_else: bool,
    name: Option<String>,
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub begin: &'static str,
    pub end: &'static str,
    pub ebegin: &'static str,
    pub eend: &'static str,
    pub sp: &'static str,
    /// Between a delimiter and what is in it.
    pub pad: &'static str,
}

pub const PLAIN: Style = Style { begin: "{%", end: "%}", ebegin: "{{", eend: "}}", sp: " ", pad: " " };

/// Definitions of other files.
#[derive(Clone, Debug)]
pub struct Ext {
    pub name: String,
    pub uri: String,
    pub range: Value,
    pub backend: bool,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub text: String,
    pub defs: Vec<Def>,
    pub refs: Vec<Ref>,
    /// `{{ }}`: start and end, and whether nothing is inside.
    pub exprs: Vec<(usize, usize, bool)>,
    pub tags: Vec<(usize, usize)>,
    pub texts: Vec<(usize, usize)>,
    pub comments: Vec<(usize, usize)>,
    pub tpls: Vec<Tpl>,
    /// End of each scope; scope 0 is the file.
    pub scopes: Vec<usize>,
    stack: Vec<Frame>,
    pub style: Style,
    in_expr: bool,
    tag_start: usize,
    /// Other names for the variables of the constructs.
    pub names: &'static [(&'static str, &'static str)],
}

fn ident(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

impl Doc {
    pub fn new(style: Style) -> Doc {
        Doc {
            text: String::new(),
            defs: vec![],
            refs: vec![],
            exprs: vec![],
            tags: vec![],
            texts: vec![],
            comments: vec![],
            tpls: vec![],
            scopes: vec![usize::MAX],
            stack: vec![],
            style,
            in_expr: false,
            tag_start: 0,
            names: &[],
        }
    }

    fn named(&self, name: &str) -> String {
        self.names.iter().find(|n| n.0 == name).map_or(name, |n| n.1).to_string()
    }

    fn scope(&self) -> usize {
        self.stack.iter().rev().find_map(|f| f.scope).unwrap_or(0)
    }

    fn push_def(&mut self, name: &str, kind: Kind, scope: usize) {
        let name = &self.named(name);
        let start = self.text.len();
        self.text.push_str(name);
        let end = self.text.len();
        self.defs.push(Def { name: name.into(), kind, start, end, scope });
        let role = if kind == Kind::Block { Role::Block } else { Role::Var };
        self.refs.push(Ref {
            name: name.into(),
            start,
            end,
            chain_end: end,
            role,
            in_expr: false,
        });
    }

    /// Source with marks: `$x.y` variable, `@f` filter, `?t` test, `&k` argument name,
    /// `"t"` template name when `tpl`.
    pub fn src(&mut self, s: &str) {
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if c == ' ' {
                let sp = self.style.sp;
                self.text.push_str(sp);
                i += 1;
                continue;
            }
            let role = match c {
                '$' => Role::Var,
                '@' => Role::Filter,
                '?' => Role::Test,
                '&' => Role::Arg,
                _ => {
                    self.text.push(c);
                    i += 1;
                    continue;
                }
            };
            i += 1;
            let start = self.text.len();
            let mut name = String::new();
            while i < cs.len() && ident(cs[i]) {
                name.push(cs[i]);
                i += 1;
            }
            if role == Role::Var {
                name = self.named(&name);
            }
            self.text.push_str(&name);
            let end = self.text.len();
            if role == Role::Var {
                while i + 1 < cs.len() && cs[i] == '.' && ident(cs[i + 1]) {
                    self.text.push('.');
                    i += 1;
                    while i < cs.len() && ident(cs[i]) {
                        self.text.push(cs[i]);
                        i += 1;
                    }
                }
            }
            let chain_end = self.text.len();
            let in_expr = self.in_expr;
            self.refs.push(Ref { name, start, end, chain_end, role, in_expr });
        }
    }

    pub fn lit(&mut self, s: &str) {
        let start = self.text.len();
        self.text.push_str(s);
        if !s.is_empty() {
            self.texts.push((start, self.text.len()));
        }
    }

    pub fn comment(&mut self, s: &str) {
        let start = self.text.len();
        self.text.push_str("{#");
        self.text.push_str(s);
        self.text.push_str("#}");
        self.comments.push((start, self.text.len()));
    }

    pub fn expr(&mut self, s: &str) {
        let start = self.text.len();
        let st = self.style;
        self.text.push_str(st.ebegin);
        self.text.push_str(st.pad);
        self.in_expr = true;
        self.src(s);
        self.in_expr = false;
        self.text.push_str(st.pad);
        self.text.push_str(st.eend);
        self.exprs.push((start, self.text.len(), s.is_empty()));
    }

    /// `{{ }}` with just a space in it.
    pub fn empty_expr(&mut self) {
        let start = self.text.len();
        self.text.push_str("{{ }}");
        self.exprs.push((start, self.text.len(), true));
    }

    fn begin(&mut self) {
        self.tag_start = self.text.len();
        self.text.push_str(self.style.begin);
        self.text.push_str(self.style.pad);
    }

    fn end(&mut self) {
        self.text.push_str(self.style.pad);
        self.text.push_str(self.style.end);
        self.tags.push((self.tag_start, self.text.len()));
    }

    fn word(&mut self, w: &str) {
        self.text.push_str(w);
        self.text.push_str(self.style.sp);
    }

    fn new_scope(&mut self) -> usize {
        self.scopes.push(usize::MAX);
        self.scopes.len() - 1
    }

    fn push_frame(&mut self, closer: &'static str, scope: Option<usize>, name: Option<String>) {
        self.stack.push(Frame { closer, scope, has_else: false, name });
    }

    pub fn set(&mut self, name: &str, value: &str) {
        self.begin();
        self.word("set");
        let sc = self.scope();
        self.push_def(name, Kind::Set, sc);
        self.src(" = ");
        self.src(value);
        self.end();
    }

    /// `{% set x %}…{% endset %}`: defines in the surrounding scope.
    pub fn set_block(&mut self, name: &str) {
        self.begin();
        self.word("set");
        let sc = self.scope();
        self.push_def(name, Kind::Set, sc);
        self.end();
        self.push_frame("endset", None, None);
    }

    pub fn for_(&mut self, key: &str, value: Option<&str>, iter: &str) {
        let sc = self.new_scope();
        self.begin();
        self.word("for");
        self.push_def(key, Kind::ForKey, sc);
        if let Some(v) = value {
            self.src(", ");
            self.push_def(v, Kind::ForValue, sc);
        }
        self.src(" in ");
        self.src(iter);
        self.end();
        self.push_frame("endfor", Some(sc), None);
    }

    /// `{% for (a, b) in x %}`.
    pub fn for_in_brackets(&mut self, key: &str, value: &str, iter: &str) {
        let sc = self.new_scope();
        self.begin();
        self.word("for");
        self.text.push('(');
        self.push_def(key, Kind::ForKey, sc);
        self.src(", ");
        self.push_def(value, Kind::ForValue, sc);
        self.text.push(')');
        self.src(" in ");
        self.src(iter);
        self.end();
        self.push_frame("endfor", Some(sc), None);
    }

    pub fn if_(&mut self, cond: &str) {
        let sc = self.new_scope();
        self.begin();
        self.word("if");
        self.src(cond);
        self.end();
        self.push_frame("endif", Some(sc), None);
    }

    pub fn can_elif(&self) -> bool {
        self.stack.last().is_some_and(|f| f.closer == "endif" && !f.has_else)
    }
    pub fn can_else(&self) -> bool {
        self.stack
            .last()
            .is_some_and(|f| matches!(f.closer, "endif" | "endfor") && !f.has_else)
    }
    pub fn depth(&self) -> usize {
        self.stack.len()
    }

    fn branch(&mut self) {
        let at = self.text.len();
        let old = self.stack.last().unwrap().scope.unwrap();
        self.scopes[old] = at;
        let sc = self.new_scope();
        self.stack.last_mut().unwrap().scope = Some(sc);
    }

    pub fn elif(&mut self, cond: &str) {
        self.branch();
        self.begin();
        self.word("elif");
        self.src(cond);
        self.end();
    }

    pub fn else_(&mut self) {
        self.branch();
        self.stack.last_mut().unwrap().has_else = true;
        self.begin();
        self.text.push_str("else");
        self.end();
    }

    pub fn with(&mut self, binds: &[(&str, &str)]) {
        let sc = self.new_scope();
        self.begin();
        self.word("with");
        for (i, (n, v)) in binds.iter().enumerate() {
            if i > 0 {
                self.src(", ");
            }
            self.push_def(n, Kind::With, sc);
            self.src(" = ");
            self.src(v);
        }
        self.end();
        self.push_frame("endwith", Some(sc), None);
    }

    /// Parameters with optional default values.
    pub fn macro_(&mut self, name: &str, params: &[(&str, Option<&str>)]) {
        let outer = self.scope();
        let sc = self.new_scope();
        self.begin();
        self.word("macro");
        self.push_def(name, Kind::Macro, outer);
        self.text.push('(');
        for (i, (p, d)) in params.iter().enumerate() {
            if i > 0 {
                self.src(", ");
            }
            self.push_def(p, Kind::Param, sc);
            if let Some(d) = d {
                self.src("=");
                self.src(d);
            }
        }
        self.text.push(')');
        self.end();
        self.push_frame("endmacro", Some(sc), None);
    }

    pub fn block(&mut self, name: &str, named_end: bool) {
        let sc = self.new_scope();
        self.begin();
        self.word("block");
        self.push_def(name, Kind::Block, sc);
        self.end();
        self.push_frame("endblock", Some(sc), named_end.then(|| self.named(name)));
    }

    pub fn filter(&mut self, name: &str) {
        let sc = self.new_scope();
        self.begin();
        self.word("filter");
        self.src(&format!("@{name}"));
        self.end();
        self.push_frame("endfilter", Some(sc), None);
    }

    pub fn autoescape(&mut self) {
        let sc = self.new_scope();
        self.begin();
        self.word("autoescape");
        self.src("true");
        self.end();
        self.push_frame("endautoescape", Some(sc), None);
    }

    /// A tag that defines nothing.
    pub fn tag(&mut self, word: &str, rest: &str) {
        self.begin();
        self.word(word);
        self.src(rest);
        self.end();
    }

    /// A tag that defines nothing, up to its end.
    pub fn wrap(&mut self, word: &str, rest: &str, closer: &'static str, scoped: bool) {
        let sc = scoped.then(|| self.new_scope());
        self.tag(word, rest);
        self.push_frame(closer, sc, None);
    }

    pub fn block_with(&mut self, name: &str, modifier: &str) {
        let sc = self.new_scope();
        self.begin();
        self.word("block");
        self.push_def(name, Kind::Block, sc);
        self.src(&format!(" {modifier}"));
        self.end();
        self.push_frame("endblock", Some(sc), None);
    }

    pub fn close(&mut self) {
        let f = self.stack.pop().unwrap();
        if let Some(s) = f.scope {
            self.scopes[s] = self.text.len();
        }
        self.begin();
        self.text.push_str(f.closer);
        if let Some(n) = f.name {
            let sp = self.style.sp;
            self.text.push_str(sp);
            let start = self.text.len();
            self.text.push_str(&n);
            let end = self.text.len();
            self.refs.push(Ref {
                name: n,
                start,
                end,
                chain_end: end,
                role: Role::Block,
                in_expr: false,
            });
        }
        self.end();
    }

    fn tpl(&mut self, name: &str, quote: char) {
        let start = self.text.len();
        self.text.push(quote);
        self.text.push_str(name);
        self.text.push(quote);
        self.tpls.push(Tpl { name: name.into(), start, end: self.text.len() });
    }

    /// kind: extends, include, from, import.
    pub fn import(&mut self, kind: &str, name: &str, quote: char) {
        self.begin();
        self.word(kind);
        self.tpl(name, quote);
        match kind {
            "from" => self.src(" import $loop"),
            "import" => self.src(" as $loop"),
            _ => {}
        }
        if matches!(kind, "from" | "import") {
            self.refs.pop();
        }
        self.end();
    }

    // ---- meaning ----------------------------------------------------------------------
    pub fn scope_end(&self, d: &Def) -> usize {
        self.scopes[d.scope].min(self.text.len())
    }

    /// The definition a name at `at` refers to.
    pub fn resolve(&self, name: &str, at: usize) -> Option<&Def> {
        self.defs
            .iter()
            .filter(|d| d.kind != Kind::Block && d.name == name)
            .filter(|d| d.start <= at && (at < self.scopes[d.scope]))
            .max_by_key(|d| d.start)
    }

    /// Names a user can refer to at `at`, with the kinds of their definitions.
    pub fn visible(&self, at: usize) -> Vec<&Def> {
        self.defs
            .iter()
            .filter(|d| d.kind != Kind::Block && d.end <= at && at < self.scopes[d.scope])
            .collect()
    }

    pub fn pos(&self, at: usize) -> (usize, usize) {
        pos_of(&self.text, at)
    }

    /// An offset strictly inside of a piece of text.
    pub fn inside(&self, t: &(usize, usize)) -> usize {
        (t.0 + (t.1 - t.0) / 2..t.1).find(|i| self.text.is_char_boundary(*i)).unwrap_or(t.0)
    }

    pub fn range(&self, a: usize, b: usize) -> Value {
        range_of(&self.text, a, b)
    }

    pub fn symbols(&self) -> Vec<Value> {
        let mut v: Vec<&Def> = self.defs.iter().collect();
        v.sort_by_key(|d| d.start);
        v.iter()
            .map(|d| json!({"name": d.name, "kind": d.kind.symbol(), "range": self.range(d.start, d.end)}))
            .collect()
    }

    pub fn lint(&self, ext: &[Ext]) -> Vec<Value> {
        let mut out = vec![];
        for r in &self.refs {
            if r.role != Role::Var || BUILTIN.contains(&r.name.as_str()) {
                continue;
            }
            if self.resolve(&r.name, r.start).is_some() {
                continue;
            }
            let here = self.defs.iter().any(|d| d.kind != Kind::Block && d.name == r.name);
            let there = ext.iter().any(|e| e.name == r.name);
            let (m, s) = if !here && there {
                ("Variable is defined in other file.", 3)
            } else {
                ("Undefined variable", 2)
            };
            out.push(json!({"message": m, "severity": s, "range": self.range(r.start, r.end)}));
        }
        out
    }
}

pub const BUILTIN: [&str; 12] =
    ["loop", "true", "True", "false", "False", "none", "None", "not", "as", "module", "super", "url_for"];

/// LSP position of a byte offset: LF and CRLF end a line, columns count UTF-16 units.
pub fn pos_of(text: &str, at: usize) -> (usize, usize) {
    let before = &text[..at.min(text.len())];
    let line = before.matches('\n').count();
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    (line, before[start..].encode_utf16().count())
}

pub fn range_of(text: &str, a: usize, b: usize) -> Value {
    let (l1, c1) = pos_of(text, a);
    let (l2, c2) = pos_of(text, b);
    json!({"start": {"line": l1, "character": c1}, "end": {"line": l2, "character": c2}})
}

/// Byte offset of an LSP position, clamped into the document.
pub fn offset_of(text: &str, line: usize, ch: usize) -> usize {
    let mut start = 0;
    for _ in 0..line {
        match text[start..].find('\n') {
            Some(i) => start += i + 1,
            None => return text.len(),
        }
    }
    let end = text[start..].find('\n').map_or(text.len(), |i| start + i);
    let mut row = &text[start..end];
    if end < text.len() && row.ends_with('\r') {
        row = &row[..row.len() - 1];
    }
    let (mut u, mut b) = (0, 0);
    for c in row.chars() {
        if u + c.len_utf16() > ch {
            break;
        }
        u += c.len_utf16();
        b += c.len_utf8();
    }
    start + b
}

/// Applies one LSP text edit.
pub fn apply(text: &str, range: &Value, new: &str) -> String {
    let g = |k: &str| {
        offset_of(
            text,
            range[k]["line"].as_u64().unwrap_or(0) as usize,
            range[k]["character"].as_u64().unwrap_or(0) as usize,
        )
    };
    let (mut a, mut b) = (g("start"), g("end"));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    format!("{}{}{}", &text[..a], new, &text[b..])
}

/// What a document becomes when a completion is accepted: all edits refer to the text before.
pub fn accept(text: &str, item: &Value, replace: bool) -> Result<String, String> {
    let e = &item["textEdit"];
    let mut edits = vec![];
    let mut add = |range: &Value, new: &Value| {
        let g = |k: &str| {
            let n = |f: &str| range[k][f].as_u64().unwrap_or(0) as usize;
            offset_of(text, n("line"), n("character"))
        };
        edits.push((g("start"), g("end"), new.as_str().unwrap_or("?").to_string()));
    };
    if e["range"].is_object() {
        add(&e["range"], &e["newText"]);
    } else if e.is_object() {
        add(&e[if replace { "replace" } else { "insert" }], &e["newText"]);
    } else {
        return Err("no text edit".into());
    }
    for a in item["additionalTextEdits"].as_array().into_iter().flatten() {
        add(&a["range"], &a["newText"]);
    }
    edits.sort();
    for w in edits.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("edits overlap: {edits:?}"));
        }
    }
    let mut out = text.to_string();
    for (a, b, new) in edits.iter().rev() {
        if a > b {
            return Err(format!("an edit ends before it starts: {edits:?}"));
        }
        out.replace_range(a..b, new);
    }
    Ok(out)
}

pub fn sorted(mut v: Vec<Value>) -> Vec<Value> {
    v.sort_by_key(|x| x.to_string());
    v
}

/// Symbols as (name, kind, range), in an order of their own; what is selected when one is chosen is
/// its name, too.
pub fn norm_symbols(v: &Value) -> Vec<Value> {
    let mut out: Vec<Value> = v
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|s| match s["selectionRange"] == s["range"] {
            true => json!({"name": s["name"], "kind": s["kind"], "range": s["range"]}),
            false => json!({"name": s["name"], "kind": s["kind"], "range": s["range"], "selected": s["selectionRange"]}),
        })
        .collect();
    out.sort_by_key(|s| {
        (
            s["range"]["start"]["line"].as_u64(),
            s["range"]["start"]["character"].as_u64(),
            s["name"].to_string(),
        )
    });
    out
}

pub fn norm_diags(v: &[Value]) -> Vec<Value> {
    sorted(
        v.iter()
            .map(|d| json!({"message": d["message"], "severity": d["severity"], "range": d["range"]}))
            .collect(),
    )
}
