//! The bounded spaces of templates.
use crate::model::{Doc, Style, PLAIN};

/// Constructs a template is a sequence of; `CLOSE`, `ELIF` and `ELSE` only where legal.
/// The first `BASIC` of them are used everywhere, the others in shorter sequences.
pub const BASIC: usize = 24;
pub const OPS: [&str; 51] = [
    "{{a}}", "{{b}}", "{{d}}", "set a", "set b=a", "close", "for a in b", "for a,b in d", "if a",
    "elif b", "else", "with a=b", "macro a(b)", "block a", "filter", "{{ }}", "set-block a",
    "with a=1,b=a", "macro b(a,d=a)", "for b in a if b", "autoescape", "block b named",
    "text", "comment",
    "call a(b)", "do a(b)", "include other", "extends other", "raw", "trans", "for a in d.x()", "macro a()",
    "with", "filter a(b)", "block a scoped", "for a in b recursive", "include other ignore missing",
    "include other without context", "block b required",
    "for (a,b) in d", "set a=a", "with a=1,b=a,d=b", "macro d(a,b=1,d=b,c='x')", "for a in loop.x", "{{a.b.a}}",
    "{{loop.index}}", "{{super()}}", "if tests", "set d=a|default(b)", "{{b(a)}}", "for b in numbers",
];

pub fn legal(d: &Doc, op: usize) -> bool {
    match OPS[op] {
        "close" => d.depth() > 0,
        "elif b" => d.can_elif(),
        "else" => d.can_else(),
        _ => true,
    }
}

pub fn put(d: &mut Doc, op: usize) {
    match OPS[op] {
        "{{a}}" => d.expr("$a"),
        "{{b}}" => d.expr("$b"),
        "{{d}}" => d.expr("$d"),
        "set a" => d.set("a", "1"),
        "set b=a" => d.set("b", "$a"),
        "close" => d.close(),
        "for a in b" => d.for_("a", None, "$b"),
        "for a,b in d" => d.for_("a", Some("b"), "$d"),
        "if a" => d.if_("$a"),
        "elif b" => d.elif("$b"),
        "else" => d.else_(),
        "with a=b" => d.with(&[("a", "$b")]),
        "macro a(b)" => d.macro_("a", &[("b", None)]),
        "block a" => d.block("a", false),
        "filter" => d.filter("upper"),
        "{{ }}" => d.empty_expr(),
        "set-block a" => d.set_block("a"),
        "with a=1,b=a" => d.with(&[("a", "1"), ("b", "$a")]),
        "macro b(a,d=a)" => d.macro_("b", &[("a", None), ("d", Some("$a"))]),
        "for b in a if b" => d.for_("b", None, "$a if $b"),
        "autoescape" => d.autoescape(),
        "block b named" => d.block("b", true),
        "text" => d.lit("<p>\n"),
        "comment" => d.comment(" {{ a }} # {% set a = 1 %} it's "),
        "call a(b)" => d.wrap("call", "$a($b)", "endcall", false),
        "do a(b)" => d.tag("do", "$a($b)"),
        "include other" => d.tag("include", "'other.html'"),
        "extends other" => d.tag("extends", "\"other.html\""),
        "raw" => {
            d.wrap("raw", "", "endraw", true);
            d.lit("<b>a</b>\n{{ b }}#{% set d = a %}{% endif %}{# {{ d\n");
            d.close();
        }
        "trans" => {
            d.wrap("trans", "", "endtrans", false);
            d.lit("Hello a");
            d.close();
        }
        "for a in d.x()" => d.for_("a", None, "$d.x()"),
        "macro a()" => d.macro_("a", &[]),
        "with" => d.with(&[]),
        "filter a(b)" => d.wrap("filter", "@replace($a, $b)", "endfilter", true),
        "block a scoped" => d.block_with("a", "scoped"),
        "include other ignore missing" => d.tag("include", "'other.html' ignore missing with context"),
        "include other without context" => d.tag("include", "'other.html' without context"),
        "block b required" => d.block_with("b", "required"),
        "for (a,b) in d" => d.for_in_brackets("a", "b", "$d"),
        "set a=a" => d.set("a", "$a"),
        "with a=1,b=a,d=b" => d.with(&[("a", "1"), ("b", "$a"), ("d", "$b")]),
        "macro d(a,b=1,d=b,c='x')" => {
            d.macro_("d", &[("a", None), ("b", Some("1")), ("d", Some("$b")), ("c", Some("'x'"))])
        }
        "for a in loop.x" => d.for_("a", None, "$loop.x"),
        "{{a.b.a}}" => d.expr("$a.b.a"),
        "{{loop.index}}" => d.expr("$loop.index"),
        "{{super()}}" => d.expr("$super()"),
        "if tests" => d.if_("$a is ?defined and $b is not ?none or $d|@length > 1e5"),
        "set d=a|default(b)" => d.set("d", "$a|@default($b)"),
        "{{b(a)}}" => d.expr("$b($a, &a=$d)"),
        "for b in numbers" => d.for_("b", None, "[0x1F, 1_000, 2.5, -$a]"),
        "for a in b recursive" => d.for_("a", None, "$b recursive"),
        _ => unreachable!(),
    }
}

pub const STYLES: [Style; 6] = [
    PLAIN,
    Style { begin: "{%-", end: "-%}", ebegin: "{{-", eend: "-}}", sp: " ", pad: " " },
    Style { begin: "{%", end: "%}", ebegin: "{{", eend: "}}", sp: "\n", pad: "\n" },
    Style { begin: "{%", end: "%}", ebegin: "{{", eend: "}}", sp: "  ", pad: "" },
    Style { begin: "{%", end: "%}", ebegin: "{{", eend: "}}", sp: " \r\n\t", pad: " " },
    Style { begin: "{%+", end: "%}", ebegin: "{{", eend: "}}", sp: " ", pad: " " },
];

/// Text between constructs: nothing, lines, or characters of 1 to 4 bytes.
pub const GAPS: [&str; 4] = ["", "\n", "é😀 ", "x\r\n\u{2028}é\n"];

/// Other names for a, b and d: with digits and underscores, beginnings and parts of each other,
/// words that begin with a keyword or a built-in name, names of filters and tests.
pub const NAMES: [&[(&str, &str)]; 14] = [
    &[],
    &[("a", "item1"), ("b", "a_b"), ("d", "_x")],
    &[("a", "ab"), ("b", "abc"), ("d", "a")],
    &[("a", "ba"), ("b", "aba"), ("d", "xb")],
    &[("a", "A"), ("b", "a"), ("d", "B2b")],
    &[("a", "format"), ("b", "island"), ("d", "settings")],
    &[("a", "order"), ("b", "android"), ("d", "iffy")],
    &[("a", "looper"), ("b", "supermarket"), ("d", "trueish")],
    &[("a", "endforest"), ("b", "withal"), ("d", "macros")],
    &[("a", "_"), ("b", "__a__"), ("d", "x9_")],
    &[("a", "included"), ("b", "nothing"), ("d", "asset")],
    &[("a", "upper"), ("b", "defined"), ("d", "default")],
    &[("a", "url_for_all"), ("b", "blocks"), ("d", "x1y22")],
    &[("a", "a_name_that_is_rather_long_and_ends_in_2026"), ("b", "elsewhere"), ("d", "notice")],
];

pub fn build(ops: &[usize], style: usize, gap: usize, names: usize) -> Doc {
    let mut d = Doc::new(STYLES[style]);
    d.names = NAMES[names];
    d.lit(GAPS[gap]);
    for &o in ops {
        put(&mut d, o);
        d.lit(GAPS[gap]);
    }
    d
}

/// Every legal sequence of up to `len` constructs from `alphabet` after `prefix`, shortest first.
pub fn sequences(prefix: &[usize], alphabet: &[usize], len: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(
        cur: &mut Vec<usize>,
        d: &Doc,
        alphabet: &[usize],
        left: usize,
        f: &mut dyn FnMut(&[usize]),
    ) {
        if left == 0 {
            f(cur);
            return;
        }
        for &o in alphabet {
            if legal(d, o) {
                let mut d2 = d.clone();
                put(&mut d2, o);
                cur.push(o);
                rec(cur, &d2, alphabet, left - 1, f);
                cur.pop();
            }
        }
    }
    for n in 0..=len {
        let d = build(prefix, 0, 0, 0);
        let mut cur = prefix.to_vec();
        rec(&mut cur, &d, alphabet, n, f);
    }
}

pub fn op(name: &str) -> usize {
    OPS.iter().position(|o| *o == name).unwrap()
}

/// Starting points other than the empty template.
pub fn prefixes() -> Vec<Vec<usize>> {
    let p = |v: &[&str]| v.iter().map(|n| op(n)).collect::<Vec<_>>();
    vec![
        p(&["set a"]),
        p(&["if a", "set a", "close"]),
        p(&["for a in b", "close"]),
        p(&["block a", "macro a(b)"]),
        p(&["if a", "set b=a", "else"]),
        p(&["with a=b", "for a,b in d"]),
        p(&["macro b(a,d=a)", "set a", "close"]),
        p(&["for a in b", "if a", "close"]),
        p(&["if a", "if a", "set a", "close"]),
        p(&["set-block a", "{{a}}", "close"]),
    ]
}

// ---- expressions ------------------------------------------------------------------------
pub const ATOMS: [&str; 15] = [
    "$a", "$u", "$b", "$d.x", "$a.x.y", "'s'", "1", "true", "[$a, $u]", "{'k': $u}", "$a()",
    "\"q\"", "None", "\"it's\"", "'a \"b\" \\'d'",
];
pub const SHAPES: [&str; 30] = [
    "X", "X|@upper", "X | @upper", "X|@default(Y)", "X|@upper|@join(Y)|@lower", "X is ?defined",
    "X is not ?none", "X is ?divisibleby(Y)", "X if Y else $u", "X == Y", "X and Y or $a",
    "not X", "$u(X, Y)", "$a(X, &k=Y)", "$a[X]", "X ~ Y", "(X)|@upper", "[X, Y]|@first",
    "$a(X).y", "$a[X].y.z|@upper", "X in Y", "X not in Y", "X + Y * 2", "(X, Y)", "{'k': X, 'l': Y}",
    "X >= Y", "X is ?true and Y", "X is not ?false and Y", "X is ?in(Y)", "X % Y",
];

/// Rarer ones: members of built-in names and of literals, ways to write numbers.
pub const ATOMS2: [&str; 10] =
    ["$loop.index", "$loop", "$super()", "'s'.upper()", "1e5", "0x1F", "1_000", "1.5", "(-$u)", "$loop.index.x"];
pub const SHAPES2: [&str; 20] = [
    "X[1:Y]", "X // Y", "X ** Y", "-X", "X <= Y", "X != Y", "X if Y", "$u(*X, **Y)", "{X: Y}",
    "$a.f(X).g(Y)", "X|@map(&attribute='x')|@list", "X is ?defined and Y is not ?none", "X[Y][0]",
    "$a(X)(Y)", "X is ?eq Y", "X.x", "X - Y", "X / Y", "X < Y or X > Y", "$loop.cycle(X, Y).z|@upper",
];

/// Every expression with a rarer shape or a rarer atom.
pub fn rare_expressions(deep: bool) -> Vec<String> {
    let few = ["$a", "$u", "'s'", "$d.x"];
    let all: Vec<&str> = ATOMS.iter().chain(&ATOMS2).copied().collect();
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut add = |shape: &str, x: &str, y: &str| {
        // A member of a number is another number.
        if shape == "X.x" && (x.starts_with(|c: char| c.is_ascii_digit()) || x.starts_with('-')) {
            return;
        }
        let e = shape.replace('X', "\u{1}").replace('Y', y).replace('\u{1}', x);
        // The grammar knows no sign behind a keyword.
        let signed = ["if -", "in -", "else -", "not -", "and -", "or -", "eq -"].iter().any(|k| e.contains(k));
        if !signed && seen.insert(e.clone()) {
            out.push(e);
        }
    };
    for a in ATOMS2 {
        for shape in SHAPES {
            for f in few {
                add(shape, a, f);
                add(shape, f, a);
            }
        }
    }
    for shape in SHAPES2 {
        for x in &all {
            for f in few {
                add(shape, x, f);
                add(shape, f, x);
            }
        }
        if deep {
            for y in &all {
                for x in &all {
                    add(shape, x, y);
                }
            }
        }
        // Rarer shapes in and around every shape.
        for inner in SHAPES.iter().chain(&SHAPES2) {
            let inner = inner.replace('X', "$a").replace('Y', "$b");
            if !matches!(shape, "X.x" | "X[1:Y]" | "X[Y][0]") {
                add(shape, &inner, "$u");
            }
            add(shape, "$a", &inner);
        }
        let rare = shape.replace('X', "$a").replace('Y', "$b");
        for outer in SHAPES {
            add(outer, &rare, "$u");
            add(outer, "$u", &rare);
        }
    }
    out
}

/// Templates of a size: each scoping construct repeated or nested many times, with uses of the
/// names in and behind it.
pub const BIG: [&str; 11] = [
    "for a in b", "for a,b in d", "if a", "with a=b", "macro a(b)", "block a", "set-block a", "filter",
    "set a", "{{a}}", "if-else",
];
pub fn big(what: &str, n: usize, nested: bool, gap: usize) -> Doc {
    let mut d = Doc::new(STYLES[0]);
    d.lit(GAPS[gap]);
    for k in 0..n {
        if what == "if-else" {
            put(&mut d, op("if a"));
            put(&mut d, op("set b=a"));
            if k % 3 > 0 {
                put(&mut d, op("elif b"));
            }
            if k % 2 > 0 {
                put(&mut d, op("else"));
            }
        } else {
            put(&mut d, op(what));
        }
        if k % 8 == 7 {
            d.expr("$a ~ $b ~ $d");
        }
        d.lit(GAPS[gap]);
        if !nested && d.depth() > 0 {
            d.close();
        }
    }
    let mut k = 0;
    while d.depth() > 0 {
        if k % 8 == 0 {
            d.expr("$a ~ $b ~ $d");
        }
        k += 1;
        d.close();
    }
    d.expr("$a ~ $b ~ $d");
    d
}

/// Many names at once: in one tag, or one definition each.
pub fn many(what: &str, n: usize) -> Doc {
    let names: Vec<&'static str> = (0..n).map(many_name).collect();
    let mut d = Doc::new(STYLES[0]);
    match what {
        "with" => {
            let b: Vec<(&str, &str)> = names.iter().map(|n| (*n, "$a")).collect();
            d.with(&b);
        }
        "macro" => {
            let b: Vec<(&str, Option<&str>)> =
                names.iter().enumerate().map(|(k, n)| (*n, (k % 2 == 1).then_some("$a"))).collect();
            d.macro_("m", &b);
        }
        "set" => names.iter().for_each(|n| d.set(n, "$a")),
        "expr" => {
            let e: Vec<String> = names.iter().map(|n| format!("${n}")).collect();
            d.expr(&e.join(" ~ "));
        }
        "filters" => d.expr(&format!("$a{}", "|@upper".repeat(n))),
        "members" => d.expr(&format!("$a{} ~ $b", ".x".repeat(n))),
        "calls" => d.expr(&format!("{}$a{}", "$b(".repeat(n), ")".repeat(n))),
        _ => unreachable!(),
    }
    for n in names.iter().step_by(1 + n / 8) {
        d.expr(&format!("${n}"));
    }
    d.lit("\n");
    while d.depth() > 0 {
        d.close();
    }
    for n in names.iter().step_by(1 + n / 8) {
        d.expr(&format!("${n}"));
    }
    d
}
pub const MANY: [&str; 7] = ["with", "macro", "set", "expr", "filters", "members", "calls"];

/// Names that live as long as the model.
fn many_name(k: usize) -> &'static str {
    static NAMES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    &NAMES.get_or_init(|| (0..400).map(|k| format!("n{k}")).collect())[k]
}

/// All expressions with shapes nested to `depth`.
pub fn expressions(depth: usize) -> Vec<String> {
    let atoms: Vec<String> = ATOMS.iter().map(|s| s.to_string()).collect();
    if depth == 0 {
        return atoms;
    }
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    let inner = expressions(depth - 1);
    // Both holes vary; one of them over everything of the level below, the other over atoms.
    let few: Vec<String> = ["$a", "$u", "'s'"].iter().map(|s| s.to_string()).collect();
    for s in SHAPES {
        let mut add = |x: &str, y: &str| {
            let e = s.replace('X', "\u{1}").replace('Y', y).replace('\u{1}', x);
            if seen.insert(e.clone()) {
                out.push(e);
            }
        };
        if s.contains('Y') {
            for x in &inner {
                for y in if depth == 1 { &atoms } else { &few } {
                    add(x, y);
                }
            }
            if depth > 1 {
                for y in &inner {
                    add("$a", y);
                }
            }
        } else {
            for x in &inner {
                add(x, "");
            }
        }
    }
    out
}

/// Places an expression can be in.
pub const PLACES: usize = 8;
pub fn place(d: &mut Doc, k: usize, e: &str) {
    match k {
        0 => d.expr(e),
        1 => {
            d.if_(e);
            d.close();
        }
        2 => d.set("z", e),
        3 => {
            d.for_("z", None, e);
            d.close();
        }
        4 => {
            d.with(&[("z", e)]);
            d.close();
        }
        5 => {
            d.if_("true");
            d.elif(e);
            d.close();
        }
        6 => {
            d.for_("z", Some("w"), "$a");
            d.expr(e);
            d.close();
        }
        _ => {
            d.macro_("m", &[("z", Some(e))]);
            d.close();
        }
    }
}

pub fn expr_doc(e: &str, k: usize, style: usize, gap: usize, names: usize) -> Doc {
    let mut d = Doc::new(STYLES[style]);
    d.names = NAMES[names];
    d.set("a", "1");
    d.lit(GAPS[gap]);
    place(&mut d, k, e);
    d.lit(GAPS[gap]);
    d.expr("$a");
    d
}
