//! Hover, go-to-definition, completion and document symbols, at every position of a document.
use crate::{any::*, c03::letter, doc::*, entry, rt::*, util::*};
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::search::objects::CompletionType;
use jinja_lsp_queries::search::IdentifierType as T;
use tower_lsp::lsp_types::*;

fn pt(p: tree_sitter::Point) -> P {
    (p.row as u32, p.column as u32)
}

/// A document of one of several shapes; names `x`, `y`, `z` can coincide.
pub fn shape(k: usize, x: &str, y: &str, z: &str) -> Doc {
    let mut d = Doc::new();
    match k {
        0 => {
            d.set(x).t("\nab ").use_(y).t("\n").set(z).use_(y);
        }
        1 => {
            d.for_(x, Some(y), "q", |d| {
                d.t("\n").use_(z).t("\n");
            })
            .use_(z);
        }
        2 => {
            d.macro_(x, y, |d| {
                d.use_(z);
            })
            .expr(|d| {
                d.r(z).t("(").r(y).t(")");
            });
        }
        3 => {
            d.set(x).with(y, z, |d| {
                d.expr(|d| {
                    d.r(z).field("k").field("n").t(" | ").filter("h");
                });
            });
        }
        4 => {
            d.set(x).t("\n{% if ").open().r(y).t(" is ").test("h").t(" %}").set(z).use_(y).close().t("{% endif %}").use_(y);
        }
        5 => {
            d.block(x, |d| {
                d.set(y).use_(z);
            })
            .use_(x);
        }
        6 => {
            d.set(x).expr(|d| {
                d.r(y).t(" ~ ").r(z).t(" ~ 'k' ~ ").r("q").t("[").r(y).t("] | ").filter("x").t("(").r(z).t(")");
            });
        }
        _ => {
            d.set(x).t("\n{{\n  ").r(y).field("k").t("\n  | ").filter("h").t("\n}}\n").t("{# c #}").use_(z);
        }
    }
    d
}
pub const SHAPES: usize = 8;

pub fn latest<'a>(doc: &'a Doc, ok: impl Fn(&Def) -> bool) -> Option<&'a Def> {
    let mut best: Option<&Def> = None;
    for d in &doc.defs {
        if ok(d) && best.map_or(true, |b| d.start > b.start) {
            best = Some(d);
        }
    }
    best
}

fn type_of(k: &T) -> &'static str {
    k.completion_detail()
}

/// One statement of any kind around a use, or an expression of any form.
fn anything() -> Doc {
    let (x, y) = (letter("x"), letter("y"));
    let mut d = Doc::new();
    let k = choose("what", KINDS + FORMS);
    if k < KINDS {
        stmt(&mut d, k, &x, &y, |d| {
            d.use_(&x);
        });
        d.t("\n").use_(&y);
    } else {
        d.set("h").t("\n").set_block(&x, |d| {
            d.t("h");
        });
        d.expr(|d| form(d, k - KINDS, &x, &y));
    }
    d
}
entry!(h_c05_hover, {
    let l = LspFiles::default();
    let k = choose("shape", SHAPES);
    let (x, y, z) = (letter("x"), letter("y"), letter("z"));
    c05(l, shape(k, &x, &y, &z));
});
// Every kind of statement and expression.
entry!(h_c05_any, {
    let l = LspFiles::default();
    c05(l, anything());
});
fn c05(mut l: LspFiles, doc: Doc) {
    open(&mut l, A, &doc.s);
    note(&doc.s);
    let p = (word("line"), word("col"));
    let h = hover(&l, A, p.0, p.1);
    match doc.refs.iter().find(|r| p >= r.start && p <= r.chain) {
        None => check(h.is_none(), "no hover outside names"),
        Some(r) => {
            check(h.is_some(), "hover on a name");
            let Some((i, t)) = h else { return };
            check(i.name == r.name && pt(i.start) == r.start && pt(i.end) == r.end, "hover names the object under the cursor");
            check(i.fields.len() <= r.fields.len() && i.fields.iter().zip(&r.fields).all(|(a, b)| a.0 == *b), "hover knows the fields");
            let known = i.fields.last().map_or(i.end, |f| f.1 .1);
            check(p <= pt(known), "hover knows the fields up to the cursor");
            let want = match r.kind {
                Kind::Filter => CompletionType::Filter,
                Kind::Test => CompletionType::Test,
                _ => CompletionType::Identifier,
            };
            check(t == want, "hover tells variables, filters and tests apart");
            if matches!(r.kind, Kind::Var) && !doc.defs.iter().any(|d| d.start == r.start) {
                let best = latest(&doc, |d| doc.sees(d, &r.name, r.start, r.end) && d.kind != T::TemplateBlock);
                let got = l.data_type(url(A), i);
                check(got.as_ref().map(type_of) == best.map(|d| type_of(&d.kind)), "hover tells what kind of variable it is");
                cover(if best.is_some() { "typed" } else { "untyped" });
            }
            cover("hover");
        }
    }
}

entry!(h_c06_goto, {
    let l = LspFiles::default();
    let k = choose("shape", SHAPES);
    let (x, y, z) = (letter("x"), letter("y"), letter("z"));
    c06(l, shape(k, &x, &y, &z));
});
// Every kind of statement and expression.
entry!(h_c06_any, {
    let l = LspFiles::default();
    c06(l, anything());
});
fn c06(mut l: LspFiles, doc: Doc) {
    open(&mut l, B, "{% set g = 1 %}\n{% for h in g %}{% endfor %}{% set g = 2 %}");
    let elsewhere: [(&str, P, P); 3] = [("g", (0, 7), (0, 8)), ("h", (1, 7), (1, 8)), ("g", (1, 35), (1, 36))];
    open(&mut l, A, &doc.s);
    note(&doc.s);
    let p = (word("line"), word("col"));
    let g = goto(&l, A, p.0, p.1);
    let r = doc.refs.iter().find(|r| p >= r.start && p <= r.chain);
    let Some(r) = r else {
        check(matches!(&g, None | Some(GotoDefinitionResponse::Array(_))) && locations(&g).is_empty(), "nothing to go to outside names");
        return;
    };
    if !matches!(r.kind, Kind::Var) {
        return;
    }
    if p > r.end && locations(&g).is_empty() {
        return; // going from a field to the definition of its object is not promised
    }
    let best = latest(&doc, |d| d.name == r.name && d.start <= p && d.scope_end.map_or(true, |e| p < e));
    match best {
        Some(b) => {
            check(matches!(&g, Some(GotoDefinitionResponse::Scalar(_))), "one definition");
            check(locations(&g) == vec![(A.to_string(), b.start, b.end)], "the closest preceding definition in scope");
            cover("own");
        }
        None => {
            let mut want: Vec<_> = elsewhere.iter().filter(|e| e.0 == r.name).map(|e| (B.to_string(), e.1, e.2)).collect();
            let mut got = locations(&g);
            want.sort();
            got.sort();
            if !want.is_empty() {
                cover("elsewhere");
            }
            check(got == want, "the definitions of the name in other documents");
        }
    }
}

// Where completion inside an expression offers variables.
entry!(h_c07_names, {
    let l = LspFiles::default();
    let x = if choose("x.long", 2) == 1 { format!("g{}", letter("x")) } else { "q".to_string() };
    c07(l, &x, ["q", "gv"][choose("y", 2)]);
});
// Both names are any.
entry!(h_c07_both, {
    let l = LspFiles::default();
    // names with a common beginning: `g` and a letter, or `q`
    let second = |n: &str| if choose(&format!("{n}.long"), 2) == 1 { format!("g{}", letter(n)) } else { "q".to_string() };
    c07(l, &second("x"), &second("y"));
});
// Inside of every kind of statement.
entry!(h_c07_any, {
    let l = LspFiles::default();
    let mut d = Doc::new();
    let mut hole = (0, 0);
    let x = format!("g{}", letter("x"));
    stmt(&mut d, choose("stmt", KINDS), &x, "q", |d| {
        d.t("\n{{ ");
        hole = d.pos();
        d.t(" }}");
    });
    d.set("gk");
    let typed = ["", "g", "gk"][choose("typed", 3)];
    offered(l, d, hole, typed);
});
const PLACES: [(&str, &str); 14] = [
    ("k ~ ", ""),
    ("k(", ")"),
    ("", " ~ k"),
    ("k | upper ~ ", ""),
    ("'s' ~ ", ""),
    ("\n  ", "\n"),
    ("-1 + ", " - 1"),
    ("k[", "]"),
    ("k is defined and ", " is defined"),
    ("(k + ", ") + k.l"),
    ("[k, ", ", k]"),
    ("k.l == ", " | upper"),
    ("k(1, k, ", ", 2)"),
    ("not ", " and not k"),
];
// At every place in an expression.
entry!(h_c07_place, {
    let l = LspFiles::default();
    let mut d = Doc::new();
    let x = format!("g{}", letter("x"));
    d.set(&x).set("q").set("k").t("\n{{ ");
    let (before, after) = PLACES[choose("place", PLACES.len())];
    d.t(before);
    let hole = d.pos();
    d.t(after).t(" }}").set("gk");
    let typed = ["", "g", "gk", "k"][choose("typed", 4)];
    offered(l, d, hole, typed);
});
fn c07(mut l: LspFiles, x: &str, y: &str) {
    let k = choose("shape", 6);
    l.is_vscode = x == "q" && choose("vscode", 2) == 1;
    let mut d = Doc::new();
    let hole;
    match k {
        0 => {
            d.set(x).t("\n").set(y).t("{{ ");
            hole = d.pos();
            d.t(" }}").set("gj");
        }
        1 => {
            d.t("{% for ").open().def(x, T::ForLoopKey, 0).t(", ").def(y, T::ForLoopValue, 0).t(" in n %}{{ ");
            hole = d.pos();
            d.t(" }}").close().t("{% endfor %}").set("gj");
        }
        2 => {
            d.for_(x, None, "n", |d| {
                d.t("a");
            })
            .set(y)
            .t("{{ ");
            hole = d.pos();
            d.t(" }}");
        }
        3 => {
            d.t("{% macro ").open().def(x, T::MacroName, 1).t("(").def(y, T::MacroParameter, 0).t(") %}").close().t("{% endmacro %}\n{{ ");
            hole = d.pos();
            d.t(" }}");
        }
        4 => {
            d.block(x, |d| {
                d.set(y).t(" ");
            })
            .t("{{ ");
            hole = d.pos();
            d.t(" }}");
        }
        _ => {
            d.t("{% with ").open().def(x, T::WithVariable, 0).t(" = 1 %}{% if n %}").open().set(y).t("{{ ");
            hole = d.pos();
            d.t(" }}").close().t("{% endif %}").close().t("{% endwith %}");
        }
    }
    let typed = match choose("typed", 4) {
        0 => String::new(),
        1 => "g".to_string(),
        2 => format!("g{}", letter("z")),
        _ => letter("z"),
    };
    offered(l, d, hole, &typed);
}
/// What completion offers when `typed` stands at `hole`.
fn offered(mut l: LspFiles, d: Doc, hole: P, typed: &str) {
    // type into the hole
    let at = offset(&d.s, hole);
    let text = format!("{}{}{}", &d.s[..at], typed, &d.s[at..]);
    open(&mut l, B, "{% set other = 1 %}");
    open(&mut l, "file:///tmp/vsr/s/m.rs", "fn f() { t.render(context! { back => 1 }); }");
    let o = open(&mut l, A, &text);
    note(&text);
    check(o.is_some(), "a well-formed document gets diagnostics");
    let col = word("col");
    assume(col <= typed.len() as u32 && (typed.is_empty() || col > 0));
    let p = (hole.0, hole.1 + col);
    let c = complete(&l, A, p.0, p.1);
    let col = split(col as u64) as usize;
    let prefix = &typed[..col];
    let items = match c {
        Some((CompletionType::Identifier, _)) => {
            check(prefix.is_empty(), "a typed prefix is used");
            l.read_variables(&url(A), Position::new(p.0, p.1), None, None)
        }
        Some((CompletionType::IncompleteIdentifier { name, range }, _)) => {
            check(name == prefix, "the prefix is what stands before the cursor");
            check(
                range == Range::new(Position::new(hole.0, hole.1), Position::new(hole.0, hole.1 + typed.len() as u32)),
                "the name under the cursor is replaced",
            );
            l.read_variables(&url(A), Position::new(p.0, p.1), Some((name, range)), None)
        }
        _ => {
            check(false, "names are offered inside an expression");
            None
        }
    };
    let items = items.unwrap_or_default();
    let mut want: Vec<(String, String)> = vec![];
    for def in &d.defs {
        let seen = def.kind != T::TemplateBlock && def.end <= hole && def.scope_end.map_or(true, |e| hole < e);
        if seen && def.name.starts_with(prefix) && !want.iter().any(|w| w.0 == def.name) {
            want.push((def.name.clone(), def.kind.completion_detail().to_string()));
        }
    }
    if !want.is_empty() {
        cover("offered");
    }
    want.push(("back".into(), "Backend variable".into()));
    let mut got: Vec<(String, String)> = items.iter().map(|i| (i.label.clone(), i.detail.clone().unwrap_or_default())).collect();
    want.sort();
    got.sort();
    check(got.iter().map(|g| &g.0).eq(want.iter().map(|w| &w.0)), "exactly the visible names with the prefix are offered");
    if got.len() == want.len() {
        check(got.iter().zip(&want).all(|(g, w)| g.1 == w.1 || dup(&d, &w.0)), "offered names tell what they are");
    }
    // the backend's variables come without an edit: the client inserts their label
    for i in items.iter().filter(|i| !prefix.is_empty() && i.label != "back") {
        let accepted = crate::c09::accept(i, &text);
        check(accepted == format!("{}{}{}", &d.s[..at], i.label, &d.s[at..]), "an accepted item becomes the name under the cursor");
    }
}
fn dup(d: &Doc, n: &str) -> bool {
    d.defs.iter().filter(|x| x.name == n).count() > 1
}
pub fn offset(s: &str, p: P) -> usize {
    let mut at = 0;
    for (i, l) in s.split('\n').enumerate() {
        if i as u32 == p.0 {
            return at + p.1 as usize;
        }
        at += l.len() + 1;
    }
    unreachable!()
}

entry!(h_c16_symbols, {
    let l = LspFiles::default();
    let k = choose("shape", SHAPES);
    let (x, y, z) = (letter("x"), letter("y"), letter("z"));
    c16(l, shape(k, &x, &y, &z));
});
// Every kind of statement, followed by or around any other.
entry!(h_c16_any, {
    let l = LspFiles::default();
    let (j, k) = (choose("outer", KINDS), choose("inner", KINDS));
    let (x, y) = (letter("x"), letter("y"));
    let mut d = Doc::new();
    stmt(&mut d, j, &x, "h", |d| {
        d.t("\n ");
        stmt(d, k, &y, "k", |_| {});
    });
    c16(l, d);
});
fn c16(mut l: LspFiles, doc: Doc) {
    open(&mut l, A, &doc.s);
    note(&doc.s);
    let s = symbols(&l, A);
    check(s.is_some(), "a well-formed document has symbols");
    let s = s.unwrap_or_default();
    check(s.len() == doc.defs.len(), "one symbol per definition");
    for d in &doc.defs {
        let kind = match d.kind {
            T::MacroName => SymbolKind::FUNCTION,
            T::MacroParameter => SymbolKind::FIELD,
            T::TemplateBlock => SymbolKind::MODULE,
            _ => SymbolKind::VARIABLE,
        };
        let r = Range::new(Position::new(d.start.0, d.start.1), Position::new(d.end.0, d.end.1));
        check(s.iter().filter(|s| s.name == d.name && s.kind == kind && s.range == r && s.selection_range == r).count() == 1, "symbols name what they stand on");
    }
    cover("symbols");
}
