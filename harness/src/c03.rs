//! Undefined-variable diagnostics: exactly the uses that see no definition.
use crate::{any::*, doc::*, entry, rt::*, util::*};
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::tree_builder::JinjaDiagnostic;

/// A name of one symbolic letter that starts no keyword.
pub fn letter(n: &str) -> String {
    let b = byte(n);
    assume(b >= b'g' && b <= b'z' && !matches!(b, b'i' | b'm' | b'o' | b'p' | b'r' | b's' | b't' | b'w'));
    String::from_utf8(vec![b]).unwrap()
}

fn undefined(d: &Diags, r: &Ref) -> usize {
    d.iter()
        .filter(|(k, i)| {
            *k == JinjaDiagnostic::Undefined
                && (i.start.row as u32, i.start.column as u32) == r.start
                && (i.end.row as u32, i.end.column as u32) == r.end
                && i.name == r.name
        })
        .count()
}

/// Every use is flagged once if it sees no definition, and not at all otherwise; nothing else is flagged.
pub fn judge(doc: &Doc, d: &Diags) {
    let mut expected = 0;
    for r in &doc.refs {
        let want = r.kind == Kind::Var && !doc.visible(r);
        expected += want as usize;
        let n = undefined(d, r);
        if want {
            check(n == 1, "undefined use is flagged once");
        } else {
            check(n == 0, "defined use is not flagged");
        }
    }
    let n = d.iter().filter(|(k, _)| *k != JinjaDiagnostic::TemplateNotFound).count();
    check(n == expected, "nothing but undefined uses is flagged");
}

pub fn run(l: &mut LspFiles, doc: &Doc) {
    let d = open(l, A, &doc.s);
    check(d.is_some(), "a well-formed document gets diagnostics");
    note(&doc.s);
    if let Some(d) = d {
        judge(doc, &d);
        cover("judged");
        if !d.is_empty() {
            cover("flagged");
        }
    }
}

entry!(h_c03_nest, {
    let mut l = LspFiles::default();
    let (k1, k2) = (choose("outer", 13), choose("inner", 13));
    let (x, y, z) = (letter("x"), letter("y"), letter("z"));
    let mut d = Doc::new();
    stmt(&mut d, k1, &x, "h", |d| {
        stmt(d, k2, &y, "k", |d| {
            d.use_(&z);
        });
        d.use_(&z);
    });
    d.use_(&z);
    run(&mut l, &d);
});

entry!(h_c03_expr, {
    let mut l = LspFiles::default();
    let k = choose("form", FORMS);
    let wrap = choose("wrap", 4);
    let (x, y) = (letter("x"), letter("y"));
    let z = letter("z");
    let mut d = Doc::new();
    d.set(&z).t("\n");
    match wrap {
        0 => {
            d.expr(|d| form(d, k, &x, &y));
        }
        1 => {
            d.t("{{");
            form(&mut d, k, &x, &y);
            d.t("}}");
        }
        2 => {
            d.t("{% if ");
            form(&mut d, k, &x, &y);
            d.t(" %}{% endif %}");
        }
        _ => {
            d.t("{% set ").def("j", jinja_lsp_queries::search::IdentifierType::SetVariable, 0).t(" = ");
            form(&mut d, k, &x, &y);
            d.t(" %}");
        }
    }
    d.use_(&y);
    run(&mut l, &d);
});

// Statements with several targets, and statements whose words are no variables.
entry!(h_c03_targets, {
    let mut l = LspFiles::default();
    let k = 13 + choose("kind", KINDS - 13);
    let (x, y, z) = (letter("x"), letter("y"), letter("z"));
    let mut d = Doc::new();
    stmt(&mut d, k, &x, &y, |d| {
        d.use_(&z);
    });
    d.t("\n").use_(&z).use_(&y);
    run(&mut l, &d);
});

// Names of two free letters: the spelling of a name does not matter, unless it is a word of the language.
entry!(h_c03_words, {
    let mut l = LspFiles::default();
    let x = bytes("x", 2, |b| b.is_ascii_lowercase() || b == b'_');
    let y = bytes("y", 2, |b| b.is_ascii_alphanumeric() || b == b'_');
    let (x, y) = (String::from_utf8(x).unwrap(), String::from_utf8(y).unwrap());
    assume(!y.as_bytes()[0].is_ascii_digit());
    for w in ["do", "if", "in", "is", "or", "as"] {
        assume(x != w && y != w);
    }
    let mut d = Doc::new();
    d.set(&x).use_(&y);
    run(&mut l, &d);
});

// Three statements in a row, before and after uses.
entry!(h_c03_order, {
    let mut l = LspFiles::default();
    let (x, y, z) = (letter("x"), letter("y"), letter("z"));
    let mut d = Doc::new();
    for i in 0..3 {
        let n = [&x, &y, &z][i];
        match choose(["s0", "s1", "s2"][i], 6) {
            0 => d.set(n),
            1 => d.use_(n),
            2 => d.for_(n, None, &x, |d| {
                d.use_(&z);
            }),
            3 => d.macro_(&y, n, |d| {
                d.use_(&x);
            }),
            4 => d.if_(n, |d| {
                d.set(&z);
            }),
            _ => d.t("\n"),
        };
    }
    d.use_(&x).use_(&z);
    run(&mut l, &d);
});

// Names that a template imports. (Known finding: the server does not define them.)
entry!(h_c03_imported, {
    let mut l = LspFiles::default();
    let (x, y) = (letter("x"), letter("y"));
    let (import, names) = match choose("import", 4) {
        0 => (format!("{{% import 'f' as {x} %}}"), vec![&x]),
        1 => (format!("{{% from 'f' import {x} %}}"), vec![&x]),
        2 => (format!("{{% from 'f' import k as {x} %}}"), vec![&x]),
        _ => (format!("{{% from 'f' import k1, {x} with context %}}"), vec![&x]),
    };
    let text = format!("{import}\n{{{{ {y}.k1() }}}}");
    let d = open(&mut l, A, &text).unwrap_or_default();
    note(&text);
    let flagged = d.iter().filter(|(k, i)| *k == JinjaDiagnostic::Undefined && i.start.row == 1 && i.name == y).count();
    if names.contains(&&y) {
        cover("imported");
        check(flagged == 0, "an imported name is not flagged");
    } else {
        check(flagged == 1, "a name that is not imported is flagged once");
        cover("other");
    }
});
