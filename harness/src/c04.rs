//! Classification, severity, message and range of variable diagnostics across documents.
use crate::{c03::letter, doc::*, entry, rt::*, util::*};
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::lsp_helper::create_diagnostic;
use jinja_lsp_queries::search::IdentifierType as T;
use tower_lsp::lsp_types::{DiagnosticSeverity, Position, Range};

/// What a reader of the published diagnostics sees.
pub fn published(d: &Diags) -> Vec<(Range, DiagnosticSeverity, String)> {
    d.iter()
        .map(|(k, i)| {
            let x = create_diagnostic(i, k.severity(), k.to_string());
            (x.range, x.severity.unwrap(), x.message)
        })
        .collect()
}
fn rng(r: &Ref) -> Range {
    Range::new(Position::new(r.start.0, r.start.1), Position::new(r.end.0, r.end.1))
}

fn judge(a: &Doc, others: &[&str], d: &Diags) {
    let p = published(d);
    let mut expected = 0;
    for r in &a.refs {
        if r.kind != Kind::Var || a.visible(r) {
            check(!p.iter().any(|x| x.0 == rng(r)), "defined use is not flagged");
            continue;
        }
        expected += 1;
        let elsewhere = !a.defines(&r.name) && others.iter().any(|o| *o == r.name);
        let want = if elsewhere {
            cover("elsewhere");
            (rng(r), DiagnosticSeverity::INFORMATION, "Variable is defined in other file.")
        } else {
            cover("nowhere");
            (rng(r), DiagnosticSeverity::WARNING, "Undefined variable")
        };
        check(p.iter().filter(|x| x.0 == want.0 && x.1 == want.1 && x.2 == want.2).count() == 1, "classified by where the name is defined");
    }
    check(p.len() == expected, "one diagnostic per undefined use");
}

entry!(h_c04_templates, {
    let mut l = LspFiles::default();
    let (x, y, z) = (letter("x"), letter("y"), letter("z"));
    let mut b = Doc::new();
    match choose("other", 8) {
        0 => b.set(&x),
        1 => b.macro_(&x, "h", |d| {
            d.t("a");
        }),
        2 => b.block(&x, |d| {
            d.t("a");
        }),
        3 => b.for_(&x, Some("j"), "q", |_| {}),
        4 => b.with(&x, "q", |_| {}),
        // the name of a template is not a variable
        5 => b.t("{% include ").tpl("'", &x).t(" %}"),
        6 => b.t("{% filter ").t(&x).t(" %}{% endfilter %}"),
        _ => b.use_(&x),
    };
    open(&mut l, B, &b.s);
    let others: Vec<&str> = b.defs.iter().filter(|d| d.kind != T::TemplateBlock).map(|d| d.name.as_str()).collect();
    let mut a = Doc::new();
    a.t(["", "text\n", "  "][choose("lead", 3)]);
    match choose("own", 5) {
        0 => a.set(&y),
        1 => a.for_(&y, None, "q", |d| {
            d.use_(&z);
        }),
        2 => a.block(&y, |d| {
            d.use_(&z);
        }),
        3 => a.expr(|d| {
            d.r(&y).field("k").t(" ~\n  ").r(&z).t(" | ").filter("x");
        }),
        _ => a.t("{{ ").r(&z).t("\n}}").set(&y),
    };
    a.t("\n").use_(&z);
    let d = open(&mut l, A, &a.s);
    note(&b.s);
    note(&a.s);
    check(d.is_some(), "a well-formed document gets diagnostics");
    judge(&a, &others, &d.unwrap_or_default());
});

// Names from the backend and from a third document; documents opened later are seen by a later save.
entry!(h_c04_backend, {
    let mut l = LspFiles::default();
    let z = letter("z");
    let late = choose("late", 2) == 1;
    let mut a = Doc::new();
    a.use_("g").use_(&z);
    let rs = "fn f() { t.render(context! { x => 1, g => 2 }); jinja.add_global(\"k\", 3); env.get_template(\"n\"); }";
    if late {
        open(&mut l, A, &a.s);
    }
    open(&mut l, "file:///tmp/vsr/s/m.rs", rs);
    open(&mut l, B, "{% set q = 1 %}");
    let d = if late { save(&mut l, A) } else { open(&mut l, A, &a.s) };
    note(&a.s);
    judge(&a, &["x", "g", "k", "q"], &d.unwrap_or_default());
});
