//! Documents do not disturb each other, and saving or opening again changes nothing.
use crate::{c01::*, c03::letter, c05, c11::SLOPPY, entry, rt::*, util::*};
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::tree_builder::JinjaDiagnostic;
use tower_lsp::lsp_types::*;

/// Diagnostics, without telling names that other documents define from names that nothing defines.
fn blurred(d: Option<Diags>) -> Vec<String> {
    let mut d: Vec<String> = d
        .unwrap_or_default()
        .iter()
        .map(|(k, i)| {
            let missing = *k == JinjaDiagnostic::TemplateNotFound;
            format!("{missing} {:?} {:?} {}", i.start, i.end, i.name)
        })
        .collect();
    d.sort();
    d
}
fn answers(l: &LspFiles, uri: &str, p: (u32, u32)) -> Vec<String> {
    let own: Vec<Loc> = locations(&goto(l, uri, p.0, p.1)).into_iter().filter(|g| g.0 == uri).collect();
    vec![format!("{:?}", complete(l, uri, p.0, p.1)), format!("{:?}", hover(l, uri, p.0, p.1)), format!("{own:?}")]
}

/// What happens to another document; symbolic in full, or only in part.
fn other(l: &mut LspFiles, full: bool) -> &'static str {
    let b = ["{% set h = 1 %}{{ g }}", "{% for g in h %}{{ g }}", "", "{% macro x(g) %}{% endmacro %}é"][choose("b", if full { 4 } else { 2 })];
    let uri = [B, "file:///tmp/vsr/t/a.html", "file:///tmp/vsr/t/a.jinja.j2", "file:///tmp/vsr/s/a.rs"][choose("uri", if full { 4 } else { 2 })];
    open(l, uri, b);
    if choose("change", 2) == 1 {
        let p = if full { pos("p") } else { Position::new(0, 0) };
        assume(p == position(b, resolve(b, p)));
        change(l, uri, vec![(Some(Range::new(p, p)), ["{% ", "{{ k }}"][choose("with", if full { 1 } else { 2 })].into())]);
    }
    match choose("then", if full { 2 } else { 3 }) {
        0 => {}
        1 => {
            save(l, uri);
        }
        _ => {
            open(l, uri, "{{ y }}");
        }
    }
    uri
}
fn undisturbed(l: &mut LspFiles, m: &mut LspFiles, full: bool) {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let _g = rt.enter();
    let y = letter("y");
    let a = format!("{{% set g = 1 %}}\n{{% for h in x %}}{{{{ {y}.k | h }}}}{{% endfor %}}{{% include 'z' %}}");
    let first = choose("first", 2) == 1;
    if first {
        open(l, A, &a);
    }
    let uri = other(l, full);
    let before = view(l, uri);
    if !first {
        open(l, A, &a);
    }
    let d = save(l, A);
    check(view(l, uri) == before, "other documents do not change what a document holds");
    open(m, A, &a);
    let e = save(m, A);
    note(&a);
    check(view(l, A) == view(m, A), "other documents do not change what a document holds");
    check(blurred(d) == blurred(e), "other documents do not change where diagnostics are");
    if !full {
        let p = (word("line"), word("col"));
        check(answers(l, A, p) == answers(m, A, p), "other documents do not change what is at a position");
    }
    cover("compared");
}

entry!(h_c12_other, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    undisturbed(&mut l, &mut m, true);
});
entry!(h_c12_position, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    undisturbed(&mut l, &mut m, false);
});

fn again(l: &mut LspFiles, m: &mut LspFiles, full: bool) {
    let (x, y, z) = if full { (letter("x"), letter("y"), letter("z")) } else { ("g".into(), letter("y"), "h".into()) };
    let k = choose("text", c05::SHAPES + SLOPPY.len());
    let text = if k < c05::SHAPES { c05::shape(k, &x, &y, &z).s } else { SLOPPY[k - c05::SHAPES].to_string() };
    open(l, B, "{% set g = 1 %}");
    open(m, B, "{% set g = 1 %}");
    let d = open(m, A, &text);
    // the same document after some detours
    match choose("before", 3) {
        0 => {}
        1 => {
            open(l, A, "{% set h = 1 %}{% for k in h %}\n{{ k }}{% endfor %}");
        }
        _ => {
            open(l, A, "{% if");
        }
    }
    let mut e = open(l, A, &text);
    for i in 0..if full { 2 } else { 1 } {
        match choose(&format!("then{i}"), 3) {
            0 => {}
            1 => e = save(l, A),
            _ => e = open(l, A, &text),
        }
    }
    note(&text);
    check(view(l, A) == view(m, A), "saving or opening again changes nothing in a document");
    check(sorted(Some(d.unwrap_or_default())) == sorted(Some(e.unwrap_or_default())), "saving or opening again reports the same");
    if !full {
        let p = (word("line"), word("col"));
        check(answers(l, A, p) == answers(m, A, p), "saving or opening again changes no answer");
    }
    cover("compared");
}
entry!(h_c13_again, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    again(&mut l, &mut m, true);
});
entry!(h_c13_position, {
    let mut l = LspFiles::default();
    let mut m = LspFiles::default();
    again(&mut l, &mut m, false);
});
