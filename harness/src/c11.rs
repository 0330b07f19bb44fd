//! Nothing a client sends makes the server panic, and answers stay inside the document.
use crate::{c01::change, c08::T, entry, rt::*, util::*};
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::search::objects::CompletionType;
use jinja_lsp_queries::tree_builder::JinjaDiagnostic;
use std::collections::HashMap;
use tower_lsp::lsp_types::*;

/// Every request, at one position.
pub fn everything(l: &mut LspFiles, uri: &str, p: (u32, u32), text: &str) {
    let lines = text.split('\n').count() as u32;
    let inside = |r: &Range| r.start <= r.end && r.end.line < lines;
    if let Some((c, _)) = complete(l, uri, p.0, p.1) {
        let at = Position::new(p.0, p.1);
        match c {
            CompletionType::Identifier => {
                l.read_variables(&url(uri), at, None, None);
            }
            CompletionType::IncompleteIdentifier { name, range } => {
                check(inside(&range), "what completion replaces is in the document");
                l.read_variables(&url(uri), at, Some((name, range)), None);
            }
            CompletionType::IncludedTemplate { name, range } => {
                check(inside(&range), "what completion replaces is in the document");
                l.read_templates(name, range, at, None);
            }
            _ => {}
        }
        cover("completion");
    }
    if let Some((i, _)) = hover(l, uri, p.0, p.1) {
        check((i.end.row as u32) < lines, "hover describes something in the document");
        l.data_type(url(uri), i);
        cover("hover");
    }
    for g in locations(&goto(l, uri, p.0, p.1)) {
        check(g.0 != uri || g.2 .0 < lines, "goto leads into the document");
    }
    crate::c08::actions(l, uri, p);
}
/// Every request without a position.
fn reports(l: &mut LspFiles, uri: &str, text: &str, d: Option<Diags>) {
    let lines = text.split('\n').count();
    let d = d.unwrap_or_default();
    for (_, i) in &d {
        check(i.start <= i.end && i.end.row < lines, "diagnostics are in the document");
    }
    let missing = d.into_iter().filter(|x| x.0 == JinjaDiagnostic::TemplateNotFound).map(|x| x.1).collect();
    l.add_code_actions(HashMap::from([(uri.to_string(), missing)]));
    for s in symbols(l, uri).unwrap_or_default() {
        check(s.range.start <= s.range.end && (s.range.end.line as usize) < lines, "symbols are in the document");
    }
    l.read_objects(url(uri));
}
fn setup(l: &mut LspFiles) {
    l.config.templates = T.into();
    file(&format!("{T}/g.html"), "x");
    open(l, B, "{% set g = 1 %}{% block h %}{% endblock %}");
}

// A few arbitrary ASCII characters in different places.
fn text(l: &mut LspFiles, n: usize) {
    setup(l);
    let pre = ["", "{{ ", "{% ", "{% set ", "{{ g", "{% include "][choose("before", 6)];
    let post = ["", " }}", " %}", "\n{{ g }}"][choose("after", 4)];
    let any = bytes("b", n, |b| b < 128);
    let text = format!("{pre}{}{post}", String::from_utf8(any).unwrap_or_default());
    let d = open(l, A, &text);
    note(&text);
    reports(l, A, &text, d);
    let col = word("col");
    everything(l, A, (0, col), &text);
    cover("text");
}
entry!(h_c11_text, {
    let mut l = LspFiles::default();
    text(&mut l, 1);
});
entry!(h_c11_text2, {
    let mut l = LspFiles::default();
    text(&mut l, 2);
});

pub const SLOPPY: [&str; 24] = [
    "",
    "\n\n",
    "{{",
    "{%",
    "{{ g.",
    "{{ g | ",
    "{{ g is ",
    "{% for g in",
    "{% for g, %}{{ g }}",
    "{% endfor %}{% endif %}{% else %}{% elif %}",
    "{% set %}{% set = %}{% set g, = 1 %}",
    "{% macro %}{% macro g( %}{% endmacro %}{% endmacro %}",
    "{% include %}{% include \"\" %}{% include \" %}",
    "{% from \"g\" import %}{% import as %}{% extends %}",
    "{% block %}{% block 1 %}{% endblock %}",
    "{% with g %}{% with = %}{{ g",
    "\"{{ 'a\nb\n' }}\"",
    "{{ \"a\nbc\" | g(1, }}",
    "{# {{ #}{{ #} }}",
    "{{ g.h\n.k }}é😀{{ k }}é",
    "{% raw %}{{ g }}{% endraw %}",
    "{{ [1, {'a': g}](x)[0].b.c() ~ -1 ** not h }}",
    "}} %} #} {{ }} {% %} {# #}",
    "\r\n{{ g\r\n}}\r{% if %}\r\n",
];

// Finished and unfinished texts, every position.
entry!(h_c11_positions, {
    let mut l = LspFiles::default();
    setup(&mut l);
    let text = SLOPPY[choose("text", SLOPPY.len())];
    let d = open(&mut l, A, text);
    note(text);
    reports(&mut l, A, text, d);
    let p = (word("line"), word("col"));
    everything(&mut l, A, p, text);
});

// Any edit, also one whose range is reversed or outside, of documents that are open, unknown or of no known kind.
entry!(h_c11_edits, {
    let mut l = LspFiles::default();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let _g = rt.enter();
    setup(&mut l);
    let text = SLOPPY[choose("text", SLOPPY.len())];
    let uri = [A, "file:///tmp/vsr/t/z.jinja", "file:///tmp/vsr/s/m.rs", "untitled:x", "file:///tmp/vsr/a.txt"][choose("uri", 5)];
    if uri != "file:///tmp/vsr/t/z.jinja" {
        open(&mut l, uri, text);
    }
    assume(uri == A || text.len() < 4);
    let p = Position::new(word("l1"), word("c1"));
    let q = Position::new(word("l2"), word("c2"));
    let n = text.split('\n').count() as u32;
    assume(p.line <= n && q.line <= n && p.character < 9 && q.character < 9);
    let with = ["", "{{ é\n"][choose("with", 2)];
    change(&mut l, uri, vec![(Some(Range::new(p, q)), with.into())]);
    save(&mut l, uri);
    everything(&mut l, uri, (p.line, p.character), &format!("{text}{with}"));
    cover("edited");
});

// Sources of the backend.
const SOURCES: [&str; 10] = [
    "",
    "fn",
    "get_template(\"",
    "get_template(\"\")",
    "fn f() { get_template(\"g.html\", \"h\"); x.render_jinja(\n\"h\") }",
    "context!{",
    "context!{ g => context!{ h } }} jinja.add_global(\"\")",
    "t.render(g=1",
    "render_template('h', g=1, **k)\njinja_env.globals['']",
    "x = '''\n' é get_template('é",
];
entry!(h_c11_backend, {
    let mut l = LspFiles::default();
    let mut py = LspFiles::default();
    py.parsers.update_backend("python");
    py.queries.update_backend("python");
    let python = choose("python", 2) == 1;
    if python {
        l = py;
    }
    let uri = if python { "file:///tmp/vsr/s/m.py" } else { "file:///tmp/vsr/s/m.rs" };
    setup(&mut l);
    let text = SOURCES[choose("text", SOURCES.len())];
    let d = open(&mut l, uri, text);
    note(text);
    reports(&mut l, uri, text, d);
    l.read_python_ids(url(uri));
    let p = (word("line"), word("col"));
    everything(&mut l, uri, p, text);
    everything(&mut l, A, p, "");
});
