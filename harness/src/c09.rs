//! Completion of template names.
use crate::{c08::T, doc::*, entry, rt::*, util::*};
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::search::objects::CompletionType;
use tower_lsp::lsp_types::*;

const KNOWN: [&str; 6] = ["g.html", "h.j2", "d/g.html", "d/e/gk.jinja", "p q/g.html", "a.jinja"];

fn workspace(l: &mut LspFiles) {
    l.config.templates = T.into();
    for f in &KNOWN[..5] {
        file(&format!("{T}/{f}"), "x");
        open(l, &format!("file://{T}/{}", f.replace(' ', "%20")), "x");
    }
    file("/tmp/vsr/tg/g.html", "x");
    open(l, "file:///tmp/vsr/tg/g.html", "x");
}
/// What is typed between the quotes.
fn typed() -> String {
    let any = |n: &str| bytes(n, 1, |b| b.is_ascii_lowercase())[0] as char;
    match choose("typed", 6) {
        0 => String::new(),
        1 => format!("{}", any("x")),
        2 => format!("d/{}", any("x")),
        3 => format!("{}{}", any("x"), any("y")),
        4 => format!("{}.j2", any("x")),
        _ => format!("d/e/{}k.jinja", any("x")),
    }
}
/// The edits of an accepted item, applied.
pub fn accept(i: &CompletionItem, text: &str) -> String {
    let at = |p: Position| crate::c05::offset(text, (p.line, p.character));
    let mut edits = vec![];
    match &i.text_edit {
        Some(CompletionTextEdit::Edit(e)) => edits.push((at(e.range.start), at(e.range.end), &e.new_text)),
        Some(CompletionTextEdit::InsertAndReplace(e)) => {
            check(e.insert == e.replace, "inserting and replacing are the same");
            edits.push((at(e.replace.start), at(e.replace.end), &e.new_text));
        }
        None => {}
    }
    for e in i.additional_text_edits.iter().flatten() {
        edits.push((at(e.range.start), at(e.range.end), &e.new_text));
    }
    edits.retain(|e| e.0 != e.1 || !e.2.is_empty());
    edits.sort();
    let mut s = text.to_string();
    for e in edits.iter().rev() {
        s.replace_range(e.0..e.1, e.2);
    }
    s
}
/// `d` holds one template name: its completion at `col` bytes after the opening quote.
fn judge(l: &LspFiles, uri: &str, d: &Doc, typed: &str) {
    let n = &d.tpls[0];
    let col = word("col");
    assume(col <= typed.len() as u32);
    let p = (n.start.0, n.start.1 + 1 + col);
    let c = complete(l, uri, p.0, p.1);
    let col = split(col as u64) as usize;
    let prefix = &typed[..col];
    let whole = Range::new(Position::new(n.start.0, n.start.1), Position::new(n.end.0, n.end.1));
    let Some((CompletionType::IncludedTemplate { name, range }, _)) = c else {
        return check(false, "templates are offered inside a template name");
    };
    check(name == prefix, "what stands before the cursor selects the templates");
    check(range == whole, "the whole name is replaced");
    let items = l.read_templates(name, range, Position::new(p.0, p.1), None).unwrap_or_default();
    let mut want: Vec<String> = KNOWN.iter().filter(|f| (uri == A || **f != "a.jinja") && f.contains(prefix)).map(|f| f.to_string()).collect();
    let mut got: Vec<String> = items.iter().map(|i| i.label.clone()).collect();
    want.sort();
    got.sort();
    check(got == want, "exactly the templates of the workspace that hold the typed text are offered");
    if !got.is_empty() {
        cover("offered");
    }
    let (a, b) = (crate::c05::offset(&d.s, n.start), crate::c05::offset(&d.s, n.end));
    for i in &items {
        check(accept(i, &d.s) == format!("{}\"{}\"{}", &d.s[..a], i.label, &d.s[b..]), "an accepted item becomes the name");
    }
}

entry!(h_c09_names, {
    let mut l = LspFiles::default();
    workspace(&mut l);
    l.is_vscode = choose("vscode", 2) == 1;
    let x = typed();
    let q = ["\"", "'"][choose("quote", 2)];
    let mut d = Doc::new();
    if choose("before", 2) == 1 {
        d.t("{% set g = 1 %}\n{% include 'h.j2' %} ab\n");
        d.tpls.clear();
    }
    match choose("kind", 5) {
        0 => d.t("{% extends ").tpl(q, &x).t(" %}"),
        1 => d.t("{% include ").tpl(q, &x).t(" %}"),
        2 => d.t("{%- include ").tpl(q, &x).t(" ignore missing -%}"),
        3 => d.t("{% import ").tpl(q, &x).t(" as u %}"),
        _ => d.t("{% from ").tpl(q, &x).t(" import u %}"),
    };
    d.t("{{ g }}\n");
    open(&mut l, A, &d.s);
    note(&d.s);
    judge(&l, A, &d, &x);
});

entry!(h_c09_backend, {
    let mut l = LspFiles::default();
    let mut py = LspFiles::default();
    py.parsers.update_backend("python");
    py.queries.update_backend("python");
    workspace(&mut l);
    workspace(&mut py);
    let k = choose("kind", 4);
    if k >= 2 {
        l = py;
    }
    l.is_vscode = choose("vscode", 2) == 1;
    let x = typed();
    let mut d = Doc::new();
    let uri = crate::c08::source(&mut d, k, &x);
    open(&mut l, uri, &d.s);
    note(&d.s);
    judge(&l, uri, &d, &x);
});

// Outside of names of templates no templates are offered.
entry!(h_c09_outside, {
    let mut l = LspFiles::default();
    workspace(&mut l);
    let mut d = Doc::new();
    match choose("kind", 4) {
        0 => d.t("ab\n{% extends ").tpl("'", "g").t(" %}\n{% block u %} {% endblock %}"),
        1 => d.t("{% include ").tpl("\"", "g").t(" %}{{ x | default('ab') }}"),
        2 => d.t("{% from ").tpl("\"", "g").t(" import u %} {% set x = \"g\" %}"),
        _ => d.t("{# {% include 'q' %} #}{% import ").tpl("\"", "g").t(" as u %} 'ab'"),
    };
    open(&mut l, A, &d.s);
    note(&d.s);
    let p = (word("line"), word("col"));
    let n = &d.tpls[0];
    let c = complete(&l, A, p.0, p.1);
    if matches!(c, Some((CompletionType::IncludedTemplate { .. }, _))) {
        check(p >= n.start && p <= n.end, "templates are offered only at a template name");
        cover("inside");
    } else {
        check(!(p > n.start && p < n.end), "templates are offered inside a template name");
        cover("outside");
    }
});
