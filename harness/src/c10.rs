//! What the backend's sources hand to templates.
use crate::{c03::letter, doc::*, entry, rt::*, util::*};
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::search::{objects::CompletionType, IdentifierType as T};
use jinja_lsp_queries::tree_builder::JinjaDiagnostic;
use tower_lsp::lsp_types::*;

const RS: &str = "file:///tmp/vsr/s/m.rs";
const PY: &str = "file:///tmp/vsr/s/m.py";

/// A source and the names it hands over (as `refs`, with their positions).
fn rust(k: usize, x: &str, y: &str, z: &str) -> Doc {
    let mut d = Doc::new();
    match k {
        0 => d.t("fn f() {\n  let t = env.get_template(\"h.html\");\n  t.render(context! { ").r(x).t(" => 1, ").r(y).t(" => ").t("\"").raw2(z).t("\" });\n}\n"),
        1 => d.t("fn f() { let m = context!(").r(x).t(", ").r(y).t("); other(").raw2(z).t("); }\n"),
        2 => d.t("fn f() {\n  jinja.add_function(").s(x).t(", w);\n  jinja.add_global(").s(y).t(", 1);\n  jinja.other(\"").raw2(z).t("\");\n}\n"),
        3 => d.t("fn f() { println!(\"{}\", ").raw2(x).t("); render(minijinja::context! { ").r(y).t(" => &[").raw2(z).t("] }); }\n"),
        4 => d.t("fn f() {\n  jinja.add_filters(\"").raw2(z).t("\", g);\n  env.add_global(\"").raw2(z).t("\", 1);\n  jinja.add_global(").s(x).t(", \"").raw2(z).t("\");\n  my_context! { ").raw2(z).t(" => 1 };\n  context! { ").r(y).t(" };\n}\n"),
        _ => d.t("// context! { w => 1 }\nfn f(").raw2(x).t(": u8) { jinja.add_filter(").s(y).t(", g1); }\nfn ").raw2(z).t("() {}\n"),
    };
    d
}
fn python(k: usize, x: &str, y: &str, z: &str) -> Doc {
    let mut d = Doc::new();
    match k {
        0 => d.t("t = env.get_template('h.html')\nprint(t.render(").r(x).t("=1, ").r(y).t("=c(").raw2(z).t(")))\n"),
        1 => d.t("def f():\n    return render_template('h.html', ").r(x).t("=1, **kw)\nother(").raw2(z).t("=2)\n").t("app.render_template(").r(y).t("='w')\n"),
        2 => d.t("jinja_env.globals['").r(x).t("'] = 1\njinja_env.filters[\"").r(y).t("\"] = f\nother.globals['").raw2(z).t("'] = 1\n"),
        3 => d.t("env.get_template('h.html').render(").r(x).t("=1)\nself.t.render_template(").r(y).t("=2)\nprerender(").raw2(z).t("=1)\nt.render_all(").raw2(z).t("=2)\nt.renders.x(").raw2(z).t("=3)\n"),
        _ => d.t("# render(w=1)\n").raw2(x).t(" = 1\nrender(").r(y).t("=").raw2(z).t(")\n"),
    };
    d
}
impl Doc {
    fn raw2(&mut self, n: &str) -> &mut Self {
        self.raw(n);
        self
    }
    /// a name in a string: known at the position of the string
    fn s(&mut self, n: &str) -> &mut Self {
        let start = self.pos();
        self.t("\"").r(n).t("\"");
        let end = self.pos();
        let r = self.refs.last_mut().unwrap();
        (r.start, r.end) = (start, end);
        self
    }
}

fn judge(l: &mut LspFiles, uri: &str, b: &Doc) {
    let u = letter("u");
    let mut a = Doc::new();
    a.t("ab ").use_(&u).t("{{ ");
    let hole = a.pos();
    a.t(" }}");
    let late = choose("late", 2) == 1;
    if late {
        open(l, A, &a.s);
    }
    open(l, uri, &b.s);
    let d = if late { save(l, A) } else { open(l, A, &a.s) };
    note(&b.s);
    check(d.is_some(), "a well-formed document gets diagnostics");
    let d = d.unwrap_or_default();
    let hits: Vec<&Ref> = b.refs.iter().filter(|r| r.name == u).collect();
    let want = if hits.is_empty() { JinjaDiagnostic::Undefined } else { JinjaDiagnostic::DefinedSomewhere };
    check(d.len() == 1 && d[0].0 == want, "a variable is known if a source hands it over");
    let at = a.refs[0].start;
    let mut want: Vec<Loc> = hits.iter().map(|r| (uri.to_string(), r.start, r.end)).collect();
    let mut got = locations(&goto(l, A, at.0, at.1));
    want.sort();
    got.sort();
    check(got == want, "a variable leads to where it is handed over");
    let h = hover(l, A, at.0, at.1);
    check(h.as_ref().is_some_and(|h| h.1 == CompletionType::Identifier && h.0.name == u), "a use is hovered");
    if let Some((i, _)) = h {
        let t = l.data_type(url(A), i);
        check(t == if hits.is_empty() { None } else { Some(T::BackendVariable) }, "hover knows a backend variable");
    }
    cover(if hits.is_empty() { "unknown" } else { "known" });
    let c = complete(l, A, hole.0, hole.1);
    check(matches!(c, Some((CompletionType::Identifier, _))), "names are offered inside an expression");
    let items = l.read_variables(&url(A), Position::new(hole.0, hole.1), None, None).unwrap_or_default();
    for r in &b.refs {
        check(items.iter().any(|i| i.label == r.name && i.kind == Some(CompletionItemKind::VARIABLE)), "what is handed over is offered");
    }
    check(items.iter().all(|i| b.refs.iter().any(|r| r.name == i.label)), "nothing else is offered");
}

entry!(h_c10_rust, {
    let mut l = LspFiles::default();
    let k = choose("source", 6);
    let (x, y, z) = (letter("x"), letter("y"), letter("z"));
    let b = rust(k, &x, &y, &z);
    judge(&mut l, RS, &b);
});

entry!(h_c10_python, {
    let mut l = LspFiles::default();
    l.parsers.update_backend("python");
    l.queries.update_backend("python");
    let k = choose("source", 5);
    let (x, y, z) = (letter("x"), letter("y"), letter("z"));
    let b = python(k, &x, &y, &z);
    judge(&mut l, PY, &b);
});
