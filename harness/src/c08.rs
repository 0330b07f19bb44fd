//! References to other templates: which are missing, where they lead, and what creates them.
use crate::{c03::letter, c14::*, doc::*, entry, rt::*, util::*};
use jinja_lsp::lsp_files::{JinjaCodeAction, LspFiles};
use jinja_lsp_queries::search::Identifier;
use jinja_lsp_queries::tree_builder::JinjaDiagnostic;
use std::collections::HashMap;
use tower_lsp::{lsp_types::*, LanguageServer};

pub const T: &str = "/tmp/vsr/t";
/// The templates that exist. No other file or directory does.
pub fn templates(l: &mut LspFiles) {
    l.config.templates = T.into();
    for f in ["g.html", "h.j2", "d/g.html", "d/e/k.html", "n/v.html", "g #%41?.html", "g'h.html", "g\"h.html"] {
        file(&format!("{T}/{f}"), "x");
    }
    file("/tmp/vsr/q.html", "x");
}
/// The uri of a file.
fn encoded(f: &str) -> String {
    format!("file://{}", f.replace('%', "%25").replace(' ', "%20").replace('#', "%23").replace('?', "%3F").replace('"', "%22"))
}
/// A template name and the file it stands for, if there is one.
pub fn name(n: &str) -> (String, Option<String>) {
    let x = letter(n);
    let at = |x: &str, hit: &str, f: &str| if x == hit { Some(format!("{T}/{f}")) } else { None };
    match choose(&format!("{n}.form"), 10) {
        0 => (format!("{x}.html"), at(&x, "g", "g.html")),
        1 => (format!("d/{x}.html"), at(&x, "g", "d/g.html")),
        2 => (format!("./d/./e/{x}.html"), at(&x, "k", "d/e/k.html")),
        3 => (format!("d/../{x}.j2"), at(&x, "h", "h.j2")),
        4 => (format!("{x}/v.html"), at(&x, "n", "n/v.html")),
        5 => (x, None),
        6 => (String::new(), None),
        7 => (format!("g.html/{x}"), None),
        8 => (format!("{x} #%41?.html"), at(&x, "g", "g #%41?.html")),
        _ => (format!("/{x}.html"), at(&x, "g", "g.html")),
    }
}
/// A statement that refers to a template.
fn refer(d: &mut Doc, k: usize, q: &str, n: &str) {
    match k {
        0 => d.t("{% extends ").tpl(q, n).t(" %}"),
        1 => d.t("{% include ").tpl(q, n).t(" %}"),
        2 => d.t("{%- include ").tpl(q, n).t(" without context -%}"),
        3 => d.t("{% import ").tpl(q, n).t(" as u %}"),
        4 => d.t("{% from ").tpl(q, n).t(" import u %}"),
        _ => d.t("{% from ").tpl(q, n).t(" import u, l %}"),
    };
}
const REFER: usize = 6;

pub fn missing(d: &Diags, t: &Tpl) -> usize {
    d.iter()
        .filter(|(k, i)| {
            *k == JinjaDiagnostic::TemplateNotFound
                && (i.start.row as u32, i.start.column as u32) == t.start
                && (i.end.row as u32, i.end.column as u32) == t.end
        })
        .count()
}
pub fn judge(d: &Diags, tpls: &[(Tpl, Option<String>)]) {
    let mut expected = 0;
    for (t, f) in tpls {
        let n = missing(d, t);
        if f.is_some() {
            check(n == 0, "a template that exists is not reported");
            cover("exists");
        } else {
            expected += 1;
            check(n == 1, "a missing template is reported once, at its name");
            cover("missing");
        }
    }
    check(d.iter().filter(|x| x.0 == JinjaDiagnostic::TemplateNotFound).count() == expected, "nothing else is reported as missing");
}

entry!(h_c08_refs, {
    let mut l = LspFiles::default();
    templates(&mut l);
    let (k1, k2) = (choose("first", REFER), choose("second", REFER + 1));
    let q = ["\"", "'"][choose("quote", 2)];
    let (x, fx) = name("x");
    let mut d = Doc::new();
    let mut files = vec![fx];
    if k2 == REFER {
        refer(&mut d, k1, q, &x);
        d.t("\n{# {% include 'z' %} #}").set("j");
    } else {
        d.t("é\n");
        refer(&mut d, k1, q, &x);
        let y = letter("y");
        refer(&mut d, k2, "\"", &format!("{y}.html"));
        files.push(if y == "g" { Some(format!("{T}/g.html")) } else { None });
    }
    let o = open(&mut l, A, &d.s);
    note(&d.s);
    check(o.is_some(), "a well-formed document gets diagnostics");
    judge(&o.unwrap_or_default(), &d.tpls.iter().cloned().zip(files).collect::<Vec<_>>());
});

fn target(f: &str) -> Vec<Loc> {
    vec![(encoded(f), (0, 0), (0, 0))]
}

entry!(h_c08_goto, {
    let mut l = LspFiles::default();
    templates(&mut l);
    let k = choose("kind", REFER);
    let (x, fx) = name("x");
    let mut d = Doc::new();
    d.t("ab\n");
    refer(&mut d, k, "\"", &x);
    refer(&mut d, 1, "'", "h.j2");
    open(&mut l, A, &d.s);
    note(&d.s);
    let p = (word("line"), word("col"));
    let g = locations(&goto(&l, A, p.0, p.1));
    let on = |t: &Tpl| p >= t.start && p <= t.end;
    if on(&d.tpls[1]) {
        check(g == target(&format!("{T}/h.j2")), "a name leads to its template");
    } else if on(&d.tpls[0]) {
        match fx {
            Some(f) => {
                cover("exists");
                check(g == target(&f), "a name leads to its template");
            }
            None => {
                cover("missing");
                check(g.is_empty(), "a missing template leads nowhere");
            }
        }
    } else {
        check(g.iter().all(|l| !l.0.starts_with("file:///tmp/vsr/t/") || l.0 == A), "no template outside its name");
    }
});

// The same for names in the backend's sources.
pub fn source(d: &mut Doc, k: usize, n: &str) -> &'static str {
    match k {
        0 => {
            d.t("fn f() {\n  let t = env.get_template(").tpl("\"", n).t(");\n}\n");
            "file:///tmp/vsr/s/m.rs"
        }
        1 => {
            d.t("fn f() { render_jinja(").tpl("\"", n).t(", context! { u => 1 }); other(\"z\"); }\n");
            "file:///tmp/vsr/s/m.rs"
        }
        2 => {
            d.t("# get_template('z')\nt = env.get_template(").tpl("'", n).t(")\nprint('z')\n");
            "file:///tmp/vsr/s/m.py"
        }
        3 => {
            d.t("def f():\n    return render_jinja(").tpl("\"", n).t(", u=1)\n");
            "file:///tmp/vsr/s/m.py"
        }
        _ => {
            let start = d.t("get_template(f\"{x}.html\")\nx.get_template(").pos();
            d.t("r").tpl("'", n);
            d.tpls.last_mut().unwrap().start = start;
            d.t(")\nx.get_templates('z')\n");
            "file:///tmp/vsr/s/m.py"
        }
    }
}

entry!(h_c08_backend, {
    let mut l = LspFiles::default();
    let mut py = LspFiles::default();
    py.parsers.update_backend("python");
    py.queries.update_backend("python");
    templates(&mut l);
    templates(&mut py);
    let k = choose("kind", 5);
    if k >= 2 {
        l = py;
    }
    let (mut x, mut fx) = name("x");
    if x == "g.html" && choose("quoted", 2) == 1 {
        // quotes that are not those around the name
        x = if k == 2 || k == 4 { "g\"h.html" } else { "g'h.html" }.into();
        fx = Some(format!("{T}/{x}"));
        cover("quotes");
    }
    let mut d = Doc::new();
    let uri = source(&mut d, k, &x);
    let o = open(&mut l, uri, &d.s);
    note(&d.s);
    check(o.is_some(), "a source gets diagnostics");
    let o = o.unwrap_or_default();
    judge(&o, &[(d.tpls[0].clone(), fx.clone())]);
    check(o.len() == fx.is_none() as usize, "only missing templates are reported");
    let p = (word("line"), word("col"));
    let g = locations(&goto(&l, uri, p.0, p.1));
    if p >= d.tpls[0].start && p <= d.tpls[0].end {
        match fx {
            Some(f) => check(g == target(&f), "a name leads to its template"),
            None => check(g.is_empty(), "a missing template leads nowhere"),
        }
    } else {
        check(g.is_empty(), "nothing to go to outside names");
    }
});

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().build().unwrap()
}
pub fn actions(l: &LspFiles, uri: &str, p: P) -> Option<JinjaCodeAction> {
    l.code_action(CodeActionParams {
        text_document: TextDocumentIdentifier::new(url(uri)),
        range: Range::new(Position::new(p.0, p.1), Position::new(p.0, p.1)),
        context: Default::default(),
        work_done_progress_params: wd(),
        partial_result_params: Default::default(),
    })
}

// On a missing template there is an action that creates it where it was looked for.
entry!(h_c08_create, {
    let mut l = LspFiles::default();
    let rt = runtime();
    let _g = rt.enter();
    templates(&mut l);
    let backend = choose("backend", 2) == 1;
    let (x, fx) = name("x");
    assume(!x.is_empty() && !x.starts_with("g.html/"));
    let mut d = Doc::new();
    let uri = if backend {
        source(&mut d, 0, &x)
    } else {
        d.t("ab ").use_("g").t("\n");
        refer(&mut d, 1, "\"", &x);
        d.t("\ncd");
        A
    };
    let o = open(&mut l, uri, &d.s).unwrap_or_default();
    note(&d.s);
    let not_found: Vec<Identifier> = o.into_iter().filter(|x| x.0 == JinjaDiagnostic::TemplateNotFound).map(|x| x.1).collect();
    l.add_code_actions(HashMap::from([(uri.to_string(), not_found)]));
    let p = (word("line"), word("col"));
    let a = actions(&l, uri, p);
    let on = p >= d.tpls[0].start && p <= d.tpls[0].end;
    match a {
        Some(JinjaCodeAction::CreateTemplate(n)) => {
            check(on && fx.is_none(), "only a missing template is created");
            cover("create");
            let param = DidSaveTextDocumentParams { text_document: TextDocumentIdentifier::new(url(uri)), text: None };
            let c = l.process_code_actions(JinjaCodeAction::CreateTemplate(n), param).unwrap_or_default();
            let mut created = vec![];
            for c in &c {
                if let CodeActionOrCommand::CodeAction(c) = c {
                    if let Some(DocumentChanges::Operations(ops)) = c.edit.as_ref().and_then(|e| e.document_changes.as_ref()) {
                        for o in ops {
                            if let DocumentChangeOperation::Op(ResourceOp::Create(f)) = o {
                                created.push(f.uri.to_string());
                                check(f.options.as_ref().is_some_and(|o| o.overwrite != Some(true)), "an existing file is never overwritten");
                            }
                        }
                    }
                }
            }
            let want = url(&encoded(&format!("{T}/{}", x.trim_start_matches('/')))).to_string();
            check(created == vec![want], "the file is created where the template was looked for");
        }
        Some(JinjaCodeAction::Reset) => {
            check(!on, "a missing template can be created");
            cover("reset");
        }
        None => check(!(on && fx.is_none()), "a missing template can be created"),
    }
});

// Once it is created the template is no longer missing.
entry!(h_c08_created, {
    dir(T);
    run(async {
        let s = session().await;
        let (k, x) = (choose("kind", REFER), ["n", "d/n"][choose("where", 2)]);
        let mut d = Doc::new();
        d.t("ab\n");
        refer(&mut d, k, "\"", &format!("{x}.html"));
        s.server().did_open(opening(A, &d.s)).await;
        note(&d.s);
        let at = d.tpls[0].start;
        let ask = || {
            s.server().code_action(CodeActionParams {
                text_document: TextDocumentIdentifier::new(url(A)),
                range: Range::new(Position::new(at.0, at.1), Position::new(at.0, at.1)),
                context: Default::default(),
                work_done_progress_params: wd(),
                partial_result_params: Default::default(),
            })
        };
        let missing = || {
            let all = s.published(A).unwrap_or_default();
            all.iter().filter(|d| d.message == "Template not found").count()
        };
        pause(1000).await;
        check(missing() == 1, "a missing template is reported once, at its name");
        check(answer(ask()).await.is_some(), "a missing template can be created");
        cover("offered");
        if choose("accept", 2) == 1 {
            // as the editor does it
            file(&format!("{T}/{x}.html"), "");
            pause(5000).await;
            cover("created");
            check(missing() == 0, "a template that was created is no longer reported");
        } else {
            pause(5000).await;
            check(missing() == 1, "a missing template is reported once, at its name");
        }
    });
});
